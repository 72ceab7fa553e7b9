package checks

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"

	"kfverif/gen"
	"kfverif/mon"
	"kfverif/sut"
)

//go:noinline
func compileAt(s string) (at uintptr, out string) {
	t := strings.Clone(s)
	return uintptr(unsafe.Pointer(unsafe.StringData(t))), outcome(sut.Compile(t))
}

// sameMemory: a text that happens to lie where an earlier one was, which
// nobody holds any more, is a text of its own.
func sameMemory(c *mon.C) {
	rounds := 60
	if c.Thorough() {
		rounds = 2000
	}
	for k := 0; k < rounds && !c.Full(); k++ {
		g := gen.New(c.CaseSeed(3000000 + c.Shard*10000 + k))
		_, a := hostileText(g, k)
		if k%3 == 0 {
			a = g.Text(g.Prog(gen.Full))
		}
		b := a
		for i := 0; i < 40 && (len(b) != len(a) || b == a); i++ {
			b = g.Near(a)
		}
		if b == a || len(a) < 40 {
			continue
		}
		// of the same length in bytes
		for len(b) < len(a) {
			b += " "
		}
		if len(b) != len(a) {
			continue
		}
		want := outcome(sut.Compile(strings.Clone(b) + ""))
		for try := 0; try < 3; try++ {
			at, _ := compileAt(a)
			runtime.GC()
			var held []string
			for i := 0; i < 4000; i++ {
				t := strings.Clone(b)
				if uintptr(unsafe.Pointer(unsafe.StringData(t))) == at {
					c.Count("texts compiled where another one was", 1)
					c.Eval("memory" + t)
					if got := outcome(sut.Compile(t)); got != want {
						c.Fail("memory", fmt.Sprintf("a text that lies where another one of the same length was gives %s, elsewhere %s", mon.Clip(got, 400), mon.Clip(want, 400)), a+"\n-----\n"+b, nil)
					}
					try = 3
					break
				}
				held = append(held, t)
			}
			runtime.KeepAlive(held)
		}
	}
}
