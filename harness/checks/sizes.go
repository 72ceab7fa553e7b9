package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"kfverif/gen"
	"kfverif/mon"
	"kfverif/sut"
)

// Sizes at which buffers end: a text or an artifact of exactly so many bytes.

// sized gives programs of which the text, or the artifact, has exactly n
// bytes, in several ways of being filled up.
func sized(n int) (l []string) {
	fill := func(text bool, f string) {
		at := func(k int) string { return strings.Replace(f, "%", strings.Repeat("x", k), 1) }
		k := n - len(at(0))
		if !text {
			o := sut.Compile(at(1))
			if !o.OK() {
				panic("HARNESS: " + f)
			}
			k = n - len(o.JSON) + 1
		}
		if k > 0 {
			l = append(l, at(k))
		}
	}
	for _, f := range []string{"database d; action a() { select 'é%'; }", "database d%;", "database d; table t { a int, b%y text }"} {
		fill(false, f)
		fill(true, f)
	}
	fill(true, "database d; table t { a int } // %")
	fill(true, "/* % */ database d; table t { a int }")
	fill(true, "database d; table t { a int } action % 1")
	l = append(l, fmt.Sprintf("database d; table t { a int }%*s", max(n-29, 0), ""))
	return
}

func exactSizes(c *mon.C) (l []int) {
	for _, n := range []int{256, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 65536, 131072} {
		for d := -1; d <= 1; d++ {
			l = append(l, n+d)
		}
	}
	for k := 3; k < 16; k++ {
		l = append(l, k*4096, k*512)
	}
	for _, x := range gen.FreshInts() {
		for d := -1; d <= 1; d++ {
			l = append(l, x+d, 2*x+d, 3*x)
		}
	}
	if c.Thorough() {
		for n := 100; n < 5000; n++ {
			l = append(l, n)
		}
		l = append(l, 1<<20, 1<<20+1, 1<<21)
	}
	seen := map[int]bool{}
	m := l[:0]
	for _, n := range l {
		if n > 40 && n < 3<<20 && !seen[n] {
			seen[n] = true
			m = append(m, n)
		}
	}
	return m
}

// sizeSweep judges them by the check's own judge.
func sizeSweep(c *mon.C) {
	for i, n := range exactSizes(c) {
		if i%c.Shards != c.Shard || c.Full() {
			continue
		}
		for k, s := range sized(n) {
			c.Judged(s)
			c.Count("texts or artifacts of an exact size", 1)
			c.Eval(fmt.Sprint("size ", n, k))
		}
	}
}

// cliSizes has the command compile them, over an earlier artifact or not.
func cliSizes(c *mon.C) {
	b := newBox(c)
	defer b.remove()
	c.Begin("artifacts of an exact size")
	defer c.End()
	for i, n := range exactSizes(c) {
		if i%c.Shards != c.Shard || c.Full() {
			continue
		}
		l := sized(n)
		for k, s := range l {
			if k != 0 && (k+n)%3 != 0 && !c.Thorough() {
				continue
			}
			in, out := fmt.Sprintf("in%d.kf", k), fmt.Sprintf("out/in%d.json", k)
			b.write(in, s)
			o := sut.Compile(s)
			want, before := 5, b.tree()[out]
			if o.OK() {
				want = 0
			}
			r := b.cli(c, in, "-o", "out")
			got, err := os.ReadFile(filepath.Join(b.dir, out))
			switch {
			case r.code != want:
				c.Fail("exit code", fmt.Sprintf("a text of %d bytes with an artifact of %d: exit code %d, should be %d: %s", len(s), len(o.JSON), r.code, want, mon.Clip(r.out, 300)), s, nil)
			case o.OK() && (err != nil || string(got) != string(o.JSON)):
				c.Fail("files", fmt.Sprintf("a text of %d bytes with an artifact of %d: the file has %d bytes and differs", len(s), len(o.JSON), len(got)), s, nil)
			case !o.OK() && b.tree()[out] != before:
				c.Fail("files", fmt.Sprintf("an invalid text of %d bytes changes the artifact", len(s)), s, nil)
			}
			c.Count("texts or artifacts of an exact size", 1)
			c.Eval(fmt.Sprint("size ", n, k))
		}
	}
}
