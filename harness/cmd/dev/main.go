// dev compares the reference front end with the compiler on many inputs.
package main

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/utils"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/sut"
)

func main() {
	if os.Args[1] == "words" { // for gen/words.txt
		fmt.Print(gen.Words())
		return
	}
	n, _ := strconv.Atoi(os.Args[1])
	seed, _ := strconv.Atoi(os.Args[2])
	stat := map[string]int{}
	shown := map[string]int{}
	show := func(kind, src, msg string) {
		stat["BAD "+kind]++
		if shown[kind]++; shown[kind] <= 3 {
			fmt.Printf("== %s: %s\n%q\n", kind, msg, src)
		}
	}
	var worst time.Duration
	for i := 0; i < n; i++ {
		g := gen.New(int64(seed)*1000003 + int64(i))
		p := g.Prog(gen.Full)
		var src, what string
		switch i % 4 {
		case 0:
			src, what = g.Text(p), "valid"
			q, e := kf.Parse(src)
			if e != nil {
				show("ref rejects generated", src, fmt.Sprint(*e))
				continue
			}
			if d := sut.Diff("", sut.Expected(p), sut.Expected(q)); d != "" {
				show("ref parse differs", src, d)
			}
		case 1:
			class := gen.Classes[g.R.Intn(len(gen.Classes))]
			q := g.Inject(p, class)
			if q == nil {
				stat["no inject "+class]++
				continue
			}
			stat["inject "+class]++
			src, what = g.Text(q), "fault"
		case 2:
			src, what = g.JoinToks(g.MutateToks(g.Tokens(p))), "tokmut"
		default:
			src, what = g.MutateText(g.Text(p)), "textmut"
		}
		t0 := time.Now()
		lst := utils.NewErrorListener()
		o := sut.CompileWith(src, lst, kfparser.Default)
		if d := time.Since(t0); d > worst {
			worst = d
			if d > 300*time.Millisecond {
				fmt.Println("slow", d, len(src))
			}
		}
		if s := sut.Internal(o.Err, src); s != "" || o.Panic != nil {
			show("internal "+what, src, fmt.Sprint(s, o.Panic))
		}
		q, e := kf.Parse(src)
		if e != nil {
			stat[what+" syntax"]++
			if o.OK() {
				show("accepted syntax error "+what, src, fmt.Sprint(*e))
				continue
			}
			m, ok := sut.ErrPos(lst)
			if !ok {
				show("no position "+what, src, o.Failure())
			} else if m != (sut.Pos{Line: e.Line, Col: e.Col}) {
				show("position "+what, src, fmt.Sprint("want ", *e, " got ", lst.ErrorList))
			}
			continue
		}
		v := kf.Validate(q)
		switch {
		case v.Bad():
			stat[what+" bad"]++
			if o.OK() {
				show("accepted "+v.Faults[0], src, fmt.Sprint(v.Faults, v.Where, v.Unspecified))
			} else if s := v.Single(); s != "" {
				if w := sut.Which(o.Err); len(w) != 1 || w[0] != s {
					if s != kf.BadSQL && s != kf.BadFn || len(w) > 0 {
						show("sentinel "+s, src, fmt.Sprint(w, o.Failure()))
					}
				}
			}
		case v.OK():
			stat[what+" ok"]++
			if !o.OK() {
				show("rejected valid "+what, src, o.Failure())
			} else if d := sut.Diff("", sut.Expected(q), sut.Observed(o.Tree)); d != "" {
				show("wrong "+what, src, d)
			}
		default:
			stat[what+" unspecified"]++
		}
	}
	fmt.Println(stat, worst)
}
