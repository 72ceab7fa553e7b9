package checks

import (
	"fmt"
	"reflect"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
	"kfverif/sut"
)

// ---- C33: declarations compile independently of each other

// closure is the program of some declarations and of all they refer to.
func closure(p *kf.Prog, ext, tab, act map[string]bool, init bool) *kf.Prog {
	for more := true; more; {
		more = false
		need := func(m map[string]bool, n string) {
			if !m[n] {
				m[n], more = true, true
			}
		}
		for _, t := range p.Tabs {
			if tab[t.Name] {
				for _, f := range t.FKs {
					need(tab, f.Parent)
				}
			}
		}
		body := func(a *kf.Act) {
			for _, s := range a.Stmts {
				switch {
				case s.IsSQL():
				case s.Ext != "":
					need(ext, s.Ext)
				case s.Fn == "init":
					init = true
				default:
					need(act, s.Fn)
				}
			}
		}
		for i := range p.Acts {
			if act[p.Acts[i].Name] {
				body(&p.Acts[i])
			}
		}
		was := init
		if init && p.Init != nil {
			body(p.Init)
		}
		more = more || init != was
	}
	q := gen.Clone(p)
	q.Exts, q.Tabs, q.Acts = nil, nil, nil
	for _, e := range p.Exts {
		if ext[e.Alias] {
			q.Exts = append(q.Exts, e)
		}
	}
	for _, t := range p.Tabs {
		if tab[t.Name] {
			q.Tabs = append(q.Tabs, t)
		}
	}
	for _, a := range p.Acts {
		if act[a.Name] {
			q.Acts = append(q.Acts, a)
		}
	}
	if !init {
		q.Init, q.Inits = nil, 0
	}
	return q
}

// parts gives the compiled parts of a schema by kind and name.
func parts(o *sut.Out) map[string]any {
	m := map[string]any{}
	t := sut.Observed(o.Tree)
	for sec, key := range map[string]string{"tables": "name", "actions": "name", "extensions": "alias"} {
		l, _ := t[sec].([]any)
		for _, x := range l {
			if x, ok := x.(map[string]any); ok {
				m[fmt.Sprint(sec, " ", x[key])] = x
			}
		}
	}
	return m
}

// merge declares the things of q among those of p.
func merge(p, q *kf.Prog, g *gen.G) *kf.Prog {
	r := gen.Clone(p)
	for _, e := range q.Exts {
		i := g.R.Intn(len(r.Exts) + 1)
		r.Exts = append(r.Exts[:i:i], append([]kf.Ext{e}, r.Exts[i:]...)...)
	}
	for _, t := range q.Tabs {
		i := g.R.Intn(len(r.Tabs) + 1)
		r.Tabs = append(r.Tabs[:i:i], append([]kf.Tab{t}, r.Tabs[i:]...)...)
	}
	for _, a := range q.Acts {
		i := g.R.Intn(len(r.Acts) + 1)
		r.Acts = append(r.Acts[:i:i], append([]kf.Act{a}, r.Acts[i:]...)...)
	}
	return r
}

// disjoint gives the declared things of q names that p has not.
func disjoint(p, q *kf.Prog, g *gen.G) *kf.Prog {
	kinds := g.R.Intn(2) == 0 // things of different kinds may have one name
	sets := map[string]map[string]bool{}
	set := func(kind string) map[string]bool {
		if !kinds {
			kind = ""
		}
		if sets[kind] == nil {
			sets[kind] = map[string]bool{"init": true}
		}
		return sets[kind]
	}
	var theirs []string
	add := func(kind, n string) {
		set(kind)[n] = true
		theirs = append(theirs, n)
	}
	for _, e := range p.Exts {
		add("e", e.Alias)
	}
	for _, t := range p.Tabs {
		add("t", t.Name)
	}
	for _, a := range p.Acts {
		add("a", a.Name)
	}
	q = gen.Clone(q)
	q.Init, q.Inits = nil, 0
	own := map[string]string{}
	name := func(kind, s string) string {
		n, ok := own[kind+s]
		if !ok {
			used := set(kind)
			n = s
			if kinds && len(theirs) > 0 && g.R.Intn(3) > 0 {
				n = theirs[g.R.Intn(len(theirs))]
			}
			for used[n] || kf.Reserved(n) {
				n = []string{s + "_", s + "2", "x" + s, g.Name(map[string]bool{})}[g.R.Intn(4)]
				s = n
			}
			used[n] = true
			own[kind+s] = n
		}
		return n
	}
	m := map[string]string{}
	for i := range q.Exts {
		e := &q.Exts[i]
		old := e.Alias
		e.Alias = name("e", old)
		m["e"+old] = e.Alias
	}
	for i := range q.Tabs {
		old := q.Tabs[i].Name
		q.Tabs[i].Name = name("t", old)
		m["t"+old] = q.Tabs[i].Name
	}
	for i := range q.Acts {
		old := q.Acts[i].Name
		q.Acts[i].Name = name("a", old)
		m["a"+old] = q.Acts[i].Name
	}
	for i := range q.Tabs {
		for k := range q.Tabs[i].FKs {
			f := &q.Tabs[i].FKs[k]
			f.Parent = m["t"+f.Parent]
		}
	}
	for i := range q.Acts {
		for k := range q.Acts[i].Stmts {
			switch s := &q.Acts[i].Stmts[k]; {
			case s.IsSQL():
			case s.Ext != "":
				s.Ext = m["e"+s.Ext]
			case s.Fn != "init":
				s.Fn = m["a"+s.Fn]
			default:
				s.Fn = q.Acts[i].Name
			}
		}
	}
	return q
}

func judgeCompose(src string) string {
	p, e := kf.Parse(src)
	if e != nil {
		return ""
	}
	v := kf.Validate(p)
	if len(v.Unspecified) > 0 || !v.OK() && v.Single() == "" {
		return ""
	}
	whole := sut.Compile(src)
	g := gen.New(seedOf(src))
	if v.OK() && whole.OK() && p.Inits < 2 {
		// some of the declarations, and what they refer to
		have := parts(whole)
		for k := 0; k < 4; k++ {
			ext, tab, act := map[string]bool{}, map[string]bool{}, map[string]bool{}
			one := g.R.Intn(2) == 0 // or many
			n := len(p.Exts) + len(p.Tabs) + len(p.Acts) + 1
			pick := g.R.Intn(n)
			for i, e := range p.Exts {
				ext[e.Alias] = one && i == pick || !one && g.R.Intn(3) > 0
			}
			for i, t := range p.Tabs {
				tab[t.Name] = one && i+len(p.Exts) == pick || !one && g.R.Intn(3) > 0
			}
			for i, a := range p.Acts {
				act[a.Name] = one && i+len(p.Exts)+len(p.Tabs) == pick || !one && g.R.Intn(3) > 0
			}
			q := closure(p, ext, tab, act, one && pick == n-1 || !one && g.R.Intn(2) == 0)
			if !kf.Validate(q).OK() {
				continue
			}
			text := g.Text(q)
			o := sut.Compile(text)
			if !o.OK() {
				return fmt.Sprintf("accepted, but not without declarations that nothing left refers to: %s; left: %q", mon.Clip(o.Failure(), 300), mon.Clip(text, 1500))
			}
			few := parts(o)
			for k, x := range few {
				if y, ok := have[k]; !ok || !reflect.DeepEqual(x, y) {
					return fmt.Sprintf("without other declarations, %s differs: %s; left: %q", k, sut.Diff("", y, x), mon.Clip(text, 1500))
				}
			}
			if want := len(q.Exts) + len(q.Tabs) + len(q.Acts) + q.Inits; len(few) != want {
				return fmt.Sprintf("%d declarations compile to %d; left: %q", want, len(few), mon.Clip(text, 1500))
			}
		}
	}
	// among the declarations of other programs
	for k := 0; k < 2; k++ {
		o := gen.Full
		if k == 1 {
			o.MaxTabs, o.MaxActs, o.MaxExts = 20, 20, 12
		}
		other := g.Prog(o)
		if g.R.Intn(3) == 0 { // of the same things under other names
			other = gen.Clone(p)
		}
		if !kf.Validate(other).OK() {
			other = g.Prog(gen.Full)
		}
		other = disjoint(p, other, g)
		if v := kf.Validate(other); !v.OK() || len(v.Unspecified) > 0 {
			continue
		}
		r := merge(p, other, g)
		if w := kf.Validate(r); len(w.Unspecified) > 0 || w.OK() != v.OK() || w.Single() != v.Single() {
			continue
		}
		text := g.Text(r)
		both := sut.Compile(text)
		if a, b := verdict(whole), verdict(both); a != b {
			return fmt.Sprintf("%s, but with the declarations of another program added %s (%s / %s); together: %q", a, b, mon.Clip(whole.Failure(), 200), mon.Clip(both.Failure(), 200), mon.Clip(text, 1500))
		}
		if !v.OK() || !both.OK() {
			continue
		}
		alone := sut.Compile(g.Text(other))
		if !alone.OK() {
			return fmt.Sprintf("a program is accepted only among others: %q", mon.Clip(text, 1500))
		}
		all := parts(both)
		for _, l := range []map[string]any{parts(whole), parts(alone)} {
			for k, x := range l {
				if y, ok := all[k]; !ok || !reflect.DeepEqual(x, y) {
					return fmt.Sprintf("with other declarations added, %s differs: %s; together: %q", k, sut.Diff("", x, y), mon.Clip(text, 1500))
				}
				delete(all, k)
			}
		}
		for k := range all {
			return fmt.Sprintf("with other declarations added, there is also %s; together: %q", k, mon.Clip(text, 1500))
		}
	}
	return ""
}

func init() {
	reg(&mon.Check{ID: "C33", Rule: "valid and faulty programs: some of their declarations with all they refer to are compiled alone, and the programs with the declarations of up to twenty others under other names put among theirs: " +
		"same verdict and kind of error, every declaration compiles to the same. Distinct by text.",
		Quick: 3000, Thorough: 400000, Judge: judgeCompose, OnceShard: relateSweep("C33"), Case: textCase(func(g *gen.G, i int) (string, string) {
			o := gen.Full
			if i%6 > 2 {
				o.MaxExts, o.MinActs, o.MinTabs = 6, 2, 2
			}
			if i%5 == 1 {
				o.MaxCols, o.MinTabs = 9, 2
			}
			if i%4 == 0 {
				if q := g.Inject(g.Prog(o), gen.Classes[g.R.Intn(len(gen.Classes))]); q != nil {
					return "faulty", g.Text(q)
				}
			}
			return "valid", g.Text(g.Prog(o))
		}, nil), Floors: map[string]int64{"text: valid": 1500, "text: faulty": 500}})
}
