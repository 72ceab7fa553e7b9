package gen

import (
	"strings"

	"kfverif/kf"
)

// Echo adds near-copies: declarations that equal an existing one in most of
// what they say and differ in one detail. Anything that is remembered under a
// key that leaves the detail out is bound to confuse the two.
func (g *G) Echo(p *kf.Prog, o Opt) {
	for i, n := 0, g.between(1, 3); i < n; i++ {
		g.echo(p, o)
	}
}

func (g *G) values(l []kf.KV, attr func(kf.KV) string) []kf.KV {
	l = append([]kf.KV(nil), l...)
	switch k := g.n(5); {
	case len(l) == 0:
	case k == 0 && len(l) > 1: // another order
		g.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	case k == 1: // one less
		l = l[:len(l)-1]
	case k == 2: // one other value
		i := g.n(len(l))
		l[i].V = attr(l[i])
	case k == 3 && len(l) > 1: // values exchanged
		l[0].V, l[len(l)-1].V = l[len(l)-1].V, l[0].V
	default: // every value
		for i := range l {
			l[i].V = attr(l[i])
		}
	}
	return l
}

func (g *G) lit(kf.KV) string { return g.Lit() }

func (g *G) twist(l []string) {
	if len(l) > 1 {
		if g.p(50) {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		} else {
			g.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		}
	}
}

func (g *G) echo(p *kf.Prog, o Opt) {
	used := map[string]bool{}
	switch g.n(13) {
	case 9, 10, 11, 12:
		g.graft(p, o)
	case 0: // extension
		if len(p.Exts) == 0 || o.MaxExts == 0 {
			return
		}
		for _, e := range p.Exts {
			used[e.Alias] = true
		}
		e := p.Exts[g.n(len(p.Exts))]
		e.Alias = g.Name(used)
		e.Conf = g.values(e.Conf, g.lit)
		if g.p(15) {
			e.Name = g.Name(nil)
		}
		at := g.n(len(p.Exts) + 1)
		p.Exts = append(p.Exts[:at], append([]kf.Ext{e}, p.Exts[at:]...)...)
	case 1: // table
		if len(p.Tabs) == 0 {
			return
		}
		for _, t := range p.Tabs {
			used[t.Name] = true
		}
		t := cloneTab(p.Tabs[g.n(len(p.Tabs))])
		t.Name = g.Name(used)
		switch g.n(4) {
		case 0:
			g.R.Shuffle(len(t.Cols), func(i, j int) { t.Cols[i], t.Cols[j] = t.Cols[j], t.Cols[i] })
		case 1:
			c := &t.Cols[g.n(len(t.Cols))]
			c.Attrs = g.attrValues(*c)
		case 2:
			for i := range t.Idxs {
				if g.p(50) {
					g.twist(t.Idxs[i].Cols)
				} else {
					t.Idxs[i].Type = g.pick("btree", "unique_btree", "primary")
				}
			}
			for i := range t.FKs {
				g.fkActions(&t.FKs[i])
			}
		case 3:
			c := &t.Cols[g.n(len(t.Cols))]
			c.Attrs = nil
			c.Type = g.pick("int", "text", "blob")
		}
		at := g.n(len(p.Tabs) + 1)
		p.Tabs = append(p.Tabs[:at], append([]kf.Tab{t}, p.Tabs[at:]...)...)
	case 2: // column
		if len(p.Tabs) == 0 || !o.Attrs {
			return
		}
		t := &p.Tabs[g.n(len(p.Tabs))]
		for _, c := range t.Cols {
			used[c.Name] = true
		}
		for _, x := range t.Idxs {
			used[x.Name] = true
		}
		c := t.Cols[g.n(len(t.Cols))]
		c.Name = g.Name(used)
		c.Attrs = g.attrValues(c)
		at := g.n(len(t.Cols) + 1)
		t.Cols = append(t.Cols[:at], append([]kf.Col{c}, t.Cols[at:]...)...)
	case 3: // index
		if len(p.Tabs) == 0 || !o.Idx {
			return
		}
		t := &p.Tabs[g.n(len(p.Tabs))]
		if len(t.Idxs) == 0 {
			return
		}
		for _, c := range t.Cols {
			used[c.Name] = true
		}
		for _, x := range t.Idxs {
			used[x.Name] = true
		}
		x := t.Idxs[g.n(len(t.Idxs))]
		x.Name = g.SigilName(used)
		x.Cols = append([]string(nil), x.Cols...)
		switch g.n(3) {
		case 0:
			x.Type = g.pick("btree", "unique_btree", "primary")
		case 1:
			g.twist(x.Cols)
		default:
			if len(x.Cols) > 1 {
				x.Cols = x.Cols[:len(x.Cols)-1]
			}
		}
		t.Idxs = append(t.Idxs, x)
		t.Order += "i"
	case 4: // foreign key
		if len(p.Tabs) == 0 || !o.FK {
			return
		}
		t := &p.Tabs[g.n(len(p.Tabs))]
		if len(t.FKs) == 0 {
			return
		}
		f := cloneTab(kf.Tab{FKs: []kf.FK{t.FKs[g.n(len(t.FKs))]}}).FKs[0]
		if g.p(70) {
			g.fkActions(&f)
		} else {
			g.twist(f.Keys)
		}
		t.FKs = append(t.FKs, f)
		t.Order += "f"
	case 5: // action
		if len(p.Acts) == 0 {
			return
		}
		for _, a := range p.Acts {
			used[a.Name] = true
		}
		a := cloneAct(p.Acts[g.n(len(p.Acts))])
		a.Name = g.Name(used)
		g.actDetail(&a, o)
		at := g.n(len(p.Acts) + 1)
		p.Acts = append(p.Acts[:at], append([]kf.Act{a}, p.Acts[at:]...)...)
	case 6: // annotation
		a := g.anyAct(p)
		if a == nil || len(a.Annots) == 0 {
			return
		}
		x := a.Annots[g.n(len(a.Annots))]
		x.Attrs = g.values(x.Attrs, g.lit)
		if len(x.Attrs) == 0 {
			return
		}
		a.Annots = append(a.Annots, x)
	default: // statement: a copy, or a copy with one other token, somewhere after it
		a := g.anyAct(p)
		if a == nil || len(a.Stmts) == 0 {
			return
		}
		i := g.n(len(a.Stmts))
		s := a.Stmts[i]
		s.Args = append([]kf.Tok(nil), s.Args...)
		s.Recv = append([]string(nil), s.Recv...)
		switch g.n(4) {
		case 0:
			for i := range s.Args {
				if s.Args[i].K == kf.NUM {
					s.Args[i].T = g.Number()
				} else if s.Args[i].K == kf.STR {
					s.Args[i].T = g.Str()
				}
			}
		case 1:
			if s.Ext != "" {
				s.Fn = g.Name(nil)
			} else if !s.IsSQL() && len(p.Acts) > 0 {
				s.Fn = p.Acts[g.n(len(p.Acts))].Name
			}
		case 2:
			g.twist(s.Recv)
		}
		at := i + 1 + g.n(len(a.Stmts)-i)
		a.Stmts = append(a.Stmts[:at], append([]kf.Stmt{s}, a.Stmts[at:]...)...)
	}
}

func (g *G) attrValues(c kf.Col) []kf.KV {
	l := append([]kf.KV(nil), c.Attrs...)
	for i := range l {
		if l[i].V != "" && g.p(60) {
			l[i].V = g.Attr(l[i].K, c.Type).V
		}
	}
	if g.p(30) {
		g.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	if len(l) > 0 && g.p(20) {
		l = l[1:]
	}
	return l
}

func (g *G) fkActions(f *kf.FK) {
	if len(f.Actions) == 0 {
		f.Actions = []kf.FKAct{{On: g.pick("UPDATE", "DELETE"), Do: g.pick("NO ACTION", "CASCADE", "SET NULL", "SET DEFAULT", "RESTRICT")}}
		return
	}
	x := &f.Actions[g.n(len(f.Actions))]
	if g.p(30) && len(f.Actions) == 1 {
		x.On = map[string]string{"UPDATE": "DELETE", "DELETE": "UPDATE"}[strings.ToUpper(x.On)]
		return
	}
	x.Do = g.pick("NO ACTION", "CASCADE", "SET NULL", "SET DEFAULT", "RESTRICT")
}

func (g *G) actDetail(a *kf.Act, o Opt) {
	switch g.n(5) {
	case 0:
		g.twist(a.Params)
	case 1:
		if o.Mods {
			a.Mods = g.mods()
		}
	case 2:
		for i := range a.Annots {
			if l := g.values(a.Annots[i].Attrs, g.lit); len(l) > 0 {
				a.Annots[i].Attrs = l
			}
		}
	case 3:
		if len(a.Stmts) > 1 && g.p(50) {
			a.Stmts = a.Stmts[:len(a.Stmts)-1]
		} else if len(a.Stmts) > 1 {
			a.Stmts[0], a.Stmts[1] = a.Stmts[1], a.Stmts[0]
		}
	}
}

// graft gives one declaration a part of another one, under its own name, with
// something about it changed.
func (g *G) graft(p *kf.Prog, o Opt) {
	used := map[string]bool{}
	two := func(n int) (int, int) { // next to each other, often
		i := g.n(n)
		if g.p(50) {
			return i, (i + 1) % n
		}
		return i, g.n(n)
	}
	switch g.n(5) {
	case 0, 1: // index
		if len(p.Tabs) < 2 || !o.Idx {
			return
		}
		i, k := two(len(p.Tabs))
		a, b := &p.Tabs[i], &p.Tabs[k]
		if len(a.Idxs) == 0 || i == k {
			return
		}
		for _, c := range b.Cols {
			used[c.Name] = true
		}
		x := a.Idxs[g.n(len(a.Idxs))]
		if used[x.Name] {
			return
		}
		x.Cols = g.someCols(*b, 1+g.n(len(x.Cols)))
		if g.p(60) {
			x.Type = g.pick("btree", "unique_btree", "primary")
		}
		at := -1
		for j := range b.Idxs {
			if b.Idxs[j].Name == x.Name {
				return
			}
		}
		if len(b.Idxs) > 0 && g.p(60) { // in the place of one
			at = g.n(len(b.Idxs))
			b.Idxs = append([]kf.Idx(nil), b.Idxs...)
			b.Idxs[at] = x
			return
		}
		b.Idxs = append(b.Idxs[:len(b.Idxs):len(b.Idxs)], x)
		b.Order += "i"
	case 2: // column
		if len(p.Tabs) < 2 || !o.Attrs {
			return
		}
		i, k := two(len(p.Tabs))
		a, b := &p.Tabs[i], &p.Tabs[k]
		for _, c := range b.Cols {
			used[c.Name] = true
		}
		for _, x := range b.Idxs {
			used[x.Name] = true
		}
		c := a.Cols[g.n(len(a.Cols))]
		if used[c.Name] {
			return
		}
		if g.p(70) {
			c.Attrs = g.attrValues(c)
		} else {
			c.Type, c.Attrs = g.pick("int", "text", "blob"), nil
		}
		at := g.n(len(b.Cols) + 1)
		b.Cols = append(b.Cols[:at:at], append([]kf.Col{c}, b.Cols[at:]...)...)
	case 3: // annotation, parameters or statement
		if len(p.Acts) < 2 {
			return
		}
		i, k := two(len(p.Acts))
		a, b := &p.Acts[i], &p.Acts[k]
		switch {
		case len(a.Annots) > 0 && g.p(50):
			x := a.Annots[g.n(len(a.Annots))]
			if l := g.values(x.Attrs, g.lit); len(l) > 0 {
				x.Attrs = l
			}
			at := g.n(len(b.Annots) + 1)
			b.Annots = append(b.Annots[:at:at], append([]kf.Annot{x}, b.Annots[at:]...)...)
		case g.p(40) && len(b.Params) == 0:
			b.Params = append([]string(nil), a.Params...)
		case len(a.Stmts) > 0:
			at := g.n(len(b.Stmts) + 1)
			b.Stmts = append(b.Stmts[:at:at], append([]kf.Stmt{a.Stmts[g.n(len(a.Stmts))]}, b.Stmts[at:]...)...)
		}
	default: // configuration
		if len(p.Exts) < 2 {
			return
		}
		i, k := two(len(p.Exts))
		p.Exts[k].Conf = g.values(p.Exts[i].Conf, g.lit)
		if g.p(30) {
			p.Exts[k].Name = p.Exts[i].Name
		}
	}
}
