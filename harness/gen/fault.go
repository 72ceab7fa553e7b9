package gen

import (
	"strings"
	"unicode/utf8"

	"kfverif/kf"
)

// Classes that Inject can plant.
var Classes = []string{kf.DupExt, kf.DupTable, kf.DupColumn, kf.DupAttr, kf.DupIndex, kf.DupAction, kf.DupParam, kf.DupFKAct, kf.DupVar,
	kf.AttrNA, kf.MultiInit, kf.VisSet, kf.MutSet, kf.AuxSet, kf.TableNF, kf.ColumnNF, kf.ActionNF, kf.ExtNF, kf.VarNF, kf.BadSQL}

// Inject plants a fault of the class in a copy of p. It gives nil if it does
// not find a way. The reference validator confirms the fault.
func (g *G) Inject(p *kf.Prog, class string) *kf.Prog {
	for try := 0; try < 25; try++ {
		q := Clone(p)
		if !g.inject(q, class) {
			continue
		}
		for _, f := range kf.Validate(q).Faults {
			if f == class {
				return q
			}
		}
	}
	return nil
}

// nearMiss is a name that resembles a defined one, or names another thing.
func (g *G) nearMiss(p *kf.Prog, defined []string) string {
	if len(defined) > 0 && g.p(60) {
		s := defined[g.n(len(defined))]
		switch g.n(7) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = strings.ToLower(s)
		case 2:
			s = s[:len(s)-1]
		case 3:
			s += g.pick("_", "1", "s", "x")
		case 4:
			s = "x" + s
		case 5:
			if len(s) > 1 {
				s = s[1:]
			}
		default:
			b := []byte(s)
			i := g.n(len(b))
			if b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			} else if b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 32
			} else {
				b[i] = 'q'
			}
			s = string(b)
		}
		if okName(s) {
			return s
		}
	}
	var l []string
	for _, t := range p.Tabs {
		l = append(l, t.Name)
		for _, c := range t.Cols {
			l = append(l, c.Name)
		}
		for _, x := range t.Idxs {
			l = append(l, x.Name)
		}
	}
	for _, a := range p.Acts {
		l = append(l, a.Name)
		for _, x := range a.Params {
			l = append(l, x[1:])
		}
	}
	for _, e := range p.Exts {
		l = append(l, e.Name, e.Alias)
	}
	l = append(l, p.Name, "caller", "lower", "abs", "Init", "null", "rowid")
	for i := 0; i < 10; i++ {
		if s := l[g.n(len(l))]; okName(s) {
			return s
		}
	}
	return g.Name(nil)
}

func okName(s string) bool {
	t, e := kf.Lex(s)
	return len(e) == 0 && len(t) == 2 && t[0].K == kf.IDENT
}

func okSigil(s string) bool {
	t, e := kf.Lex("$" + s)
	return len(e) == 0 && len(t) == 2 && t[0].K == kf.VAR
}

// anyAct picks an action or init.
func (g *G) anyAct(p *kf.Prog) *kf.Act {
	n := len(p.Acts)
	if p.Init != nil {
		n++
	}
	if n == 0 {
		p.Acts = append(p.Acts, kf.Act{Name: "only", Stmts: []kf.Stmt{{SQL: "select 1"}}})
		return &p.Acts[0]
	}
	i := g.n(n)
	if i == len(p.Acts) {
		return p.Init
	}
	return &p.Acts[i]
}

func insertStmt(g *G, a *kf.Act, s kf.Stmt) {
	k := g.n(len(a.Stmts) + 1)
	if g.p(30) {
		k = len(a.Stmts)
	}
	a.Stmts = append(a.Stmts, kf.Stmt{})
	copy(a.Stmts[k+1:], a.Stmts[k:])
	a.Stmts[k] = s
}

func (g *G) needTab(p *kf.Prog) *kf.Tab {
	if len(p.Tabs) == 0 {
		p.Tabs = append(p.Tabs, g.Tab(map[string]bool{}, Full))
	}
	return &p.Tabs[g.n(len(p.Tabs))]
}

func (g *G) needFK(p *kf.Prog) *kf.FK {
	g.needTab(p)
	var l []int
	for i := range p.Tabs {
		if len(p.Tabs[i].FKs) > 0 {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		i := g.n(len(p.Tabs))
		g.AddFK(p, i, Full)
		l = append(l, i)
	}
	t := &p.Tabs[l[g.n(len(l))]]
	return &t.FKs[g.n(len(t.FKs))]
}

func (g *G) inject(p *kf.Prog, class string) bool {
	switch class {
	case kf.DupExt:
		used := map[string]bool{}
		for _, e := range p.Exts {
			used[e.Alias] = true
		}
		for len(p.Exts) < 2 {
			p.Exts = append(p.Exts, g.Ext(used, Full))
		}
		i := g.n(len(p.Exts))
		x := kf.Ext{Name: g.Name(nil), Alias: p.Exts[i].Alias}
		if g.p(30) { // the very same extension twice
			x = p.Exts[i]
		} else if g.p(50) {
			x.Name = p.Exts[i].Name
		}
		k := g.n(len(p.Exts) + 1)
		p.Exts = append(p.Exts, kf.Ext{})
		copy(p.Exts[k+1:], p.Exts[k:])
		p.Exts[k] = x
	case kf.DupTable:
		t := *g.needTab(p)
		n := g.Tab(map[string]bool{}, Full)
		if g.p(30) {
			n = cloneTab(t)
		}
		n.Name = t.Name
		k := g.n(len(p.Tabs) + 1)
		p.Tabs = append(p.Tabs, kf.Tab{})
		copy(p.Tabs[k+1:], p.Tabs[k:])
		p.Tabs[k] = n
	case kf.DupColumn:
		t := g.needTab(p)
		c := t.Cols[g.n(len(t.Cols))]
		n := g.Col(map[string]bool{}, Full)
		if g.p(40) {
			n = c
		}
		n.Name = c.Name
		k := g.n(len(t.Cols) + 1)
		t.Cols = append(t.Cols, kf.Col{})
		copy(t.Cols[k+1:], t.Cols[k:])
		t.Cols[k] = n
	case kf.DupAttr:
		t := g.needTab(p)
		c := &t.Cols[g.n(len(t.Cols))]
		if len(c.Attrs) == 0 {
			l := attrsFor[c.Type]
			c.Attrs = append(c.Attrs, g.Attr(l[g.n(len(l))], c.Type))
		}
		a := c.Attrs[g.n(len(c.Attrs))]
		if a.V != "" && g.p(50) {
			a = g.Attr(a.K, c.Type)
		}
		k := g.n(len(c.Attrs) + 1)
		c.Attrs = append(c.Attrs, kf.KV{})
		copy(c.Attrs[k+1:], c.Attrs[k:])
		c.Attrs[k] = a
	case kf.DupIndex:
		t := g.needTab(p)
		if len(t.Idxs) == 0 {
			t.Idxs = append(t.Idxs, kf.Idx{Name: g.Name(nil) + "_ix", Type: "btree", Cols: g.someCols(*t, 1)})
			t.Order += "i"
		}
		x := kf.Idx{Name: t.Idxs[g.n(len(t.Idxs))].Name, Type: g.pick("btree", "unique_btree", "primary"), Cols: g.someCols(*t, 1+g.n(2))}
		k := g.n(len(t.Idxs) + 1)
		t.Idxs = append(t.Idxs, kf.Idx{})
		copy(t.Idxs[k+1:], t.Idxs[k:])
		t.Idxs[k] = x
		j := g.n(len(t.Order) + 1)
		t.Order = t.Order[:j] + "i" + t.Order[j:]
	case kf.DupAction:
		if len(p.Acts) == 0 {
			p.Acts = append(p.Acts, kf.Act{Name: g.Name(nil), Stmts: []kf.Stmt{{SQL: "select 1"}}})
		}
		a := p.Acts[g.n(len(p.Acts))]
		n := g.ActSig(map[string]bool{}, Full)
		n.Stmts = []kf.Stmt{{SQL: "select 2"}}
		if g.p(40) {
			n = cloneAct(a)
		}
		n.Name = a.Name
		k := g.n(len(p.Acts) + 1)
		p.Acts = append(p.Acts, kf.Act{})
		copy(p.Acts[k+1:], p.Acts[k:])
		p.Acts[k] = n
	case kf.DupParam:
		if len(p.Acts) == 0 {
			return false
		}
		a := &p.Acts[g.n(len(p.Acts))]
		if len(a.Params) == 0 {
			a.Params = append(a.Params, "$"+g.SigilName(nil))
		}
		x := a.Params[g.n(len(a.Params))]
		k := g.n(len(a.Params) + 1)
		a.Params = append(a.Params, "")
		copy(a.Params[k+1:], a.Params[k:])
		a.Params[k] = x
	case kf.DupFKAct:
		f := g.needFK(p)
		do := func() string { return g.pick("NO ACTION", "CASCADE", "SET NULL", "SET DEFAULT", "RESTRICT") }
		if len(f.Actions) == 0 {
			f.Actions = append(f.Actions, kf.FKAct{On: g.pick("UPDATE", "DELETE"), Do: do()})
		}
		a := f.Actions[g.n(len(f.Actions))]
		if g.p(60) {
			a.Do = do()
		}
		k := g.n(len(f.Actions) + 1)
		f.Actions = append(f.Actions, kf.FKAct{})
		copy(f.Actions[k+1:], f.Actions[k:])
		f.Actions[k] = a
	case kf.DupVar:
		if len(p.Exts) == 0 {
			p.Exts = append(p.Exts, g.Ext(map[string]bool{}, Full))
		}
		a := g.anyAct(p)
		s := kf.Stmt{Ext: p.Exts[g.n(len(p.Exts))].Alias, Fn: g.Name(nil)}
		u := map[string]bool{}
		for i, n := 0, 1+g.n(4); i < n; i++ {
			s.Recv = append(s.Recv, "$"+g.SigilName(u))
		}
		x := s.Recv[g.n(len(s.Recv))]
		k := g.n(len(s.Recv) + 1)
		s.Recv = append(s.Recv, "")
		copy(s.Recv[k+1:], s.Recv[k:])
		s.Recv[k] = x
		insertStmt(g, a, s)
	case kf.AttrNA:
		t := g.needTab(p)
		c := &t.Cols[g.n(len(t.Cols))]
		var k string
		switch c.Type {
		case "int":
			k = g.pick("min_length", "max_length")
		case "text":
			k = g.pick("min", "max")
		default:
			return false
		}
		at := g.n(len(c.Attrs) + 1)
		c.Attrs = append(c.Attrs, kf.KV{})
		copy(c.Attrs[at+1:], c.Attrs[at:])
		c.Attrs[at] = kf.KV{K: k, V: g.Number()}
	case kf.MultiInit:
		if p.Init == nil {
			p.Init = &kf.Act{Name: "init", Stmts: []kf.Stmt{{SQL: "select 1"}}}
		}
		p.Inits = 2 + g.n(2)
	case kf.VisSet, kf.MutSet, kf.AuxSet:
		if len(p.Acts) == 0 {
			return false
		}
		a := &p.Acts[g.n(len(p.Acts))]
		add := func(m string) {
			k := g.n(len(a.Mods) + 1)
			a.Mods = append(a.Mods, "")
			copy(a.Mods[k+1:], a.Mods[k:])
			a.Mods[k] = m
		}
		for i := 0; i < 2; i++ {
			switch class {
			case kf.VisSet:
				add(g.pick("public", "private"))
			case kf.MutSet:
				add("view")
			default:
				add("owner")
			}
			if kf.Validate(p).Bad() {
				break
			}
		}
	case kf.TableNF:
		f := g.needFK(p)
		var l []string
		for _, t := range p.Tabs {
			l = append(l, t.Name)
		}
		f.Parent = g.nearMiss(p, l)
	case kf.ColumnNF:
		t := g.needTab(p)
		var cols []string
		for _, c := range t.Cols {
			cols = append(cols, c.Name)
		}
		switch g.n(3) {
		case 0:
			if len(t.Idxs) == 0 {
				return false
			}
			x := &t.Idxs[g.n(len(t.Idxs))]
			nm := g.nearMiss(p, cols)
			if g.p(20) && okName(t.Idxs[0].Name) {
				nm = t.Idxs[0].Name
			}
			if g.p(50) {
				x.Cols[g.n(len(x.Cols))] = nm
			} else {
				x.Cols = append(x.Cols, nm)
			}
		case 1:
			if len(t.FKs) == 0 {
				return false
			}
			f := &t.FKs[g.n(len(t.FKs))]
			f.Child[g.n(len(f.Child))] = g.nearMiss(p, append(cols, f.Keys...))
		default:
			f := g.needFK(p)
			f.Keys[g.n(len(f.Keys))] = g.nearMiss(p, append(f.Keys, f.Child...))
		}
	case kf.ActionNF:
		var l []string
		for _, a := range p.Acts {
			l = append(l, a.Name)
		}
		a := g.anyAct(p)
		s := kf.Stmt{Fn: g.nearMiss(p, l)}
		if len(a.Params) > 0 {
			s.Args = g.Arg(a.Params, 2)
		}
		insertStmt(g, a, s)
	case kf.ExtNF:
		var l []string
		for _, e := range p.Exts {
			l = append(l, e.Alias, e.Name)
		}
		a := g.anyAct(p)
		nm := g.nearMiss(p, l)
		if len(p.Exts) > 0 && g.p(40) {
			nm = p.Exts[g.n(len(p.Exts))].Name
		}
		s := kf.Stmt{Ext: nm, Fn: g.Name(nil)}
		if g.p(50) {
			s.Recv = []string{"$r"}
		}
		insertStmt(g, a, s)
	case kf.VarNF:
		return g.injectVar(p)
	case kf.BadSQL:
		_, s := g.BadSQLStmt()
		s = g.lengthen(s)
		insertStmt(g, g.anyAct(p), kf.Stmt{SQL: s})
	default:
		panic("gen: unknown class " + class)
	}
	return true
}

// injectVar makes some call use a variable that is not in scope there.
func (g *G) injectVar(p *kf.Prog) bool {
	a := g.anyAct(p)
	if len(p.Exts) == 0 && len(p.Acts) == 0 {
		return false
	}
	var defined []string
	for _, x := range a.Params {
		defined = append(defined, x[1:])
	}
	var bad kf.Tok
	switch g.n(6) {
	case 0:
		bad = kf.Tok{K: kf.ATNAME, T: "@" + g.pick("Caller", "CALLER", "caller_", "calle", "block_height", "x", "owner", "action", "dataset", "callerx")}
	case 1: // of another action
		var l []string
		for _, b := range p.Acts {
			l = append(l, b.Params...)
			for _, s := range b.Stmts {
				l = append(l, s.Recv...)
			}
		}
		if len(l) == 0 {
			return false
		}
		bad = kf.Tok{K: kf.VAR, T: l[g.n(len(l))]}
	case 2: // only received later, or by the very statement
		var l []string
		for _, s := range a.Stmts {
			l = append(l, s.Recv...)
		}
		if len(l) == 0 {
			return false
		}
		bad = kf.Tok{K: kf.VAR, T: l[g.n(len(l))]}
	case 3:
		bad = kf.Tok{K: kf.VAR, T: g.pick("$caller", "$nope", "$Caller", "$a", "$block_height", "$init")}
	default:
		s := g.nearMiss(p, defined)
		if !okSigil(s) {
			return false
		}
		bad = kf.Tok{K: kf.VAR, T: "$" + s}
	}
	// replace or wrap an argument of an existing call, or add a call
	var calls []int
	for i, s := range a.Stmts {
		if !s.IsSQL() {
			calls = append(calls, i)
		}
	}
	if len(calls) > 0 && g.p(60) {
		s := &a.Stmts[calls[g.n(len(calls))]]
		var at []int
		for i, t := range s.Args {
			if t.K == kf.VAR || t.K == kf.ATNAME || t.K == kf.NUM || t.K == kf.STR {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			s.Args[at[g.n(len(at))]] = bad
			return true
		}
	}
	vars := append([]string{}, a.Params...)
	s := g.Call(p, vars)
	if s.Ext != "" && g.p(20) && bad.K == kf.VAR {
		dup := false
		for _, r := range s.Recv {
			dup = dup || r == bad.T
		}
		if !dup {
			s.Recv = append(s.Recv, bad.T)
		}
	}
	e := []kf.Tok{bad}
	switch {
	case g.Big == "argdepth":
		e = g.Wrap(e, vars, g.BigN)
	case g.p(4):
		e = g.Wrap(e, vars, g.oddSize(100))
	default:
		for d := g.n(5); d > 0; d-- {
			e = g.Wrap(e, vars, 1)
		}
	}
	if len(s.Args) > 0 && s.Args[0].K != "," {
		if g.p(50) {
			s.Args = append(append(s.Args, tok(",")), e...)
		} else {
			s.Args = append(append(e, tok(",")), s.Args...)
		}
	} else {
		s.Args = append(e, s.Args...)
	}
	insertStmt(g, a, s)
	return true
}

// damage makes a near-copy of a statement of p that is no longer acceptable.
func (g *G) damage(p *kf.Prog) (q *kf.Prog, s string) {
	q = Clone(p)
	var in []*kf.Act
	var at []int
	look := func(a *kf.Act) {
		for i, x := range a.Stmts {
			if x.IsSQL() {
				in, at = append(in, a), append(at, i)
			}
		}
	}
	for i := range q.Acts {
		look(&q.Acts[i])
	}
	if q.Init != nil {
		look(q.Init)
	}
	if len(in) == 0 {
		return nil, ""
	}
	k := g.n(len(in))
	a, i := in[k], at[k]
	good := a.Stmts[i].SQL
	for try := 0; try < 20; try++ {
		switch s = strings.TrimRight(good, " \t\r\n"); g.n(4) {
		case 0, 1: // a wrong end
			s += g.pick(" )", ")", " (", ",", " and", " where", " =", " where random() = 1", " limit", " order by random()", " 1 2", " union select changes()",
				" where a in (select sin(1))", " returning random()", " select")
		case 2: // the end is gone
			s = strings.TrimRight(s[:len(s)-1-g.n(len(s)/2+1)], " \t\r\n")
		default: // something in the middle
			var sp []int
			for j := 1; j < len(s); j++ {
				if s[j] == ' ' {
					sp = append(sp, j)
				}
			}
			if len(sp) == 0 {
				continue
			}
			j := sp[g.n(len(sp))]
			s = s[:j] + g.pick(" )", " (", " ,", " = ", " random() ", " select ", " changes(), ") + s[j:]
		}
		if s == "" || !utf8.ValidString(s) || strings.ContainsAny(s, ";}") || strings.HasSuffix(s, " ") || kf.SQLOK(s+";") {
			continue
		}
		if t, e := kf.Lex(s + ";"); len(e) > 0 || len(t) != 3 || t[0].K != kf.SQL {
			continue
		}
		b := kf.Stmt{SQL: s}
		switch g.n(4) {
		case 0: // in front
			a.Stmts = append(a.Stmts[:i], append([]kf.Stmt{b}, a.Stmts[i:]...)...)
		case 1: // elsewhere
			insertStmt(g, g.anyAct(q), b)
		default:
			a.Stmts = append(a.Stmts[:i+1], append([]kf.Stmt{b}, a.Stmts[i+1:]...)...)
		}
		return q, s
	}
	return nil, ""
}

// PlantSQL adds one forbidden statement at a random place of a copy of p.
func (g *G) PlantSQL(p *kf.Prog) (q *kf.Prog, label, s string) {
	if g.p(35) {
		if q, s = g.damage(p); q != nil {
			return q, "damaged near-copy", s
		}
	}
	for i := 0; i < 30; i++ {
		label, s = g.BadSQLStmt()
		s = g.lengthen(s)
		if strings.ContainsAny(s, ";}") {
			continue
		}
		if t, e := kf.Lex(s + ";"); len(e) > 0 || len(t) != 3 || t[0].K != kf.SQL {
			continue
		}
		q = Clone(p)
		insertStmt(g, g.anyAct(q), kf.Stmt{SQL: s})
		return
	}
	return nil, "", ""
}
