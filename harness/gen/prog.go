package gen

import (
	"strings"

	"kfverif/kf"
)

// Opt chooses what programs contain.
type Opt struct {
	MinTabs, MaxTabs int
	MinActs, MaxActs int
	MaxExts          int
	MaxCols          int
	MaxStmts         int
	Attrs            bool
	Idx, FK          bool
	Mods, Params     bool
	Annots           bool
	SQL, Calls       bool
	Init             bool
	MaxList          int // longest index / parameter / config list
}

// Full has every feature.
var Full = Opt{MaxTabs: 4, MaxActs: 4, MaxExts: 3, MaxCols: 5, MaxStmts: 3, Attrs: true, Idx: true, FK: true, Mods: true, Params: true,
	Annots: true, SQL: true, Calls: true, Init: true, MaxList: 4}

// Dims are the sizes of a program that can be made unusually large.
var Dims = []string{"tabs", "cols", "acts", "stmts", "params", "idxcols", "idxs", "fks", "exts", "conf", "annots", "annattrs", "args", "recv", "strlen", "namelen", "sqllen", "numlen", "argdepth", "pad"}

// PickBig makes one dimension of the next program large, sometimes.
func (g *G) PickBig() {
	g.Big, g.BigN = "", 0
	if !g.p(25) {
		return
	}
	g.Big = Dims[g.n(len(Dims))]
	if g.p(40) {
		g.BigN = g.oddSize(dimMax[g.Big])
		return
	}
	switch {
	case g.p(50):
		g.BigN = g.between(5, 12)
	case g.p(60):
		g.BigN = g.between(13, 40)
	default:
		g.BigN = g.between(41, 140)
	}
	switch g.Big {
	case "strlen", "namelen", "sqllen", "pad":
		g.BigN *= g.between(1, 40)
	case "tabs", "acts":
		if g.BigN > 60 {
			g.BigN = 60
		}
	}
}

func (g *G) size(dim string, max int) int {
	if max <= 0 {
		return 0
	}
	if (g.Big == dim || dim == "cols" && g.Big == "idxcols") && g.p(70) {
		return g.BigN
	}
	if g.p(70) && max > 3 {
		return g.n(4)
	}
	return g.n(max + 1)
}

// Prog makes a valid program. It panics if the reference validator disagrees.
func (g *G) Prog(o Opt) *kf.Prog {
	g.PickBig()
	for try := 0; try < 50; try++ {
		p := g.prog(o)
		if !kf.Validate(p).OK() {
			continue
		}
		if g.p(35) {
			q := Clone(p)
			if g.Echo(q, o); kf.Validate(q).OK() {
				return q
			}
		}
		return p
	}
	panic("gen: cannot make a valid program")
}

func (g *G) prog(o Opt) *kf.Prog {
	p := &kf.Prog{Name: g.Name(nil)}
	used := map[string]bool{}
	for i, n := 0, g.size("exts", o.MaxExts); i < n; i++ {
		p.Exts = append(p.Exts, g.Ext(used, o))
	}
	used = map[string]bool{}
	nt := o.MinTabs + g.size("tabs", o.MaxTabs-o.MinTabs)
	for i := 0; i < nt; i++ {
		p.Tabs = append(p.Tabs, g.Tab(used, o))
	}
	if o.FK {
		for i := range p.Tabs {
			for k, n := 0, g.size("fks", 3); k < n; k++ {
				g.AddFK(p, i, o)
			}
		}
	}
	used = map[string]bool{}
	na := o.MinActs + g.size("acts", o.MaxActs-o.MinActs)
	for i := 0; i < na; i++ {
		p.Acts = append(p.Acts, g.ActSig(used, o))
	}
	for i := range p.Acts {
		g.Body(p, &p.Acts[i], o)
	}
	if o.Init && g.p(40) {
		p.Init = &kf.Act{Name: "init"}
		p.Inits = 1
		g.Body(p, p.Init, o)
	}
	return p
}

func (g *G) Ext(used map[string]bool, o Opt) kf.Ext {
	e := kf.Ext{Name: g.Name(nil), Alias: g.Name(used)}
	if g.p(60) {
		for i, n := 0, 1+g.size("conf", o.MaxList); i < n; i++ {
			e.Conf = append(e.Conf, kf.KV{K: g.Name(nil), V: g.Lit()})
		}
	}
	return e
}

var attrsFor = map[string][]string{
	"int":  {"primary_key", "not_null", "unique", "default", "min", "max"},
	"text": {"primary_key", "not_null", "unique", "default", "min_length", "max_length"},
	"blob": {"primary_key", "not_null", "unique", "default", "min_length", "max_length"},
}

// Attr makes one attribute of the given JSON type for a column type.
func (g *G) Attr(kind, colType string) kf.KV {
	switch kind {
	case "primary_key", "not_null", "unique":
		return kf.KV{K: kind}
	case "default":
		if colType == "int" {
			return kf.KV{K: kind, V: g.Number()}
		}
		if colType == "blob" && g.p(50) {
			return kf.KV{K: kind, V: g.Number()}
		}
		return kf.KV{K: kind, V: g.Str()}
	}
	return kf.KV{K: kind, V: g.Number()}
}

func (g *G) Col(used map[string]bool, o Opt) kf.Col {
	c := kf.Col{Name: g.Name(used), Type: g.pick("int", "text", "blob")}
	if o.Attrs && g.p(60) {
		l := append([]string{}, attrsFor[c.Type]...)
		g.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		n := g.n(len(l) + 1)
		if g.p(60) && n > 2 {
			n = g.n(3)
		}
		for _, k := range l[:n] {
			c.Attrs = append(c.Attrs, g.Attr(k, c.Type))
		}
	}
	return c
}

func (g *G) Tab(used map[string]bool, o Opt) kf.Tab {
	t := kf.Tab{Name: g.Name(used)}
	cu := map[string]bool{}
	for i, n := 0, 1+g.size("cols", o.MaxCols-1); i < n; i++ {
		t.Cols = append(t.Cols, g.Col(cu, o))
	}
	if o.Idx {
		// index names live apart from column names (a shared name is unspecified)
		iu := map[string]bool{}
		for c := range cu {
			iu[c] = true
		}
		for i, n := 0, g.size("idxs", 4); i < n; i++ {
			t.Idxs = append(t.Idxs, kf.Idx{Name: g.SigilName(iu), Type: g.pick("btree", "unique_btree", "primary"), Cols: g.someCols(t, 1+g.size("idxcols", o.MaxList-1))})
			t.Order += "i"
		}
	}
	return t
}

// someCols picks columns in random order, occasionally with repeats.
func (g *G) someCols(t kf.Tab, n int) []string {
	perm := g.R.Perm(len(t.Cols))
	if n > len(perm) && !g.p(10) {
		n = len(perm)
	}
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, t.Cols[perm[i%len(perm)]].Name)
	}
	return l
}

// AddFK adds a valid foreign key to table i, at a random place of the order.
func (g *G) AddFK(p *kf.Prog, i int, o Opt) {
	t := &p.Tabs[i]
	par := p.Tabs[g.n(len(p.Tabs))]
	n := 1 + g.size("idxcols", o.MaxList-1)
	f := kf.FK{Child: g.someCols(*t, n), Parent: par.Name}
	f.Keys = g.someCols(par, len(f.Child))
	for len(f.Keys) < len(f.Child) {
		f.Keys = append(f.Keys, par.Cols[g.n(len(par.Cols))].Name)
	}
	f.Keys = f.Keys[:len(f.Child)]
	on := []string{"UPDATE", "DELETE"}
	if g.p(50) {
		on[0], on[1] = on[1], on[0]
	}
	for _, x := range on[:g.n(3)] {
		f.Actions = append(f.Actions, kf.FKAct{On: x, Do: g.pick("NO ACTION", "CASCADE", "SET NULL", "SET DEFAULT", "RESTRICT")})
	}
	at := g.n(len(t.FKs) + 1)
	t.FKs = append(t.FKs, kf.FK{})
	copy(t.FKs[at+1:], t.FKs[at:])
	t.FKs[at] = f
	k := g.n(len(t.Order) + 1)
	t.Order = t.Order[:k] + "f" + t.Order[k:]
}

func (g *G) Annot(o Opt) kf.Annot {
	a := kf.Annot{Target: g.SigilName(nil)}
	for i, n := 0, 1+g.size("annattrs", o.MaxList); i < n; i++ {
		a.Attrs = append(a.Attrs, kf.KV{K: g.Name(nil), V: g.Lit()})
	}
	return a
}

func (g *G) ActSig(used map[string]bool, o Opt) kf.Act {
	a := kf.Act{Name: g.Name(used)}
	if o.Annots && g.p(40) {
		for i, n := 0, 1+g.size("annots", 3); i < n; i++ {
			a.Annots = append(a.Annots, g.Annot(o))
		}
	}
	if o.Params {
		pu := map[string]bool{}
		for i, n := 0, g.size("params", o.MaxList); i < n; i++ {
			a.Params = append(a.Params, "$"+g.SigilName(pu))
		}
	}
	if o.Mods {
		a.Mods = g.mods()
	}
	return a
}

func (g *G) mods() (r []string) {
	l := []string{g.pick("public", "private", ""), g.pick("view", ""), g.pick("owner", "")}
	g.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	for _, m := range l {
		if m != "" {
			r = append(r, m)
		}
	}
	return r
}

// Body fills the statements of a.
func (g *G) Body(p *kf.Prog, a *kf.Act, o Opt) {
	vars := append([]string{}, a.Params...)
	n := 1 + g.size("stmts", o.MaxStmts-1)
	for i := 0; i < n; i++ {
		if i > 0 && g.p(10) { // the very same statement again
			a.Stmts = append(a.Stmts, a.Stmts[len(a.Stmts)-1])
			continue
		}
		var s kf.Stmt
		switch {
		case o.Calls && (len(p.Acts) > 0 || len(p.Exts) > 0) && (!o.SQL || g.p(55)):
			s = g.Call(p, vars)
			if s.Ext != "" {
				for _, r := range s.Recv {
					vars = append(vars, r)
				}
			}
		default:
			s = kf.Stmt{SQL: g.SQL(p, vars)}
		}
		a.Stmts = append(a.Stmts, s)
	}
}

// Call makes a valid call statement given the variables in scope.
func (g *G) Call(p *kf.Prog, vars []string) kf.Stmt {
	var s kf.Stmt
	if len(p.Exts) > 0 && (len(p.Acts) == 0 || g.p(50)) {
		s.Ext = p.Exts[g.n(len(p.Exts))].Alias
		s.Fn = g.Name(nil)
		u := map[string]bool{}
		for i, n := 0, g.size("recv", 3); i < n; i++ {
			if len(vars) > 0 && g.p(30) {
				v := vars[g.n(len(vars))]
				if !u[v[1:]] {
					u[v[1:]] = true
					s.Recv = append(s.Recv, v)
				}
				continue
			}
			s.Recv = append(s.Recv, "$"+g.SigilName(u))
		}
	} else {
		s.Fn = p.Acts[g.n(len(p.Acts))].Name
	}
	n := g.size("args", 3)
	if g.Big == "argdepth" && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		if i > 0 || g.p(1) {
			s.Args = append(s.Args, kf.Tok{K: ",", T: ","})
		}
		e := g.Arg(vars, g.n(4))
		if g.Big == "argdepth" && g.p(40) {
			e = g.Wrap(g.Arg(vars, 0), vars, g.BigN)
		}
		s.Args = append(s.Args, e...)
	}
	return s
}

// Wrap nests an expression n deep.
func (g *G) Wrap(e []kf.Tok, vars []string, n int) []kf.Tok {
	kind := g.n(7)
	for d := 0; d < n; d++ {
		k := kind
		if kind == 6 {
			k = g.n(6)
		}
		switch k {
		case 0:
			e = append([]kf.Tok{tok(kf.Kind(g.pick("-", "+")))}, e...)
		case 1:
			e = append([]kf.Tok{tok("not")}, e...)
		case 2:
			e = append(append([]kf.Tok{tok("(")}, e...), tok(")"))
		case 3:
			e = append(append([]kf.Tok{{K: kf.IDENT, T: g.pick("lower", "abs", "upper", "length")}, tok("(")}, e...), tok(")"))
		case 4:
			e = append(append(e, tok(kf.Kind(g.pick("+", "and", "=", "*", "or", "<")))), g.Arg(vars, 0)...)
		default:
			e = append(append(g.Arg(vars, 0), tok(kf.Kind(g.pick("-", "and", "<>", "/", "or", ">=")))), e...)
		}
	}
	return e
}

func tok(k kf.Kind) kf.Tok { return kf.Tok{K: k, T: string(k)} }

// Arg makes an argument expression of at most the given depth.
func (g *G) Arg(vars []string, d int) []kf.Tok {
	if d <= 0 || g.p(30) {
		switch g.n(6) {
		case 0:
			return []kf.Tok{{K: kf.NUM, T: g.Number()}}
		case 1:
			return []kf.Tok{{K: kf.STR, T: g.Str()}}
		case 2:
			return []kf.Tok{{K: kf.ATNAME, T: "@caller"}}
		default:
			if len(vars) > 0 {
				return []kf.Tok{{K: kf.VAR, T: vars[g.n(len(vars))]}}
			}
			return []kf.Tok{{K: kf.NUM, T: g.Number()}}
		}
	}
	switch g.n(8) {
	case 0:
		return append([]kf.Tok{tok(kf.Kind(g.pick("+", "-", "-")))}, g.Arg(vars, d-1)...)
	case 1:
		return append([]kf.Tok{tok("not")}, g.Arg(vars, d-1)...)
	case 2:
		return append(append([]kf.Tok{tok("(")}, g.Arg(vars, d-1)...), tok(")"))
	case 3:
		f := g.pick("abs", "length", "lower", "upper", "count", "sum", "error", "format")
		if g.p(10) {
			f = strings.ToUpper(f)
		}
		r := []kf.Tok{{K: kf.IDENT, T: f}, tok("(")}
		r = append(r, g.Arg(vars, d-1)...)
		if strings.EqualFold(f, "format") {
			n := 1
			if g.p(12) { // any number of inputs
				n = []int{2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 33}[g.n(12)]
			}
			for ; n > 0; n-- {
				r = append(append(r, tok(",")), g.Arg(vars, min(d-1, n/2))...)
			}
		}
		return append(r, tok(")"))
	default:
		op := kf.Kind(g.pick("*", "/", "%", "+", "-", "<", "<=", ">", ">=", "=", "!=", "<>", "and", "or", "and", "or"))
		r := append(g.Arg(vars, d-1), tok(op))
		return append(r, g.Arg(vars, d-1)...)
	}
}
