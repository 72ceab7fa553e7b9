package gen

import (
	"strings"

	"kfverif/kf"
)

// Surface choices that must not matter: abbreviations, optional words,
// trailing commas and the interleaving of declarations.
func (g *G) Tokens(p *kf.Prog) []kf.Tok {
	var out []kf.Tok
	e := func(ts ...kf.Tok) { out = append(out, ts...) }
	id := func(s string) kf.Tok { return kf.Tok{K: kf.IDENT, T: s} }
	lit := func(s string) kf.Tok {
		if strings.HasPrefix(s, "'") {
			return kf.Tok{K: kf.STR, T: s}
		}
		return kf.Tok{K: kf.NUM, T: s}
	}
	names := func(l []string) {
		e(tok("("))
		for i, c := range l {
			if i > 0 {
				e(tok(","))
			}
			e(id(c))
		}
		e(tok(")"))
	}
	e(tok("database"), id(p.Name), tok(";"))
	for _, x := range p.Exts {
		e(tok("use"), id(x.Name))
		for i, c := range x.Conf {
			if i == 0 {
				e(tok("{"))
			} else {
				e(tok(","))
			}
			e(id(c.K), tok(":"), lit(c.V))
		}
		if len(x.Conf) > 0 {
			e(tok("}"))
		}
		e(tok("as"), id(x.Alias), tok(";"))
	}
	body := func(l []kf.Stmt) {
		e(tok("{"))
		for _, s := range l {
			e(s.Toks()...)
		}
		e(tok("}"))
	}
	table := func(t kf.Tab) {
		e(tok("table"), id(t.Name), tok("{"))
		for i, c := range t.Cols {
			if i > 0 {
				e(tok(","))
			}
			e(id(c.Name), tok(kf.Kind(c.Type)))
			for _, a := range c.Attrs {
				e(tok(kf.Kind(kf.AttrKW[a.K])))
				if a.V != "" {
					e(tok("("), lit(a.V), tok(")"))
				}
			}
		}
		ii, fi := 0, 0
		for _, o := range t.Order {
			e(tok(","))
			if o == 'i' {
				x := t.Idxs[ii]
				ii++
				e(kf.Tok{K: kf.IDXNAME, T: "#" + x.Name}, tok(kf.Kind(kf.IdxKW[x.Type])))
				names(x.Cols)
				continue
			}
			f := t.FKs[fi]
			fi++
			e(tok(kf.Kind(g.pick("foreign_key", "fk"))))
			names(f.Child)
			e(tok(kf.Kind(g.pick("references", "ref"))), id(f.Parent))
			names(f.Keys)
			for _, a := range f.Actions {
				e(tok(kf.Kind(kf.OnKW[a.On])))
				if g.p(50) {
					e(tok("do"))
				}
				e(tok(kf.Kind(kf.DoKW[a.Do])))
			}
		}
		if g.p(30) {
			e(tok(","))
		}
		e(tok("}"))
	}
	action := func(a kf.Act) {
		for _, n := range a.Annots {
			e(kf.Tok{K: kf.ATNAME, T: "@" + n.Target}, tok("("))
			for i, kv := range n.Attrs {
				if i > 0 {
					e(tok(","))
				}
				e(id(kv.K), tok("="), lit(kv.V))
			}
			e(tok(")"))
		}
		e(tok("action"), id(a.Name), tok("("))
		for i, x := range a.Params {
			if i > 0 {
				e(tok(","))
			}
			e(kf.Tok{K: kf.VAR, T: x})
		}
		e(tok(")"))
		for _, m := range a.Mods {
			e(tok(kf.Kind(m)))
		}
		body(a.Stmts)
	}
	initAt := -1
	total := len(p.Tabs) + len(p.Acts)
	if p.Inits > 0 {
		initAt = g.n(total + 1)
	}
	mode := g.n(3)
	ti, ai := 0, 0
	for i := 0; i <= total; i++ {
		if i == initAt {
			for k := 0; k < p.Inits; k++ {
				e(tok("init"), tok("("), tok(")"))
				body(p.Init.Stmts)
			}
		}
		if i == total {
			break
		}
		tab := ti < len(p.Tabs)
		if tab && ai < len(p.Acts) {
			switch mode {
			case 1:
				tab = false
			case 2:
				tab = g.p(50)
			}
		}
		if tab {
			table(p.Tabs[ti])
			ti++
		} else {
			action(p.Acts[ai])
			ai++
		}
	}
	return out
}

// Layout writes tokens with white space and comments between them. The
// result lexes to exactly the given tokens.
func (g *G) Layout(toks []kf.Tok) string {
	s := g.n(7)
	if s == 6 {
		s = 7
	}
	return g.LayoutStyle(toks, s)
}

// Styles is the number of layout styles; 6 is the plainest.
const Styles = 8

func (g *G) LayoutStyle(toks []kf.Tok, style int) string {
	var b strings.Builder
	prev := kf.Tok{}
	padAt := -1
	if g.Big == "pad" && style != 6 {
		padAt = g.n(len(toks))
	}
	ends := ""
	if style >= 2 && style != 6 && g.p(25) { // one kind of line end everywhere
		ends = g.pick("\r", "\r", "\r\n", "\n")
	}
	nl := func(s string) string {
		if ends == "" {
			return s
		}
		s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
		return strings.ReplaceAll(s, "\n", ends)
	}
	if style >= 3 && style < 6 {
		for g.p(35) { // a header
			b.WriteString(nl(g.remark() + g.pick("", " ", "\n")))
		}
	}
	one, onePct := "", 100 // the only gap there is
	if style == 7 {
		one = g.pick(" ", "\n", "\t", "\r", "\r\n", "/**/", "/*c*/", "/*;*/", "//x\n", "/*\n*/", " /*c*/", "/*c*/ ", "  ", "/*'*/", "/*$x*/", "//\r")
		onePct = []int{100, 100, 50, 10}[g.n(4)]
		ends = ""
	}
	for i, t := range toks {
		gap := ""
		if style != 7 {
			gap = g.trivia(style, i, prev, t)
		} else if i > 0 && g.p(onePct) {
			gap = one
		}
		if prev.K == kf.SQL { // an SQL token runs up to its ';'
			gap = ""
		} else if i > 0 && gap == "" && glues(prev, t) {
			gap = " "
			if style == 7 {
				gap = one
			}
		}
		if i == padAt && prev.K != kf.SQL {
			n := g.BigN
			switch g.n(5) {
			case 0:
				gap = strings.Repeat(" ", n) + gap
			case 1:
				gap = strings.Repeat("\n", n) + gap
			case 2:
				gap = strings.Repeat("\r\n", n/2+1) + gap
			case 3:
				gap = " //" + strings.Repeat("x", n) + "\n" + gap
			default:
				gap = " /*" + strings.Repeat(g.pick("x", "* ", "\n"), n) + "*/" + gap
			}
		}
		if strings.HasPrefix(gap, "/") && (prev.K == "/") {
			gap = " " + gap
		}
		b.WriteString(nl(gap))
		b.WriteString(t.T)
		prev = t
	}
	switch style {
	case 3, 4, 5:
		b.WriteString(nl(g.pick("", "\n", " ", "\r\n\t", "// end", "/* end */", "\n\n// bye\n")))
		if g.p(30) {
			b.WriteString(nl("\n" + g.remark()))
		}
	}
	s := b.String()
	got, errs := kf.Lex(s)
	if len(errs) > 0 || !kf.SameTokens(got[:len(got)-1], toks) {
		if style != 6 {
			return g.LayoutStyle(toks, 6)
		}
		panic("gen: layout changed the tokens: " + s)
	}
	return s
}

// glues: written without a gap the two would lex differently.
func glues(a, b kf.Tok) bool {
	t, e := kf.Lex(a.T + b.T)
	return len(e) > 0 || len(t) != 3 || t[0].T != a.T || t[1].T != b.T || t[0].K != a.K || t[1].K != b.K
}

func (g *G) trivia(style, i int, prev, t kf.Tok) string {
	switch style {
	case 0: // dense
		return ""
	case 1, 6:
		if i == 0 {
			return ""
		}
		return " "
	case 2: // pretty
		switch prev.K {
		case ";", "{", "}":
			return "\n    "
		case ",":
			return " "
		}
		switch t.K {
		case ";", ",", ")", "(":
			return ""
		}
		if i == 0 {
			return ""
		}
		return " "
	case 3: // windows line ends
		return g.pick("", " ", "\r\n", "\r\n\t")
	case 4: // noisy
		return g.noise(60)
	default:
		return g.noise(20)
	}
}

func (g *G) noise(pct int) string {
	if !g.p(pct) {
		return ""
	}
	var b strings.Builder
	for k, n := 0, g.between(1, 3); k < n; k++ {
		b.WriteString(g.pick(" ", "\n", "\t", "\r", "\r\n", "   ", "/**/", "/* c */", "/* } ; { */", "// line\n", "//\n", "/* a\nb */", "/* // */",
			"// /* \n", "/***/", "/* ' */", "// it's\r", "/* table x { */", "/* é世 */", "\n\n", "/* \" */", "//// select 1;\n", "/*;*/"))
		if g.p(30) {
			b.WriteString(g.remark())
		}
	}
	return b.String()
}

// remark is a comment with things in it that would mean something elsewhere.
func (g *G) remark() string {
	t := g.pick("database d;", "the database", "database", "init() {", "use e as f;", "table t {a int}", "action a() public {select 1;}", "}", "{", ";",
		"select 1;", "'", "\"", "#i index(a)", "@n(x=1)", "$x", "TODO", "Copyright", "line 1:2", "\\", "--", "*", "**", "/", "end", "", " ", "don't", "a, b", "owner view public", "é", "\x01")
	if g.p(5) || g.fresh(20) {
		t = strings.NewReplacer("\n", " ", "\r", " ").Replace(g.dictRaw())
	}
	if g.p(30) {
		t += g.pick(" ", "\t") + g.pick("database", "init", "select", "action", "table", "'", "\"", "x")
	}
	if g.p(50) {
		return "//" + g.pick("", " ", "/") + t + g.pick("\n", "\n", "\r", "\r\n")
	}
	return "/*" + g.pick("", " ", "*", "\n") + strings.ReplaceAll(t, "*/", "") + g.pick("", " ", "\n") + " */"
}

// Text makes source text for a program with random surface choices.
func (g *G) Text(p *kf.Prog) string { return g.Layout(g.Tokens(p)) }
