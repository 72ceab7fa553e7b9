package kf

// SynErr is the first place where the text stops being a prefix of any
// syntactically valid program.
type SynErr struct {
	Line, Col int
	Lexical   bool
}

type parser struct {
	t []Tok
	i int
}
type fail struct{ i int }

func (p *parser) k() Kind { return p.t[p.i].K }
func (p *parser) k2() Kind { // one token ahead
	if p.i+1 < len(p.t) {
		return p.t[p.i+1].K
	}
	return EOF
}
func (p *parser) bad() { panic(fail{p.i}) }
func (p *parser) want(k Kind) string {
	if p.k() != k {
		p.bad()
	}
	s := p.t[p.i].T
	p.i++
	return s
}
func (p *parser) opt(k Kind) bool {
	if p.k() == k {
		p.i++
		return true
	}
	return false
}

// Parse builds the abstract program, or reports the earliest error.
func Parse(src string) (prog *Prog, serr *SynErr) {
	toks, lerr := Lex(src)
	p := &parser{t: toks}
	func() {
		defer func() {
			if r := recover(); r != nil {
				f, ok := r.(fail)
				if !ok {
					panic(r)
				}
				serr = &SynErr{toks[f.i].Line, toks[f.i].Col, false}
			}
		}()
		prog = p.source()
	}()
	if len(lerr) > 0 {
		e := lerr[0]
		if serr == nil || e.Line < serr.Line || e.Line == serr.Line && e.Col < serr.Col {
			serr = &SynErr{e.Line, e.Col, true}
		}
	}
	if serr != nil {
		return nil, serr
	}
	return prog, nil
}

func (p *parser) source() *Prog {
	g := &Prog{}
	p.want("database")
	g.Name = p.want(IDENT)
	p.want(";")
	for p.k() == "use" {
		g.Exts = append(g.Exts, p.ext())
	}
	for {
		switch p.k() {
		case "table":
			g.Tabs = append(g.Tabs, p.table())
		case "action", ATNAME:
			g.Acts = append(g.Acts, p.action())
		case "init":
			p.want("init")
			p.want("(")
			p.want(")")
			a := Act{Name: "init"}
			a.Stmts = p.body()
			g.Inits++
			if g.Init == nil {
				g.Init = &a
			}
		case EOF:
			return g
		default:
			p.bad()
		}
	}
}

func (p *parser) lit() string {
	if p.k() != NUM && p.k() != STR {
		p.bad()
	}
	s := p.t[p.i].T
	p.i++
	return s
}

func (p *parser) ext() (e Ext) {
	p.want("use")
	e.Name = p.want(IDENT)
	if p.opt("{") {
		for {
			k := p.want(IDENT)
			p.want(":")
			e.Conf = append(e.Conf, KV{k, p.lit()})
			if !p.opt(",") {
				break
			}
		}
		p.want("}")
	}
	p.want("as")
	e.Alias = p.want(IDENT)
	p.want(";")
	return
}

// AttrJSON maps the attribute keyword to the deployed attribute type.
var AttrJSON = map[string]string{"primary": "primary_key", "notnull": "not_null", "unique": "unique", "default": "default",
	"min": "min", "max": "max", "minlen": "min_length", "maxlen": "max_length"}

// AttrKW is the inverse of AttrJSON.
var AttrKW = map[string]string{}

// IdxJSON maps the index keyword to the deployed index type.
var IdxJSON = map[string]string{"primary": "primary", "unique": "unique_btree", "index": "btree"}
var IdxKW = map[string]string{}
var DoJSON = map[string]string{"no_action": "NO ACTION", "cascade": "CASCADE", "set_null": "SET NULL", "set_default": "SET DEFAULT", "restrict": "RESTRICT"}
var DoKW = map[string]string{}
var OnJSON = map[string]string{"on_update": "UPDATE", "on_delete": "DELETE"}
var OnKW = map[string]string{}

func init() {
	for k, v := range AttrJSON {
		AttrKW[v] = k
	}
	for k, v := range IdxJSON {
		IdxKW[v] = k
	}
	for k, v := range DoJSON {
		DoKW[v] = k
	}
	for k, v := range OnJSON {
		OnKW[v] = k
	}
}

func (p *parser) names() (l []string) {
	p.want("(")
	for {
		l = append(l, p.want(IDENT))
		if !p.opt(",") {
			break
		}
	}
	p.want(")")
	return
}

func (p *parser) column() (c Col) {
	c.Name = p.want(IDENT)
	switch p.k() {
	case "int", "text", "blob":
		c.Type = string(p.k())
		p.i++
	default:
		p.bad()
	}
	for {
		switch p.k() {
		case "primary", "notnull", "unique":
			c.Attrs = append(c.Attrs, KV{AttrJSON[string(p.k())], ""})
			p.i++
		case "default", "min", "max", "minlen", "maxlen":
			k := string(p.k())
			p.i++
			p.want("(")
			var v string
			if k == "default" {
				v = p.lit()
			} else {
				v = p.want(NUM)
			}
			p.want(")")
			c.Attrs = append(c.Attrs, KV{AttrJSON[k], v})
		default:
			return
		}
	}
}

func (p *parser) table() (t Tab) {
	p.want("table")
	t.Name = p.want(IDENT)
	p.want("{")
	t.Cols = append(t.Cols, p.column())
	for {
		if p.opt("}") {
			return
		}
		p.want(",")
		switch p.k() {
		case IDENT:
			if t.Order != "" {
				p.bad()
			}
			t.Cols = append(t.Cols, p.column())
		case IDXNAME:
			x := Idx{Name: p.t[p.i].T[1:]}
			p.i++
			switch p.k() {
			case "unique", "index", "primary":
				x.Type = IdxJSON[string(p.k())]
				p.i++
			default:
				p.bad()
			}
			x.Cols = p.names()
			t.Idxs = append(t.Idxs, x)
			t.Order += "i"
		case "foreign_key", "fk":
			p.i++
			var f FK
			f.Child = p.names()
			if !p.opt("references") && !p.opt("ref") {
				p.bad()
			}
			f.Parent = p.want(IDENT)
			f.Keys = p.names()
			for OnJSON[string(p.k())] != "" {
				a := FKAct{On: OnJSON[string(p.k())]}
				p.i++
				p.opt("do")
				a.Do = DoJSON[string(p.k())]
				if a.Do == "" {
					p.bad()
				}
				p.i++
				f.Actions = append(f.Actions, a)
			}
			t.FKs = append(t.FKs, f)
			t.Order += "f"
		case "}":
			p.i++
			return
		default:
			p.bad()
		}
	}
}

func (p *parser) action() (a Act) {
	for p.k() == ATNAME {
		n := Annot{Target: p.t[p.i].T[1:]}
		p.i++
		p.want("(")
		for {
			k := p.want(IDENT)
			p.want("=")
			n.Attrs = append(n.Attrs, KV{k, p.lit()})
			if !p.opt(",") {
				break
			}
		}
		p.want(")")
		a.Annots = append(a.Annots, n)
	}
	p.want("action")
	a.Name = p.want(IDENT)
	p.want("(")
	// parameter? (',' parameter)*
	if p.k() == VAR {
		a.Params = append(a.Params, p.want(VAR))
	}
	for p.opt(",") {
		a.Params = append(a.Params, p.want(VAR))
	}
	p.want(")")
	for {
		switch p.k() {
		case "public", "private", "view", "owner":
			a.Mods = append(a.Mods, string(p.k()))
			p.i++
			continue
		}
		break
	}
	a.Stmts = p.body()
	return
}

func (p *parser) body() (l []Stmt) {
	p.want("{")
	for {
		l = append(l, p.stmt())
		if p.opt("}") {
			return
		}
	}
}

func (p *parser) stmt() (s Stmt) {
	switch p.k() {
	case SQL:
		s.SQL = p.want(SQL)
		p.want(";")
		return
	case VAR:
		s.Recv = append(s.Recv, p.want(VAR))
		for p.opt(",") {
			s.Recv = append(s.Recv, p.want(VAR))
		}
		p.want("=")
	case IDENT:
	default:
		p.bad()
	}
	s.Fn = p.want(IDENT)
	if p.opt(".") {
		s.Ext = s.Fn
		s.Fn = p.want(IDENT)
	}
	p.want("(")
	from := p.i
	if p.k() != ")" && p.k() != "," {
		p.expr()
	}
	for p.opt(",") {
		p.expr()
	}
	if p.k() != ")" {
		p.bad()
	}
	for _, t := range p.t[from:p.i] {
		s.Args = append(s.Args, Tok{K: t.K, T: t.T})
	}
	p.want(")")
	p.want(";")
	return
}

// BinOps are the operators of call-argument expressions; those with value
// false are lexed by the compiler but have no meaning in the action dialect.
var BinOps = map[Kind]bool{"||": false, "*": true, "/": true, "%": true, "+": true, "-": true, "<<": false, ">>": false,
	"&": false, "|": false, "<": true, "<=": true, ">": true, ">=": true, "=": true, "==": false, "!=": true, "<>": true,
	"and": true, "or": true}

func (p *parser) expr() {
	for {
		p.operand()
		if _, ok := BinOps[p.k()]; !ok {
			return
		}
		p.i++
	}
}

func (p *parser) operand() {
	for {
		switch p.k() {
		case "+", "-", "~", "not":
			p.i++
			continue
		}
		break
	}
	switch p.k() {
	case NUM, STR, VAR, ATNAME:
		p.i++
	case "(":
		p.i++
		p.expr()
		p.want(")")
	case IDENT:
		p.i++
		p.want("(")
		if p.k() == "*" {
			p.i++
			p.want(")")
			return
		}
		if p.k() == ")" {
			p.i++
			return
		}
		p.expr()
		for p.opt(",") {
			p.expr()
		}
		p.want(")")
	default:
		p.bad()
	}
}
