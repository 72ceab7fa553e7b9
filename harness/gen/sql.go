package gen

import (
	"fmt"
	"strings"

	"kfverif/kf"
)

// SQL makes a valid SQL statement (no ';' and no '}' inside). Validity is
// confirmed against the SQL dependency.
func (g *G) SQL(p *kf.Prog, vars []string) string {
	for i := 0; i < 20; i++ {
		s := g.sql(p, vars)
		if strings.ContainsAny(s, ";}") {
			continue
		}
		if t, e := kf.Lex(s + ";"); len(e) > 0 || t[0].K != kf.SQL || len(t) != 3 {
			continue
		}
		if kf.SQLOK(s + ";") {
			return s
		}
	}
	return "select 1"
}

type sq struct {
	g    *G
	p    *kf.Prog
	vars []string
	dep  int
}

func (g *G) sql(p *kf.Prog, vars []string) string {
	q := &sq{g: g, p: p, vars: vars}
	var s string
	switch g.n(10) {
	case 0, 1, 2:
		s = q.sel(0)
	case 3, 4:
		s = q.ins()
	case 5, 6:
		s = q.upd()
	case 7:
		s = q.del()
	default:
		s = "with " + q.id() + " as (" + q.sel(1) + ") "
		switch g.n(4) {
		case 0:
			s += q.ins()
		case 1:
			s += q.upd()
		case 2:
			s += q.del()
		default:
			s += q.sel(0)
		}
	}
	return g.lengthen(g.dressSQL(s))
}

// lengthen makes a statement long, if long ones are wanted, without changing
// what it is.
func (g *G) lengthen(s string) string {
	n := 0
	switch {
	case g.Big == "sqllen" && g.p(60):
		n = g.BigN
	case g.p(1):
		n = g.oddSize(9000)
	}
	n -= len(s)
	i := strings.IndexByte(s, ' ')
	if n < 6 || i < 0 || i > 8 || strings.ContainsAny(s[:i], "'\"-/") {
		return s
	}
	var fill string
	switch g.n(3) {
	case 0:
		fill = strings.Repeat(" ", n)
	case 1:
		fill = " /*" + strings.Repeat("x", n-5) + "*/"
	default:
		fill = strings.Repeat("\n", n/2) + strings.Repeat("\t", n-n/2)
	}
	if lit := strings.LastIndex(s, "'a'"); lit > 0 && g.p(60) { // a long literal
		return s[:lit+1] + strings.Repeat("a", n) + s[lit+1:]
	}
	return s[:i] + fill + s[i:]
}

// dressSQL varies keyword case, white space and comments outside quotes.
func (g *G) dressSQL(s string) string {
	mode := g.n(6)
	if mode == 0 {
		return s
	}
	var b strings.Builder
	i, first := 0, true
	for i < len(s) {
		c := s[i]
		if c == '\'' || c == '"' {
			j := strings.IndexByte(s[i+1:], c)
			if j < 0 {
				return s
			}
			b.WriteString(s[i : i+j+2])
			i += j + 2
			continue
		}
		if c == ' ' {
			switch {
			case mode >= 2 && g.p(30):
				w := g.pick("  ", "\n", "\t", " \n ", "\r\n", "   ")
				if !first && g.p(20) {
					w += g.pick("/* c */ ", "-- note\n", "/* 'q */ ", "-- a 'b\n", "/* select */ ", "/* {(,)* */ ")
				}
				b.WriteString(w)
			default:
				b.WriteByte(' ')
			}
			first = false
			i++
			continue
		}
		j := i
		for j < len(s) && (s[j] >= 'a' && s[j] <= 'z') {
			j++
		}
		if j > i {
			w := s[i:j]
			prev := byte(' ')
			if i > 0 {
				prev = s[i-1]
			}
			if mode >= 4 && sqlWord[w] && (prev == ' ' || prev == '(') {
				if mode == 4 {
					w = strings.ToUpper(w)
				} else if g.p(50) {
					w = strings.ToUpper(w[:1]) + w[1:]
				}
			}
			b.WriteString(w)
			i = j
			continue
		}
		b.WriteByte(c)
		i++
	}
	out := b.String()
	switch g.n(12) {
	case 0:
		out += " "
	case 1:
		out += "\n\t"
	case 2:
		out += " -- end\n"
	}
	return out
}

var sqlWord = map[string]bool{}

func init() {
	for _, w := range strings.Fields("select from where insert into values update set delete with as join on and or not in like is null order by limit offset group having union all case when then else end between returning asc desc inner left distinct") {
		sqlWord[w] = true
	}
}

var sqlRes = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`add all and asc as between by case collate commit conflict create cross default delete desc distinct do else end
 escape except exists false filter first from full groups group having inner insert intersect into in isnull is join last left like limit nothing notnull
 not nulls null offset of on order or outer raise replace returning right select set then true union update using values when where with`) {
		sqlRes[w] = true
	}
}

func (q *sq) id() string {
	for {
		s := q.g.rawName()
		if !sqlRes[strings.ToLower(s)] && len(s) < 40 {
			if q.g.p(5) {
				return `"` + s + `"`
			}
			return s
		}
	}
}
func (q *sq) table() string {
	if q.p != nil && len(q.p.Tabs) > 0 && q.g.p(85) {
		s := q.p.Tabs[q.g.n(len(q.p.Tabs))].Name
		if !sqlRes[strings.ToLower(s)] {
			return s
		}
	}
	return q.id()
}
func (q *sq) col() string {
	if q.p != nil && len(q.p.Tabs) > 0 && q.g.p(80) {
		t := q.p.Tabs[q.g.n(len(q.p.Tabs))]
		if len(t.Cols) > 0 {
			s := t.Cols[q.g.n(len(t.Cols))].Name
			if !sqlRes[strings.ToLower(s)] {
				return s
			}
		}
	}
	return q.id()
}
func (q *sq) str() string {
	if q.g.p(3) || q.g.fresh(15) {
		if s := q.g.dictRaw(); !strings.ContainsAny(s, "';}\"\\\x00") {
			return "'" + q.g.pick("", "a ", "x") + s + q.g.pick("", " b", "1") + "'"
		}
	}
	return q.g.pick("''", "'a'", "'it''s'", "'x y'", "'é世'", `'\'`, "'a b -- c'", "'/* */'", "'@caller'", "'$x'", "'<&>'", "'%'", "\"q\"", "'\n'")
}
func (q *sq) bind() string {
	if len(q.vars) > 0 && q.g.p(70) {
		return q.vars[q.g.n(len(q.vars))]
	}
	return q.g.pick("@caller", "$v", "@block_height", "@caller")
}
func (q *sq) expr(d int) string {
	g := q.g
	if d <= 0 {
		switch g.n(6) {
		case 0:
			return fmt.Sprint(g.n(1000))
		case 1:
			return q.str()
		case 2, 3:
			return q.bind()
		case 4:
			return g.pick("null", "true", "false", "1", "0", "1.5", "-3", "0x1F")
		default:
			return q.col()
		}
	}
	switch g.n(12) {
	case 0, 1:
		return q.expr(d-1) + " " + g.pick("+", "-", "*", "/", "%") + " " + q.expr(d-1)
	case 2, 3:
		return q.expr(d-1) + " " + g.pick("=", "<", "<=", ">", ">=", "!=", "<>") + " " + q.expr(d-1)
	case 4:
		return q.expr(d-1) + " " + g.pick("and", "or") + " " + q.expr(d-1)
	case 5:
		return "not " + q.expr(d-1)
	case 6:
		return g.pick("lower", "upper", "abs", "length") + "(" + q.expr(d-1) + ")"
	case 7:
		return "(" + q.expr(d-1) + ")"
	case 8:
		return q.col() + " in (" + q.expr(0) + ", " + q.expr(0) + ")"
	case 9:
		return q.col() + " is null"
	case 10:
		return "case when " + q.expr(d-1) + " then " + q.expr(0) + " else " + q.expr(0) + " end"
	default:
		return q.col() + " like " + q.str()
	}
}
func (q *sq) where() string {
	if q.g.p(60) {
		return " where " + q.expr(q.g.n(3))
	}
	return ""
}
func (q *sq) sel(d int) string {
	g := q.g
	s := "select "
	if g.p(10) {
		s += "distinct "
	}
	switch g.n(5) {
	case 0, 1:
		s += "*"
	case 2:
		if g.p(70) {
			s += g.pick("count(*)", "sum(a)", "count(a)", "format('%s', 1)")
		} else {
			s += "count(distinct " + q.col() + ")"
		}
	default:
		for i, n := 0, g.between(1, 3); i < n; i++ {
			if i > 0 {
				s += ", "
			}
			s += q.expr(g.n(2))
			if g.p(20) {
				s += " as " + q.id()
			}
		}
	}
	if g.p(85) {
		s += " from "
		if d == 0 && g.p(10) {
			s += "(" + q.sel(1) + ")"
		} else {
			t := q.table()
			s += t
			if g.p(25) {
				u := q.table()
				s += g.pick(" join ", " inner join ", " left join ") + u + " on " + t + "." + q.col() + " = " + u + "." + q.col()
			}
		}
		s += q.where()
		if g.p(10) {
			s += " group by " + q.col()
		}
	}
	if d == 0 && g.p(10) {
		s += g.pick(" union ", " union all ", " except ", " intersect ") + "select " + q.expr(0)
	}
	if d == 0 && g.p(20) {
		s += " order by " + q.col() + g.pick("", " asc", " desc")
	}
	if d == 0 && g.p(15) {
		s += " limit " + fmt.Sprint(g.n(50))
	}
	return s
}
func (q *sq) ins() string {
	g := q.g
	s := "insert into " + q.table()
	n := g.between(1, 3)
	if g.p(70) {
		var c []string
		for i := 0; i < n; i++ {
			c = append(c, q.col())
		}
		s += " (" + strings.Join(c, ", ") + ")"
	}
	s += " values "
	for r, m := 0, g.between(1, 2); r < m; r++ {
		if r > 0 {
			s += ", "
		}
		var v []string
		for i := 0; i < n; i++ {
			v = append(v, q.expr(g.n(2)))
		}
		s += "(" + strings.Join(v, ", ") + ")"
	}
	if g.p(10) {
		s += " on conflict do nothing"
	}
	if g.p(10) {
		s += " returning *"
	}
	return s
}
func (q *sq) upd() string {
	s := "update " + q.table() + " set "
	for i, n := 0, q.g.between(1, 3); i < n; i++ {
		if i > 0 {
			s += ", "
		}
		s += q.col() + " = " + q.expr(q.g.n(2))
	}
	return s + q.where()
}
func (q *sq) del() string { return "delete from " + q.table() + q.where() }

// BadSQLStmt is a statement the language documentation forbids, or that is not
// SQL at all; it must never be accepted. The label names the rule.
func (g *G) BadSQLStmt() (label, s string) {
	t, a, b := "t1", "a", "b"
	fns := strings.Fields("random randomblob changes last_insert_rowid total_changes acos acosh asin asinh atan atan2 atanh ceil ceiling cos cosh degrees exp floor ln log log10 log2 mod pi pow power radians sin sinh sqrt tan tanh trunc")
	times := strings.Fields("date datetime time julianday unixepoch strftime")
	args := func(f string) string {
		switch f {
		case "random", "changes", "last_insert_rowid", "total_changes", "pi":
			return "()"
		case "atan2", "mod", "pow", "power":
			return "(" + a + ", 2)"
		case "randomblob":
			return "(8)"
		case "strftime":
			return "('%s', 'now')"
		}
		for _, x := range times {
			if x == f {
				return "('now')"
			}
		}
		return "(" + a + ")"
	}
	k := g.n(10)
	switch {
	case k < 5:
		f := fns[g.n(len(fns))]
		if g.p(25) {
			f = times[g.n(len(times))]
		}
		call := f + args(f)
		if g.p(20) {
			call = strings.ToUpper(f) + args(f)
		}
		label = "function " + f
		switch g.n(9) {
		case 0:
			s = "select " + call + " from " + t
		case 1:
			s = "insert into " + t + " (" + a + ") values (" + call + ")"
		case 2:
			s = "update " + t + " set " + a + " = " + call
		case 3:
			s = "delete from " + t + " where " + a + " = " + call
		case 4:
			s = "with c as (select " + call + ") select * from c"
		case 5:
			s = "select * from " + t + " where " + a + " in (select " + call + " from " + t + ")"
		case 6:
			s = "select " + a + " from " + t + " order by " + call
		case 7:
			s = "select 1 union select " + call
		default:
			s = "select abs(" + call + ") from " + t
		}
	case k < 7:
		label = "join"
		s = g.pick(
			"select * from "+t+" cross join t2",
			"select * from "+t+" natural join t2",
			"select * from "+t+", t2",
			"select * from "+t+" join t2 on true",
			"select * from "+t+" join t2 on 1 = 1",
			"select * from "+t+" join t2",
			"select * from "+t+" join t2 on t1.a > t2.a",
			"select * from "+t+" join t2 on t1.a = t2.a and t1.b = t2.b",
			"select * from "+t+" join t2 on t1.a = t2.a or t1.b = t2.b",
			"update "+t+" set a = 1 from t2 join t3 on true",
			"with c as (select * from "+t+" cross join t2) select * from c")
	default:
		label = "not SQL"
		s = g.pick(
			"select from "+t,
			"select * form "+t,
			"insert "+t+" values (1)",
			"insert into "+t+" (a, b values (1, 2)",
			"insert into "+t+" values ()",
			"insert into "+t,
			"update "+t+" a = 1",
			"update set a = 1",
			"delete "+t,
			"delete from "+t+" where",
			"with c select 1",
			"select 1 2 3",
			"select (1",
			"select 1)",
			"select * from "+t+" where a == 1",
			"select * from "+t+" limit",
			"select * from "+t+" order a",
			"select unknown_fn(1)",
			"select 'abc",
			"select 1 £",
			"select a from "+t+" create table x",
			"with c as (drop table "+t+") select 1",
			"select a b from "+t,
			"select * from "+t+" group by",
			"insert into "+t+" values (1) on conflict",
			"update "+t+" set a = 1, where b = 2")
	}
	_ = b
	if g.p(20) && strings.Contains(s, " ") {
		s = strings.Replace(s, " ", g.pick("\n", "  ", "\t", " /* c */ "), 1)
	}
	return label, s
}
