package checks

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"

	"kfverif/kf"
	"kfverif/mon"
)

// remarkSweep: comments of every first and last character, at the beginning,
// the end and between the tokens of small programs.
func remarkSweep(c *mon.C) {
	var bodies []string
	for r := rune(1); r < 127; r++ {
		if r == '\n' || r == '\r' {
			continue
		}
		bodies = append(bodies, string(r))
		if strings.ContainsRune("\\/*'\"-#@${}();,.=", r) {
			for _, q := range "\\/*'\"-" {
				bodies = append(bodies, string(r)+string(q))
			}
		}
	}
	bodies = append(bodies, "", "é", "世", "\u00a0", "\u2028", "\u0085", "\ufeff", "\U0001f600", "database d;", "TODO", "end", "EOF", "\\n", "\\\\", "go:build x", "#!sh", "-*- x -*-", "vim: x", "<!--", "-->", "?>", "%>", "line 1 \"x\"", "include x", "region", "nolint", "@formatter:off", "$Id$", "/*/", "/**", "**")
	progs := []string{"database d; table t { a int , #i index(a) , fk(a) ref t(a) } use e { k : 'v' } as f ; @n(x = 1) action a($p) public view { select 1 ; f.m($p) ; } init() { a(1) ; }",
		"database d; table t { a int min( 1 ) notnull }", "database d;", "database d; action a() public { select 1; } table t { a int b }", "database d; table t { a int } action a() public { b(); }"}
	k := 0
	for bi, body := range bodies {
		for fi, form := range []string{"//%s\n", "// x%s\n", "//%s x\n", "//%s\r", "//%s\r\n", "/*%s*/", "/* x %s*/", "/*\n%s\n*/", "//%s", "// x%s", "//\n//%s"} {
			for pi, p := range progs {
				toks, errs := kf.Lex(p)
				if len(errs) > 0 {
					continue
				}
				for _, at := range []int{0, 1 + (bi*7+fi)%(len(toks)-1), len(toks)} {
					if k++; k%c.Shards != c.Shard || c.Full() {
						continue
					}
					if pi > 0 && (bi+fi+pi+at)%4 != 0 {
						continue
					}
					s := fmt.Sprintf(form, body)
					src := p + s
					if !strings.HasSuffix(s, "/") && !strings.ContainsAny(s[len(s)-1:], "\r\n") && at < len(toks) {
						continue // it would go on
					}
					if at < len(toks)-1 {
						r := []rune(p)
						src = string(r[:toks[at].Pos]) + s + string(r[toks[at].Pos:])
					}
					if got, errs := kf.Lex(src); len(errs) > 0 || len(got) != len(toks) {
						continue // within an SQL statement, or no comment
					}
					c.Judged(src)
					c.Count("comments of all kinds", 1)
					c.Eval("remark" + src)
				}
			}
		}
	}
}

// fkSweep: every foreign key of up to three child and three parent columns,
// also of different numbers, to its own and to another table.
func fkSweep(c *mon.C) {
	var lists []string
	var rec func(l []string)
	rec = func(l []string) {
		if len(l) > 0 {
			lists = append(lists, strings.Join(l, ", "))
		}
		if len(l) < 3 {
			for _, n := range []string{"a", "b", "c"} {
				rec(append(l[:len(l):len(l)], n))
			}
		}
	}
	rec(nil)
	k := 0
	for i, x := range lists {
		for j, y := range lists {
			for q, form := range []string{
				"database d; table t { a int, b int, fk(%s) ref t(%s) }",
				"database d; table t { a int, b int, fk(%s) ref p(%s) on_delete cascade } table p { b int, c int }",
				"database d; table p { b int, a int, #c index(a) } table t { c int, b int, fk(c) ref p(a), fk(%s) ref p(%s) }",
			} {
				if k++; k%c.Shards != c.Shard || c.Full() || q == 2 && (i+j)%3 > 0 {
					continue
				}
				src := fmt.Sprintf(form, x, y)
				c.Judged(src)
				c.Count("small foreign keys", 1)
				c.Eval(src)
			}
		}
	}
}

// handNames: every list of up to three names out of some that are much alike,
// as the names of all things in schemas made by hand.
func handNames(c *mon.C) {
	names := []string{"init", "Init", "INIT", "", "a", "A", "a ", " a", "_a", "a1", "$a", "#a", "current", "@caller"}
	k := 0
	var rec func(l []string)
	rec = func(l []string) {
		if len(l) > 1 {
			for what := 0; what < 6; what++ {
				if k++; k%c.Shards != c.Shard || c.Full() {
					continue
				}
				s := schema.Schema{Name: "d", Tables: []schema.Table{{Name: "zz", Columns: []schema.Column{{Name: "zc", Type: schema.ColInt}}}}, Actions: []schema.Action{{Name: "zz", Statements: []string{"select 1;"}}}}
				for _, n := range l {
					switch what {
					case 0:
						s.Tables = append(s.Tables, schema.Table{Name: n, Columns: []schema.Column{{Name: "a", Type: schema.ColInt}}})
					case 1:
						s.Actions = append(s.Actions, schema.Action{Name: n, Mutability: schema.MutabilityUpdate, Statements: []string{"select 1;"}})
					case 2:
						s.Extensions = append(s.Extensions, schema.Extension{Name: "e", Alias: n})
						if n == "" { // then the name counts
							s.Extensions[len(s.Extensions)-1].Name = "q"
						}
					case 3:
						s.Tables[0].Columns = append(s.Tables[0].Columns, schema.Column{Name: n, Type: schema.ColText})
					case 4:
						s.Tables[0].Indexes = append(s.Tables[0].Indexes, schema.Index{Name: n, Columns: []string{"zc"}, Type: schema.IdxBtree})
					case 5:
						s.Actions[0].Inputs = append(s.Actions[0].Inputs, n)
					}
				}
				b, _ := json.Marshal(s)
				c.Judged(string(b))
				c.Count("names by hand", 1)
				c.Eval("names" + string(b))
			}
		}
		if len(l) < 3 {
			for _, n := range names {
				rec(append(l[:len(l):len(l)], n))
			}
		}
	}
	rec(nil)
}

// patience: a program that takes many seconds to compile is a program like
// any other.
func patience(c *mon.C) {
	if c.Shard != c.Shards-1 || c.Full() {
		return
	}
	n := 100000
	if c.Thorough() {
		n = 400000
	}
	var b strings.Builder
	b.WriteString("database d;")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "table t%d { a int, b text notnull, c blob default('x'), #i index(a, b), fk(a) ref t%d(a) on_update cascade }", i, i)
	}
	src := b.String()
	begin := time.Now()
	s, err := kfparser.Parse(src)
	c.Max("milliseconds for the slowest program", time.Since(begin).Milliseconds())
	if d, ok := s.(*schema.Schema); err != nil || !ok || len(d.Tables) != n || len(d.Tables[n-1].ForeignKeys) != 1 {
		c.Fail("patience", fmt.Sprintf("a valid program of %d tables, which took %v, was not compiled completely: %v", n, time.Since(begin), err), mon.Clip(src, 4000), nil)
	}
	c.Eval("patience")
}
