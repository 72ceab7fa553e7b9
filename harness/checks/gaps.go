package checks

import (
	"regexp"
	"strings"

	"kfverif/kf"
	"kfverif/mon"
)

var gapStmts = []string{
	`select "a b" , x from t where y = 'p q' and z = $v ;`,
	`SELECT a FROM t AS u JOIN w ON u . a = w . b WHERE a >= - 1 ORDER BY a DESC LIMIT 10 ;`,
	`insert into "t u" ( a , b ) values ( 'x y' , @caller ) , ( 'k' , 'l m' ) on conflict ( a ) do nothing ;`,
	`update t set a = a || 'd e' , b = lower ( c ) where [x y] = 3 and d is not null returning * ;`,
	`delete from t where a in ( select b from c where d != 'e  f' ) or g like 'h %' ;`,
	`with q as ( select 1 as x ) select x from q union all select 2 ;`,
}

var gapFills = []string{"", " ", "  ", "   ", "\n", "\n\n", "\n\n\n", "\r\n", "\r\n\r\n", "\r", "\t", "\t\t", " \t ", " \n ", "\n ", " \n", "/* c */", "/**/", " /* c */ ", "/* a\n\n b */",
	"/* a; b */", "/* it's */", "-- c\n", "--\n", "\n-- c d\n", "-- it's\n", "/*x*//*y*/", "/* } */", "/* -- */", "-- /* \n", "\f", "\v", "\u00a0", "\u2003", "// c\n", "/*/*/", "/***/", "/* select 1 */", "-- c\r\n"}

// gapSweep puts white space and comments of every kind at every place of SQL
// statements: between words, within quoted names and texts, before the end.
func gapSweep(c *mon.C) {
	k := 0
	try := func(kind, s string) {
		if k++; k%c.Shards != c.Shard || c.Full() {
			return
		}
		p, e := kf.Parse(s)
		if e != nil {
			return
		}
		if kf.Validate(p).OK() {
			c.Count("gaps, valid", 1)
		} else {
			c.Count("gaps, faulty", 1)
		}
		c.Judged(s)
		c.Eval(kind + s)
	}
	sp := regexp.MustCompile(` +`)
	for si, q := range gapStmts {
		at := sp.FindAllStringIndex(q, -1)
		put := func(m map[int]string) string {
			var b strings.Builder
			last := 0
			for i, a := range at {
				b.WriteString(q[last:a[0]])
				if f, ok := m[i]; ok {
					b.WriteString(f)
				} else {
					b.WriteString(q[a[0]:a[1]])
				}
				last = a[1]
			}
			return b.String() + q[last:]
		}
		in := func(s string, kind int) string {
			switch kind {
			case 0:
				return "database d; action a($v) public {" + s + "}"
			case 1:
				return "database d; action a($v) public {\n\t" + s + "\n\tselect  1;\n}"
			}
			return "database d; action b() private {select 1;} init() {b();" + s + "b(); select  2 ; }"
		}
		for i := range at {
			for f, fill := range gapFills {
				try("gap", in(put(map[int]string{i: fill}), (i+f)%3))
				if !c.Thorough() && (i+f)%2 > 0 {
					continue
				}
				for j := range at {
					for g, fill2 := range gapFills {
						if i != j && (c.Thorough() && (i+j+f+g)%4 == 0 || (i*31+j*17+f*7+g*3+si)%251 == 0) {
							try("gaps", in(put(map[int]string{i: fill, j: fill2}), (i+f+g)%3))
						}
					}
				}
			}
		}
		for f, fill := range gapFills {
			all := map[int]string{}
			for i := range at {
				all[i] = fill
			}
			try("all gaps", in(put(all), f%3))
			try("before", in(fill+q, f%3))
			try("after", in(q+fill, f%3))
		}
	}
}
