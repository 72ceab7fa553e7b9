package checks

import (
	"regexp"
	"strings"

	"kfverif/kf"
	"kfverif/mon"
)

// A joinSweep puts lists of names that are equal once joined (with nothing or
// an underscore between them) at the places of two lists of a program: code
// that knows a list by its joined text takes one for the other.

// <A|form> is the first list, each name in the form, <B|form> the second, <U|form> the names of both.
var joinPrograms = []struct{ ids, src string }{
	{"C01 C02 C09 C10 C11 C15 C18", "database d; table s {<A|% int>, #i unique(<A|%>)} table t {<B|% text>, #i index(<B|%>), #j index(<B|%>)}"},
	{"C01 C16 C18 C26", "database d; table s {<A|% int min(1)>} table u {z int} table t {<B|% int max(2)>}"},
	{"C02 C09 C11 C15 C18", "database d; table s {<U|% int>, #i unique(<A|%>), #j unique(<B|%>), #k primary(<A|%>)}"},
	{"C02 C09 C11 C15 C18", "database d; table s {<U|% int>, fk (<A|%>) ref s (<B|%>)}"},
	{"C02 C09 C11 C18", "database d; table s {<U|% int>, fk (<A|%>) ref t (<B|%>), fk (<B|%>) ref t (<A|%>) on_delete cascade} table t {<U|% text>, fk (<A|%>) ref s (<A|%>)}"},
	{"C02 C11", "database d; table s {<A|% int>, fk (<A|%>) ref t (<B|%>)} table t {<B|% int>, fk (<B|%>) ref s (<A|%>)}"},
	{"C11 C10", "database d; table s {<A|% int>, #i index(<B|%>)}"},
	{"C11", "database d; table s {<A|% int>, fk (<A|%>) ref t (<A|%>)} table t {<B|% int>}"},
	{"C11", "database d; table s {<A|% int>, fk (<B|%>) ref t (<B|%>)} table t {<B|% int>, fk (<B|%>) ref t (<B|%>)}"},
	{"C03 C09 C10 C12 C18", "database d; action a(<A|$%>) public {a(<A|$%>);} action b(<B|$%>) private {a(<B|$%>);}"},
	{"C12", "database d; action a(<A|$%>) public {a(<A|$%>);} action b(<B|$%>) private {a(<A|$%>);}"},
	{"C12", "database d; use e as x; action a(<A|$%>) public {<B|$%> = x.m(<A|$%>); a(<B|$%>);} action b(<B|$%>) private {<A|$%> = x.m(<B|$%>);}"},
	{"C12", "database d; use e as x; action a() public {<A|$%> = x.m(); a(<B|$%>);}"},
	{"C04 C07 C12", "database d; use e as x; action a(<U|$%>) public {a(<A|$%>); a(<B|$%>); <A|$%> = x.m(<B|$%>); <B|$%> = x.m(<A|$%>);} init() {<A|$%> = x.m(); x.m(<A|$%>); <B|$%> = x.m(); x.m(<B|$%>);}"},
	{"C04 C14 C16", "database d; action a(<U|$%>) public {select <A|%> from t where (<A|%>) = (<B|$%>); select <B|%> from t where (<A|%>) = (<B|$%>); insert into t (<A|%>) values (<A|$%>); insert into t (<B|%>) values (<B|$%>);}"},
	{"C05 C09 C18", "database d; use e {<A|%: 1>} as x; use e {<B|%: 1>} as y; use f {<A|a: '%'>} as z; use f {<B|a: '%'>} as w;"},
	{"C05 C10", "database d; <A|use % as %;!> <B|use % as x%;!> "},
	{"C06 C18", "database d; @n(<A|%=1>) @n(<B|%=1>) action a() public {select 1;} @n(<B|%=1>) @m(<A|a='%'>) action b() public {select 1;} @m(<B|a='%'>) action c() public {select 1;}"},
	{"C10 C01 C26", "database d; <A|table % {a int}!> <B|table x% {a text}!>"},
	{"C03 C10 C12", "database d; <A|action %() public {select 1;}!> <B|action x%() private view {select 2;}!>"},
}

var joinSlot = regexp.MustCompile(`<([ABU])\|([^>]*)>`)

func joinFill(src string, a, b []string) string {
	return joinSlot.ReplaceAllStringFunc(src, func(s string) string {
		m := joinSlot.FindStringSubmatch(s)
		l, form := a, m[2]
		switch m[1] {
		case "B":
			l = b
		case "U":
			l = nil
			seen := map[string]bool{}
			for _, n := range append(append([]string{}, a...), b...) {
				if !seen[n] {
					l = append(l, n)
				}
				seen[n] = true
			}
		}
		sep := ", "
		if strings.HasSuffix(form, "!") {
			form, sep = form[:len(form)-1], " "
		}
		var out []string
		for _, n := range l {
			out = append(out, strings.ReplaceAll(form, "%", n))
		}
		return strings.Join(out, sep)
	})
}

// splits gives every way to write a word as n names, with sep between them.
func splits(w, sep string, n int) (l [][]string) {
	if n == 1 {
		return [][]string{{w}}
	}
	for i := 1; i < len(w); i++ {
		if !strings.HasPrefix(w[i:], sep) || i+len(sep) >= len(w) {
			continue
		}
		for _, rest := range splits(w[i+len(sep):], sep, n-1) {
			l = append(l, append([]string{w[:i]}, rest...))
		}
	}
	return
}

func joinSweep(id string) func(c *mon.C) {
	var pairs [][2][]string
	for _, x := range []struct {
		w, sep string
		max    int
	}{{"abcd", "", 3}, {"a_b_c_d", "_", 3}, {"abcdef", "", 5}, {"idnamekey", "", 3}, {"id_na_me_of_x", "_", 4}, {"a_a_a_a", "_", 3}, {"abab", "", 3}} {
		var all [][]string
		for n := 1; n <= x.max; n++ {
			all = append(all, splits(x.w, x.sep, n)...)
		}
		for _, a := range all {
			for _, b := range all {
				if strings.Join(a, ",") != strings.Join(b, ",") {
					pairs = append(pairs, [2][]string{a, b})
				}
			}
		}
	}
	return func(c *mon.C) {
		k := 0
		for _, p := range joinPrograms {
			if !strings.Contains(p.ids, id) {
				continue
			}
			for i, l := range pairs {
				even := len(l[0]) == len(l[1])
				if k++; k%c.Shards != c.Shard || c.Full() || !c.Thorough() && ((even && len(l[0]) > 3 || !even) && (i/8+int(c.Seed))%16 > 0 || even && (i/8+int(c.Seed))%4 > 0) {
					continue
				}
				s := joinFill(p.src, l[0], l[1])
				r, e := kf.Parse(s)
				if e != nil {
					continue
				}
				if kf.Validate(r).OK() {
					c.Count("lists equal when joined, valid", 1)
				} else {
					c.Count("lists equal when joined, faulty", 1)
				}
				c.Judged(s)
				c.Eval("joins" + s)
			}
		}
	}
}
