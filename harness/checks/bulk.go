package checks

import (
	"fmt"
	"sort"
	"strings"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
)

// bulkDim is one list of a program that can have any number of items.
type bulkDim struct {
	name   string
	max    int
	checks string                 // who looks at the valid programs
	item   func(i int) string     // separated by sep
	sep    string                 //
	wrap   func(n int) [2]string  // what is around
	faults map[string][]bulkFault // by check
}

// bulkFault is a faulty item at place j; i is another place.
type bulkFault func(i, j int) string

func around(a, b string) func(int) [2]string {
	return func(int) [2]string { return [2]string{a, b} }
}

func f1(f string) func(int) string {
	return func(i int) string { return strings.ReplaceAll(f, "%", fmt.Sprint(i)) }
}

// bf: % is the own place, ^ the other one.
func bf(l ...string) (r []bulkFault) {
	for _, f := range l {
		f := f
		r = append(r, func(i, j int) string {
			return strings.ReplaceAll(strings.ReplaceAll(f, "%", fmt.Sprint(j)), "^", fmt.Sprint(i))
		})
	}
	return
}

func cols(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "c%d int, ", i)
	}
	return b.String()
}

func vars(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "$p%d, ", i)
	}
	return strings.TrimSuffix(b.String(), ", ")
}

var bulkDims = []bulkDim{
	{"tables", 4097, "C01 C02 C18", f1("table t% {a% int min(%), b text, #i%q unique(b, a%), fk(b) ref t0(b) on_delete cascade}"), " ", around("database d; ", ""), map[string][]bulkFault{
		"C10": bf("table t^ {a int, b text}", "table t% {a int, b text, a text}", "table t% {a int, b text, #i index(a), #i index(b)}"),
		"C11": bf("table t% {a int, b text, #i index(nosuch)}", "table t% {a int, b text, fk(b) ref nosuch(b)}", "table t% {a int, b text, fk(nosuch) ref t0(b)}", "table t% {a int, b text, fk(b) ref t^(nosuch)}", "table t% {a int, b text, fk(a^) ref t0(b)}"),
		"C13": bf("table t% {a int notnull notnull, b text}", "table t% {a int maxlen(1), b text}", "table t% {a int, b text, fk(b) ref t0(b) on_delete cascade on_delete restrict}"),
	}},
	{"columns", 4097, "C01 C18", f1("c% int min(%) notnull"), ", ", around("database d; table z {a int} table t {", "} table y {a int}"), map[string][]bulkFault{
		"C10": bf("c^ text"),
		"C13": bf("c% text min(1)", "c% int maxlen(1)", "c% int unique notnull unique"),
	}},
	{"indexes", 4097, "C02 C18", f1("#i% index(c, d)"), ", ", around("database d; table t {c int, d text, ", "}"), map[string][]bulkFault{
		"C10": bf("#i^ unique(c)"),
		"C11": bf("#i% index(nosuch)", "#i% index(c, i^)", "#i% unique(d, C0)"),
	}},
	{"index columns", 4097, "C02", f1("c%"), ", ", func(n int) [2]string { return [2]string{"database d; table t {" + cols(n) + "#i primary(", ")}"} }, map[string][]bulkFault{
		"C11": bf("nosuch", "d%"),
	}},
	{"foreign keys", 4097, "C02 C18", f1("fk(c) ref t(d) on_update cascade on_delete set_null"), ", ", around("database d; table t {c int, d text, ", "}"), map[string][]bulkFault{
		"C11": bf("fk(e) ref t(d)", "fk(c) ref s(d)", "fk(c) ref t(e)"),
		"C13": bf("fk(c) ref t(d) on_update cascade on_update cascade"),
	}},
	{"child columns", 4097, "C02", f1("c%"), ", ", func(n int) [2]string {
		l := strings.ReplaceAll(strings.TrimSuffix(cols(n), ", "), " int", "")
		return [2]string{"database d; table t {" + cols(n) + "fk(", ") ref t(" + l + ")}"}
	}, map[string][]bulkFault{"C11": bf("nosuch")}},
	{"parent columns", 4097, "C02", f1("c%"), ", ", func(n int) [2]string {
		l := strings.ReplaceAll(strings.TrimSuffix(cols(n), ", "), " int", "")
		return [2]string{"database d; table t {" + cols(n) + "fk(" + l + ") ref t(", ")}"}
	}, map[string][]bulkFault{"C11": bf("nosuch")}},
	{"actions", 2049, "C03 C04 C07 C18", f1("action a%($x%, $y) owner public view {select %; a0($y, 1);}"), " ", around("database d; init() {select 'init';} ", ""), map[string][]bulkFault{
		"C07": bf("init() {select 2;}"),
		"C10": bf("action a^($x%, $y) public {select 1;}", "action a%($x, $y, $x) public {select 1;}"),
		"C12": bf("action a%($x, $y) public {nosuch(1);}", "action a%($x, $y) public {a^($x^, $z);}", "action a%($x, $y) public {a0($x, @nosuch);}"),
		"C13": bf("action a%($x) public public {select 1;}", "action a%($x) view public view {select 1;}", "action a%($x) owner view owner public {select 1;}"),
		"C14": bf("action a%($x) public {selec 1;}", "action a%($x) public {select sin(1);}"),
	}},
	{"parameters", 4097, "C03", f1("$p%"), ", ", around("database d; action a(", ") public {select $p0; a($p0);}"), map[string][]bulkFault{
		"C10": bf("$p^"),
	}},
	{"statements", 2049, "C04 C07", f1("select % from t; a(%, $x);"), " ", around("database d; use e as e; init() {a(1);} action a($x) public {", "}"), map[string][]bulkFault{
		"C12": bf("nosuch(1);", "a($nosuch);", "a($x^);", "f.m();", "$y, $z, $y = e.m();", "a($y%); $y% = e.m();"),
		"C14": bf("selec 1;", "select sin(1);", "insert;"),
	}},
	{"init statements", 2049, "C04 C07", f1("insert into t (a) values (%);"), " ", around("database d; use e as e; action a($x) public {select 1;} init() {", "}"), map[string][]bulkFault{
		"C12": bf("nosuch(1);", "a($nosuch);", "f.m();", "$y, $y = e.m();"),
		"C14": bf("selec 1;", "select sin(1);"),
	}},
	{"arguments", 2049, "C04", f1("$p%"), ", ", func(n int) [2]string {
		return [2]string{"database d; action a(" + vars(n) + ") public {a(", ");}"}
	}, map[string][]bulkFault{"C12": bf("$q%", "@nosuch", "-$q", "1 + $q", "lower($q%)")}},
	{"function inputs", 1025, "C04 C09", f1("$p%"), ", ", func(n int) [2]string {
		return [2]string{"database d; action a(" + vars(n) + ") public {a(1 + format('x', ", ") , $p0);}"}
	}, map[string][]bulkFault{"C12": bf("$q%", "@nosuch", "-$q", "1 + $q", "lower($q%)")}},
	{"receivers", 2049, "C04", f1("$r%"), ", ", around("database d; use e as e; action a($x) public {", " = e.m($x); a($r0);}"), map[string][]bulkFault{
		"C12": bf("$r^"),
	}},
	{"extensions", 4097, "C05 C18", f1("use e {k%: %, l: 'v%'} as x%;"), " ", around("database d; ", " action a() public {x0.m();}"), map[string][]bulkFault{
		"C10": bf("use f as x^;", "use e {k: 1} as x^;"),
	}},
	{"settings", 4097, "C05", f1("k%: %"), ", ", around("database d; use e as y; use e {", "} as x;"), nil},
	{"annotations", 2049, "C06 C18", f1("@n%(a=%, b='v%')"), " ", around("database d; action z() public {select 1;} ", " action a() public {select 1;}"), nil},
	{"annotation attributes", 4097, "C06", f1("a%='v%'"), ", ", around("database d; @n(", ") action a() public {select 1;}"), nil},
	{"modifiers apart", 1025, "C03", f1("/* % */"), " ", around("database d; action a() owner ", " view public {select 1;}"), nil},
	// one long item of n parts
	{"string", 70000, "C01 C18", f1("%"), "-", around("database d; table t {a text default('", "') notnull, b int}"), nil},
	{"number", 20000, "C01", f1("%"), "", around("database d; table t {b int min(1", ") notnull, c int}"), nil},
	{"setting string", 70000, "C05", f1("%"), "-", around("database d; use e {a: 1, b: '", "', c: 2} as x;"), nil},
	{"annotation string", 70000, "C06", f1("%"), "-", around("database d; @n(a=1, b='", "', c=2) action a() public {select 1;}"), nil},
	{"SQL string", 70000, "C04 C07", f1("%"), "-", around("database d; action b() public {select '", "';} init() {select 'x' from y where z = '"+strings.Repeat("long", 70)+"';} action a() public {select 1;}"), nil},
	{"SQL list", 3000, "C04", f1("'x%', $x"), ", ", around("database d; action b($x) public {select ", " from t where a = 2; select 1;}"), map[string][]bulkFault{
		"C14": bf("sin(%)", "selec 1 2", "(select sin(%))"),
	}},
	{"database name", 20000, "C01", f1("%"), "_", around("database d", "; table t {a int}"), nil},
	{"table name", 20000, "C01 C02", f1("%"), "_", around("database d; table u {a int} table t", "{a int, #i index(a), fk(a) ref u(a)} table v {a int}"), nil},
	{"column name", 20000, "C01", f1("%"), "_", around("database d; table u {a int} table t {b text, a", " int, c text}"), nil},
	{"action name", 20000, "C03", f1("%"), "_", around("database d; action u() public {u();} action a", "() view private {select 1;} action v() public {u();}"), nil},
	{"parameter name", 20000, "C03", f1("%"), "_", around("database d; action u($b, $a", ", $c) public {u();}"), nil},
	{"alias", 20000, "C05", f1("%"), "_", around("database d; use e as y; use e {a: 1} as x", "; use e as z;"), nil},
	{"annotation name", 20000, "C06", f1("%"), "_", around("database d; @n", "(a=1) @m(a='b') action a() public {select 1;}"), nil},
}

func (d *bulkDim) text(n int, over map[int]string) string {
	w := d.wrap(n)
	var b strings.Builder
	b.WriteString(w[0])
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(d.sep)
		}
		if s, ok := over[i]; ok {
			b.WriteString(s)
		} else {
			b.WriteString(d.item(i))
		}
	}
	b.WriteString(w[1])
	return b.String()
}

// bulk gives the check programs in which one list or word has more parts than
// anything else makes, at sizes where something might change, valid ones and
// ones with a fault far down.
func bulkSweep(id string) func(c *mon.C) {
	return func(c *mon.C) {
		k := 0
		for di := range bulkDims {
			d := &bulkDims[di]
			top := d.max
			sizes := []int{200, 256, 257, 310, 513, 1000, 1025}
			for _, n := range gen.Sizes(top) {
				if c.Thorough() && n > 200 || n > 1025 && (n == 2049 || n == 4097 || n == 5000 || n == 10000 || n > 65535) {
					sizes = append(sizes, n)
				}
			}
			sort.Ints(sizes)
			for si, n := range sizes {
				try0 := func(n int, over map[int]string, faulty bool) {
					if k++; k%c.Shards != c.Shard || c.Full() {
						return
					}
					s := d.text(n, over)
					p, e := kf.Parse(s)
					if e != nil {
						if faulty && id == "C14" {
							return
						}
						panic("HARNESS: bulk " + d.name + " does not parse: " + fmt.Sprint(e.Line, e.Col) + ": " + mon.Clip(s, 300))
					}
					if v := kf.Validate(p); v.OK() == faulty && p.Inits < 2 {
						panic(fmt.Sprintf("HARNESS: bulk %s: %v %v: %s", d.name, v.Faults, over, mon.Clip(s, 300)))
					}
					c.Judged(s)
					c.Count("bulk: "+d.name, 1)
					c.Max("max bulk items", int64(n))
					c.Eval(fmt.Sprint("bulk", d.name, n, over))
				}
				try := func(over map[int]string, faulty bool) { try0(n, over, faulty) }
				if strings.Contains(d.checks, id) || id == "C09" && si%3 == di%3 || d.faults[id] != nil && si%2 == 0 {
					try(nil, false)
				}
				if si == len(sizes)-1 && d.faults[id] != nil { // where a new number of the source says
					for _, x := range gen.FreshInts() {
						for j := max(x-2, 0); j <= x+1 && x < 2000; j++ {
							n := n
							for fi, f := range d.faults[id] {
								n = x + 3 + fi*30
								try0(n, map[int]string{j: f((j+n/2)%n, j)}, true)
								try0(n, map[int]string{n - 1: f(j, n-1)}, true)
							}
						}
					}
				}
				if n == 310 && d.faults[id] != nil { // at every place
					for j := 1; j < n; j++ {
						l := d.faults[id]
						try(map[int]string{j: l[j%len(l)]([]int{0, j - 1, j / 2, (j + 7) % n}[(j/len(l)+int(c.Seed))%4], j)}, true)
					}
				}
				for fi, f := range d.faults[id] {
					for pi, at := range [][2]int{{0, n - 1}, {n - 2, n - 1}, {1, n / 2}, {n - 1, n - 2}, {n / 2, n - 3}} {
						if !c.Thorough() && (pi+fi+si)%3 != 0 {
							continue
						}
						try(map[int]string{at[1]: f(at[0], at[1])}, true)
					}
				}
			}
		}
	}
}

func both(l ...func(*mon.C)) func(*mon.C) {
	return func(c *mon.C) {
		for _, f := range l {
			f(c)
		}
	}
}
