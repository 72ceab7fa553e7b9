package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/kwilteam/kuneiform/schema"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
	"kfverif/sut"
)

// semJudge decides one group of fault classes: a program with such a fault is
// rejected, and a valid program is not rejected for such a fault. Both when
// compiled from text and when the schema is built by hand and validated.
func semJudge(classes ...string) func(string) string {
	set := map[string]bool{}
	for _, c := range classes {
		set[c] = true
	}
	textOnly := map[string]bool{kf.MultiInit: true, kf.VisSet: true, kf.MutSet: true, kf.AuxSet: true}
	return func(src string) string {
		if strings.HasPrefix(src, "{") { // a schema made by hand
			return handJudge(set, src)
		}
		p, e := kf.Parse(src)
		if e != nil {
			return ""
		}
		v := kf.Validate(p)
		o := sut.Compile(src)
		var hit, hand string
		for i, f := range v.Faults {
			if set[f] {
				if hit == "" {
					hit = f + " (" + v.Where[i] + ")"
				}
				if !textOnly[f] && hand == "" {
					hand = hit
				}
			}
		}
		if hit != "" && o.Err == nil && o.Panic == nil {
			return "accepted in spite of " + hit
		}
		if v.OK() && !o.OK() {
			for _, w := range sut.Which(o.Err) {
				if set[w] {
					return "a valid program was rejected for " + w + ": " + mon.Clip(o.Failure(), 300)
				}
			}
			if set[kf.BadSQL] && len(sut.Which(o.Err)) == 0 {
				return "a valid program was rejected: " + mon.Clip(o.Failure(), 300)
			}
		}
		if v.OK() || hand != "" {
			err, pan := sut.ValidateJSON(sut.Handmade(p))
			switch {
			case hand != "" && err == nil && pan == nil:
				return "a schema built by hand passes validation in spite of " + hand
			case v.OK() && pan != nil:
				return fmt.Sprintf("validating a valid schema built by hand panics: %v", pan)
			case v.OK() && err != nil:
				for _, w := range sut.Which(err) {
					if set[w] {
						return "a valid schema built by hand was rejected for " + w + ": " + mon.Clip(err.Error(), 300)
					}
				}
			}
		}
		if hand != "" {
			return stripped(p, set, textOnly, seedOf(src))
		}
		return ""
	}
}

// stripped: schemas built by hand need not have all that the language demands
// (actions without statements, tables without columns). What is wrong with
// the rest is wrong all the same.
func stripped(p *kf.Prog, set, textOnly map[string]bool, seed int64) string {
	r := rand.New(rand.NewSource(seed))
	for k := 0; k < 4; k++ {
		q := gen.Clone(p)
		mask := 1 + r.Intn(63)
		for i := range q.Tabs {
			t := &q.Tabs[i]
			if mask&1 != 0 && r.Intn(3) > 0 {
				t.Cols = nil
			}
			if mask&2 != 0 {
				t.Idxs = nil
			}
			if mask&4 != 0 {
				t.FKs = nil
			}
		}
		for i := range q.Acts {
			a := &q.Acts[i]
			if mask&8 != 0 {
				a.Stmts = nil
			}
			if mask&16 != 0 {
				a.Annots, a.Mods = nil, nil
			}
		}
		if mask&32 != 0 {
			for i := range q.Exts {
				q.Exts[i].Conf = nil
			}
		}
		v := kf.Validate(q)
		for i, f := range v.Faults {
			if set[f] && !textOnly[f] {
				if err, pan := sut.ValidateJSON(sut.Handmade(q)); err == nil && pan == nil {
					return "a schema built by hand without " + fmt.Sprint(mask) + " passes validation in spite of " + f + " (" + v.Where[i] + ")"
				}
				break
			}
		}
	}
	return ""
}

func semCase(classes []string, focus gen.Opt) func(*mon.C, int) {
	return func(c *mon.C, i int) {
		g := c.G()
		o := focus
		if i%10 >= 6 {
			o = gen.Full
		}
		p := g.Prog(o)
		what := "valid"
		if i%4 != 0 {
			class := classes[g.R.Intn(len(classes))]
			if q := g.Inject(p, class); q != nil {
				p, what = q, class
			} else {
				c.Count("not planted: "+class, 1)
			}
		}
		src := g.Text(p)
		selfCheck(src, p)
		c.Judged(src)
		c.Count("case: "+what, 1)
		c.Eval(what + shape(p))
		if len(src) < 500 {
			c.Sample(map[string]string{"fault": what, "source": src})
		}
	}
}

const ruleSem = "random valid programs, three in four with one planted fault of the property's classes at a random place (names chosen as near misses: other case, other name space, " +
	"out of scope); an independent reference validator says which faults a text has. Judged from text and as a hand-built schema given to the exported validator. " +
	"Two cases are distinct when fault class and declaration structure differ. "

// ruleSweeps is said of the checks that have the sweeps.
const ruleSweeps = "Also lists of up to 4,097 items and words of up to 70,000 bytes at sizes where something might change (faults far down and at every place), and small programs in which every name or literal is made of another one. "

const ruleHand = "And schemas made by hand with any strings as names, which are equal once joined with some separator. "

func floors(classes []string, n int64) map[string]int64 {
	m := map[string]int64{"case: valid": n}
	for _, c := range classes {
		m["case: "+c] = n
	}
	return m
}

func init() {
	names := []string{kf.DupExt, kf.DupTable, kf.DupColumn, kf.DupIndex, kf.DupAction, kf.DupParam}
	reg(&mon.Check{ID: "C10", Rule: ruleSem + ruleSweeps + ruleHand + "Also exhaustively: every list of up to three extensions over two names with or without alias, and every pair of equal names in wide declarations.",
		Quick: 12000, Thorough: 1000000, Floors: floors(names, 200), Judge: semJudge(names...),
		Case: semCase(names, gen.Opt{MinTabs: 1, MaxTabs: 4, MaxCols: 6, Idx: true, MinActs: 1, MaxActs: 4, MaxExts: 4, Params: true, SQL: true, MaxStmts: 1, MaxList: 5}),
		Once: extNames, OnceShard: both(pairSweep, handNames, bulkSweep("C10"), relateSweep("C10"), handSweep(12000, names...))})

	refs := []string{kf.TableNF, kf.ColumnNF}
	reg(&mon.Check{ID: "C11", Rule: ruleSem + ruleSweeps + ruleHand, Quick: 12000, Thorough: 1000000, Floors: floors(refs, 500), Judge: semJudge(refs...),
		Case:      semCase(refs, gen.Opt{MinTabs: 1, MaxTabs: 4, MaxCols: 6, Idx: true, FK: true, MaxList: 4}),
		OnceShard: both(refSweep, fkSweep, bulkSweep("C11"), relateSweep("C11"), handSweep(12000, refs...))})

	calls := []string{kf.ActionNF, kf.ExtNF, kf.VarNF, kf.DupVar}
	reg(&mon.Check{ID: "C12", Rule: ruleSem + ruleSweeps + ruleHand, Quick: 12000, Thorough: 1000000, Floors: floors(calls, 500), Judge: semJudge(calls...),
		Case:      semCase(calls, gen.Opt{MaxTabs: 1, MaxCols: 3, MinActs: 1, MaxActs: 4, MaxExts: 3, Params: true, Calls: true, Init: true, MaxStmts: 5, MaxList: 4}),
		OnceShard: both(varSweep, bulkSweep("C12"), relateSweep("C12"), handSweep(12000, calls...))})

	conf := []string{kf.AttrNA, kf.DupAttr, kf.DupFKAct, kf.VisSet, kf.MutSet, kf.AuxSet}
	reg(&mon.Check{ID: "C13", Rule: ruleSem + ruleSweeps + ruleHand + "Also exhaustively: every attribute sequence of up to three on every column type, every modifier sequence of up to four, every foreign key trigger sequence of up to two.",
		Quick: 10000, Thorough: 1000000, Floors: floors(conf, 200), Judge: semJudge(conf...),
		Case:      semCase(conf, gen.Opt{MinTabs: 1, MaxTabs: 3, MaxCols: 5, Attrs: true, FK: true, MinActs: 1, MaxActs: 3, Mods: true, SQL: true, MaxStmts: 1, MaxList: 2}),
		OnceShard: both(conflictSweep, bulkSweep("C13"), relateSweep("C13"), handSweep(12000, conf...))})

	bad := []string{kf.BadSQL}
	j := semJudge(bad...)
	reg(&mon.Check{ID: "C14", Rule: "random valid programs with random SQL in actions and init; two in three get one statement at a random place that the documentation forbids " +
		"(scalar, mathematical and date functions, cross, natural, comma and non-equality joins) or that is not SQL, in all statement kinds and nesting places, in any spelling. " +
		"Forbidden ones must be rejected (the label is the oracle), the others accepted. Distinct when statement and declaration structure differ. " + ruleSweeps + "White space and comments at every place of SQL.",
		Quick: 12000, Thorough: 800000, Judge: j, OnceShard: both(sqlSweep, bulkSweep("C14"), relateSweep("C14"), gapSweep),
		Floors: map[string]int64{"forbidden statements": 4000, "accepted sql statements": 4000},
		Case: func(c *mon.C, i int) {
			g := c.G()
			o := gen.Opt{MaxTabs: 2, MaxCols: 4, MinActs: 1, MaxActs: 3, Params: true, Mods: true, SQL: true, Calls: i%2 == 0, MaxExts: 1, Init: true, MaxStmts: 5, MaxList: 2}
			if i%10 >= 8 {
				o = gen.Full
			}
			p := g.Prog(o)
			label := ""
			if i%3 != 0 {
				var s string
				p, label, s = g.PlantSQL(p)
				if p == nil {
					return
				}
				if kf.SQLOK(s + ";") {
					panic("HARNESS: the SQL dependency accepts a forbidden statement: " + s)
				}
			}
			src := g.Text(p)
			selfCheck(src, p)
			if c.Judged(src) {
				if label != "" {
					c.Count("forbidden statements", 1)
					c.Count("forbidden: "+label, 1)
				} else {
					for _, a := range p.Acts {
						for _, s := range a.Stmts {
							if s.IsSQL() {
								c.Count("accepted sql statements", 1)
							}
						}
					}
				}
			}
			c.Eval(label + shape(p))
			if len(src) < 500 {
				c.Sample(map[string]string{"forbidden": label, "source": src})
			}
		}})
}

// extNames: effective names of extensions built by hand, exhaustively.
func extNames(c *mon.C) {
	type e struct{ n, a string }
	var kinds []e
	for _, n := range []string{"a", "b"} {
		for _, a := range []string{"", "a", "b"} {
			kinds = append(kinds, e{n, a})
		}
	}
	var rec func(l []e)
	rec = func(l []e) {
		seen := map[string]bool{}
		dup := false
		s := schema.Schema{Name: "d"}
		for _, x := range l {
			id := x.a
			if id == "" {
				id = x.n
			}
			dup = dup || seen[id]
			seen[id] = true
			s.Extensions = append(s.Extensions, schema.Extension{Name: x.n, Alias: x.a})
		}
		err := s.Accept(schema.NewCtxValidator())
		if dup != (err != nil) {
			c.Fail("extension names", fmt.Sprintf("extensions %v: duplicate names is %v, validation says %v", l, dup, err), "", nil)
		}
		c.Eval(fmt.Sprint(l))
		c.Count("extension lists", 1)
		if len(l) < 3 {
			for _, k := range kinds {
				rec(append(append([]e{}, l...), k))
			}
		}
	}
	rec(nil)
}

// pairSweep: in wide declarations, every pair of places with the same name.
func pairSweep(c *mon.C) {
	const n = 24
	k := 0
	try := func(kind, src string) {
		if k++; k%c.Shards != c.Shard || c.Full() {
			return
		}
		c.Judged(src)
		c.Count("pairs: "+kind, 1)
		c.Eval(src)
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			name := func(x int) string {
				if x == j {
					x = i
				}
				return fmt.Sprintf("n%d", x)
			}
			var cols, idx, params, tabs, acts, exts []string
			for x := 0; x < n; x++ {
				cols = append(cols, name(x)+" int")
				idx = append(idx, "#"+name(x)+" index(a)")
				params = append(params, "$"+name(x))
				tabs = append(tabs, "table "+name(x)+" {a int}")
				acts = append(acts, "action "+name(x)+"() public {select 1;}")
				exts = append(exts, "use e as "+name(x)+";")
			}
			try("columns", "database d; table t {"+strings.Join(cols, ",")+"}")
			try("indexes", "database d; table t {a int,"+strings.Join(idx, ",")+"}")
			try("parameters", "database d; action t("+strings.Join(params, ",")+") public {select 1;}")
			if (i+j)%4 == 0 || j == i+1 || i == 0 || j == n-1 {
				try("tables", "database d; "+strings.Join(tabs, ""))
				try("actions", "database d; "+strings.Join(acts, ""))
				try("extensions", "database d; "+strings.Join(exts, ""))
			}
		}
	}
}

// refSweep: an undefined name at every place of every list of references.
func refSweep(c *mon.C) {
	k := 0
	try := func(kind, src string) {
		if k++; k%c.Shards != c.Shard || c.Full() {
			return
		}
		c.Judged(src)
		c.Count("places: "+kind, 1)
		c.Eval(src)
	}
	const n = 12
	for tabs := 1; tabs <= 4; tabs++ {
		for at := 0; at < tabs; at++ { // the table with the bad reference
			for lists := 1; lists <= 3; lists++ {
				for li := 0; li < lists; li++ {
					for w := 1; w <= n; w += 1 + w/4 {
						for pos := 0; pos < w; pos += 1 + w/6 {
							for _, bad := range []string{"zz", "C0", "ix0", "t0", "o"} {
								for _, kind := range []string{"index", "child", "parent", "table"} {
									if kind == "table" && pos > 0 {
										continue
									}
									if tabs*lists > 4 && (pos+li+at)%3 != 0 {
										continue
									}
									var b strings.Builder
									b.WriteString("database d; ")
									for t := 0; t < tabs; t++ {
										fmt.Fprintf(&b, "table t%d { o%d int", t, t)
										for x := 0; x < n; x++ {
											fmt.Fprintf(&b, ", c%d int", x)
										}
										for l := 0; l < lists; l++ {
											hit := t == at && l == li
											list := func(h bool) string {
												var s []string
												for x := 0; x < w; x++ {
													nm := fmt.Sprintf("c%d", (x+l)%n)
													if h && x == pos {
														nm = bad
													}
													s = append(s, nm)
												}
												return "(" + strings.Join(s, ",") + ")"
											}
											par := fmt.Sprintf("t%d", (t+l)%tabs)
											if hit && kind == "table" {
												par = bad
												if bad == "t0" {
													par = "T0"
												}
											}
											fmt.Fprintf(&b, ", #ix%d index%s, fk%s ref %s%s", l, list(hit && kind == "index"), list(hit && kind == "child"), par, list(hit && kind == "parent"))
										}
										b.WriteString("}")
									}
									try(kind, b.String())
								}
							}
						}
					}
				}
			}
		}
	}
}

// varSweep: definition and use of variables at every pair of statements, in
// every wrapping, and of names defined only elsewhere.
func varSweep(c *mon.C) {
	k := 0
	try := func(kind, src string) {
		if k++; k%c.Shards != c.Shard || c.Full() {
			return
		}
		c.Judged(src)
		c.Count("scopes: "+kind, 1)
		c.Eval(src)
	}
	wraps := []string{"%s", "-%s", "+%s", "not %s", "(%s)", "lower(%s)", "%s+1", "1+%s", "'a'=%s", "%s and 1", "abs(-(%s*2))", "1, %s", "%s, 1", "1, lower(upper(%s)), 2",
		"((%s))", "1 < %s", "%s <> 'x'", "2 % %s", "$p or %s", "format('a', %s)", "-(-%s)", "not (1 = (2 - abs(%s)))"}
	for _, w := range wraps {
		for _, v := range []string{"$p", "$q", "$r", "@caller", "@callee", "$P", "$other", "$caller", "@p"} {
			e := strings.Replace(w, "%s", v, 1)
			for _, callee := range []string{"b", "e.m", "E.m", "c", "e2.m", "f.m", "B", "init.x", "ext.m"} {
				for place := 0; place < 3; place++ {
					var b strings.Builder
					b.WriteString("database d; use ext as e; use ext {k: 1} as e2; action b($other) private {select 1;} ")
					s := fmt.Sprintf("%s(%s);", callee, e)
					body := []string{"select 1;", "$q, $r = e.m($p);", "b(1);"}
					body[place] = body[place] + s
					fmt.Fprintf(&b, "action a($p) public {%s} action z($q) view {e2.m($q);} init() {b(@caller);}", strings.Join(body, ""))
					if (k/7)%3 != 0 && place == 1 && callee != "e.m" {
						k++
						continue
					}
					try("uses", b.String())
				}
			}
		}
	}
	depthSweep(c, try)
	treeSweep(c, try)
	// the same extension call gives and takes
	for _, recv := range []string{"$x", "$x,$y", "$y,$x", "$x,$x", "$x,$y,$x", "$p,$x", "$p", "$x,$y,$z,$y"} {
		for _, arg := range []string{"", "$x", "$y", "$p", "lower($x)", "1+$y", "$z"} {
			for reps := 1; reps <= 3; reps++ {
				try("gives and takes", "database d; use ext as e; action a($p) public {"+strings.Repeat(recv+" = e.m("+arg+");", reps)+"}")
				try("gives and takes", "database d; use ext as e; action z() public {"+recv+" = e.m(1);} action a($p) public {"+strings.Repeat(recv+" = e.m("+arg+");", reps)+"}")
				try("gives and takes", "database d; use ext as e; action a($p) public {"+recv+" = e.m(1);"+recv+"= e.m("+arg+");}")
				try("gives and takes", "database d; use ext as e; init() {"+recv+" = e.m(1);"+strings.Repeat("e.m("+arg+");", reps)+"}")
			}
		}
	}
}

// treeSweep: small expressions of every shape with a variable that is not
// there at one of their leaves.
func treeSweep(c *mon.C, try func(kind, src string)) {
	var trees func(depth int) []string
	memo := map[int][]string{}
	trees = func(depth int) []string { // ? is a leaf
		if depth == 0 {
			return []string{"?"}
		}
		if l, ok := memo[depth]; ok {
			return l
		}
		l := []string{"?"}
		for _, t := range trees(depth - 1) {
			l = append(l, "-"+t, "("+t+")", "lower("+t+")", "? + "+t, t+" * ?", "(? - "+t+")", "? = "+t, "("+t+" < ?)", "? and "+t, "abs(?, "+t+", ?)", "not "+t)
		}
		memo[depth] = l
		return l
	}
	for i, t := range trees(4) {
		n := strings.Count(t, "?")
		for at := 0; at < n; at++ {
			if len(t) > 12 && (i+at+int(c.Seed))%5 > 0 && !c.Thorough() {
				continue
			}
			var b strings.Builder
			leaf := 0
			for _, r := range t {
				if r != '?' {
					b.WriteRune(r)
					continue
				}
				switch {
				case leaf == at && i%4 > 0:
					b.WriteString("$q")
				case leaf == at:
					b.WriteString("@callee")
				default:
					b.WriteString([]string{"1", "$p", "'x'", "$p"}[(leaf+i)%4])
				}
				leaf++
			}
			if i%2 == 0 {
				try("trees", "database d; action a($p) public {a("+b.String()+");}")
			} else {
				try("trees", "database d; use ext as e; action a($p) public {$r = e.m(1, "+b.String()+");}")
			}
		}
	}
}

// depthSweep: a variable that is not there, below any number of layers of
// every kind of expression, and after any number of arguments that are.
func depthSweep(c *mon.C, try func(kind, src string)) {
	layers := [][2]string{{"-", ""}, {"not ", ""}, {"(", ")"}, {"lower(", ")"}, {"", "+1"}, {"1=", ""}, {"'a' and ", ""}, {"format('x', ", ")"}, {"", " or 0"}, {"abs(-(", "))"}}
	for _, n := range gen.Sizes(110) {
		for li, l := range layers {
			if l[0] == "abs(-(" && n > 40 {
				continue
			}
			for _, v := range []string{"$p", "$q", "@caller", "@nosuch"} {
				e := strings.Repeat(l[0], n) + v + strings.Repeat(l[1], n)
				if li%2 == 0 || v == "$q" {
					try("depths", "database d; use ext as e; action a($p) public {e.m("+e+");}")
				}
				if li%2 == 1 || v == "$q" {
					try("depths", "database d; action b($x) private {select 1;} action a($p) public {select 1; b(1, "+e+");} init() {b(1);}")
				}
			}
		}
		for _, v := range []string{"$p", "$q", "@caller"} {
			try("depths", "database d; use ext as e; action a($p) public {$x = e.m("+strings.Repeat("$p, ", n)+v+");}")
			try("depths", "database d; use ext as e; action a($p) public {"+strings.Repeat("select 1; ", n)+"e.m("+v+");}")
			try("depths", "database d; use ext as e; action a($p) public {"+strings.Repeat("$p = e.m($p); ", n)+"e.m("+v+");}")
			try("depths", "database d; use ext as e; action b() public {$q = e.m(1);} "+nTimes("action a%d() view {$q = e.m(1);} ", n)+"action a($p) public {e.m("+v+");}")
		}
	}
}

func nTimes(f string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, f, i)
	}
	return b.String()
}

// sqlSweep: statements of every size at which something might change, good and
// forbidden ones, long in different ways, and after any number of good ones.
func sqlSweep(c *mon.C) {
	k := 0
	try := func(kind, src string) {
		if k++; k%c.Shards != c.Shard || c.Full() {
			return
		}
		c.Judged(src)
		c.Count("sizes: "+kind, 1)
		c.Eval(src)
	}
	stmts := []string{
		"select a from t where b = 'FILL'", "SELECT sin(a) FROM t WHERE b = 'FILL'", "insert into t (a) values ('FILL')", "insert into t (a) values (random()) on conflict do nothing",
		"update t set b = 'FILL' where a = $p", "delete from t where b = 'FILL' and c = date('now')", "select a from t as x join u as y on x.a = y.a where 'FILL' = b",
		"select a from t as x cross join u as y where 'FILL' = b", "select a frm t where b = 'FILL'", "select 'FILL', (a from t", "select a from t, u where b='FILL'",
		"with q as (select 'FILL' as x) select x from q", "select a from t natural join u"}
	for _, n := range append(gen.Sizes(70000), 131072, 131073, 262145) {
		for i, q := range stmts {
			fit := max(0, n-len(q)+4)
			if strings.Contains(q, "FILL") {
				try("literals", "database d; action a($p) public { "+strings.Replace(q, "FILL", strings.Repeat("x", fit), 1)+"; }")
			}
			q = strings.Replace(q, "FILL", "x", 1)
			sp := strings.IndexByte(q, ' ')
			fit = max(0, n-len(q))
			switch (i + n) % 3 {
			case 0:
				q = q[:sp] + strings.Repeat(" ", fit) + q[sp:]
			case 1:
				q = q[:sp] + " /*" + strings.Repeat("c", max(0, fit-5)) + "*/" + q[sp:]
			default:
				q += strings.Repeat("\n", fit)
			}
			try("white space and comments", "database d; action a($p) public view { "+q+"; }")
			if n <= 520 && (n+i)%3 == 0 {
				try("statements before", "database d; action a($p) public { "+strings.Repeat("select 1; ", n-1)+q+"; }")
				try("actions before", "database d; "+nTimes("action b%d() private { select 1; } ", n-1)+"action a($p) public { "+q+"; }")
			}
			if n <= 260 && (n+i)%4 == 0 { // (the time the SQL dependency takes triples with each pair of parentheses)
				try("conditions", "database d; action a($p) public { "+q[:sp]+" 1"+strings.Repeat(" + 1", n)+strings.Replace(q[sp:], " a ", ", a ", 1)+"; }")
				try("parentheses", "database d; action a($p) public { select "+strings.Repeat("(", n%7)+[]string{"a", "sin(a)", "$p", "a b"}[i%4]+strings.Repeat(")", n%7)+" from t; }")
				try("columns", "database d; action a($p) public { select "+strings.Repeat("a, ", n)+[]string{"a", "cos(a)", "date()", "upper(a)"}[i%4]+" from t; }")
			}
		}
	}
}

// conflictSweep: attributes, modifiers and triggers, exhaustively.
func conflictSweep(c *mon.C) {
	k := 0
	try := func(kind, src string) {
		if k++; k%c.Shards != c.Shard || c.Full() {
			return
		}
		c.Judged(src)
		c.Count("sequences: "+kind, 1)
		c.Eval(src)
	}
	seqs := func(words []string, max int, f func(string)) {
		var rec func(l []string)
		rec = func(l []string) {
			f(strings.Join(l, " "))
			if len(l) < max {
				for _, w := range words {
					rec(append(append([]string{}, l...), w))
				}
			}
		}
		rec(nil)
	}
	attrs := []string{"primary", "notnull", "unique", "default(1)", "default('a')", "min(1)", "max(2)", "minlen(3)", "maxlen(4)"}
	for _, t := range []string{"int", "text", "blob"} {
		seqs(attrs, 3, func(s string) {
			try("attributes", "database d; table t {a int, b "+t+" "+s+", c text}")
		})
	}
	seqs([]string{"public", "private", "view", "owner"}, 4, func(s string) {
		try("modifiers", "database d; action x() public {select 1;} action a($b) "+s+" {select 1;} action y() {select 1;}")
	})
	var trig []string
	for _, on := range []string{"on_update", "on_delete"} {
		for i, do := range []string{"no_action", "cascade", "set_null", "set_default", "restrict"} {
			trig = append(trig, on+[]string{" ", " do "}[i%2]+do)
		}
	}
	seqs(trig, 2, func(s string) {
		try("triggers", "database d; table t {a int, fk(a) ref t(a) on_delete cascade, fk (a) references t (a) "+s+", foreign_key(a) ref t(a)}")
	})
	for _, s := range []string{"%[1]s cascade %[2]s cascade %[1]s cascade", "%[1]s do cascade %[2]s set_null %[2]s cascade", "%[1]s cascade %[1]s cascade %[1]s cascade"} {
		for _, o := range [][]any{{"on_update", "on_delete"}, {"on_delete", "on_update"}} {
			try("triggers", "database d; table t {a int, fk(a) ref t(a) "+fmt.Sprintf(s, o...)+"}")
		}
	}
	if c.Check.ID != "C13" {
		return
	}
	// hand-built: one kind of trigger, attribute or bound per schema
	for _, ty := range []string{"int", "text", "blob"} {
		for _, a := range []string{"primary_key", "not_null", "unique", "default", "min", "max", "min_length", "max_length"} {
			for _, n := range []int{1, 2} {
				at := []map[string]any{}
				for x := 0; x < n; x++ {
					at = append(at, map[string]any{"type": a, "value": fmt.Sprint(x)})
				}
				b, _ := json.Marshal(map[string]any{"name": "d", "tables": []any{map[string]any{"name": "t", "columns": []any{
					map[string]any{"name": "x", "type": "int"}, map[string]any{"name": "c", "type": ty, "attributes": at}}}}})
				err, pan := sut.ValidateJSON(b)
				na := ty == "int" && strings.HasSuffix(a, "length") || ty == "text" && (a == "min" || a == "max")
				if ty == "blob" && (a == "min" || a == "max") {
					continue
				}
				if bad := na || n > 1; bad != (err != nil) || pan != nil {
					c.Fail("hand-built attributes", fmt.Sprintf("validation of %s says %v (panic %v), must reject: %v", b, err, pan, bad), "", nil)
				}
				c.Eval(string(b))
			}
		}
	}
}
