package checks

import (
	"errors"
	"fmt"
	"io"
	"os"
	"regexp"
	"strings"
	"time"

	"github.com/antlr4-go/antlr/v4"
	"github.com/kwilteam/kuneiform/kfgrammar"
	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
	"kfverif/sut"
)

// KitchenSink uses every production of the language.
const KitchenSink = `database d; use e {k: 1, l: 'x', m: 2, n: 'y'} as f; use g as h;
table t { a int primary notnull unique default(1) min(0) max(9), b text minlen(1) maxlen(2) default('z'), c blob,
 #i index(a, b, c), foreign_key(a) references t(a) on_update do cascade on_delete set_null, #j unique(b), fk(a, b) ref t(a, b) on_delete no_action, #k primary(a), }
@n(x=1, y='q', z=2) @o(a='b') action p($u, $v, $x) public view owner { select 1; $w, $z, $y = f.m($u, lower($v) + 2, not (1 = $u) and @caller); p($w); }
action q() private { insert into t values (1); h.m(); }
init() { update t set a = 1; p(1, - 'x'); }
`

// edits visits every single-token edit of the kitchen sink.
func edits(visit func(k int, src string)) int {
	toks, _ := kf.Lex(KitchenSink)
	toks = toks[:len(toks)-1]
	junk := strings.Fields(`database use as table action init public private view owner int text blob min max minlen maxlen notnull primary default unique index
 foreign_key fk references ref on_update on_delete do no_action cascade set_null set_default restrict not and or select insert
 : ; ( { ) } , . = + - * / % ~ || << >> & | == < <= > >= != <> $ # @ $a #i @b y 1 'a' "q" ! /* ' TABLE Int null 1.5 -1`)
	spell := func(l []string) string { return strings.Join(l, " ") }
	var words []string
	for _, t := range toks {
		words = append(words, t.T)
	}
	// an SQL token must be followed directly by ';'
	fix := func(l []string) string { return strings.ReplaceAll(spell(l), " ;", ";") }
	k := 0
	emit := func(l []string) {
		visit(k, fix(l))
		k++
	}
	emit(words)
	for i := range words {
		cut := append(append([]string{}, words[:i]...), words[i+1:]...)
		emit(cut)
		if i+1 < len(words) {
			s := append([]string{}, words...)
			s[i], s[i+1] = s[i+1], s[i]
			emit(s)
		}
		emit(append(append(append([]string{}, words[:i+1]...), words[i]), words[i+1:]...))
		emit(words[:i])
		for _, j := range junk {
			s := append([]string{}, words...)
			s[i] = j
			emit(s)
			emit(append(append(append([]string{}, words[:i]...), j), words[i:]...))
		}
	}
	return k
}

// judgeSound: a text outside the grammar is reported as a syntax error.
func judgeSound(src string) string {
	_, e := kf.Parse(src)
	if e == nil {
		return ""
	}
	o := sut.Compile(src)
	if o.Panic == nil && o.Err == nil {
		return fmt.Sprintf("accepted although the text is not of the language from %d:%d on", e.Line, e.Col)
	}
	for _, w := range sut.Which(o.Err) {
		if w == "syntax error" {
			return ""
		}
	}
	return fmt.Sprintf("a text that is not of the language from %d:%d on is not reported as a syntax error: %s", e.Line, e.Col, mon.Clip(o.Failure(), 300))
}

// judgeComplete: a valid program is accepted.
func judgeComplete(src string) string {
	p, e := kf.Parse(src)
	if e != nil || !kf.Validate(p).OK() {
		return ""
	}
	o := sut.Compile(src)
	if !o.OK() {
		return "a valid program was rejected: " + mon.Clip(o.Failure(), 400)
	}
	if d := sut.Diff("", sut.Expected(p), sut.Observed(o.Tree)); d != "" {
		return "a valid program lost something: " + d
	}
	return ""
}

// Kinds is the number of kinds of hostile texts.
const Kinds = 9

// manyErrors is a text with many places where it goes wrong.
func manyErrors(g *gen.G) string {
	n := gen.Sizes(300)[g.R.Intn(len(gen.Sizes(300)))]
	bad := []string{"?", "!", "'", "\"", "\x01", "é", "[", "$", "}", "table", "use ;", "action (", "table t {a}", "init", "@", "table t {a int,,}", "0"}[g.R.Intn(17)]
	sep := []string{" ", "\n", "", " ; ", " table t {a int} "}[g.R.Intn(5)]
	s := strings.Repeat(bad+sep, n)
	switch g.R.Intn(4) {
	case 0:
		return s
	case 1:
		return "database d; " + s
	case 2:
		return "database d; table t {a int} " + s + " action a() public {select 1;}"
	}
	t := g.Text(g.Prog(gen.Full))
	i := g.R.Intn(len(t) + 1)
	return t[:i] + " " + s + t[i:]
}

// hostileText makes any kind of text: valid, faulty, mutated or random.
func hostileText(g *gen.G, kind int) (string, string) {
	switch kind % Kinds {
	case 0:
		return "valid", g.Text(g.Prog(gen.Full))
	case 8:
		return "many errors", manyErrors(g)
	case 1:
		class := gen.Classes[g.R.Intn(len(gen.Classes))]
		if q := g.Inject(g.Prog(gen.Full), class); q != nil {
			return class, g.Text(q)
		}
		return "valid", g.Text(g.Prog(gen.Full))
	case 2, 3:
		return "token edits", g.JoinToks(g.MutateToks(g.Tokens(g.Prog(gen.Full))))
	case 4, 5:
		return "character edits", g.MutateText(g.Text(g.Prog(gen.Full)))
	case 6:
		return "noise", g.Noise()
	default:
		s := g.Text(g.Prog(gen.Full))
		return "truncated", s[:g.R.Intn(len(s)+1)]
	}
}

// smallText is like hostileText with small programs.
func smallText(g *gen.G, kind int) (string, string) {
	o := gen.Opt{MaxTabs: 2, MaxActs: 2, MaxExts: 1, MaxCols: 2, MaxStmts: 2, Attrs: true, Idx: true, FK: true, Mods: true, Params: true, Annots: true, SQL: true, Calls: true, Init: true, MaxList: 2}
	p := g.Prog(o)
	switch kind % 4 {
	case 0:
		return "token edits", g.JoinToks(g.MutateToks(g.Tokens(p)))
	case 1:
		return "character edits", g.MutateText(g.Text(p))
	case 2:
		return "noise", g.Noise()
	default:
		s := g.Text(p)
		return "truncated", s[:g.R.Intn(len(s)+1)]
	}
}

func textCase(mk func(*gen.G, int) (string, string), after func(c *mon.C, kind, src string)) func(*mon.C, int) {
	return func(c *mon.C, i int) {
		kind, src := mk(c.G(), i)
		c.Judged(src)
		c.Count("text: "+kind, 1)
		c.Eval(src)
		if len(src) < 300 {
			c.Sample(map[string]string{"kind": kind, "source": src})
		}
		if after != nil {
			after(c, kind, src)
		}
	}
}

func classify(c *mon.C, kind, src string) {
	p, e := kf.Parse(src)
	switch {
	case e != nil && e.Lexical:
		c.Count("reference: not lexable", 1)
	case e != nil:
		c.Count("reference: not in the grammar", 1)
	default:
		v := kf.Validate(p)
		switch {
		case v.Bad():
			c.Count("reference: invalid", 1)
		case v.OK():
			c.Count("reference: valid", 1)
		default:
			c.Count("reference: unspecified", 1)
		}
	}
}

func sweepEdits(c *mon.C) {
	edits(func(k int, src string) {
		if k%c.Shards != c.Shard || c.Full() {
			return
		}
		_, e := kf.Parse(src)
		if e == nil {
			c.Count("single-token edits that stay in the grammar", 1)
		} else {
			c.Count("single-token edits that leave the grammar", 1)
		}
		if (c.Check.ID == "C08") == (e == nil) {
			return
		}
		c.Judged(src)
		c.Eval(src)
	})
}

// listSweep: lists of every size with something wrong or unusual in one place.
func listSweep(c *mon.C) {
	type list struct{ pre, item, post string }
	lists := []list{
		{"database d; use e {", "k%: %", "} as f;"}, {"database d; table t {", "c% int", "}"}, {"database d; table t {a int, #i index(", "a", ")}"},
		{"database d; table t {a int, fk(", "a", ") ref t(" + "a" + ")}"}, {"database d; action a(", "$p%", ") public {select 1;}"},
		{"database d; @n(", "x%=%", ") action a() public {select 1;}"}, {"database d; action a() public {a(", "%", ");}"},
		{"database d; use e as f; action a() public {", "$r%", " = f.m();}"}, {"database d; action a() public {", "a(%);", "}"},
		{"database d; table t {a int ", "notnull ", "}"}, {"database d; action a() ", "public ", "{select 1;}"}, {"database d; ", "table t% {a int} ", ""},
		{"database d; ", "use e as x%; ", ""}, {"database d; ", "@n(x=%) ", " action a() public {select 1;}"}, {"", "database d%; ", ""},
		{"database d; use e {k: 1, l: 'b', ", "k%: %", "} as f;"}, {"database d; action z() public {select 1;} action a($x) public {a(", "lower($x)", ");}"},
	}
	k := 0
	try := func(s string) {
		if k++; k%c.Shards != c.Shard || c.Full() {
			return
		}
		if _, e := kf.Parse(s); (c.Check.ID == "C08") == (e == nil) {
			return
		}
		c.Judged(s)
		c.Count("lists with one thing changed", 1)
		c.Eval(s)
	}
	ends := []string{",", ",,", ";", ".", ")", "(", "}", "{", "1", "x", "'", "$", " as", "=", ":", "?", "@n(x=1)", "/*", "\x00"}
	for _, l := range lists {
		sep := ", "
		if strings.HasSuffix(l.item, " ") || strings.HasSuffix(l.item, ";") {
			sep = ""
		}
		for _, n := range append([]int{0, 1, 2, 3, 4, 5, 6}, gen.Sizes(70)...) {
			var it []string
			for i := 0; i < n; i++ {
				it = append(it, strings.ReplaceAll(l.item, "%", fmt.Sprint(i)))
			}
			whole := l.pre + strings.Join(it, sep) + l.post
			try(whole)
			for _, e := range ends {
				try(l.pre + strings.Join(it, sep) + e + l.post)
				try(l.pre + e + strings.Join(it, sep) + l.post)
				try(whole + e)
				for _, at := range []int{1, n / 2, n - 1} {
					if at > 0 && at < n && n < 40 {
						try(l.pre + strings.Join(it[:at], sep) + sep + e + strings.Join(it[at:], sep) + l.post)
						try(l.pre + strings.Join(it[:at], sep) + e + strings.Join(it[at:], sep) + l.post)
					}
				}
			}
			if n > 1 { // a separator is missing
				for _, at := range []int{1, n / 2, n - 1} {
					try(l.pre + strings.Join(it[:at], sep) + " " + strings.Join(it[at:], sep) + l.post)
				}
			}
			try(strings.TrimSuffix(l.pre, "{") + strings.Join(it, sep) + l.post)
			try(l.pre + strings.Join(it, sep))
		}
	}
}

func init() {
	reg(&mon.Check{ID: "C08", Rule: "valid programs with token edits, character edits, truncation, and noise; and exhaustively every single-token deletion, repetition, swap, truncation, insertion and replacement " +
		"(94 tokens) of a program that uses every production. What is outside the grammar is decided by an independent hand-written parser. Distinct by text.",
		Quick: 9000, Thorough: 1500000, Judge: judgeSound, OnceShard: both(sweepEdits, listSweep, foreignSweep, disguised), Case: textCase(smallText, classify),
		Floors: map[string]int64{"reference: not in the grammar": 3000, "reference: not lexable": 500, "single-token edits that leave the grammar": 10000}})

	reg(&mon.Check{ID: "C09", Rule: "random valid programs (all features, hostile names, all layouts), edited programs that stay valid, every single-token edit of a program with every production that stays in the grammar, " +
		"and very large ones: thousands of tables, columns, statements, parameters, settings, long names and literals, deep expressions. Distinct by text.",
		Quick: 9000, Thorough: 1200000, Judge: judgeComplete, OnceShard: both(sweepEdits, listSweep, foreignSweep, disguised, large, patience, thinned(3, remarkSweep), bulkSweep("C09"), relateSweep("C09")),
		Case: textCase(func(g *gen.G, i int) (string, string) {
			if i%3 != 0 {
				return "valid", g.Text(g.Prog(gen.Full))
			}
			return smallText(g, i/3)
		}, classify),
		Floors: map[string]int64{"reference: valid": 4000, "single-token edits that stay in the grammar": 500, "large programs": 15}})

	reg(&mon.Check{ID: "C22", Rule: "arbitrary bytes: valid, faulty, edited, truncated programs, token soup, random bytes including invalid UTF-8, control characters and nested constructs; " +
		"watched for escaping panics, Go runtime errors, process death, hangs, and for giving both or neither of schema and error. The annotation reader gets arbitrary strings. Distinct by text.",
		Quick: 16000, Thorough: 2000000, Judge: judgeRobust, OnceShard: both(nested, disguised, relateSweep("C22")),
		Case:   textCase(hostileText, func(c *mon.C, kind, src string) { annotNoise(c) }),
		Floors: map[string]int64{"text: noise": 1000, "text: character edits": 2000}})

	reg(&mon.Check{ID: "C23", Rule: "texts with a first error at a known place (token edits, character edits, truncation; the independent parser gives the first place where no valid program can continue) and programs " +
		"with planted faults of known classes and names. Observed: every diagnostic's position, the error's exported kind, its text. Distinct by text.",
		Quick: 14000, Thorough: 1500000, Judge: judgeDiag, OnceShard: both(positionSweep, disguised, thinned(6, refSweep), thinned(6, varSweep), thinned(6, pairSweep), thinned(6, conflictSweep), thinned(4, fkSweep), relateSweep("C23")),
		Case: func(c *mon.C, i int) {
			g := c.G()
			var kind, src string
			if i%2 == 0 {
				class := gen.Classes[g.R.Intn(len(gen.Classes))]
				q := g.Inject(g.Prog(gen.Full), class)
				if q == nil {
					return
				}
				kind, src = class, g.Text(q)
			} else {
				kind, src = smallText(g, i/2)
			}
			c.Judged(src)
			c.Count("text: "+kind, 1)
			c.Eval(src)
			if len(src) < 300 {
				c.Sample(map[string]string{"kind": kind, "source": src})
			}
		},
		Floors: map[string]int64{"text: token edits": 1000, "text: " + kf.DupTable: 100, "text: " + kf.VarNF: 100}})

	reg(&mon.Check{ID: "C27", Rule: "valid, faulty, edited and random texts compiled with a listener of the caller's: the listener's list, the returned error and a compilation without a listener are compared. Distinct by text.",
		Quick: 12000, Thorough: 1200000, Judge: judgeListener, OnceShard: both(disguised, relateSweep("C27")), Case: textCase(hostileText, nil)})

	reg(&mon.Check{ID: "C24", Rule: "valid, faulty, edited and random texts compiled in default and in trace mode with standard output captured: same schema, same error, nothing printed by default, something printed when tracing. Distinct by text.",
		Quick: 6000, Thorough: 600000, Judge: judgeTrace, Once: knownNoise, Case: textCase(func(g *gen.G, i int) (string, string) {
			if i%3 == 0 {
				return "valid", g.Text(g.Prog(gen.Full))
			}
			return hostileText(g, i)
		}, nil)})
}

func judgeRobust(src string) string {
	o := sut.Compile(src)
	if o.Panic != nil {
		return fmt.Sprintf("a panic escaped: %v", o.Panic)
	}
	if s := sut.Internal(o.Err, src); s != "" && !foreignPanic(o.Err, src) {
		return s
	}
	if o.Err == nil {
		switch {
		case o.Ast == nil:
			return "neither a schema nor an error"
		case o.JErr != nil:
			return "the schema of an accepted program cannot be serialised: " + o.JErr.Error()
		case o.Tree == nil:
			return "the schema of an accepted program is not a JSON object: " + mon.Clip(string(o.JSON), 200)
		}
	} else if o.Err.Error() == "" {
		return "an error without a message"
	}
	return ""
}

func annotNoise(c *mon.C) {
	g := gen.New(c.CaseSeed(c.I) + 1)
	var s string
	switch g.R.Intn(3) {
	case 0:
		s = g.Noise()
	case 1:
		s = g.MutateText(g.Annot(gen.Full).Compact())
	default:
		a := g.Annot(gen.Full).Compact()
		s = a[:g.R.Intn(len(a)+1)]
	}
	defer func() {
		if r := recover(); r != nil {
			c.Fail("annotation reader", fmt.Sprintf("reading annotation %q panics: %v", s, r), "", nil)
		}
	}()
	c.Begin(s)
	a, err := utils.ParseAnnotation(s)
	c.End()
	c.Count("annotation texts", 1)
	if err == nil && a == nil {
		c.Fail("annotation reader", fmt.Sprintf("reading annotation %q gives neither a result nor an error", s), "", nil)
	}
}

// readAll reads every short text over the characters that mean something in
// an annotation.
func readAll(c *mon.C) {
	const letters = "a() '=,1\\\n\x00"
	n := 6
	if c.Thorough() {
		n = 7
	}
	b := make([]byte, 0, n)
	cnt := 0
	var rec func()
	rec = func() {
		if c.Full() {
			return
		}
		if len(b) == 2 {
			c.Begin("annotations beginning with " + string(b))
		}
		readOne(c, string(b))
		cnt++
		if len(b) == n {
			return
		}
		for i := range letters {
			b = append(b, letters[i])
			rec()
			b = b[:len(b)-1]
		}
	}
	rec()
	c.End()
	for _, t := range []string{"", "a", "target"} { // and what stands between the brackets
		b = append(b[:0], t+"("...)
		var in func(d int)
		in = func(d int) {
			if d == 4 {
				c.Begin("annotations with " + string(b) + "...)")
			}
			readOne(c, string(b)+")")
			cnt++
			if d == 0 || c.Full() {
				return
			}
			for i := range letters {
				b = append(b, letters[i])
				in(d - 1)
				b = b[:len(b)-1]
			}
		}
		in(5)
		c.End()
	}
	c.Count("short annotation texts, exhaustively", int64(cnt))
}

func readOne(c *mon.C, s string) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("annotation reader", fmt.Sprintf("reading annotation %q panics: %v", s, r), "", nil)
		}
	}()
	a, err := utils.ParseAnnotation(s)
	if err == nil && a == nil {
		c.Fail("annotation reader", fmt.Sprintf("reading annotation %q gives neither a result nor an error", s), "", nil)
	}
}

// parens measures the known exponential time of nested parentheses in SQL (in
// the SQL parser that is depended on). Its growth, not its length, is judged,
// and what it reports is listed among the known findings.
func parens(c *mon.C) {
	at := func(n int) (string, time.Duration) {
		src := "database d; action a() public {select " + strings.Repeat("(", n) + "1" + strings.Repeat(")", n) + ";}"
		best := time.Hour
		for k := 0; k < 3; k++ {
			t := time.Now()
			c.Begin(src)
			sut.Compile(src)
			c.End()
			best = min(best, time.Since(t))
		}
		return src, best
	}
	_, t5 := at(5)
	src, t10 := at(10)
	if t10 > 10*t5 {
		c.Fail("growth", "compilation time grows exponentially with the depth of parentheses in SQL", src, nil)
	}
	c.Eval(src)
}

// foreignPanic tells if an internal failure is the known finding: the SQL
// parser that is depended on, called alone with a statement of the text, fails
// in the same way.
func foreignPanic(err error, src string) bool {
	p, e := kf.Parse(src)
	if e != nil {
		return false
	}
	acts := p.Acts
	if p.Init != nil {
		acts = append(acts[:len(acts):len(acts)], *p.Init)
	}
	for _, a := range acts {
		for _, s := range a.Stmts {
			if s.IsSQL() {
				if how := kf.SQLBroken(strings.TrimSpace(s.SQL + ";")); how != "" && strings.Contains(err.Error(), how) {
					return true
				}
			}
		}
	}
	return false
}

// emptyName shows the known finding on one input.
func emptyName(c *mon.C) {
	src := "database d; action a() public {select \"\";}"
	o := sut.Compile(src)
	if s := sut.Internal(o.Err, src); s != "" && foreignPanic(o.Err, src) {
		c.Fail("internal", "a quoted empty name in SQL makes the SQL parser fail internally: "+s, src, nil)
	}
	c.Judged(src)
	c.Eval(src)
}

// nested: constructs of great depth and length must come back.
func nested(c *mon.C) {
	switch c.Shard {
	case 1:
		defer parens(c)
	case 2:
		readAll(c)
	case 3:
		emptyName(c)
	}
	n := 3000
	if c.Thorough() {
		n = 40000
	}
	rep := strings.Repeat
	l := []string{
		"database d; action a($x) public { a(" + rep("-", n) + "1); }",
		"database d; action a($x) public { a(" + rep("not ", n) + "1); }",
		"database d; action a($x) public { a(" + rep("(", n/10) + "1" + rep(")", n/10) + "); }",
		"database d; action a($x) public { a(" + rep("(", n/10) + "1); }",
		"database d; action a($x) public { a(" + rep("lower(", n/10) + "$x" + rep(")", n/10) + "); }",
		"database d; action a($x) public { a(1" + rep("+1", n) + "); }",
		rep("{", n*10), rep("database ", n), rep("/*", n), rep("'", n), rep("table t {", n), rep("\\", n), rep("\x00", n), rep("\xff", n),
		"database d; table t {a int " + rep("notnull ", n) + "}",
		"database d; table t {a int" + rep(",", n) + "}",
		"database d; action a() public {" + rep(";", n) + "}",
		"database d; action a() public {select " + rep("1,", n) + "1;}",
		"database d; action a() public {select " + rep("-", 300) + "1;}",
		"database d; action a() public {select 1" + rep(" + 1", 300) + ";}",
		"database d; // " + rep("x", n*10), "database d; /* " + rep("* /", n*5), "database d; @a(x='" + rep("\\'", n) + "') action a() public {select 1;}",
	}
	for i, s := range l {
		if i%c.Shards == c.Shard && !c.Full() {
			t := time.Now()
			c.Judged(s)
			c.Max("max milliseconds of a nested text", time.Since(t).Milliseconds())
			c.Count("nested texts", 1)
			c.Eval(s)
		}
	}
}

// large programs: nothing has a size limit.
func large(c *mon.C) {
	k := 1
	if c.Thorough() {
		k = 5
	}
	rep := func(n int, f string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(strings.ReplaceAll(f, "%", fmt.Sprint(i)))
		}
		return b.String()
	}
	each := func(n int, f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(f(i))
		}
		return b.String()
	}
	trim := func(s string) string { return strings.TrimSuffix(s, ",") }
	long := strings.Repeat("abcdefghij", 500*k)
	l := []string{
		"database d; " + rep(400*k, "table t% {a int, b text}"),
		"database d; table t {" + trim(rep(1200*k, "c% int notnull,")) + "}",
		"database d; table t {a int," + rep(600*k, "#i% index(a),") + "}",
		"database d; table t {a int," + rep(400*k, "fk(a) ref t(a) on_update cascade,") + "}",
		"database d; table t {" + trim(rep(700*k, "c% int,")) + ", #i unique(" + trim(rep(700*k, "c%,")) + ")}",
		"database d; table t {" + trim(rep(500*k, "c% int,")) + ", fk(" + trim(rep(500*k, "c%,")) + ") ref t(" + trim(rep(500*k, "c%,")) + ")}",
		"database d; " + rep(400*k, "action a%($x) public {select %;}"),
		"database d; action a() public {" + rep(700*k, "select %;") + "}",
		"database d; action a(" + trim(rep(1500*k, "$p%,")) + ") public {a(" + trim(rep(300*k, "$p%,")) + ");}",
		"database d; " + rep(600*k, "use e% {a: %} as x%;"),
		"database d; use e {" + trim(rep(1000*k, "k%: 'v%',")) + "} as x;",
		"database d; " + rep(500*k, "@n%(a=%)") + " action a() public {select 1;}",
		"database d; @n(" + trim(rep(1500*k, "a%='v%',")) + ") action a() public {select 1;}",
		"database " + long + "; table " + long + " {" + long + " int, #i" + long + " index(" + long + ")} action " + long + "($" + long + ") public {" + long + "($" + long + ");}",
		"database d; table t {a text default('" + strings.Repeat("x é\\' ", 20000*k) + "'), b int max(" + strings.Repeat("9", 3000*k) + ")}",
		"database d; use e as x; action a() public {" + trim(rep(400*k, "$v%,")) + " = x.m(1); a(" + trim(rep(300*k, "$v%,")) + ");}",
		"database d; use e as x; action a() public {" + rep(300*k, "$v% = x.m(%);") + "}",
		"database d; action a() public {insert into t (x) values ('" + strings.Repeat("long text ", 20000*k) + "');}",
		"database d; /*" + strings.Repeat(" comment ", 50000*k) + "*/ table t {a int} //" + strings.Repeat("z", 100000*k),
		"database d;" + strings.Repeat("\n", 100000*k) + "table t {a int}" + strings.Repeat(" ", 100000*k),
		"database d; action a($x) public {a(" + strings.Repeat("(", 150) + "$x" + strings.Repeat(")", 150) + "); a(" + strings.Repeat("-", 200) + "1); a(1" + strings.Repeat(" + $x", 300) + ");}",
		"database d; action z() public {a(1); b(2);} init() {z();} action a($x) public {b($x);} table c {y int, fk(y) ref p(x)} action b($x) private {a($x); z();} table p {x int, fk(x) ref c(y)}",
		"database d;", "database d; init() {select 1;}",
		// not much of anything in one place, but much in all
		"database d; " + each(120*k, func(i int) string {
			return fmt.Sprintf("table t%d {", i) + rep(60, "c% int notnull min(1), ") + rep(20, "#i% index(c%), ") + rep(5, "fk(c%) ref t0(c%) on_update cascade on_delete set_null, ") + "}"
		}),
		"database d; " + each(150*k, func(i int) string { return "use e {" + trim(rep(40, "k%: 'v%',")) + fmt.Sprintf("} as x%d;", i) }),
		"database d; use e as x; " + each(60*k, func(i int) string {
			return rep(5, "@n%(a=%, b='%')") + fmt.Sprintf("action a%d(", i) + trim(rep(30, "$p%,")) + ") public view owner {" + rep(10, "select %; $r%, $s% = x.m($p%, 1 + 2); a0($r%, lower($p%));") + "}"
		}),
		"database d; " + rep(120*k, "use f {k: 1} as y%; ") + rep(120*k, "table t% {a int, #i unique(a), fk(a) ref t0(a)} @n(x=1) action a%($x) public {select $x; a0($x); $y = y%.m($x);} ") + " init() {" + rep(200*k, "select %;") + "}",
		"database d; table p {id int primary} " + rep(200*k, "table c% {r int, fk(r) ref p(id)}"),
		"database d; action zz() public {select 1;} " + rep(300*k, "action a%($x) public view owner {zz(); a0($x);}"),
	}
	for i, s := range l {
		if i%c.Shards == c.Shard && !c.Full() {
			p, e := kf.Parse(s)
			if e != nil || !kf.Validate(p).OK() {
				panic("HARNESS: a large program is not valid: " + mon.Clip(s, 300))
			}
			c.Judged(s)
			c.Count("large programs", 1)
			c.Max("max source bytes", int64(len(s)))
			c.Eval(s)
		}
	}
}

func judgeDiag(src string) string {
	l := utils.NewErrorListener()
	p, e := kf.Parse(src)
	o := sut.CompileWith(src, l, kfparser.Default)
	if o.Panic != nil || o.Err == nil {
		return "" // others' business
	}
	which := sut.Which(o.Err)
	if e != nil {
		if len(which) != 1 || which[0] != "syntax error" {
			return fmt.Sprintf("a syntax error at %d:%d is reported as %v: %s", e.Line, e.Col, which, mon.Clip(o.Err.Error(), 300))
		}
		at, ok := sut.ErrPos(l)
		if !ok {
			return "a syntax error is reported without a position: " + mon.Clip(o.Err.Error(), 300)
		}
		if at != (sut.Pos{Line: e.Line, Col: e.Col}) {
			return fmt.Sprintf("the first place where the text goes wrong is %d:%d, the first reported is %d:%d", e.Line, e.Col, at.Line, at.Col)
		}
		if _, ok := sut.ErrPosText(o.Err.Error()); !ok {
			return "the message of a syntax error has no position: " + mon.Clip(o.Err.Error(), 300)
		}
		return ""
	}
	v := kf.Validate(p)
	if len(v.Unspecified) > 0 || !v.Bad() {
		return ""
	}
	free := false
	set := map[string]bool{}
	for _, f := range v.Faults {
		set[f] = true
		free = free || f == kf.BadSQL || f == kf.BadFn
	}
	for _, w := range which {
		if !set[w] {
			return fmt.Sprintf("the text has %v, reported is %s: %s", v.Faults, w, mon.Clip(o.Err.Error(), 300))
		}
	}
	if len(which) == 0 && !free {
		return fmt.Sprintf("the text has %v, reported is none of the exported kinds: %s", v.Faults, mon.Clip(o.Err.Error(), 300))
	}
	if len(which) > 1 {
		return fmt.Sprintf("one error of several kinds %v", which)
	}
	if len(which) == 1 && which[0] != kf.MultiInit && which[0] != kf.AttrNA && which[0] != kf.DupFKAct {
		named := false
		for i, f := range v.Faults {
			if f == which[0] {
				n := offender(v.Names[i])
				named = named || strings.Contains(o.Err.Error(), n)
			}
		}
		if !named && which[0] != kf.VisSet && which[0] != kf.MutSet && which[0] != kf.AuxSet {
			return fmt.Sprintf("the error names none of the offenders %v of %s: %s", v.Names, which[0], mon.Clip(o.Err.Error(), 300))
		}
	}
	return ""
}

// offender is the name a message must contain.
func offender(s string) string {
	if i := strings.LastIndexAny(s, ". "); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// held are listeners of earlier compilations and what they said then.
type heldListener struct {
	l    *utils.ErrorListener
	src  string
	said string
}

func (h heldListener) now() string {
	return strings.Join(texts(h.l), "\n") + "\n" + errText(h.l.Err())
}

// judgeListener: the listener itself, and that it is left alone afterwards.
func judgeListener(src string) string {
	h := heldListener{l: utils.NewErrorListener(), src: src}
	if m := judgeListenerOf(src, h.l); m != "" {
		return m
	}
	h.said = h.now()
	old := heldListeners[heldNext%len(heldListeners)]
	heldListeners[heldNext%len(heldListeners)] = h
	heldNext++
	for k, s := range []string{"database d; table t {int}", "database d; table t {a int}", "database d; table t {a int} table t {a int}", src} {
		if (heldNext+k)%2 == 0 {
			sut.Compile(s)
		} else {
			sut.CompileWith(s, utils.NewErrorListener(), kfparser.Default)
		}
		if now := h.now(); now != h.said {
			return fmt.Sprintf("after a compilation of %q with no listener or another the listener says %q, before %q", mon.Clip(s, 200), mon.Clip(now, 300), mon.Clip(h.said, 300))
		}
	}
	if old.l != nil {
		if now := old.now(); now != old.said {
			return fmt.Sprintf("after other compilations the listener of %q says %q, before %q", mon.Clip(old.src, 300), mon.Clip(now, 300), mon.Clip(old.said, 300))
		}
	}
	return ""
}

var (
	heldListeners [8]heldListener
	heldNext      int
)

func judgeListenerOf(src string, l *utils.ErrorListener) string {
	o := sut.CompileWith(src, l, kfparser.Default)
	n := sut.Compile(src)
	if o.Panic != nil || n.Panic != nil {
		return ""
	}
	if (o.Err == nil) != (n.Err == nil) {
		return fmt.Sprintf("with a listener the error is %v, without %v", o.Err, n.Err)
	}
	if o.Err == nil {
		if len(l.ErrorList) != 0 || l.Err() != nil {
			return fmt.Sprintf("accepted, yet the listener has %v", texts(l))
		}
		if string(o.JSON) != string(n.JSON) {
			return "with a listener the schema differs"
		}
		return ""
	}
	if o.Err.Error() != n.Err.Error() {
		return fmt.Sprintf("with a listener the error is %q, without %q", o.Err, n.Err)
	}
	if len(l.ErrorList) == 0 {
		return fmt.Sprintf("rejected with %q, yet the listener has nothing", o.Err)
	}
	if l.Error() != o.Err.Error() {
		return fmt.Sprintf("the listener says %q, the returned error %q", l.Error(), o.Err)
	}
	seen := map[string]bool{}
	for _, e := range l.ErrorList {
		if e == error(&l.ErrorList) || e == error(l) {
			return "the listener's list contains itself"
		}
		if el, ok := e.(*utils.ErrorList); ok {
			return fmt.Sprintf("the listener's list contains a list: %v", el)
		}
		if seen[e.Error()] {
			return fmt.Sprintf("the listener has %q twice", e)
		}
		seen[e.Error()] = true
	}
	if strings.Join(sut.Which(l.ErrorList[0]), ",") != strings.Join(sut.Which(o.Err), ",") {
		return fmt.Sprintf("the returned error is of kind %v, the listener's first of kind %v", sut.Which(o.Err), sut.Which(l.ErrorList[0]))
	}
	if !strings.Contains(o.Err.Error(), l.ErrorList[0].Error()) {
		return fmt.Sprintf("the returned error %q does not say the first diagnostic %q", o.Err, l.ErrorList[0])
	}
	want := ""
	if k := len(l.ErrorList) - 1; k > 0 {
		want = fmt.Sprintf(" (with %d+ errors)", k)
	}
	if o.Err.Error() != l.ErrorList[0].Error()+want {
		return fmt.Sprintf("%d diagnostics, but the returned error says %q", len(l.ErrorList), o.Err)
	}
	_, e := kf.Parse(src)
	for _, x := range l.ErrorList {
		syn := false
		for _, w := range sut.Which(x) {
			syn = syn || w == "syntax error"
		}
		if syn != (e != nil) {
			return fmt.Sprintf("diagnostic %q of the wrong stage (syntax error in the text: %v)", x, e != nil)
		}
	}
	if e != nil {
		// a recorder of our own on the same scanner and parser
		var r recorder
		if r.run(src) {
			want, got := fmt.Sprint(r.at), fmt.Sprint(positions(l))
			if want != got {
				return fmt.Sprintf("the parser reports diagnostics at %s, the listener has %s", mon.Clip(want, 600), mon.Clip(got, 600))
			}
		}
	}
	if e == nil && len(l.ErrorList) != 1 {
		return fmt.Sprintf("an invalid program has %d diagnostics: %v", len(l.ErrorList), texts(l))
	}
	return ""
}

// recorder notes where the scanner and the parser find fault.
type recorder struct {
	antlr.DefaultErrorListener
	at []sut.Pos
}

func (r *recorder) SyntaxError(_ antlr.Recognizer, _ any, line, col int, _ string, _ antlr.RecognitionException) {
	r.at = append(r.at, sut.Pos{Line: line, Col: col})
}

func (r *recorder) run(src string) (ok bool) {
	defer func() { ok = recover() == nil }()
	lex := kfgrammar.NewKuneiformLexer(antlr.NewInputStream(src))
	lex.RemoveErrorListeners()
	lex.AddErrorListener(r)
	p := kfgrammar.NewKuneiformParser(antlr.NewCommonTokenStream(lex, antlr.TokenDefaultChannel))
	p.RemoveErrorListeners()
	p.AddErrorListener(r)
	p.Source_unit()
	return
}

func positions(l *utils.ErrorListener) (r []sut.Pos) {
	for _, e := range l.ErrorList {
		if p, ok := sut.ErrPosText(e.Error()); ok {
			r = append(r, p)
		}
	}
	return
}

func texts(l *utils.ErrorListener) (r []string) {
	for _, e := range l.ErrorList {
		r = append(r, e.Error())
	}
	return
}

// capture runs f with standard output and error going to files.
func capture(f func()) (out, errOut string) {
	so, se := os.Stdout, os.Stderr
	a, err := os.CreateTemp("", "kfverif-out-")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	b, err := os.CreateTemp("", "kfverif-err-")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	os.Remove(a.Name())
	os.Remove(b.Name())
	defer func() {
		os.Stdout, os.Stderr = so, se
		a.Seek(0, 0)
		b.Seek(0, 0)
		x, _ := io.ReadAll(a)
		y, _ := io.ReadAll(b)
		a.Close()
		b.Close()
		out, errOut = string(x), string(y)
	}()
	os.Stdout, os.Stderr = a, b
	f()
	return
}

var noiseLine = regexp.MustCompile(`^line \d+:\d+ token recognition error at: '.*'$`)

// foreignNoise tells if what was printed is the known finding: the lexer of
// the call parser that is depended on complains on standard error about the
// operators it does not know. The text itself has no lexical error then.
func foreignNoise(src, noise string) bool {
	p, e := kf.Parse(src)
	if e != nil || len(kf.Validate(p).Unspecified) == 0 {
		return false
	}
	for _, l := range strings.Split(strings.TrimSuffix(noise, "\n"), "\n") {
		if !noiseLine.MatchString(l) {
			return false
		}
	}
	return true
}

// knownNoise shows the known finding on one input.
func knownNoise(c *mon.C) {
	src := "database d; action a($x) public {a(~$x);}"
	_, noise := capture(func() { sut.Compile(src) })
	if noise != "" && foreignNoise(src, noise) {
		c.Fail("print", "compiling a call with an operator unknown to the call parser prints to standard error", src, noise)
	}
	c.Judged(src)
	c.Eval(src)
}

func judgeTrace(src string) string {
	var d, t *sut.Out
	quiet, noise := capture(func() {
		if d = sut.Compile(src); d.Err != nil { // an error may also print when it is asked for what it says
			_ = d.Err.Error()
			_ = errors.Is(d.Err, schema.ErrDuplicateTable)
		}
	})
	if quiet != "" {
		return fmt.Sprintf("the default mode prints %q", mon.Clip(quiet, 200))
	}
	if noise != "" && !foreignNoise(src, noise) {
		return fmt.Sprintf("the default mode prints %q to standard error", mon.Clip(noise, 200))
	}
	for _, m := range []kfparser.Mode{0, kfparser.Trace, kfparser.Default | kfparser.Trace} {
		out, _ := capture(func() { t = sut.CompileWith(src, nil, m) })
		if d.Panic != nil || t.Panic != nil {
			if (d.Panic == nil) != (t.Panic == nil) {
				return fmt.Sprintf("panics differ: default %v, trace %v", d.Panic, t.Panic)
			}
			return ""
		}
		if (d.Err == nil) != (t.Err == nil) || d.Err != nil && d.Err.Error() != t.Err.Error() {
			return fmt.Sprintf("the error is %v by default, %v when tracing", d.Err, t.Err)
		}
		if string(d.JSON) != string(t.JSON) {
			return "the schema differs when tracing"
		}
		if m&kfparser.Trace == 0 {
			if out != "" {
				return fmt.Sprintf("without any mode set, it prints %q", mon.Clip(out, 200))
			}
			continue
		}
		if out == "" {
			return "trace mode prints nothing"
		}
		if d.Err == nil && len(out) < 20 {
			return fmt.Sprintf("trace mode prints nothing of the program: %q", out)
		}
	}
	return ""
}
