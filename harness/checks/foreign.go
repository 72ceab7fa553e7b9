package checks

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"html"
	"net/url"
	"strconv"
	"strings"
	"unicode"

	"kfverif/kf"
	"kfverif/mon"
)

// foreignSweep: characters and words of no meaning in the language, alone or
// in a run, at the start, at the end and between any two tokens, and whole
// lines of other languages before, between and after.
func foreignSweep(c *mon.C) {
	var l []string
	for r := rune(0); r < 0x180; r++ {
		l = append(l, string(r))
	}
	for _, r := range "\u0131\u0130\u017f\u01c5\u0301\u034f\u0660\u06dd\u1680\u180e\u2000\u2001\u2002\u2003\u2007\u2009\u200a\u200b\u200c\u200d\u200e\u200f\u2010\u2013\u2014\u2018\u2019\u201c\u201d\u2026" +
		"\u2028\u2029\u202a\u202e\u202f\u2044\u205f\u2060\u2061\u2064\u2066\u206f\u2212\u3000\u3002\u3001\uff0c\uff1b\uff1a\uff08\uff09\uff5b\uff5d\uff0e\uff1d\uff41\uff10\ufe0f\ufeff\ufff9\ufffc\ufffd\uffff\ufffe\ufdd0" +
		"\U0001f600\U000e0001\U000e0020\U0010ffff\u4e16\u03bb\u0430\u212a\u2126" {
		l = append(l, string(r))
	}
	l = append(l, "\xff", "\x80", "\xc3", "\xe2\x82", "\xff\xfe", "\xfe\xff", "\xed\xa0\x80", "\xc0\x80", "\xef\xbb", "\ufeff\ufeff", "\\\n", "\\\r\n", "\\\\", "\\n", "\\u0020", "&nbsp;", "&#32;", "%20", "#!", "<!--", "-->", "--", "---", "```", "'''", `"""`,
		"/*", "*/", "/**", "//", "///", "##", "rem ", ";;", "\x1a\x1a", "\x00\x00", "\x1b[0m", "0x1", "1e3", "1.5", ".5", "-1", "+1", "1_000", "1,000", "null", "true", "::", "=>", "->", "...", "..", "[]", "<>", "{}", "()")
	lines := []string{"#!/usr/bin/env kuneiform", "#!kf", "# comment", "-- comment", "% comment", "; comment", "rem comment", "<!-- comment -->", "(* comment *)", "{- comment -}", "\"comment\"", "---", "+++", "...", "===", "```kf", "```", "{", "}", "\x1a", "\x00",
		"__END__", "EOF", "end", "end.", "end;", ".", "exit", "quit", "go", "\\", "package kf;", "version 1;", "import a;", "pragma x;", "use strict;", "\"use strict\";", "@version(1)", "database;", "database e;", "schema d;", "-*- kf -*-", "vim: set ft=kf:",
		"<?xml version=\"1.0\"?>", "<<<<<<< HEAD", "=======", ">>>>>>> x", "+ table", "- table", "> quoted", "1: line", "$ kf", "// ok", "/* ok */", "/* open", "open */", "", " ", "\t", "\f", "\v", "\u0085", "\u2028", "\ufeff", "\u00a0"}
	k := 0
	try := func(s string) {
		if k++; k%c.Shards != c.Shard || c.Full() {
			return
		}
		if _, e := kf.Parse(s); (c.Check.ID == "C08") == (e == nil) {
			return
		}
		c.Judged(s)
		c.Count("foreign characters and lines", 1)
		c.Eval(s)
	}
	// "%" is where it goes
	texts := []string{"%database d; table t {a int}", "database d; table t {a int}%", "database% d; table t {a int}", "database d%; table t {a int}", "database d;% table t {a int}", "database d; table t% {a int}",
		"database d; table t {% a int}", "database d; table t {a% int}", "database d; table t {a int% }", "database d; table t {a int,% b text min%len(1)}", "database d; table t {a int notnull% default(% 1)}",
		"database d; table t {a int default('%')}", "database d; /* % */ table t {a int}", "database d; // %\ntable t {a int}", "database d; table t {a int, #%i index(a)}", "database d; table t {a int, #i index(a% )}",
		"database d; action% a() public {select 1;}", "database d; action a(% $x) public {select 1;}", "database d; action a($%x) public {select 1;}", "database d; action a() public% {select 1;}", "database d; action a() public {% select 1;}",
		"database d; action a() public {select 1;% }", "database d; action a() public {a(% );}", "database d; action a() public {a(1%);% a();}", "database d; action a() public {a(1 +% 2);}", "database d; use e as% f; table t {a int}",
		"database d; use e {k:% 1} as f;", "database d; @n(% x=1) action a() public {select 1;}", "database d; @n(x='%') action a() public {select 1;}", "database d; table t {a int}% action a() public {select 1;} // end",
		"%", "database d;%", "% database d; table t {a int} %", "database d;%table t {a int}%", "//%", "/*%*/database d;", "database d;//%", "database d;/*%"}
	for _, t := range texts {
		for _, f := range l {
			try(strings.ReplaceAll(t, "%", f))
			try(strings.ReplaceAll(t, "%", f+f))
			try(strings.ReplaceAll(t, "%", " "+f+" "))
		}
	}
	for _, t := range []string{"%database d;\ntable t {a int}\n", "database d;\ntable t {a int}\n%", "database d;\n%table t {a int}\n", "database d;\ntable t {\n%a int}\n", "database d;\naction a() public {\n%select 1;}", "database d;\naction a() public {select 1;\n%}"} {
		for _, f := range lines {
			for _, nl := range []string{"\n", "\r\n", "\r", "\n\n"} {
				try(strings.ReplaceAll(strings.ReplaceAll(t, "\n", nl), "%", f+nl))
			}
		}
	}
}

// disguised: whole programs as another program, or a person, would hand them
// over: in capitals, quoted, escaped, fenced, numbered, reversed.
func disguised(c *mon.C) {
	lines := func(f func(i int, l string) string) func(string) string {
		return func(s string) string {
			l := strings.Split(s, "\n")
			for i := range l {
				l[i] = f(i, l[i])
			}
			return strings.Join(l, "\n")
		}
	}
	words := func(f func(string) string) func(string) string {
		return func(s string) string {
			l := strings.Fields(s)
			for i := range l {
				l[i] = f(l[i])
			}
			return strings.Join(l, " ")
		}
	}
	shift := func(from, to rune, by int) func(string) string {
		return func(s string) string {
			return strings.Map(func(r rune) rune {
				if r >= from && r <= to {
					return r + rune(by)
				}
				return r
			}, s)
		}
	}
	title := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
	rep := func(l ...string) func(string) string { return strings.NewReplacer(l...).Replace }
	fs := []func(string) string{
		strings.ToUpper, func(s string) string { return title(s) }, words(title), words(strings.ToUpper),
		func(s string) string {
			return strings.Map(func(r rune) rune {
				if unicode.IsLower(r) {
					return unicode.ToUpper(r)
				}
				return unicode.ToLower(r)
			}, s)
		},
		func(s string) string { b, _ := json.Marshal(s); return string(b) },
		func(s string) string { b, _ := json.Marshal(s); return string(b[1 : len(b)-1]) },
		func(s string) string { b, _ := json.Marshal([]string{s}); return string(b) },
		func(s string) string { b, _ := json.Marshal(map[string]string{"source": s}); return string(b) },
		url.QueryEscape, url.PathEscape, html.EscapeString, strconv.QuoteToASCII,
		func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) },
		func(s string) string { return hex.EncodeToString([]byte(s)) },
		func(s string) string { return "%" + url.PathEscape(s) }, func(s string) string { return "data:text/plain," + url.PathEscape(s) },
		func(s string) string { return "data:;base64," + base64.StdEncoding.EncodeToString([]byte(s)) },
		func(s string) string { return "```\n" + s + "\n```" }, func(s string) string { return "```kf\n" + s + "\n```\n" }, func(s string) string { return "~~~\n" + s + "\n~~~" },
		func(s string) string { return "<pre>" + s + "</pre>" }, func(s string) string { return "<![CDATA[" + s + "]]>" }, func(s string) string { return "{" + s + "}" }, func(s string) string { return "(" + s + ")" },
		func(s string) string { return "[" + s + "]" }, func(s string) string { return "'" + s + "'" }, func(s string) string { return "\"" + s + "\"" }, func(s string) string { return "`" + s + "`" },
		func(s string) string { return "$" + s + "$" }, func(s string) string { return "<" + s + ">" }, func(s string) string { return "\u201c" + s + "\u201d" },
		func(s string) string { return "=\"" + s + "\"" }, func(s string) string { return "\x02" + s + "\x03" }, func(s string) string { return "\x01" + s + "\x04" }, func(s string) string { return s + "\x1a" },
		func(s string) string { return s + "\x00" }, func(s string) string { return s + "\x00rest" }, func(s string) string { return s + "\x04" }, func(s string) string { return s + "\b" },
		func(s string) string { return s + s }, func(s string) string { return s + "\n" + s }, func(s string) string { return s + "\n---\n" + s }, func(s string) string { return s + ";" },
		func(s string) string {
			r := []rune(s)
			for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
			return string(r)
		},
		lines(func(i int, l string) string { return fmt.Sprintf("%d %s", i+1, l) }), lines(func(i int, l string) string { return fmt.Sprintf("%d: %s", i+1, l) }), lines(func(i int, l string) string { return fmt.Sprintf("%4d\t%s", i+1, l) }),
		lines(func(i int, l string) string { return "> " + l }), lines(func(i int, l string) string { return "+" + l }), lines(func(i int, l string) string { return "# " + l }), lines(func(i int, l string) string { return "-- " + l }),
		lines(func(i int, l string) string { return "* " + l }), lines(func(i int, l string) string { return "| " + l }), lines(func(i int, l string) string { return l + "\\" }), lines(func(i int, l string) string { return l + ";" }),
		lines(func(i int, l string) string { return "; " + l }), lines(func(i int, l string) string { return "$ " + l }),
		rep(" ", "_"), rep(" ", "+"), rep(" ", "%20"), rep(" ", "\u00a0"), rep(" ", "\u3000"), rep(" ", "\u200b"), rep(" ", "."), rep(" ", "&nbsp;"), rep(" ", "\x00"), rep(" ", ""), rep("\n", "\\n"), rep("\n", "<br>"), rep("\n", "\u2028"),
		rep("\n", "\u0085"), rep("\n", "\v"), rep("\n", "\f"), rep("\n", "\x1e"), rep("{", "{{", "}", "}}"), rep("{", "[", "}", "]"), rep("{", "(", "}", ")"), rep("{", "begin ", "}", " end"), rep("{", "<%", "}", "%>"), rep("{", "??<", "}", "??>"),
		rep("{", "\\{", "}", "\\}"), rep(";", ""), rep(";", ";;"), rep(";", ","), rep(";", "\u037e"), rep(";", "\uff1b"), rep(";", "."), rep(",", ";"), rep(",", " "), rep(",", ",,"), rep(",", "\uff0c"), rep(",", "\u060c"), rep("'", "\""), rep("'", "`"), rep("'", "\u2019"),
		rep("'", "''"), rep("'", ""), rep("'", "\\'"), rep("(", "[", ")", "]"), rep("(", "\uff08", ")", "\uff09"), rep("(", "((", ")", "))"), rep("=", ":="), rep("=", "=="), rep(":", "="), rep("#", ""), rep("#", "##"), rep("$", ""), rep("$", "@"), rep("$", ":"), rep("@", "$"), rep("@", ""),
		rep("@", "@@"), rep("$", "$$"), rep("int", "integer"), rep("int", "Int"), rep("int", "INT"), rep("text", "varchar"), rep("text", "string"), rep("blob", "bytes"), rep("table", "create table"), rep("table", "tables"), rep("database", "db"), rep("database", "schema"), rep("database", "create database"),
		rep("action", "function"), rep("action", "procedure"), rep("notnull", "not null"), rep("notnull", "not_null"), rep("notnull", "NOT NULL"), rep("public", "pub"), rep("public", "Public"), rep("public", ""), rep("index", "idx"), rep("primary", "primary key"), rep("primary", "pk"),
		rep("foreign_key", "foreign key"), rep("references", "reference"), rep("ref", "refs"), rep("on_update", "on update"), rep("on_delete", "on delete"), rep("on_", "ON "), rep("set_null", "set null"), rep("as", "AS"), rep("use", "import"), rep("use", "using"), rep("init()", "init"), rep("init", "constructor"),
		rep("select", "SELECTT"), rep("select", "sel ect"), rep("default(", "default ("), rep("default(", "default = ("), rep("min(", "min ("), rep("default", "DEFAULT"),
		shift('a', 'z', 0xff41-'a'), shift('0', '9', 0xff10-'0'), shift('!', '~', 0xfee0), shift('0', '9', 0x660-'0'), shift('a', 'z', 0x1d41a-'a'), shift('a', 'y', 1), shift('\x00', '\x7f', 0x80), shift(' ', '~', -1),
		wide(2, true, ""), wide(2, false, ""), wide(4, true, ""), wide(4, false, ""),
		wide(2, true, "\xfe\xff"), wide(2, false, "\xff\xfe"),
		func(s string) string { // combined characters
			var b strings.Builder
			for _, r := range s {
				b.WriteRune(r)
				if unicode.IsLetter(r) {
					b.WriteRune('\u0301')
				}
			}
			return b.String()
		},
		func(s string) string { // spaced
			var b strings.Builder
			for _, r := range s {
				b.WriteRune(r)
				b.WriteByte(' ')
			}
			return b.String()
		},
	}
	all := "database mydb;\nuse ext {key: 1, k2: 'v'} as e;\ntable t {\n  a int primary notnull,\n  b text default('x') maxlen(10),\n  c blob unique,\n  foreign_key (a) references t(a) on_update cascade on_delete set_null,\n  #i index(a, b)\n}\n" +
		"@note(x='y', z=1)\naction act($p, $q) public owner view {\n  select a from t where b = $p;\n  $r = e.m($q, 1);\n}\ninit() {\n  act(1, 2);\n}\n"
	progs := []string{all, "database d;", "database d; table t {a int}", "database d;\ntable t {a int}\n", "database d; action a() public {select 1;}", "database d; table t {a int, fk(a) ref t(a), #i index(a)}", "database d; use e as f;",
		"database d; action a($x) private {a($x);}", "database d; init() {select 1;}", "database d; @n(x=1) action a() public view {select 1;}", "database d; table t {a text default('X y')}", "database d; table a {x int} table b {y int} action c() public {select 'it';}",
		"database d; // note\ntable t {a int} /* end */", "database d1;\n\ntable t_1 {\n\ta1 int min(1) max(9),\n\tb1 text minlen(2)\n}\n"}
	k := 0
	for _, p := range progs {
		for i, f := range fs {
			try := func(s string) {
				if k++; k%c.Shards != c.Shard || c.Full() {
					return
				}
				_, e := kf.Parse(s)
				if (c.Check.ID == "C08" && e == nil) || (c.Check.ID == "C09" && e != nil) {
					return
				}
				c.Judged(s)
				c.Count("whole programs in disguise", 1)
				c.Eval(s)
			}
			try(f(p))
			try(f(p + "\n"))
			try("\n" + f(p))
			try("// x\n" + f(p))
			for _, j := range []int{0, 1, i + 1, i + 7, i + 31} {
				try(fs[j%len(fs)](f(p)))
			}
			// only the part before or after some line or word
			for _, at := range []int{len(p) / 4, len(p) / 2, len(p) * 3 / 4, strings.IndexByte(p, ';'), strings.IndexByte(p, ';') + 1} {
				try(p[:at] + f(p[at:]+" "))
				if at > 0 {
					try(f(p[:at]) + p[at:])
				}
			}
		}
	}
}

// wide gives the text in code units of some bytes.
func wide(n int, big bool, mark string) func(string) string {
	return func(s string) string {
		b := []byte(mark)
		for _, r := range s {
			for i := 0; i < n; i++ {
				k := i
				if big {
					k = n - 1 - i
				}
				b = append(b, byte(r>>(8*k)))
			}
		}
		return string(b)
	}
}

// positionSweep: the place of an error far down or far to the right, behind
// every kind of text that lines and columns are counted in.
func positionSweep(c *mon.C) {
	sizes := []int{0, 1, 2, 3, 7, 8, 9, 10, 31, 32, 63, 64, 99, 100, 127, 128, 200, 255, 256, 257, 499, 500, 511, 512, 999, 1000, 1001, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 9999, 10000, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 131071, 131072}
	if c.Thorough() {
		sizes = append(sizes, 262143, 262144, 524288, 1000000, 1048575, 1048576, 2000000)
	}
	pads := []string{"\n", "\r\n", "\r", " ", "\t", "\n\n ", "// é\n", "/* x */", "/* \n */", "/*\r*/\n", "/* 世界 */", "// x\r\n  "}
	inside := []string{"database d; table t {a text default('%')", "database d; /*%*/", "database d; //%\n", "database %", "database d; table %x {a int}", "database d; table t {a int min(1%)", "database d; use e {k: '%'} as x;", "database d; action a() public {select '%';"}
	fill := []string{"x", "é", "\n", " y", "世\n", "0", "\r\n", "\t"}
	errs := []string{"?", "table table", "'", "/*", "table t {a int", "} x", "use", "table t {a int,,}", "action a() {select 1;}", "1", "é", "\x00", "@", ""}
	k := 0
	try := func(s string) {
		if k++; k%c.Shards != c.Shard || c.Full() {
			return
		}
		if _, e := kf.Parse(s); e == nil {
			return
		}
		c.Judged(s)
		c.Count("far places", 1)
		c.Max("max characters before an error", int64(len(s)))
		c.Eval(s)
	}
	for i, n := range sizes {
		for j, p := range pads {
			body := strings.Repeat(p, n)
			for x, e := range errs {
				if n > 1100 && (x+i+j)%len(errs) > 2 {
					continue
				}
				try("database d;" + body + e)
				try(body + "database d; table t {a int}" + e)
			}
			try("database d" + body + "table")
			try("database d; table t {a int" + body + "b}")
			try("database d; action a() public {a(1" + body + "?);}")
		}
		for j, t := range inside {
			for x, f := range fill {
				if n > 1100 && (x+i+j)%len(fill) > 1 {
					continue
				}
				s := strings.ReplaceAll(t, "%", strings.Repeat(f, n))
				try(s + "?")
				try(s + " }} e")
				try(s + "\n é ;;")
			}
		}
	}
}
