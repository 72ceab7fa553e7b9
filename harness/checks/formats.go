package checks

import (
	"strings"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
)

// formatSweep: texts that mean something elsewhere, as a literal at every
// place of a program where one may stand; also padded, doubled and in pairs.
func formatSweep(c *mon.C) {
	progs := []string{
		"database d; use e {x: 1, y: %1, z: %2, w: %1} as f; use e {y: %2} as g; table t {a text default(%1) notnull, b blob notnull default(%2), c text maxlen(64) default(%1), d int default(%2)} @n(x=%1, y=%2, z=%1) @m(y=%2) action a($p) public {f.m(%1, $p, %2); $r = g.m(%2); a(%1); select %1, b from t where a = %2 and c <> %1;} @k(v=%2) action b() private {insert into t (a, b) values (%1, %2);} init() {a(%2); update t set a = %1 where b = %2;}",
		"database d; use e {k: %1} as f; table t {a text default(%1)} @n(x=%1) action a() public {a(%1);} init() {select %1;}",
		"database d; table t {a text primary default(%2) unique minlen(1) maxlen(90), b int min(1) max(9)} @n(v=1, x=%2) action a($x, $y) owner {delete from t where a = %2 or a = %1; f.m($x, lower(%1), %2 = $y);} use e {a: %1, b: %2, c: 3} as f;",
	}
	k := 0
	try := func(a, b string) {
		for i, p := range progs {
			if k++; k%c.Shards != c.Shard || c.Full() {
				continue
			}
			if i > 0 && (k/3+i)%3 > 0 && !c.Thorough() {
				continue
			}
			s := strings.NewReplacer("%1", gen.FormatLit(a), "%2", gen.FormatLit(b)).Replace(p)
			if _, e := kf.Parse(s); e != nil {
				continue
			}
			c.Judged(s)
			c.Count("texts that mean something elsewhere", 1)
			c.Eval(s)
		}
	}
	l := append(append([]string{}, gen.Formats...), gen.FreshRaws()...)
	for i, f := range l {
		o := l[(i*7+3+int(c.Seed))%len(l)]
		for _, v := range []string{f, f + " ", " " + f, f + f, f + "/", f + ".", f + ";", f + "=", f + " " + o, o + f, strings.ToUpper(f), "x" + f, f + "x", f + "1", f + "\n", f + "," + o, "(" + f + ")", "\"" + f + "\"", f + "-" + o} {
			try(v, o)
		}
		try("x", f)
		try(f, "x")
		try(f, f)
		try(f, strings.ToUpper(f))
	}
}

// thinned runs a sweep on every so manieth of its inputs.
func thinned(n int, f func(*mon.C)) func(*mon.C) {
	return func(c *mon.C) {
		shards, shard := c.Shards, c.Shard
		if !c.Thorough() {
			c.Shards, c.Shard = shards*n, shard+shards*(int(c.Seed)%n)
		}
		defer func() { c.Shards, c.Shard = shards, shard }()
		f(c)
	}
}
