// Package checks has one decision procedure per property.
package checks

import (
	"fmt"
	"strings"

	"github.com/kwilteam/kuneiform/utils"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
	"kfverif/sut"
)

// All checks by property.
var All = map[string]*mon.Check{}

func reg(c *mon.Check) { All[c.ID] = c }

// faithful judges a text: if it is a valid program, it must be accepted and
// the given sections of its schema must be what the reference front end says.
func faithful(secs ...sut.Sec) func(string) string {
	return func(src string) string {
		p, e := kf.Parse(src)
		if e != nil || !kf.Validate(p).OK() {
			return ""
		}
		o := sut.Compile(src)
		if !o.OK() {
			return "a valid program was not compiled: " + mon.Clip(o.Failure(), 500)
		}
		want, got := sut.Expected(p), sut.Observed(o.Tree)
		for _, s := range secs {
			if d := sut.Diff("", s(want), s(got)); d != "" {
				return "the compiled schema differs from the source: " + d
			}
		}
		return ""
	}
}

// selfCheck stops the harness if its two models of a text disagree.
func selfCheck(src string, p *kf.Prog) {
	q, e := kf.Parse(src)
	if e != nil {
		panic(fmt.Sprintf("HARNESS: the reference parser rejects a generated program at %d:%d: %q", e.Line, e.Col, mon.Clip(src, 2000)))
	}
	if d := sut.Diff("", sut.Expected(p), sut.Expected(q)); d != "" {
		panic("HARNESS: the reference parser and the generator differ: " + d)
	}
}

// shape summarises a program, to tell non-trivially different ones apart.
func shape(p *kf.Prog) string {
	var b strings.Builder
	for _, e := range p.Exts {
		fmt.Fprintf(&b, "e%d", len(e.Conf))
	}
	for _, t := range p.Tabs {
		b.WriteString("t")
		for _, c := range t.Cols {
			b.WriteString(c.Type[:1])
			for _, a := range c.Attrs {
				b.WriteString(a.K[len(a.K)-3:])
			}
		}
		b.WriteString(t.Order)
		for _, x := range t.Idxs {
			fmt.Fprintf(&b, "%s%d", x.Type[:1], len(x.Cols))
		}
		for _, f := range t.FKs {
			fmt.Fprintf(&b, "f%d%v", len(f.Child), f.Actions)
		}
	}
	acts := p.Acts
	if p.Init != nil {
		acts = append(append([]kf.Act{}, acts...), *p.Init)
	}
	for _, a := range acts {
		fmt.Fprintf(&b, "a%d%v", len(a.Params), a.Mods)
		for _, n := range a.Annots {
			fmt.Fprintf(&b, "n%d", len(n.Attrs))
		}
		for _, s := range a.Stmts {
			if s.IsSQL() {
				fmt.Fprintf(&b, "s%.3s%d", strings.ToLower(s.SQL), len(s.SQL)/16)
			} else {
				fmt.Fprintf(&b, "c%v%d", s.Ext != "", len(s.Recv))
				for _, t := range s.Args {
					b.WriteString(string(t.K[:1]))
				}
			}
		}
	}
	return b.String()
}

// tally counts what a program contains.
func tally(c *mon.C, p *kf.Prog) {
	c.Count("tables", int64(len(p.Tabs)))
	c.Count("extensions", int64(len(p.Exts)))
	c.Count("actions", int64(len(p.Acts)))
	for _, e := range p.Exts {
		c.Count("extension settings", int64(len(e.Conf)))
	}
	for _, t := range p.Tabs {
		c.Count("columns", int64(len(t.Cols)))
		c.Count("indexes", int64(len(t.Idxs)))
		c.Count("foreign keys", int64(len(t.FKs)))
		for _, x := range t.Cols {
			c.Count("attributes", int64(len(x.Attrs)))
		}
		for _, f := range t.FKs {
			c.Count("foreign key triggers", int64(len(f.Actions)))
		}
		c.Max("max columns", int64(len(t.Cols)))
	}
	for _, a := range p.Acts {
		c.Count("parameters", int64(len(a.Params)))
		c.Count("modifiers", int64(len(a.Mods)))
		c.Count("annotations", int64(len(a.Annots)))
		c.Count("statements", int64(len(a.Stmts)))
		c.Max("max parameters", int64(len(a.Params)))
		for _, s := range a.Stmts {
			if s.IsSQL() {
				c.Count("sql statements", 1)
			} else {
				c.Count("call statements", 1)
			}
		}
	}
	if p.Init != nil {
		c.Count("init blocks", 1)
	}
}

// faithfulCase generates a program (mostly with only the features in focus)
// and judges it.
func faithfulCase(focus gen.Opt, tweak func(g *gen.G, p *kf.Prog)) func(*mon.C, int) {
	return func(c *mon.C, i int) {
		g := c.G()
		o := focus
		if i%10 >= 7 {
			o = gen.Full
		}
		p := g.Prog(o)
		if tweak != nil {
			tweak(g, p)
		}
		src := g.Text(p)
		selfCheck(src, p)
		c.Judged(src)
		c.Eval(shape(p))
		tally(c, p)
		c.Max("max source bytes", int64(len(src)))
		if len(src) < 600 {
			c.Sample(src)
		}
	}
}

const ruleProg = "random valid programs over hostile names and literals, random surface forms and layouts, one dimension in four unusually large; " +
	"the compiled JSON is compared with what an independent reference front end (own lexer, parser, validator) reads from the same text. " +
	"Two cases are distinct when their declaration structure (kinds, counts, orders, attribute sets, argument token shapes) differs. "

func init() {
	tabs := gen.Opt{MinTabs: 1, MaxTabs: 5, MaxCols: 8, Attrs: true}
	reg(&mon.Check{ID: "C01", OnceShard: both(bulkSweep("C01"), formatSweep, relateSweep("C01")), Rule: ruleProg + ruleSweeps + "Compared: schema name, tables, columns, types, attributes, values, all orders.",
		Quick: 16000, Thorough: 1500000, Judge: faithful(sut.SecHead, sut.SecTables), Case: faithfulCase(tabs, nil),
		Floors: map[string]int64{"columns": 10000, "attributes": 10000, "max columns": 40}})

	idx := gen.Opt{MinTabs: 1, MaxTabs: 4, MaxCols: 6, Idx: true, FK: true, MaxList: 4}
	reg(&mon.Check{ID: "C02", OnceShard: both(bulkSweep("C02"), relateSweep("C02")), Rule: ruleProg + ruleSweeps + "Compared: indexes and foreign keys of every table.",
		Quick: 16000, Thorough: 1500000, Judge: faithful(sut.SecIdxFK), Case: faithfulCase(idx, nil),
		Floors: map[string]int64{"indexes": 5000, "foreign keys": 5000, "foreign key triggers": 5000}})

	sig := gen.Opt{MinActs: 1, MaxActs: 5, Params: true, Mods: true, SQL: true, MaxStmts: 1, MaxList: 6}
	reg(&mon.Check{ID: "C03", OnceShard: both(bulkSweep("C03"), relateSweep("C03")), Rule: ruleProg + ruleSweeps + "Compared: action names, parameters, visibility, mutability, owner flag, order.",
		Quick: 16000, Thorough: 1200000, Judge: faithful(sut.SecSig), Case: faithfulCase(sig, nil),
		Floors: map[string]int64{"actions": 10000, "modifiers": 10000, "parameters": 10000}})

	body := gen.Opt{MaxTabs: 2, MinActs: 1, MaxActs: 4, MaxExts: 2, Params: true, Mods: true, SQL: true, Calls: true, Init: true, MaxStmts: 6, MaxList: 3, MaxCols: 4}
	reg(&mon.Check{ID: "C04", OnceShard: both(bulkSweep("C04"), formatSweep, relateSweep("C04"), gapSweep), Rule: ruleProg + ruleSweeps + "Compared: statements of every action and init; SQL byte for byte, calls token for token.",
		Quick: 14000, Thorough: 1000000, Judge: faithful(sut.SecBody), Case: faithfulCase(body, nil),
		Floors: map[string]int64{"sql statements": 10000, "call statements": 10000}})

	exts := gen.Opt{MaxExts: 6, MaxList: 5, MaxTabs: 1, MaxCols: 2}
	reg(&mon.Check{ID: "C05", OnceShard: both(bulkSweep("C05"), formatSweep, relateSweep("C05")), Rule: ruleProg + ruleSweeps + "Compared: extensions, settings and aliases.",
		Quick: 16000, Thorough: 1500000, Judge: faithful(sut.SecExts), Case: faithfulCase(exts, nil),
		Floors: map[string]int64{"extensions": 10000, "extension settings": 10000}})

	ann := gen.Opt{MinActs: 1, MaxActs: 4, Annots: true, Params: true, Mods: true, SQL: true, MaxStmts: 1, MaxList: 5}
	fa := faithful(sut.SecAnnot)
	reg(&mon.Check{ID: "C06", OnceShard: both(bulkSweep("C06"), formatSweep, relateSweep("C06")), Rule: ruleProg + ruleSweeps + "Compared: annotation texts; then every compiled annotation text is read back with the exported annotation reader and compared with the source.",
		Quick: 14000, Thorough: 1200000, Case: faithfulCase(ann, nil),
		Floors: map[string]int64{"annotations": 10000},
		Judge: func(src string) string {
			if m := fa(src); m != "" {
				return m
			}
			p, e := kf.Parse(src)
			if e != nil || !kf.Validate(p).OK() {
				return ""
			}
			o := sut.Compile(src)
			acts, _ := o.Tree["actions"].([]any)
			for i, a := range p.Acts {
				if i >= len(acts) {
					return "an action is missing"
				}
				m, _ := acts[i].(map[string]any)
				l, _ := m["annotations"].([]any)
				for j, n := range a.Annots {
					if j >= len(l) {
						return "an annotation is missing"
					}
					s, _ := l[j].(string)
					if d := annDiff(n, s); d != "" {
						return d
					}
				}
			}
			return ""
		}})

	ini := gen.Opt{MaxTabs: 2, MaxActs: 4, MaxExts: 1, Params: true, Mods: true, SQL: true, Calls: true, Init: true, MaxStmts: 4, MaxList: 2, MaxCols: 3}
	reg(&mon.Check{ID: "C07", OnceShard: both(bulkSweep("C07"), formatSweep, relateSweep("C07")), Rule: ruleProg + ruleSweeps + "Nearly every program has an init block at a random place among the declarations, one in five has two or three (must be rejected), the rest none (no init action may appear).",
		Quick: 14000, Thorough: 1000000,
		Floors: map[string]int64{"one init": 4000, "no init": 500, "many inits": 1000},
		Judge:  judgeInit,
		Case: func(c *mon.C, i int) {
			g := c.G()
			o := ini
			if i%10 >= 7 {
				o = gen.Full
			}
			p := g.Prog(o)
			if p.Init == nil && i%3 != 0 {
				p.Init, p.Inits = &kf.Act{Name: "init"}, 1
				g.Body(p, p.Init, o)
			}
			if i%5 == 0 {
				if q := g.Inject(p, kf.MultiInit); q != nil {
					p = q
				}
			}
			src := g.Text(p)
			selfCheck(src, p)
			switch {
			case p.Inits == 0:
				c.Count("no init", 1)
			case p.Inits == 1:
				c.Count("one init", 1)
			default:
				c.Count("many inits", 1)
			}
			c.Judged(src)
			c.Eval(fmt.Sprint(p.Inits) + shape(p))
			if len(src) < 600 {
				c.Sample(src)
			}
		}})
}

func annDiff(n kf.Annot, s string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("reading annotation %q back panics: %v", s, r)
		}
	}()
	a, err := utils.ParseAnnotation(s)
	if err != nil {
		return fmt.Sprintf("annotation %q cannot be read back: %v", s, err)
	}
	bad := a.Target != n.Target || len(a.Attributes) != len(n.Attrs)
	for k := 0; !bad && k < len(n.Attrs); k++ {
		bad = a.Attributes[k].Name != n.Attrs[k].K || a.Attributes[k].Value != n.Attrs[k].V
	}
	if bad {
		return fmt.Sprintf("annotation %q reads back as %+v, written was %+v", s, *a, n)
	}
	return ""
}

func judgeInit(src string) string {
	p, e := kf.Parse(src)
	if e != nil {
		return ""
	}
	v := kf.Validate(p)
	if p.Inits > 1 {
		if o := sut.Compile(src); o.Err == nil && o.Panic == nil {
			return fmt.Sprintf("a program with %d init blocks was accepted", p.Inits)
		}
		return ""
	}
	if !v.OK() {
		return ""
	}
	o := sut.Compile(src)
	if !o.OK() {
		return "a valid program was not compiled: " + mon.Clip(o.Failure(), 500)
	}
	want, got := sut.Expected(p), sut.Observed(o.Tree)
	if d := sut.Diff("", sut.SecSig(want), sut.SecSig(got)); d != "" {
		return "the actions differ from the source: " + d
	}
	if d := sut.Diff("", sut.SecActions(want), sut.SecActions(got)); d != "" {
		return "the actions differ from the source: " + d
	}
	return ""
}
