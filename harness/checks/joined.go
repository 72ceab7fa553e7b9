package checks

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/kwilteam/kuneiform/schema"

	"kfverif/gen"
	"kfverif/mon"
	"kfverif/sut"
)

// Schemas made by hand may have any strings as names, also ones that contain
// what code may put between names when it makes one key of several: "a b" and
// "c" against "a" and "b c". All names of a joined schema are made of few
// words and one separator, and its lists are split in other ways.

var joinSeps = []string{" ", ",", ", ", ".", ":", "::", "/", "|", "\x00", "_", "__", "-", "->", "\n", "\t", ";", "#", "$", "@", "=", "] [", "' '", "\" \"", "\",\"", ")(", "", "\x1f", "\xff", "+", "&", "%", "~", "{", "\\", "\u2028", "é"}

func joinedSchema(g *gen.G) *schema.Schema {
	r := g.R
	sep := joinSeps[r.Intn(len(joinSeps))]
	if l := gen.FreshRaws(); len(l) > 0 && r.Intn(2) == 0 {
		sep = l[r.Intn(len(l))]
	}
	w := [][]string{{"a", "b"}, {"a", "aa"}, {"x", "Y"}, {"a", ""}, {"ab", "b"}}[r.Intn(5)]
	name := func() string {
		n := 1 + r.Intn(3)
		l := make([]string, n)
		for i := range l {
			l[i] = w[r.Intn(2)]
		}
		return strings.Join(l, sep)
	}
	distinct := func(n int, prefix string) (l []string) {
		seen := map[string]bool{}
		for i := 0; i < n*4 && len(l) < n; i++ {
			if s := prefix + name(); !seen[s] {
				seen[s] = true
				l = append(l, s)
			}
		}
		return
	}
	// another way to split what a list is when joined
	resplit := func(l []string) (o []string) {
		parts := strings.Split(strings.Join(l, sep), sep)
		if sep == "" {
			parts = strings.Split(strings.Join(l, ""), "")
		}
		for i := 0; i < len(parts); {
			n := min(1+r.Intn(3), len(parts)-i)
			o = append(o, strings.Join(parts[i:i+n], sep))
			i += n
		}
		return
	}
	s := &schema.Schema{Name: name()}
	var cols [][]string
	for _, t := range distinct(2+r.Intn(2), "") {
		x := schema.Table{Name: t}
		l := distinct(1+r.Intn(4), "")
		for _, c := range l {
			x.Columns = append(x.Columns, schema.Column{Name: c, Type: "int"})
		}
		s.Tables, cols = append(s.Tables, x), append(cols, l)
	}
	pick := func(l []string, n int) (o []string) {
		for ; n > 0; n-- {
			o = append(o, l[r.Intn(len(l))])
		}
		return
	}
	for i := range s.Tables {
		t := &s.Tables[i]
		for _, x := range distinct(r.Intn(3), "i ") {
			t.Indexes = append(t.Indexes, schema.Index{Name: x, Type: "btree", Columns: pick(cols[i], 1+r.Intn(2))})
		}
		for k := r.Intn(3); k > 0; k-- {
			p, n := r.Intn(len(s.Tables)), 1+r.Intn(2)
			t.ForeignKeys = append(t.ForeignKeys, schema.ForeignKey{ChildKeys: pick(cols[i], n), ParentTable: s.Tables[p].Name, ParentKeys: pick(cols[p], n)})
		}
		if l := t.Indexes; len(l) > 0 && r.Intn(3) == 0 {
			t.Indexes = append(l, schema.Index{Name: l[0].Name + sep + name(), Type: "btree", Columns: resplit(l[0].Columns)})
		}
		if l := t.ForeignKeys; len(l) > 0 && r.Intn(2) == 0 {
			f := l[r.Intn(len(l))]
			o := f
			o.ParentKeys = resplit(f.ParentKeys)
			o.ChildKeys = pick(cols[i], len(o.ParentKeys))
			if r.Intn(2) == 0 {
				o = f
				o.ChildKeys = resplit(f.ChildKeys)
				for p := range s.Tables {
					if s.Tables[p].Name == f.ParentTable {
						o.ParentKeys = pick(cols[p], len(o.ChildKeys))
					}
				}
			}
			t.ForeignKeys = append(l, o)
			if r.Intn(2) == 0 { // the other one first
				t.ForeignKeys[len(l)], t.ForeignKeys[0] = t.ForeignKeys[0], t.ForeignKeys[len(l)]
			}
		}
	}
	for _, n := range distinct(r.Intn(3), "") {
		s.Actions = append(s.Actions, schema.Action{Name: n, Mutability: "update", Inputs: distinct(r.Intn(3), "$"), Statements: []string{"select 1;"}})
	}
	for _, n := range distinct(r.Intn(3), "") {
		e := schema.Extension{Name: name(), Alias: n}
		if r.Intn(3) == 0 {
			e.Name, e.Alias = n, ""
		}
		s.Extensions = append(s.Extensions, e)
	}
	switch r.Intn(12) { // a fault that is one only by the whole names
	case 0:
		s.Tables = append(s.Tables, s.Tables[r.Intn(len(s.Tables))])
	case 1:
		t := &s.Tables[r.Intn(len(s.Tables))]
		t.Columns = append(t.Columns, t.Columns[r.Intn(len(t.Columns))])
	case 2:
		if t := &s.Tables[r.Intn(len(s.Tables))]; len(t.Indexes) > 0 {
			t.Indexes = append(t.Indexes, t.Indexes[0])
		}
	case 3:
		if len(s.Actions) > 0 {
			s.Actions = append(s.Actions, s.Actions[0])
		}
	case 4:
		if len(s.Extensions) > 0 {
			s.Extensions = append(s.Extensions, s.Extensions[0])
		}
	case 5:
		if len(s.Actions) > 0 && len(s.Actions[0].Inputs) > 0 {
			s.Actions[0].Inputs = append(s.Actions[0].Inputs, s.Actions[0].Inputs[0])
		}
	case 6:
		if t := &s.Tables[r.Intn(len(s.Tables))]; len(t.ForeignKeys) > 0 {
			t.ForeignKeys[r.Intn(len(t.ForeignKeys))].ParentTable = name()
		}
	}
	return s
}

// handJudge decides some fault classes of a schema made by hand.
func handJudge(set map[string]bool, src string) string {
	var s schema.Schema
	if json.Unmarshal([]byte(src), &s) != nil {
		return ""
	}
	var f flaws
	f.schema(&s)
	err, pan := validate(&s)
	if pan != nil {
		return fmt.Sprintf("validating a schema made by hand panics: %v", pan)
	}
	if len(f.set) == 0 && f.open {
		return ""
	}
	for c := range f.set {
		if set[c] && err == nil && !f.murky {
			return "a schema made by hand passes validation in spite of " + c
		}
	}
	if len(f.set) == 0 && err != nil && !f.open {
		for _, w := range sut.Which(err) {
			if set[w] {
				return "a schema made by hand without a fault is refused for " + w + ": " + mon.Clip(err.Error(), 300)
			}
		}
	}
	return ""
}

// handSweep gives the check schemas made by hand.
func handSweep(quick int, classes ...string) func(c *mon.C) {
	set := map[string]bool{}
	for _, x := range classes {
		set[x] = true
	}
	return func(c *mon.C) {
		n := quick
		if c.Thorough() {
			n *= 30
		}
		g := gen.New(c.CaseSeed(77000000 + c.Shard))
		for i := c.Shard; i < n && !c.Full(); i += c.Shards {
			var b []byte
			if i%3 == 0 {
				b = handmade(g)
			} else {
				b, _ = json.Marshal(joinedSchema(g))
			}
			var s schema.Schema
			if json.Unmarshal(b, &s) != nil {
				continue
			}
			var f flaws
			f.schema(&s)
			for x := range f.set {
				if set[x] {
					c.Count("by hand: "+x, 1)
				}
			}
			if len(f.set) == 0 && !f.open {
				c.Count("by hand: legal", 1)
			}
			c.Judged(string(b))
			c.Eval("hand" + string(b))
		}
	}
}

// byHand gives the check schemas made by hand.
func byHand(quick int) func(c *mon.C) {
	return func(c *mon.C) {
		n := quick
		if c.Thorough() {
			n *= 50
		}
		g := gen.New(c.CaseSeed(78000000 + c.Shard))
		for i := c.Shard; i < n && !c.Full(); i += c.Shards {
			b := string(handmade(g))
			c.Count("by hand", 1)
			c.Judged(b)
			c.Eval("hand" + b)
		}
	}
}
