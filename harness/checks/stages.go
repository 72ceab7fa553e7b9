package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/antlr4-go/antlr/v4"
	"github.com/kwilteam/kuneiform/kfgrammar"
	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/kfparser/ast"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
	"kfverif/sut"
)

// ---- C28: schemas made by hand

// spy is a caller's own validator: it notes what it was asked.
type spy struct {
	calls []string
	nodes []any
	say   error
}

func (s *spy) note(m string, n any) error {
	s.calls, s.nodes = append(s.calls, m), append(s.nodes, n)
	return s.say
}
func (s *spy) VisitSchema(n *schema.Schema) error         { return s.note("VisitSchema", n) }
func (s *spy) VisitExtension(n *schema.Extension) error   { return s.note("VisitExtension", n) }
func (s *spy) VisitTable(n *schema.Table) error           { return s.note("VisitTable", n) }
func (s *spy) VisitColumn(n *schema.Column) error         { return s.note("VisitColumn", n) }
func (s *spy) VisitAttribute(n *schema.Attribute) error   { return s.note("VisitAttribute", n) }
func (s *spy) VisitIndex(n *schema.Index) error           { return s.note("VisitIndex", n) }
func (s *spy) VisitForeignKey(n *schema.ForeignKey) error { return s.note("VisitForeignKey", n) }
func (s *spy) VisitAction(n *schema.Action) error         { return s.note("VisitAction", n) }

type part interface {
	Accept(schema.Validator) error
	ToJSON() ([]byte, error)
}

// nodesOf gives every node of a schema with the method of a validator that is
// for its kind.
func nodesOf(s *schema.Schema, visit func(method string, n part)) {
	visit("VisitSchema", s)
	for i := range s.Extensions {
		visit("VisitExtension", &s.Extensions[i])
	}
	for i := range s.Tables {
		t := &s.Tables[i]
		visit("VisitTable", t)
		for k := range t.Columns {
			visit("VisitColumn", &t.Columns[k])
			for x := range t.Columns[k].Attributes {
				visit("VisitAttribute", &t.Columns[k].Attributes[x])
			}
		}
		for k := range t.Indexes {
			visit("VisitIndex", &t.Indexes[k])
		}
		for k := range t.ForeignKeys {
			visit("VisitForeignKey", &t.ForeignKeys[k])
		}
	}
	for i := range s.Actions {
		visit("VisitAction", &s.Actions[i])
	}
}

// flaws are the faults of a schema made by hand, by class; open if a rule is not documented
// for something in it.
type flaws struct {
	set   map[string]bool
	open  bool
	murky bool // what is in the set may not be a fault
}

func (f *flaws) add(c string) {
	if f.set == nil {
		f.set = map[string]bool{}
	}
	f.set[c] = true
}

func (f *flaws) column(c *schema.Column) {
	seen := map[schema.AttributeType]bool{}
	for _, a := range c.Attributes {
		if seen[a.Type] {
			f.add(kf.DupAttr)
		}
		seen[a.Type] = true
		lenB, valB := a.Type == "min_length" || a.Type == "max_length", a.Type == "min" || a.Type == "max"
		switch c.Type {
		case "int":
			if lenB {
				f.add(kf.AttrNA)
			}
		case "text":
			if valB {
				f.add(kf.AttrNA)
			}
		default:
			f.open = f.open || lenB || valB
		}
	}
}

func (f *flaws) table(t *schema.Table) {
	cols := map[string]bool{}
	for i := range t.Columns {
		c := &t.Columns[i]
		if cols[c.Name] {
			f.add(kf.DupColumn)
		}
		cols[c.Name] = true
		f.column(c)
	}
	idx := map[string]bool{}
	for _, x := range t.Indexes {
		if idx[x.Name] {
			f.add(kf.DupIndex)
		}
		idx[x.Name] = true
		f.open = f.open || cols[x.Name]
		for _, c := range x.Columns {
			if !cols[c] {
				f.add(kf.ColumnNF)
			}
		}
	}
}

func (f *flaws) action(a *schema.Action) {
	seen := map[string]bool{}
	for _, p := range a.Inputs {
		if seen[p] {
			f.add(kf.DupParam)
		}
		seen[p] = true
	}
}

var (
	plainCall = regexp.MustCompile(`^(?:((?:\$[a-z0-9_]+, )*\$[a-z0-9_]+) = )?(?:([a-z][a-z0-9_]*)\.)?([a-z][a-z0-9_]*)\(((?:[$@][a-z0-9_]+|[0-9]+|, )*)\);$`)
	plainSQL  = map[string]bool{"select 1;": true, "insert into t (a) values ($x);": true, "update t set a = 1 where b = 2;": true, "delete from t;": true}
)

func (f *flaws) schema(s *schema.Schema) {
	exts := map[string]bool{}
	for _, e := range s.Extensions {
		n := e.Alias
		if n == "" {
			n = e.Name
		}
		if exts[n] {
			f.add(kf.DupExt)
		}
		exts[n] = true
	}
	tabs := map[string]map[string]bool{}
	for i := range s.Tables {
		t := &s.Tables[i]
		if tabs[t.Name] != nil {
			f.add(kf.DupTable)
		}
		f.table(t)
		m := map[string]bool{}
		for _, c := range t.Columns {
			m[c.Name] = true
		}
		tabs[t.Name] = m
	}
	for _, t := range s.Tables {
		for _, k := range t.ForeignKeys {
			for _, c := range k.ChildKeys {
				if !tabs[t.Name][c] {
					f.add(kf.ColumnNF)
				}
			}
			if tabs[k.ParentTable] == nil {
				f.add(kf.TableNF)
			}
			for _, c := range k.ParentKeys {
				if !tabs[k.ParentTable][c] {
					f.add(kf.ColumnNF)
				}
			}
			f.open = f.open || len(k.ChildKeys) != len(k.ParentKeys)
			on := map[schema.ForeignKeyActionOn]bool{}
			for _, a := range k.Actions {
				if on[a.On] {
					f.add(kf.DupFKAct)
				}
				on[a.On] = true
			}
		}
	}
	acts := map[string]bool{}
	for i := range s.Actions {
		if acts[s.Actions[i].Name] {
			f.add(kf.DupAction)
		}
		acts[s.Actions[i].Name] = true
		f.action(&s.Actions[i])
	}
	for _, a := range s.Actions {
		scope := map[string]bool{"@caller": true}
		for _, p := range a.Inputs {
			scope[p] = true
		}
		for _, st := range a.Statements {
			if plainSQL[st] {
				continue
			}
			m := plainCall.FindStringSubmatch(st)
			if m == nil || kf.Reserved(m[2]) || kf.Reserved(m[3]) || m[1] != "" && m[2] == "" {
				f.open, f.murky = true, true // with receivers that are not known
				continue
			}
			if m[2] == "" && !acts[m[3]] {
				f.add(kf.ActionNF)
			}
			if m[2] != "" && !exts[m[2]] {
				f.add(kf.ExtNF)
			}
			for _, x := range strings.Split(m[4], ", ") {
				if strings.ContainsAny(x, "$@") && !scope[x] {
					f.add(kf.VarNF)
				}
				if x == "" && m[4] != "" || strings.Count(x, "$")+strings.Count(x, "@") > 1 || strings.LastIndexAny(x, "$@") > 0 {
					f.open, f.murky = true, true
				}
			}
			line := map[string]bool{}
			if m[1] != "" {
				for _, r := range strings.Split(m[1], ", ") {
					if line[r] {
						f.add(kf.DupVar)
					}
					line[r], scope[r] = true, true
				}
			}
		}
	}
}

func (f *flaws) verdict(what string, err error) string {
	switch {
	case f.open && !f.murky && len(f.set) > 0 && err == nil:
		return fmt.Sprintf("%s is accepted in spite of %v", what, f.set)
	case f.open:
	case len(f.set) == 0 && err != nil:
		return fmt.Sprintf("%s has no fault, but is refused: %v", what, err)
	case len(f.set) > 0 && err == nil:
		return fmt.Sprintf("%s is accepted in spite of %v", what, f.set)
	case err != nil && !f.set[kf.DupTable]: // with two tables of a name, a reference may mean either
		for _, w := range sut.Which(err) {
			if !f.set[w] {
				return fmt.Sprintf("%s has %v, the error is of kind %s: %v", what, f.set, w, err)
			}
		}
		if len(sut.Which(err)) != 1 {
			return fmt.Sprintf("%s has %v, the error is of kinds %v: %v", what, f.set, sut.Which(err), err)
		}
	}
	return ""
}

// validate with a fresh validator; a panic is noted.
func validate(n part) (err error, pan any) { return validateBy(n, schema.NewCtxValidator()) }

func validateBy(n part, v schema.Validator) (err error, pan any) {
	defer func() {
		if r := recover(); r != nil {
			pan = r
		}
	}()
	return n.Accept(v), nil
}

// judgeSchema takes a schema as JSON, in what form of nil and empty lists the
// text decides.
func judgeSchema(src string) string {
	var plain schema.Schema
	if json.Unmarshal([]byte(src), &plain) != nil {
		return ""
	}
	var msg string
	out, noise := capture(func() { msg = judgeSchemas(src) })
	if msg == "" && out != "" {
		return fmt.Sprintf("validating or serialising prints %q", mon.Clip(out, 300))
	}
	if msg == "" && noise != "" {
		var f flaws
		f.schema(&plain)
		if !f.open { // for open statements, the dependency's lexer is known to print
			return fmt.Sprintf("validating or serialising prints %q to standard error", mon.Clip(noise, 300))
		}
	}
	return msg
}

func judgeSchemas(src string) (msg string) {
	seed := seedOf(src)
	var first string
	for k := int64(0); k < 3; k++ {
		var s, ref schema.Schema
		for _, x := range []*schema.Schema{&s, &ref} {
			json.Unmarshal([]byte(src), x)
			if k > 0 {
				reshape(reflect.ValueOf(x), gen.New(seed+k))
			}
		}
		var f flaws
		f.schema(&ref)
		err, pan := validate(&s)
		if pan != nil {
			return fmt.Sprintf("validating a schema made by hand panics: %v", pan)
		}
		if m := f.verdict("the schema", err); m != "" {
			return m
		}
		if k == 0 {
			first = errText(err)
		} else if errText(err) != first {
			return fmt.Sprintf("with other nil and empty lists the verdict is %q instead of %q", errText(err), first)
		}
		if !reflect.DeepEqual(s, ref) {
			return "validating changed the schema"
		}
		// parts, by a validator that has seen the whole, and again the whole
		used := schema.NewCtxValidator()
		validateBy(&s, used)
		nodesOf(&s, func(method string, n part) {
			if _, pan := validateBy(n, used); pan != nil && msg == "" {
				msg = fmt.Sprintf("validating a part (%s) with the validator of its schema panics: %v", method, pan)
			}
		})
		if _, pan := validateBy(&s, used); pan != nil && msg == "" {
			msg = fmt.Sprintf("validating with a used validator panics: %v", pan)
		}
		if !reflect.DeepEqual(s, ref) && msg == "" {
			msg = "validating with a used validator changed the schema"
		}
		nodesOf(&s, func(method string, n part) {
			if msg == "" {
				msg = judgeNode(method, n)
			}
		})
		if msg != "" {
			return
		}
		if !reflect.DeepEqual(s, ref) {
			return "validating or serialising a part changed the schema"
		}
		// and back
		b, err := s.ToJSON()
		if err != nil {
			return "a schema made by hand cannot be serialised: " + err.Error()
		}
		var back schema.Schema
		d := json.NewDecoder(bytes.NewReader(b))
		d.DisallowUnknownFields()
		if err := d.Decode(&back); err != nil {
			return "a serialised schema does not read back: " + err.Error()
		}
		if !sameValue(reflect.ValueOf(s), reflect.ValueOf(back)) {
			return fmt.Sprintf("a schema made by hand reads back as another one: %s", mon.Clip(string(b), 600))
		}
	}
	return ""
}

var errSpy = errors.New("the caller's own verdict")

func judgeNode(method string, n part) string {
	err, pan := validate(n)
	if pan != nil {
		return fmt.Sprintf("validating alone (%s) panics: %v", method, pan)
	}
	var f flaws
	switch x := n.(type) {
	case *schema.Column:
		f.column(x)
		if m := f.verdict("a column alone", err); m != "" {
			return m
		}
	case *schema.Table:
		f.table(x)
		f.open = f.open || len(x.ForeignKeys) > 0 && len(f.set) == 0
		if m := f.verdict("a table alone", err); m != "" {
			return m
		}
	case *schema.Action:
		f.action(x)
		f.open = f.open || len(x.Statements) > 0 && len(f.set) == 0
		if m := f.verdict("an action alone", err); m != "" {
			return m
		}
	case *schema.Attribute, *schema.Extension:
		if err != nil {
			return fmt.Sprintf("a %T alone is refused: %v", n, err)
		}
	}
	again, _ := validate(n)
	if errText(again) != errText(err) {
		return fmt.Sprintf("validating alone (%s) gives %q, then %q", method, errText(err), errText(again))
	}
	for _, say := range []error{nil, errSpy} {
		s := &spy{say: say}
		got := n.Accept(s)
		if got != say {
			return fmt.Sprintf("a caller's validator says %v, the node gives %v", say, got)
		}
		if len(s.calls) != 1 || s.calls[0] != method || s.nodes[0] != any(n) {
			return fmt.Sprintf("a caller's validator was asked %v for a node of %s", s.calls, method)
		}
	}
	b, err := n.ToJSON()
	if err != nil || !json.Valid(b) {
		return fmt.Sprintf("a %T does not serialise: %v", n, err)
	}
	back := reflect.New(reflect.TypeOf(n).Elem())
	if err := json.Unmarshal(b, back.Interface()); err != nil {
		return fmt.Sprintf("a serialised %T does not read back: %v", n, err)
	}
	if !sameValue(reflect.ValueOf(n).Elem(), back.Elem()) {
		return fmt.Sprintf("a %T reads back as another one: %s", n, mon.Clip(string(b), 600))
	}
	return ""
}

// handmade makes any schema, as JSON. All its names come from a few, so that
// names meet.
func handmade(g *gen.G) []byte {
	r := g.R
	if r.Intn(5) == 0 {
		b, err := json.Marshal(joinedSchema(g))
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		return b
	}
	if r.Intn(3) == 0 { // a compiled one, spoilt
		for k := 0; k < 5; k++ {
			o := sut.Compile(g.Text(g.Prog(gen.Full)))
			if s, ok := o.Ast.(*schema.Schema); ok && o.OK() {
				for i := range s.Actions { // mostly statements whose rules are plain
					for k := range s.Actions[i].Statements {
						if r.Intn(30) > 0 {
							s.Actions[i].Statements[k] = "delete from t;"
						}
					}
				}
				for n := r.Intn(4); n > 0; n-- {
					spoil(s, g)
				}
				b, _ := s.ToJSON()
				return b
			}
		}
	}
	pool := []string{"", "a", "b", "c", "A", "$a", "$b", "$c", "#a", "@a", " a", "a b", "init", "table", "select", "é", "\x00", "a\n", "{}", "null", strings.Repeat("x", 300), "current", "caller", "a.b", "<a>&", "\\u0026", "\\u003c\\", "\\n", "\"", "\u2028", "a\tb", "%s%d", "\x7f"}
	few := append([]string{"a", "b", "c", "x1"}, pool[r.Intn(len(pool))], g.Name(nil))
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	sizes := []int{0, 1, 1, 2, 2, 3, 4}
	if r.Intn(100) == 0 {
		sizes = gen.Sizes(60)
	}
	n := func() int { return sizes[r.Intn(len(sizes))] }
	strange := r.Intn(4) == 0
	unique := r.Intn(3) > 0
	mk := func(prefix string) func() string {
		used := map[string]bool{}
		return func() string {
			s := prefix + few[r.Intn(len(few))]
			for i := 0; unique && used[s] && r.Intn(20) > 0; i++ {
				if s = prefix + few[r.Intn(len(few))]; i > 4 {
					s += fmt.Sprint(len(used))
				}
			}
			used[s] = true
			return s
		}
	}
	var s schema.Schema
	s.Name, s.Owner = few[r.Intn(len(few))], pick("", "", "me", "0x12")
	alias := mk("")
	for i := n(); i > 0; i-- {
		e := schema.Extension{Name: few[r.Intn(len(few))], Alias: alias()}
		if r.Intn(6) == 0 {
			e.Name, e.Alias = e.Alias, ""
		}
		for k := n(); k > 0; k-- {
			e.Config = append(e.Config, schema.ExtensionConfig{Argument: few[r.Intn(len(few))], Value: pick("1", "'x'", "", "\"", "\\")})
		}
		s.Extensions = append(s.Extensions, e)
	}
	tname := mk("")
	var all [][]string
	for i := n(); i > 0; i-- {
		t := schema.Table{Name: tname()}
		cname := mk("")
		var cols []string
		for k := n(); k > 0; k-- {
			c := schema.Column{Name: cname(), Type: schema.ColumnType(pick("int", "text", "blob", "null"))}
			if strange && r.Intn(5) == 0 {
				c.Type = schema.ColumnType(pick("", "INT", "integer", "Text", " int"))
			}
			l := []string{"primary_key", "unique", "not_null", "default"}
			switch c.Type {
			case "int":
				l = append(l, "min", "max")
			case "text":
				l = append(l, "min_length", "max_length")
			}
			if r.Intn(30) == 0 {
				l = append(l, "min", "max_length", "max", "min_length", "", "UNIQUE", "notnull")
			}
			r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
			for x := r.Intn(4); x > 0; x-- {
				a := schema.Attribute{Type: schema.AttributeType(l[x])}
				if r.Intn(15) == 0 {
					a.Type = schema.AttributeType(l[r.Intn(len(l))])
				}
				switch r.Intn(4) {
				case 0:
					a.Value = pick("1", "'x'", "", "00")
				case 1:
					if strange {
						a.Value = []any{1.5, true, "x", map[string]any{"a": "b"}, []any{"c"}}[r.Intn(5)]
					}
				}
				c.Attributes = append(c.Attributes, a)
			}
			cols = append(cols, c.Name)
			t.Columns = append(t.Columns, c)
		}
		some := func() (l []string) {
			for k := n(); k > 0; k-- {
				if len(cols) > 0 && r.Intn(25) > 0 {
					l = append(l, cols[r.Intn(len(cols))])
				} else if r.Intn(3) == 0 {
					l = append(l, few[r.Intn(len(few))])
				}
			}
			return
		}
		iname := mk("i_")
		for k := n(); k > 0; k-- {
			t.Indexes = append(t.Indexes, schema.Index{Name: iname(), Type: schema.IndexType(pick("btree", "unique_btree", "primary")), Columns: some()})
		}
		s.Tables, all = append(s.Tables, t), append(all, cols)
	}
	for i := range s.Tables {
		for k := r.Intn(3); k > 0; k-- {
			p := r.Intn(len(s.Tables))
			f := schema.ForeignKey{ParentTable: s.Tables[p].Name}
			for x := r.Intn(4); x > 0 && len(all[i]) > 0 && len(all[p]) > 0; x-- {
				f.ChildKeys = append(f.ChildKeys, all[i][r.Intn(len(all[i]))])
				f.ParentKeys = append(f.ParentKeys, all[p][r.Intn(len(all[p]))])
			}
			if len(f.ChildKeys) > 0 && r.Intn(12) == 0 {
				l := [][]string{f.ChildKeys, f.ParentKeys}[r.Intn(2)]
				l[r.Intn(len(l))] = pick(few...)
			}
			if r.Intn(15) == 0 {
				f.ParentTable = pick(few...)
			}
			on := []string{"UPDATE", "DELETE"}
			r.Shuffle(2, func(a, b int) { on[a], on[b] = on[b], on[a] })
			if strange {
				on = append(on, "update", "", "INSERT")
			}
			for x := r.Intn(len(on) + 1); x > 0; x-- {
				f.Actions = append(f.Actions, schema.ForeignKeyAction{On: schema.ForeignKeyActionOn(on[x-1]), Do: schema.ForeignKeyActionDo(pick("CASCADE", "SET NULL", "NO ACTION", "RESTRICT", "SET DEFAULT"))})
			}
			if r.Intn(15) == 0 && len(f.Actions) > 0 {
				f.Actions = append(f.Actions, f.Actions[r.Intn(len(f.Actions))])
			}
			s.Tables[i].ForeignKeys = append(s.Tables[i].ForeignKeys, f)
		}
	}
	aname := mk("")
	for i := n(); i > 0; i-- {
		a := schema.Action{Name: aname(), Public: r.Intn(2) == 0, Mutability: schema.MutabilityType(pick("update", "view", "", "UPDATE"))}
		pname := mk("$")
		for k := n(); k > 0; k-- {
			a.Inputs = append(a.Inputs, pname())
		}
		s.Actions = append(s.Actions, a)
	}
	id := regexp.MustCompile(`^[a-z][a-z0-9_]*$`)
	known := func(l []string) string {
		for k := 0; k < 8 && len(l) > 0; k++ {
			if x := l[r.Intn(len(l))]; id.MatchString(strings.TrimPrefix(x, "$")) && r.Intn(20) > 0 {
				return x
			}
		}
		return ""
	}
	var an, en []string
	for _, a := range s.Actions {
		an = append(an, a.Name)
	}
	for _, e := range s.Extensions {
		if en = append(en, e.Alias); e.Alias == "" {
			en[len(en)-1] = e.Name
		}
	}
	sql := []string{"select 1;", "insert into t (a) values ($x);", "update t set a = 1 where b = 2;", "delete from t;"}
	for i := range s.Actions {
		a := &s.Actions[i]
		vars := append([]string{}, a.Inputs...)
		for k := r.Intn(4); k > 0; k-- {
			var args []string
			for x := r.Intn(4); x > 0; x-- {
				v := known(vars)
				switch {
				case v != "" && r.Intn(3) > 0:
				case r.Intn(12) == 0:
					v = pick("$nosuch", "@nosuch", "$a")
				default:
					v = pick("1", "42", "@caller")
				}
				args = append(args, v)
			}
			st := pick(sql...)
			switch r.Intn(4) {
			case 0:
				x := known(an)
				if x == "" && r.Intn(8) == 0 {
					x = pick("nosuch", "a", "b")
				}
				if x != "" {
					st = x + "(" + strings.Join(args, ", ") + ");"
				}
			case 1, 2:
				x := known(en)
				if x == "" && r.Intn(8) == 0 {
					x = pick("nosuch", "a", "b")
				}
				if x != "" {
					st = x + "." + pick("m", "f1") + "(" + strings.Join(args, ", ") + ");"
					if r.Intn(2) == 0 {
						rec := []string{"$r1", "$r2", "$a"}[:1+r.Intn(3)]
						if r.Intn(12) == 0 {
							rec = append([]string{}, rec...)
							rec = append(rec, rec[0])
						}
						vars = append(vars, rec...)
						st = strings.Join(rec, ", ") + " = " + st
					}
				}
			}
			if strange && r.Intn(4) == 0 {
				st = pick("", ";", "nonsense", "select", "a(", "x.y(;", "$ = a.b();", "1", "'", "select 1", "selec 1;", "a()", " a();", "\x00", "a(1;", "a(1,);", "a(select 1);", "insert;", "with;", "$a = 1;", "@caller();", "a.b.c();", strings.Repeat("-", 50))
			}
			a.Statements = append(a.Statements, st)
		}
	}
	b, err := json.Marshal(s)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return b
}

// ---- C29: the exported stages by hand

type collect struct{ toks []antlr.Token }

func (c *collect) walk(t antlr.Tree) {
	if x, ok := t.(antlr.TerminalNode); ok {
		c.toks = append(c.toks, x.GetSymbol())
		return
	}
	for i := 0; i < t.GetChildCount(); i++ {
		c.walk(t.GetChild(i))
	}
}

var oldVisitor = kfparser.NewKuneiformVisitor(kfparser.Default)

func judgeStages(src string) (msg string) {
	o := sut.Compile(src)
	if o.Panic != nil {
		return ""
	}
	defer func() {
		if r := recover(); r != nil {
			if err, ok := r.(error); ok && o.Err != nil && err.Error() == o.Err.Error() {
				return // the visitor says so by a panic, which the compiler turns into its error
			}
			msg = fmt.Sprintf("the stages by hand panic with %v, the compiler says %v", r, o.Err)
		}
	}()
	want, lexErrs := kf.Lex(src)
	runes := []rune(src)
	lex := kfgrammar.NewKuneiformLexer(antlr.NewInputStream(src))
	l := utils.NewErrorListener()
	lex.RemoveErrorListeners()
	lex.AddErrorListener(l)
	stream := antlr.NewCommonTokenStream(lex, antlr.TokenDefaultChannel)
	stream.Fill()
	if (len(l.ErrorList) == 0) != (len(lexErrs) == 0) {
		return fmt.Sprintf("the lexer reports %v, the text has %d places that are no token", texts(l), len(lexErrs))
	}
	// every token of the stream lies where it says, and those of the default
	// channel are exactly those of the text
	next, seen := 0, 0
	var visible []antlr.Token
	for _, t := range stream.GetAllTokens() {
		if t.GetTokenType() == antlr.TokenEOF {
			continue
		}
		a, b := t.GetStart(), t.GetStop()+1
		if a < next || b < a || b > len(runes) {
			return fmt.Sprintf("token %q at offsets %d-%d overlaps the one before or leaves the text", t.GetText(), a, b)
		}
		next = b
		if s := string(runes[a:b]); t.GetText() != s {
			return fmt.Sprintf("token at %d:%d says %q, the text has %q", t.GetLine(), t.GetColumn(), t.GetText(), s)
		}
		if t.GetChannel() != antlr.TokenDefaultChannel {
			continue
		}
		visible = append(visible, t)
		if len(lexErrs) > 0 {
			continue
		}
		if seen >= len(want)-1 {
			return fmt.Sprintf("there is a token %q too many", t.GetText())
		}
		w := want[seen]
		seen++
		if w.T != t.GetText() || w.Line != t.GetLine() || w.Col != t.GetColumn() || w.Pos != a || w.End != b {
			return fmt.Sprintf("token %q at %d:%d (%d-%d), the text has %q at %d:%d (%d-%d)", t.GetText(), t.GetLine(), t.GetColumn(), a, b, w.T, w.Line, w.Col, w.Pos, w.End)
		}
		if m := kindOf(w.K, lex, t.GetTokenType()); m != "" {
			return m
		}
	}
	if len(lexErrs) == 0 && seen != len(want)-1 {
		return fmt.Sprintf("the lexer gives %d tokens, the text has %d", seen, len(want)-1)
	}
	if errors.Is(o.Err, utils.ErrInvalidSyntax) { // in the way of the compiler, which does not read ahead
		l, mine := utils.NewErrorListener(), utils.NewErrorListener()
		sut.CompileWith(src, l, kfparser.Default)
		lex := kfgrammar.NewKuneiformLexer(antlr.NewInputStream(src))
		lex.RemoveErrorListeners()
		lex.AddErrorListener(mine)
		p := kfgrammar.NewKuneiformParser(antlr.NewCommonTokenStream(lex, antlr.TokenDefaultChannel))
		p.RemoveErrorListeners()
		p.AddErrorListener(mine)
		p.Source_unit()
		if a, b := strings.Join(texts(mine), "\n"), strings.Join(texts(l), "\n"); a != b {
			return fmt.Sprintf("the stages by hand report %q, the compiler %q", mon.Clip(a, 500), mon.Clip(b, 500))
		}
		if errText(mine.Err()) != errText(o.Err) {
			return fmt.Sprintf("the stages by hand say %q, the compiler %q", mine.Err(), o.Err)
		}
	}
	// the parser on the same tokens
	stream.Seek(0)
	p := kfgrammar.NewKuneiformParser(stream)
	p.RemoveErrorListeners()
	p.AddErrorListener(l)
	tree := p.Source_unit()
	if l.Err() != nil {
		if o.Err == nil {
			return fmt.Sprintf("the stages by hand say %v, the compiler accepts", l.Err())
		}
		if l.Err().Error() != o.Err.Error() && len(lexErrs) == 0 {
			return fmt.Sprintf("the stages by hand say %q, the compiler %q", l.Err(), o.Err)
		}
		return ""
	}
	var c collect
	c.walk(tree)
	if len(c.toks) != len(visible)+1 {
		return fmt.Sprintf("the parse tree has %d tokens, the text %d", len(c.toks), len(visible)+1)
	}
	for i, t := range visible {
		if c.toks[i] != t {
			return fmt.Sprintf("token %d of the parse tree is %q, that of the text %q", i, c.toks[i].GetText(), t.GetText())
		}
	}
	// a fresh visitor and one that has seen many programs; and a validator
	other := kfparser.NewKuneiformVisitor(kfparser.Default)
	visitOnly(other, nearly(src, want))
	// one that gave up within one program or more
	failed := kfparser.NewKuneiformVisitor(kfparser.Default)
	visitOnly(failed, doubled(src, want, len(want)))
	visitOnly(failed, faultyVisits[len(src)%len(faultyVisits)])
	for _, v := range []*kfparser.KFVisitor{kfparser.NewKuneiformVisitor(kfparser.Default), oldVisitor, other, failed} {
		if m := stagesEnd(v, tree, o); m != "" {
			return m
		}
	}
	if o.Err == nil {
		return stagesParts(src, tree, o.Ast)
	}
	return ""
}

// stagesEnd: the last stages, with a visitor.
func stagesEnd(v *kfparser.KFVisitor, tree antlr.ParseTree, o *sut.Out) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if err, ok := r.(error); ok && o.Err != nil && err.Error() == o.Err.Error() {
				return // the visitor says so by a panic, which the compiler turns into its error
			}
			msg = fmt.Sprintf("the stages by hand panic with %v, the compiler says %v", r, o.Err)
		}
	}()
	n, ok := v.Visit(tree).(ast.Ast)
	if !ok {
		return "the visitor gives no schema"
	}
	err := n.Accept(schema.NewCtxValidator())
	if errText(err) != errText(o.Err) {
		return fmt.Sprintf("the stages by hand say %q, the compiler %q", errText(err), errText(o.Err))
	}
	if err != nil {
		return ""
	}
	b, err := n.ToJSON()
	if err != nil || !bytes.Equal(b, o.JSON) {
		return fmt.Sprintf("the stages by hand give another schema than the compiler (%v)", err)
	}
	return ""
}

// faultyVisits are programs at which the visitor gives up in various places.
var faultyVisits = func() (l []string) {
	for _, s := range []string{
		"database d; action a() public public {select 1;}", "database d; action a() public private {select 1;}", "database d; action a() public view view {select 1;}",
		"database d; action a() public owner owner {select 1;}", "database d; action a() owner public view owner {select 1;}",
		"database d; table t {a int min(99999999999999999999)}", "database d; table t {a int notnull notnull}", "database d; table t {a int, fk(a) ref u(a) on_update cascade on_update cascade}",
		"database d; table t {a int, #i index(a), #j primary(b)}", "database d; use e as f; action a() public {$x = f.m(1); select 1}",
		"database d; table t {a int", "database d; action a($x, $y) public {", "database d; action a() public {a(1, (2", "database d; init() {select 1;} init() {", "database d; @n(x=1", "database d; use e {k: 1",
		"database", "", "}", "database d; table t {a int} action a() public owner view {select 1;} zzz",
	} {
		l = append(l, s, "database q; table z {a int notnull unique, #z index(a)} use q as z; @z(q='q') action z($z) public view owner {z(1);} init() {z(1);}"+strings.TrimPrefix(s, "database d;"))
	}
	return l
}()

// doubled is the text with one of the words of an action, an attribute or a
// clause of a foreign key repeated.
func doubled(src string, toks []kf.Tok, pick int) string {
	var at []kf.Tok
	for _, t := range toks {
		switch strings.ToLower(t.T) {
		case "public", "private", "view", "owner", "notnull", "unique", "primary":
			at = append(at, t)
		}
	}
	if len(at) == 0 {
		return src
	}
	t := at[pick%len(at)]
	r := []rune(src)
	return string(r[:t.End]) + " " + t.T + " " + string(r[t.End:])
}

// nearly is the text with the same names, but other numbers, strings, types
// and kinds; for a visitor that remembers by name.
func nearly(src string, toks []kf.Tok) string {
	swap := map[string]string{"int": "text", "text": "blob", "blob": "int", "unique": "notnull", "notnull": "unique", "public": "private", "private": "public",
		"view": "owner", "owner": "view", "index": "primary", "cascade": "restrict", "restrict": "cascade"}
	b := []rune(src)
	for i := len(toks) - 1; i >= 0; i-- {
		t := toks[i]
		to := t.T
		if w := swap[strings.ToLower(t.T)]; w != "" && t.K != kf.IDENT {
			to = w
		}
		if len(t.T) > 0 && t.T[0] >= '0' && t.T[0] <= '9' {
			to += "7"
		}
		if len(t.T) > 1 && t.T[0] == '\'' {
			to = "'other'"
		}
		if to != t.T {
			b = append(b[:t.Pos:t.Pos], append([]rune(to), b[t.End:]...)...)
		}
	}
	return string(b)
}

func visitOnly(v *kfparser.KFVisitor, src string) {
	defer func() { recover() }()
	lex := kfgrammar.NewKuneiformLexer(antlr.NewInputStream(src))
	lex.RemoveErrorListeners()
	p := kfgrammar.NewKuneiformParser(antlr.NewCommonTokenStream(lex, antlr.TokenDefaultChannel))
	p.RemoveErrorListeners()
	v.Visit(p.Source_unit())
}

// kindOf: tokens of one kind have one type, and the exported names of the type
// say what it is.
func kindOf(k kf.Kind, lex *kfgrammar.KuneiformLexer, typ int) string {
	lit := ""
	if typ >= 0 && typ < len(lex.LiteralNames) {
		lit = lex.LiteralNames[typ]
	}
	sym := ""
	if typ >= 0 && typ < len(lex.SymbolicNames) {
		sym = lex.SymbolicNames[typ]
	}
	want := map[kf.Kind]int{kf.IDENT: kfgrammar.KuneiformLexerIDENTIFIER}
	if w, ok := want[k]; ok && w != typ {
		return fmt.Sprintf("a token of kind %s has type %s", k, sym)
	}
	if kf.Keywords[string(k)] || len(k) <= 2 && !strings.ContainsAny(string(k), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") {
		if lit != "'"+string(k)+"'" {
			return fmt.Sprintf("token %s has the type of %s %s", k, lit, sym)
		}
	}
	return ""
}

func init() {
	reg(&mon.Check{ID: "C28", Rule: "schemas made by hand: random ones whose names meet (any strings, unknown words, strange attribute values, nil and empty lists, known and broken statements) and compiled ones with up to three places changed; " +
		"every node is validated alone and with a caller's validator. The verdict is compared with the rules, read off the schema. Distinct by JSON.",
		Quick: 24000, Thorough: 1500000, Judge: judgeSchema, Case: func(c *mon.C, i int) {
			b := handmade(c.G())
			src := string(b)
			var s schema.Schema
			if json.Unmarshal(b, &s) != nil {
				return
			}
			var f flaws
			f.schema(&s)
			switch {
			case f.open:
				c.Count("rules: open", 1)
			case len(f.set) == 0:
				c.Count("rules: legal", 1)
			case len(f.set) == 1:
				for k := range f.set {
					c.Count("rules: only "+k, 1)
				}
			default:
				c.Count("rules: several faults", 1)
			}
			nodesOf(&s, func(m string, _ part) { c.Count("nodes of "+m, 1) })
			c.Judged(src)
			c.Eval(src)
			if len(src) < 400 {
				c.Sample(src)
			}
		},
		Floors: map[string]int64{"rules: legal": 2000, "rules: only " + kf.DupTable: 50, "rules: only " + kf.VarNF: 50, "nodes of VisitExtension": 2000}})

	reg(&mon.Check{ID: "C29", Rule: "valid, faulty, edited and random texts run through the exported lexer, parser, visitor and validator by hand: every token is compared with the reference lexer's and with its place in the text, " +
		"the parse tree with the tokens, the outcome with the compiler's. One visitor is used for all texts of a process, one first for a text with the same names but other values, and one first for texts at which it gives up. Subtrees of accepted programs are visited alone and their texts parsed alone, in any order. Distinct by text.",
		Quick: 12000, Thorough: 1000000, Judge: judgeStages, Case: textCase(func(g *gen.G, i int) (string, string) {
			switch i % 3 {
			case 0:
				return "valid", g.Text(g.Prog(gen.Full))
			case 1:
				return smallText(g, i/3)
			}
			return hostileText(g, i/3)
		}, classify),
		Floors: map[string]int64{"reference: valid": 3000, "reference: not lexable": 200}})
}
