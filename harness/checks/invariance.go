package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"

	"reflect"
	"runtime"
	"sort"

	"strings"
	"time"
	"unicode"

	"github.com/kwilteam/kuneiform/schema"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
	"kfverif/sut"
)

func seedOf(src string) int64 {
	h := fnv.New64a()
	h.Write([]byte(src))
	return int64(h.Sum64() >> 1)
}

// verdict summarises an outcome without positions.
func verdict(o *sut.Out) string {
	switch {
	case o.Panic != nil:
		return "panic"
	case o.Err != nil:
		return "rejected as " + strings.Join(sut.Which(o.Err), ",")
	}
	return "accepted"
}

// sameOutcome compares two compilations of texts that mean the same.
func sameOutcome(what string, a, b *sut.Out) string {
	if va, vb := verdict(a), verdict(b); va != vb {
		return fmt.Sprintf("%s: %s, but %s (%s / %s)", what, va, vb, mon.Clip(a.Failure(), 200), mon.Clip(b.Failure(), 200))
	}
	if a.OK() && b.OK() {
		if d := sut.Diff("", sut.Observed(a.Tree), sut.Observed(b.Tree)); d != "" {
			return what + ": the schemas differ: " + d
		}
		if !bytes.Equal(a.JSON, b.JSON) { // also where the difference has no meaning
			return what + ": the schemas differ: " + mon.Clip(string(a.JSON), 1000) + " and " + mon.Clip(string(b.JSON), 1000)
		}
	}
	return ""
}

// judgeLayout: rewriting white space and comments, and the optional words and
// abbreviations, changes nothing.
func judgeLayout(src string) string {
	toks, errs := kf.Lex(src)
	if len(errs) > 0 {
		return ""
	}
	toks = toks[:len(toks)-1]
	base := sut.Compile(src)
	g := &gen.G{R: rand.New(rand.NewSource(seedOf(src)))}
	// layouts are only defined for texts whose tokens survive them
	for s := 0; s < gen.Styles; s++ {
		if s == 6 {
			continue
		}
		text, ok := tryLayout(g, toks, s)
		if !ok || text == src {
			continue
		}
		if m := sameOutcome(fmt.Sprintf("layout style %d", s), base, sut.Compile(text)); m != "" {
			return m + fmt.Sprintf("; other layout: %q", mon.Clip(text, 1500))
		}
	}
	p, e := kf.Parse(src)
	if e != nil {
		return ""
	}
	for k := 0; k < 3; k++ {
		if p.Inits > 1 {
			break
		}
		text := g.Text(p)
		if m := sameOutcome("other spelling of the same program", base, sut.Compile(text)); m != "" {
			return m + fmt.Sprintf("; other spelling: %q", mon.Clip(text, 1500))
		}
	}
	return ""
}

func tryLayout(g *gen.G, toks []kf.Tok, style int) (s string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return g.LayoutStyle(toks, style), true
}

// renamer gives every name of a program another one, consistently: the same
// name everywhere where it names the same thing. Names of different kinds of
// things are independent of each other: by kinds, things of different kinds
// that had different names often get the same one, and the other way round.
type renamer struct {
	g     *gen.G
	kinds bool
	pool  []string
	m     map[string]string
	used  map[string]map[string]bool
}

func newRenamer(seed int64, kinds bool) *renamer {
	return &renamer{g: gen.New(seed), kinds: kinds, m: map[string]string{}, used: map[string]map[string]bool{}}
}
func (r *renamer) name(kind, s string) string {
	if !r.kinds {
		kind = ""
	}
	if n, ok := r.m[kind+" "+s]; ok {
		return n
	}
	u := r.used[kind]
	if u == nil {
		u = map[string]bool{"caller": true}
		r.used[kind] = u
	}
	var n string
	for k := 0; k < 4 && n == "" && len(r.pool) > 0; k++ {
		if x := r.pool[r.g.R.Intn(len(r.pool))]; !u[x] && r.kinds && r.g.R.Intn(4) > 0 {
			n, u[x] = x, true
		}
	}
	if n == "" {
		n = r.g.Name(u)
		if len(r.pool) < 12 {
			r.pool = append(r.pool, n)
		}
	}
	r.m[kind+" "+s] = n
	return n
}
func (r *renamer) sigil(s string) string { return s[:1] + r.name("variable", s[1:]) }
func (r *renamer) list(l []string) []string {
	o := make([]string, len(l))
	for i, s := range l {
		o[i] = r.name("column", s)
	}
	return o
}
func (r *renamer) prog(p *kf.Prog) *kf.Prog {
	q := gen.Clone(p)
	q.Name = r.name("database", q.Name)
	for i := range q.Exts {
		e := &q.Exts[i]
		e.Name, e.Alias = r.name("extension", e.Name), r.name("alias", e.Alias)
		for k := range e.Conf {
			e.Conf[k].K = r.name("setting", e.Conf[k].K)
		}
	}
	for i := range q.Tabs {
		t := &q.Tabs[i]
		t.Name = r.name("table", t.Name)
		for k := range t.Cols {
			t.Cols[k].Name = r.name("column", t.Cols[k].Name)
		}
		for k := range t.Idxs {
			t.Idxs[k].Name = r.name("index", t.Idxs[k].Name)
			t.Idxs[k].Cols = r.list(t.Idxs[k].Cols)
		}
		for k := range t.FKs {
			f := &t.FKs[k]
			f.Parent, f.Child, f.Keys = r.name("table", f.Parent), r.list(f.Child), r.list(f.Keys)
		}
	}
	act := func(a *kf.Act) {
		for k := range a.Annots {
			a.Annots[k].Target = r.name("annotation", a.Annots[k].Target)
			for x := range a.Annots[k].Attrs {
				a.Annots[k].Attrs[x].K = r.name("attribute", a.Annots[k].Attrs[x].K)
			}
		}
		for k := range a.Params {
			a.Params[k] = r.sigil(a.Params[k])
		}
		for k := range a.Stmts {
			s := &a.Stmts[k]
			if s.IsSQL() {
				continue
			}
			for x := range s.Recv {
				s.Recv[x] = r.sigil(s.Recv[x])
			}
			if s.Ext != "" {
				s.Ext = r.name("alias", s.Ext)
				s.Fn = r.name("method", s.Fn)
			} else {
				s.Fn = r.name("action", s.Fn)
			}
			for x := range s.Args {
				if s.Args[x].K == kf.VAR {
					s.Args[x].T = r.sigil(s.Args[x].T)
				}
			}
		}
	}
	for i := range q.Acts {
		a := &q.Acts[i]
		a.Name = r.name("action", a.Name)
		act(a)
	}
	if q.Init != nil {
		act(q.Init)
	}
	return q
}

// judgeRename: other names and another order of declarations give the same
// verdict and the same schema up to those names and that order.
func judgeRename(src string) string {
	p, e := kf.Parse(src)
	if e != nil || p.Inits > 1 || len(kf.Validate(p).Unspecified) > 0 {
		return ""
	}
	base := sut.Compile(src)
	seed := seedOf(src)
	faults := fmt.Sprint(kf.Validate(p).Faults)
	for k := int64(0); k < 3; k++ {
		r := newRenamer(seed+k, k > 0)
		q := r.prog(p)
		if v := kf.Validate(q); len(v.Unspecified) > 0 || fmt.Sprint(v.Faults) != faults {
			continue
		}
		text := r.g.Text(q)
		o := sut.Compile(text)
		if va, vb := verdict(base), verdict(o); va != vb {
			return fmt.Sprintf("%s, but with other names %s (%s / %s); renamed: %q", va, vb, mon.Clip(base.Failure(), 200), mon.Clip(o.Failure(), 200), mon.Clip(text, 1500))
		}
		if base.OK() && o.OK() {
			// what was compiled, read back with the original names
			if d := sut.Diff("", sut.Expected(q), sut.Observed(o.Tree)); d != "" {
				if sut.Diff("", sut.Expected(p), sut.Observed(base.Tree)) == "" {
					return "with other names the schema differs: " + d + fmt.Sprintf("; renamed: %q", mon.Clip(text, 1500))
				}
			}
		}
	}
	// other orders of tables, actions and extensions
	for k := 0; k < 4; k++ {
		if m := reorder(p, base, gen.New(seed+7+int64(k)), k); m != "" {
			return m
		}
	}
	return ""
}

// reorder declares tables, actions and extensions in another order: any, the
// reverse one, or sorted by name one way or the other.
func reorder(p *kf.Prog, base *sut.Out, g *gen.G, how int) string {
	v := kf.Validate(p)
	q := gen.Clone(p)
	perm := func(n int, name func(i int) string) []int {
		l := g.R.Perm(n)
		switch how {
		case 1:
			for i := range l {
				l[i] = n - 1 - i
			}
		case 2, 3:
			sort.SliceStable(l, func(i, j int) bool { return (name(l[i]) < name(l[j])) == (how == 2) && name(l[i]) != name(l[j]) })
		}
		return l
	}
	pt := perm(len(p.Tabs), func(i int) string { return p.Tabs[i].Name })
	pa := perm(len(p.Acts), func(i int) string { return p.Acts[i].Name })
	pe := perm(len(p.Exts), func(i int) string { return p.Exts[i].Alias })
	for i, x := range pt {
		q.Tabs[i] = p.Tabs[x]
	}
	for i, x := range pa {
		q.Acts[i] = p.Acts[x]
	}
	for i, x := range pe {
		q.Exts[i] = p.Exts[x]
	}
	text := g.Text(q)
	o := sut.Compile(text)
	if (base.Err == nil) != (o.Err == nil) {
		return fmt.Sprintf("%s, but declared in another order %s (%s / %s); reordered: %q", verdict(base), verdict(o), mon.Clip(base.Failure(), 200), mon.Clip(o.Failure(), 200), mon.Clip(text, 1500))
	}
	if v.Single() != "" && verdict(base) != verdict(o) {
		return fmt.Sprintf("%s, but declared in another order %s; reordered: %q", verdict(base), verdict(o), mon.Clip(text, 1500))
	}
	if base.OK() && o.OK() {
		a, b := sut.Observed(base.Tree), sut.Observed(o.Tree)
		for sec, perm := range map[string][]int{"tables": pt, "actions": pa, "extensions": pe} {
			l, _ := a[sec].([]any)
			m, _ := b[sec].([]any)
			if len(l) != len(m) {
				return fmt.Sprintf("declared in another order, %s has %d instead of %d elements", sec, len(m), len(l))
			}
			for i, x := range perm {
				if i < len(m) && x < len(l) && !reflect.DeepEqual(l[x], m[i]) {
					return fmt.Sprintf("declared in another order, %s differs: %s", sec, sut.Diff("", l[x], m[i]))
				}
			}
		}
	}
	return ""
}

// judgeArtifact: the JSON is exactly the schema.
func judgeArtifact(src string) string {
	if strings.HasPrefix(src, "{") {
		return judgeByHand(src)
	}
	o := sut.Compile(src)
	if o.Panic != nil || o.Err != nil {
		return ""
	}
	if o.JErr != nil {
		return "the schema cannot be serialised: " + o.JErr.Error()
	}
	if !json.Valid(o.JSON) || o.Tree == nil {
		return "the artifact is not one JSON object"
	}
	s, ok := o.Ast.(*schema.Schema)
	if !ok {
		return fmt.Sprintf("the result is a %T", o.Ast)
	}
	// reading it back, nothing unknown, nothing missing
	var back schema.Schema
	d := json.NewDecoder(bytes.NewReader(o.JSON))
	d.DisallowUnknownFields()
	if err := d.Decode(&back); err != nil {
		return "the artifact does not read back: " + err.Error()
	}
	if !sameValue(reflect.ValueOf(*s), reflect.ValueOf(back)) {
		return "the artifact reads back as another schema"
	}
	again, err := back.ToJSON()
	if err != nil {
		return "what was read back cannot be serialised: " + err.Error()
	}
	if !bytes.Equal(again, o.JSON) {
		return "what was read back serialises to other bytes: " + mon.Clip(string(again), 300)
	}
	third, err := s.ToJSON()
	if err != nil || !bytes.Equal(third, o.JSON) {
		return "serialising again gives other bytes"
	}
	if err, pan := sut.ValidateJSON(o.JSON); err != nil || pan != nil {
		return fmt.Sprintf("the artifact of an accepted program does not validate: %v %v", err, pan)
	}
	// the exact shape, names and spellings, from an independent reading
	if p, e := kf.Parse(src); e == nil && kf.Validate(p).OK() {
		if d := sut.Diff("", sut.Expected(p), sut.Observed(o.Tree)); d != "" {
			return "the artifact does not say what the source says: " + d
		}
	}
	if m := shapeOf(o.Tree, false); m != "" {
		return m
	}
	return partsOf(s, o.JSON, o.Tree)
}

// partsOf: the parts serialise to what the whole contains.
func partsOf(s *schema.Schema, all []byte, tree map[string]any) string {
	whole := unindent(all)
	part := func(name string, i int, n interface{ ToJSON() ([]byte, error) }, want any) string {
		b, err := n.ToJSON()
		if err != nil {
			return fmt.Sprintf("%s %d cannot be serialised: %v", name, i, err)
		}
		t, err := sut.Decode(b)
		if err != nil || !reflect.DeepEqual(any(t), want) {
			return fmt.Sprintf("%s %d serialises alone to %s", name, i, mon.Clip(string(b), 300))
		}
		if !strings.Contains(whole, unindent(b)) {
			return fmt.Sprintf("%s %d serialises alone to %s, which the artifact does not contain in that form", name, i, mon.Clip(string(b), 300))
		}
		return ""
	}
	at := func(v any, k string, i int) any {
		m, _ := v.(map[string]any)
		l, _ := m[k].([]any)
		if i < len(l) {
			return l[i]
		}
		return nil
	}
	for i := range s.Tables {
		tm := at(tree, "tables", i)
		if m := part("table", i, &s.Tables[i], tm); m != "" {
			return m
		}
		for k := range s.Tables[i].Columns {
			cm := at(tm, "columns", k)
			if m := part("column", k, &s.Tables[i].Columns[k], cm); m != "" {
				return m
			}
			for x := range s.Tables[i].Columns[k].Attributes {
				if m := part("attribute", x, &s.Tables[i].Columns[k].Attributes[x], at(cm, "attributes", x)); m != "" {
					return m
				}
			}
		}
		for k := range s.Tables[i].Indexes {
			if m := part("index", k, &s.Tables[i].Indexes[k], at(tm, "indexes", k)); m != "" {
				return m
			}
		}
		for k := range s.Tables[i].ForeignKeys {
			if m := part("foreign key", k, &s.Tables[i].ForeignKeys[k], at(tm, "foreign_keys", k)); m != "" {
				return m
			}
		}
	}
	for i := range s.Actions {
		if m := part("action", i, &s.Actions[i], at(tree, "actions", i)); m != "" {
			return m
		}
	}
	for i := range s.Extensions {
		if m := part("extension", i, &s.Extensions[i], at(tree, "extensions", i)); m != "" {
			return m
		}
	}
	return ""
}

// judgeByHand: a schema made by hand is serialised as one the compiler made.
func judgeByHand(src string) string {
	for k := int64(0); k < 3; k++ {
		var s schema.Schema
		if json.Unmarshal([]byte(src), &s) != nil {
			return ""
		}
		if k > 0 {
			reshape(reflect.ValueOf(&s), gen.New(seedOf(src)+k))
		}
		b, err := s.ToJSON()
		if err != nil {
			return "a schema made by hand cannot be serialised: " + err.Error()
		}
		t, err := sut.Decode(b)
		if err != nil {
			return "a schema made by hand is serialised to no JSON object: " + err.Error()
		}
		if m := shapeOf(t, true); m != "" {
			return "made by hand, " + m
		}
		var back schema.Schema
		d := json.NewDecoder(bytes.NewReader(b))
		d.DisallowUnknownFields()
		if err := d.Decode(&back); err != nil {
			return "a serialised schema does not read back: " + err.Error()
		}
		if !sameValue(reflect.ValueOf(s), reflect.ValueOf(back)) {
			return "a schema made by hand reads back as another one: " + mon.Clip(string(b), 600)
		}
		if c, err := s.ToJSON(); err != nil || !bytes.Equal(b, c) {
			return "serialising again gives other bytes"
		}
		if m := partsOf(&s, b, t); m != "" {
			return "made by hand, " + m
		}
	}
	return ""
}

// unindent takes away the indentation of every line.
func unindent(b []byte) string {
	l := strings.Split(string(b), "\n")
	for i := range l {
		l[i] = strings.TrimLeft(l[i], " \t")
	}
	return strings.TrimSpace(strings.Join(l, "\n"))
}

// shapeOf checks that fields a consumer relies on are always there.
func shapeOf(t map[string]any, byHand bool) string {
	need := func(what string, m any, keys ...string) string {
		o, ok := m.(map[string]any)
		if !ok {
			return what + " is not an object"
		}
		for _, k := range keys {
			if byHand && (what == "a table" && k == "columns" || k == "statements" || what == "an index" && k == "type") {
				continue // a program has some
			}
			if _, ok := o[k]; !ok {
				return what + " lacks " + k
			}
		}
		for _, k := range map[string][]string{"the schema": {"tables", "actions", "extensions"}, "a table": {"columns", "indexes", "foreign_keys"}, "a column": {"attributes"}, "an action": {"annotations", "statements"}}[what] {
			if x, ok := o[k]; ok {
				if l, _ := x.([]any); len(l) == 0 {
					return what + " has " + k + " that are empty"
				}
			}
		}
		return ""
	}
	each := func(m any, k string) []any {
		o, _ := m.(map[string]any)
		l, _ := o[k].([]any)
		return l
	}
	if m := need("the schema", t, "owner", "name"); m != "" {
		return m
	}
	for _, x := range each(t, "tables") {
		if m := need("a table", x, "name", "columns"); m != "" {
			return m
		}
		for _, c := range each(x, "columns") {
			if m := need("a column", c, "name", "type"); m != "" {
				return m
			}
			for _, a := range each(c, "attributes") {
				if m := need("an attribute", a, "type"); m != "" {
					return m
				}
				if x, ok := a.(map[string]any)["value"]; ok && x == nil {
					return "an attribute has a value that is none"
				}
			}
		}
		for _, i := range each(x, "indexes") {
			if m := need("an index", i, "name", "columns", "type"); m != "" {
				return m
			}
		}
		for _, f := range each(x, "foreign_keys") {
			if m := need("a foreign key", f, "child_keys", "parent_keys", "parent_table", "actions"); m != "" {
				return m
			}
			for _, a := range each(f, "actions") {
				if m := need("a foreign key action", a, "on", "do"); m != "" {
					return m
				}
			}
		}
	}
	for _, a := range each(t, "actions") {
		if m := need("an action", a, "name", "inputs", "public", "mutability", "auxiliaries", "statements"); m != "" {
			return m
		}
	}
	for _, e := range each(t, "extensions") {
		if m := need("an extension", e, "name", "alias", "config"); m != "" {
			return m
		}
		for _, x := range each(e, "config") {
			if m := need("a setting", x, "argument", "value"); m != "" {
				return m
			}
		}
	}
	return ""
}

// sameValue is DeepEqual with nil and empty slices alike.
func sameValue(a, b reflect.Value) bool {
	if a.Kind() == reflect.Interface {
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil() || a.IsNil() && b.Elem().IsZero()
		}
		return reflect.DeepEqual(a.Interface(), b.Interface())
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !sameValue(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameValue(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// outcome is everything a caller can see of a compilation, as a string.
func outcome(o *sut.Out) string {
	if o.Panic != nil {
		return fmt.Sprintf("panic %v", o.Panic)
	}
	if o.Err != nil {
		return "error " + o.Err.Error()
	}
	if o.JErr != nil {
		return "json error " + o.JErr.Error()
	}
	return "ok " + string(o.JSON)
}

// scribble overwrites everything reachable from a schema.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
		// and what lies between length and capacity
		if v.CanSet() && v.Cap() > v.Len() {
			full := v.Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap(); i++ {
				scribble(full.Index(i))
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// asReference compiles a text whose outcome, if valid, is known from elsewhere
// than the compiler.
func asReference(src string) string {
	if kf.Hard(src) {
		return ""
	}
	o := sut.Compile(src)
	p, e := kf.Parse(src)
	if e != nil {
		if o.Panic == nil && o.Err == nil {
			return fmt.Sprintf("accepted although not of the language: %q", mon.Clip(src, 600))
		}
		return ""
	}
	v := kf.Validate(p)
	switch {
	case v.OK() && o.OK():
		if d := sut.Diff("", sut.Expected(p), sut.Observed(o.Tree)); d != "" {
			return fmt.Sprintf("the result is not that of the text %q: %s", mon.Clip(src, 600), d)
		}
	case v.OK():
		return fmt.Sprintf("a valid program was rejected with %s: %q", mon.Clip(o.Failure(), 300), mon.Clip(src, 600))
	case v.Bad() && o.OK():
		return fmt.Sprintf("a program with %v was accepted: %q", v.Faults, mon.Clip(src, 600))
	}
	return ""
}

// keptErrors are errors with what they were when they were returned.
type keptErrors []struct {
	src, text string
	kinds     string
	err       error
}

func (k *keptErrors) add(src string, err error) {
	if err != nil {
		*k = append(*k, struct {
			src, text string
			kinds     string
			err       error
		}{src, err.Error(), strings.Join(sut.Which(err), ","), err})
	}
}

func (k keptErrors) changed() string {
	for _, e := range k {
		if t, w := e.err.Error(), strings.Join(sut.Which(e.err), ","); t != e.text || w != e.kinds {
			return fmt.Sprintf("the error of %q changed after it was returned: it was %q of kind %q, it is %q of kind %q", mon.Clip(e.src, 400), e.text, e.kinds, t, w)
		}
	}
	return ""
}

// judgeHistory compiles src, then does things, and compiles it again.
func judgeHistory(src string) (m string) {
	first := sut.Compile(src)
	want := outcome(first)
	g := gen.New(seedOf(src))
	kept := keptErrors{}
	kept.add(src, first.Err)
	defer func() {
		if m == "" {
			m = kept.changed()
		}
	}()
	for k := 0; k < 3; k++ {
		for j := g.R.Intn(4); j >= 0; j-- {
			_, other := hostileText(g, g.R.Intn(Kinds))
			if j == 1 || k == 2 { // the same text with small changes
				other = g.Near(src)
			}
			if m := asReference(other); m != "" {
				return fmt.Sprintf("after %q: %s", mon.Clip(src, 600), m)
			}
			kept.add(other, sut.Compile(other).Err)
		}
		again := sut.Compile(src)
		if got := outcome(again); got != want {
			return fmt.Sprintf("compiled first: %s; compiled again after other programs: %s", mon.Clip(want, 400), mon.Clip(got, 400))
		}
		if first.OK() { // an earlier result stays what it was
			if b, err := first.Ast.ToJSON(); err != nil || !bytes.Equal(b, first.JSON) {
				return "an earlier result changed while other programs were compiled"
			}
		}
		if again.OK() {
			if first.Ast == again.Ast {
				return "two compilations share their result"
			}
			scribble(reflect.ValueOf(again.Ast))
			if first.OK() {
				if b, err := first.Ast.ToJSON(); err != nil || !bytes.Equal(b, first.JSON) {
					return "writing to one result changed another"
				}
			}
			if got := outcome(sut.Compile(src)); got != want {
				return fmt.Sprintf("writing to a result changed later compilations: %s, was %s", mon.Clip(got, 400), mon.Clip(want, 400))
			}
		}
	}
	// validation leaves the schema alone, and can be repeated
	if s, ok := first.Ast.(*schema.Schema); ok && first.OK() {
		for k := 0; k < 2; k++ {
			if err := s.Accept(schema.NewCtxValidator()); err != nil {
				return "validating an accepted schema again fails: " + err.Error()
			}
		}
		if b, err := s.ToJSON(); err != nil || !bytes.Equal(b, first.JSON) {
			return "validation changed the schema"
		}
		if m := purity(first.JSON, g); m != "" {
			return m
		}
	}
	return ""
}

// reshape turns nil slices into empty ones and the other way round, at random.
func reshape(v reflect.Value, g *gen.G) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			reshape(v.Elem(), g)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			reshape(v.Field(i), g)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			reshape(v.Index(i), g)
		}
		if v.Len() == 0 && v.CanSet() {
			switch g.R.Intn(3) {
			case 0:
				v.Set(reflect.Zero(v.Type()))
			case 1:
				v.Set(reflect.MakeSlice(v.Type(), 0, 0))
			}
		} else if v.CanSet() && g.R.Intn(3) == 0 { // room behind it
			w := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+2)
			reflect.Copy(w, v)
			v.Set(w)
		}
	}
}

// purity: validation and serialisation leave any schema as it was, also one
// that was not made by the compiler, and also an invalid one.
func purity(b []byte, g *gen.G) string {
	for k := 0; k < 4; k++ {
		var s, ref schema.Schema
		seed := g.R.Int63()
		for _, x := range []*schema.Schema{&s, &ref} {
			if err := json.Unmarshal(b, x); err != nil {
				return "the artifact does not read back: " + err.Error()
			}
			h := gen.New(seed)
			reshape(reflect.ValueOf(x), h)
			if k > 1 {
				spoil(x, h)
			}
		}
		j0, e0 := s.ToJSON()
		if !reflect.DeepEqual(s, ref) {
			return "serialising changed the schema"
		}
		v0 := errText(s.Accept(schema.NewCtxValidator()))
		if !reflect.DeepEqual(s, ref) {
			return "validation changed a schema that was built by hand (" + v0 + ")"
		}
		v1 := errText(s.Accept(schema.NewCtxValidator()))
		j1, e1 := s.ToJSON()
		if v0 != v1 || !bytes.Equal(j0, j1) || errText(e0) != errText(e1) {
			return fmt.Sprintf("validating and serialising twice: %s / %s", v0, v1)
		}
		for i := range s.Tables {
			s.Tables[i].ToJSON()
			for j := range s.Tables[i].Columns {
				s.Tables[i].Columns[j].ToJSON()
			}
			for j := range s.Tables[i].Indexes {
				s.Tables[i].Indexes[j].ToJSON()
			}
			for j := range s.Tables[i].ForeignKeys {
				s.Tables[i].ForeignKeys[j].ToJSON()
			}
		}
		for i := range s.Actions {
			s.Actions[i].ToJSON()
		}
		for i := range s.Extensions {
			s.Extensions[i].ToJSON()
		}
		if !reflect.DeepEqual(s, ref) {
			return "serialising a part changed the schema"
		}
	}
	return ""
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// spoil makes one or two places of a schema wrong or unusual.
func spoil(s *schema.Schema, g *gen.G) {
	for n := 1 + g.R.Intn(2); n > 0; n-- {
		var l []reflect.Value
		var walk func(v reflect.Value)
		walk = func(v reflect.Value) {
			switch v.Kind() {
			case reflect.Struct:
				for i := 0; i < v.NumField(); i++ {
					walk(v.Field(i))
				}
			case reflect.Slice:
				if v.CanSet() && v.Len() > 0 {
					l = append(l, v)
				}
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			case reflect.String:
				if v.CanSet() {
					l = append(l, v)
				}
			}
		}
		walk(reflect.ValueOf(s).Elem())
		v := l[g.R.Intn(len(l))]
		switch {
		case v.Kind() == reflect.String:
			v.SetString([]string{"", "other", strings.ToUpper(v.String()), strings.ToLower(v.String()), v.String() + " "}[g.R.Intn(5)])
		case g.R.Intn(2) == 0:
			v.Set(reflect.Append(v, v.Index(g.R.Intn(v.Len()))))
		default:
			v.Set(v.Slice(0, v.Len()-1))
		}
	}
}

// CompileBatch is run in a fresh process: texts in, outcomes out.
func CompileBatch() {
	var l []string
	if err := json.NewDecoder(os.Stdin).Decode(&l); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(2)
	}
	var r []string
	out := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	for _, s := range l {
		r = append(r, outcome(sut.Compile(s)))
	}
	json.NewEncoder(out).Encode(r)
}

func freshProcess(l, env []string, dir string) ([]string, error) {
	self, _ := os.Executable()
	in, _ := json.Marshal(l)
	cmd := exec.Command(self, "batch")
	cmd.Stdin = bytes.NewReader(in)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("%v: %s", err, mon.Clip(errb.String(), 2000))
	}
	var r []string
	err := json.Unmarshal(out.Bytes(), &r)
	return r, err
}

// processes: fresh processes in other orders give the same outcomes.
func processes(c *mon.C) {
	rounds := 2
	if c.Thorough() {
		rounds = 60
	}
	for k := 0; k < rounds && !c.Full(); k++ {
		g := gen.New(c.CaseSeed(1000000 + c.Shard*1000 + k))
		var l []string
		for i := 0; i < 40; i++ {
			_, s := hostileText(g, i)
			l = append(l, strings.ToValidUTF8(s, "?"))
		}
		for i := 0; i < 60; i++ {
			l = append(l, strings.ToValidUTF8(g.Near(l[g.R.Intn(len(l))]), "?"))
		}
		a, err := freshProcess(l, nil, "")
		if err != nil {
			c.Fail("fresh process", "compiling in a fresh process failed: "+err.Error(), strings.Join(l, "\n-----\n"), nil)
			return
		}
		perm := g.R.Perm(len(l))
		m := make([]string, len(l))
		for i, x := range perm {
			m[i] = l[x]
		}
		b, err := freshProcess(m, append(environment(g), []string{"GOMAXPROCS=1", "GOGC=5", "GOMAXPROCS=16", "GOGC=off"}[(k+c.Shard)%4]), c.Dir)
		if err != nil {
			c.Fail("fresh process", "compiling in a fresh process failed: "+err.Error(), strings.Join(m, "\n-----\n"), nil)
			return
		}
		for i, x := range perm {
			here := outcome(sut.Compile(l[x]))
			if b[i] != a[x] || here != a[x] {
				c.Fail("fresh process", fmt.Sprintf("three processes with other histories, environments and directories give %s / %s / %s", mon.Clip(a[x], 300), mon.Clip(b[i], 300), mon.Clip(here, 300)), l[x], nil)
				return
			}
			c.Eval("process" + l[x])
			c.Count("outcomes compared across processes", 1)
		}
	}
}

// leaks: nothing is left running and nothing piles up.
func leaks(c *mon.C) {
	processes(c)
	sameMemory(c)
	if c.Full() {
		return
	}
	g := gen.New(c.CaseSeed(2000000))
	var l []string
	for i := 0; i < 40; i++ {
		_, s := hostileText(g, i)
		l = append(l, s)
	}
	for _, s := range l {
		sut.Compile(s)
	}
	before := runtime.NumGoroutine()
	for k := 0; k < 3; k++ {
		for _, s := range l {
			sut.Compile(s)
		}
	}
	after := 0
	for i := 0; i < 50; i++ {
		if after = runtime.NumGoroutine(); after <= before {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	c.Max("max goroutines after compiling", int64(after))
	if after > before {
		c.Fail("goroutines", fmt.Sprintf("%d goroutines before, %d after 120 compilations", before, after), "", nil)
	}
	// the text of a program is not kept: 8 MB of distinct programs in, far less stays
	heap := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	// every kind of name and literal in turn, long and different in every text
	long := func(i int, what string, n int) string { return fmt.Sprintf("%s%d_", what, i) + strings.Repeat("x", n) }
	for k, kind := range bulk {
		if k%c.Shards != c.Shard || c.Full() {
			continue
		}
		make := func(i int) string {
			s := kind.text
			for x := 0; x < 5; x++ {
				s = strings.ReplaceAll(s, fmt.Sprintf("%%%d", x), long(i*5+x, kind.letter, 3000))
			}
			return s
		}
		for i := 0; i < 20; i++ {
			sut.Compile(make(i))
		}
		h0 := heap()
		for i := 0; i < 140; i++ {
			src := make(1000 + i)
			o := sut.Compile(src)
			if o.OK() == kind.bad {
				c.Fail("heap", fmt.Sprintf("unexpected outcome %q", o.Failure()), src, nil)
				return
			}
		}
		grown := heap() - h0
		c.Max("max heap growth in bytes over 2 MB of one kind of text", grown)
		c.Count("kinds of text whose traces in memory were looked for", 1)
		if grown > 600<<10 {
			c.Fail("heap", fmt.Sprintf("140 distinct programs, each with long parts, left %d bytes behind", grown), make(0), nil)
		}
	}
}

// bulk are programs in which one kind of thing takes all the room.
var bulk = []struct {
	text, letter string
	bad          bool
}{
	{"database %0; table t {a int}", "d", false},
	{"database d; table %0 {a int} table %1 {a int} table %2 {a int}", "t", false},
	{"database d; table t {%0 int, %1 text, %2 blob notnull, %3 int, %4 int}", "c", false},
	{"database d; table t {a text default('%0') default_ text}", "c", true},
	{"database d; table t {a text default('%0'), b text default('%1'), c int max(1)}", "v", false},
	{"database d; table t {a int, #%0 index(a), #%1 unique(a), #%2 primary(a)}", "i", false},
	{"database d; table %0 {%1 int, fk(%1) ref %0(%1)}", "f", false},
	{"database d; action %0() public {select 1;} action %1() public {%0();} action %2() private {select 1;}", "a", false},
	{"database d; action a($%0, $%1, $%2) public {a($%0, $%1, $%2);}", "p", false},
	{"database d; @%0(%1=1, %2='%3') action a() public {select 1;}", "n", false},
	{"database d; use %0 as e; use f {%1: 1, %2: '%3'} as %4;", "e", false},
	{"database d; use e as x; action a() public {$%0, $%1 = x.%2('%3');}", "r", false},
	{"database d; action a() public {select '%0'; select %1 from %2 where %3 = '%4';}", "s", false},
	{"database d; init() {select '%0'; insert into %1 (%2) values ('%3');}", "s", false},
	{"database d; /* %0 */ table t {a int} // %1 %2 %3", "z", false},
	{"database d; table %0 {a int} table %0 {a int}", "t", true},
	{"database d; table t {%0 int, %0 text}", "c", true},
	{"database d; action a() public {%0('%1');}", "a", true},
	{"database d; action a() public {a($%0);}", "a", true},
	{"database d; action a() public {%0.%1();}", "a", true},
	{"database d; table t {a int, fk(a) ref %0(a)}", "a", true},
	{"database d; table t {a %0}", "a", true},
	{"%0 %1 %2", "a", true},
	{"database d; action a() public {select %0 %1 %2 %3;}", "a", true},
	{"database d; action a() public {a(%0(1));}", "a", true},
	{"'%0 %1", "a", true},
}

func init() {
	reg(&mon.Check{ID: "C15", Rule: "valid and invalid programs, each written in up to six layouts (dense, spaced, pretty, Windows line ends, comments between all tokens) with the same tokens, " +
		"and three other spellings (fk/foreign_key, ref/references, optional do, trailing comma, interleaving of tables, actions and init); all must have the same verdict and schema. Distinct by text.",
		Quick: 2600, Thorough: 200000, Judge: judgeLayout, OnceShard: both(thinned(12, formatSweep), remarkSweep, relateSweep("C15")), Case: textCase(func(g *gen.G, i int) (string, string) {
			switch i % 4 {
			case 0:
				if q := g.Inject(g.Prog(gen.Full), gen.Classes[g.R.Intn(len(gen.Classes))]); q != nil {
					return "faulty", g.Text(q)
				}
			case 1:
				if i%8 == 1 {
					return "token edits", g.JoinToks(g.MutateToks(g.Tokens(g.Prog(gen.Full))))
				}
			}
			return "valid", g.Text(g.Prog(gen.Full))
		}, nil), Floors: map[string]int64{"text: valid": 800}})

	reg(&mon.Check{ID: "C26", Rule: "valid and faulty programs, compiled again with every name replaced by another (consistently, hostile names) and with tables, actions and extensions declared in another order: " +
		"same verdict and kind of error, same schema up to names and order. Distinct by text.",
		Quick: 5000, Thorough: 400000, Judge: judgeRename, OnceShard: relateSweep("C26"), Case: textCase(func(g *gen.G, i int) (string, string) {
			o := gen.Full
			if i%6 > 2 {
				o.MaxExts, o.MinActs, o.MinTabs = 6, 2, 2
			}
			if i%2 == 0 {
				if q := g.Inject(g.Prog(o), gen.Classes[g.R.Intn(len(gen.Classes))]); q != nil {
					return "faulty", g.Text(q)
				}
			}
			return "valid", g.Text(g.Prog(o))
		}, nil), Floors: map[string]int64{"text: valid": 1500, "text: faulty": 1500}})

	reg(&mon.Check{ID: "C18", Rule: ruleProg + ruleSweeps + "Schemas made by hand. For every accepted program the artifact is read back strictly into the exported schema type, compared, serialised again, validated, compared field by field with the reference, and every part is serialised alone.",
		Quick: 9000, Thorough: 900000, Judge: judgeArtifact, Case: faithfulCase(gen.Full, nil),
		OnceShard: both(bulkSweep("C18"), thinned(4, formatSweep), byHand(3000), sizeSweep, relateSweep("C18")),
		Floors:    map[string]int64{"by hand": 1000, "columns": 5000, "annotations": 500, "extension settings": 500}})

	reg(&mon.Check{ID: "C16", Rule: "a text of any kind is compiled, then random other texts, then it again; results are held, overwritten and compared; the same texts are compiled in fresh processes in other orders; " +
		"goroutines and heap are watched over many compilations. Distinct by text.",
		Quick: 2400, Thorough: 250000, Judge: judgeHistory, Case: textCase(hostileText, nil), OnceShard: leaks,
		Floors: map[string]int64{"outcomes compared across processes": 300}})

	reg(&mon.Check{ID: "C25", Rule: "exhaustive: every letter-case variant of every keyword of the three lookups, every string of up to three letters, every single-character edit of a keyword, and every other keyword of the language; " +
		"what the compiler emits for each keyword is compared with what the lookup says. Distinct by string and lookup.",
		Once: lookups, Exhaust: true, MaxShards: 1, Floors: map[string]int64{"strings looked up": 50000, "keywords compiled": 14}})
}

func lookups(c *mon.C) {
	type table struct {
		name  string
		get   func(string) (string, error)
		words map[string]string
		src   func(kw string) string
		out   func(t map[string]any) any
	}
	first := func(l any) map[string]any {
		a, _ := l.([]any)
		if len(a) == 0 {
			return nil
		}
		m, _ := a[0].(map[string]any)
		return m
	}
	col := func(t map[string]any) map[string]any { return first(first(t["tables"])["columns"]) }
	tabs := []table{
		{"column type", func(s string) (string, error) { v, e := schema.GetColumnType(s); return v.String(), e },
			map[string]string{"null": "null", "text": "text", "int": "int", "blob": "blob"},
			func(kw string) string {
				if kw == "null" {
					return ""
				}
				return "database d; table t {a " + kw + "}"
			},
			func(t map[string]any) any { return col(t)["type"] }},
		{"attribute type", func(s string) (string, error) { v, e := schema.GetAttributeType(s); return v.String(), e },
			map[string]string{"primary": "primary_key", "unique": "unique", "notnull": "not_null", "default": "default", "min": "min", "max": "max", "minlen": "min_length", "maxlen": "max_length"},
			func(kw string) string {
				ty := "int"
				if strings.HasSuffix(kw, "len") {
					ty = "text"
				}
				if kw == "default" || strings.HasPrefix(kw, "m") {
					kw += "(1)"
				}
				return "database d; table t {a " + ty + " " + kw + "}"
			},
			func(t map[string]any) any { return first(col(t)["attributes"])["type"] }},
		{"index type", func(s string) (string, error) { v, e := schema.GetIndexType(s); return v.String(), e },
			map[string]string{"index": "btree", "unique": "unique_btree", "primary": "primary"},
			func(kw string) string { return "database d; table t {a int, #i " + kw + "(a)}" },
			func(t map[string]any) any { return first(first(t["tables"])["indexes"])["type"] }},
	}
	for _, t := range tabs {
		t := t
		done := map[string]bool{}
		ask := func(s string) {
			if done[s] {
				return
			}
			done[s] = true
			want, known := t.words[strings.ToLower(s)]
			if strings.Contains(s, "\u0130") { // a capital i with a dot may be taken as a letter case of i
				return
			}
			got, err := t.get(s)
			if known && (err != nil || got != want) {
				c.Fail("lookup", fmt.Sprintf("%s %q gives %q, %v, should be %q", t.name, s, got, err, want), "", nil)
			}
			if !known && (err == nil || got != "") {
				c.Fail("lookup", fmt.Sprintf("%s %q gives %q, %v, should be an error", t.name, s, got, err), "", nil)
			}
			c.Count("strings looked up", 1)
			c.Eval(t.name + s)
		}
		var rec func(s string, n int)
		rec = func(s string, n int) {
			ask(s)
			if n > 0 {
				for _, ch := range "abcdefghijklmnopqrstuvwxyzINTMAX" {
					rec(s+string(ch), n-1)
				}
			}
		}
		rec("", 3)
		var all []string
		for w := range kf.Keywords {
			all = append(all, w)
		}
		for _, w := range kf.AttrJSON {
			all = append(all, w)
		}
		for _, w := range kf.IdxJSON {
			all = append(all, w)
		}
		for w := range t.words {
			all = append(all, w)
		}
		for _, w := range all {
			for m := 0; m < 1<<min(len(w), 10); m++ {
				b := []byte(w)
				for i := range b {
					if m>>i&1 == 1 && b[i] >= 'a' && b[i] <= 'z' {
						b[i] -= 32
					}
				}
				ask(string(b))
			}
			for i := 0; i <= len(w); i++ {
				for _, x := range "abcdefghijklmnopqrstuvwxyz_ 0\t\n" {
					ask(w[:i] + string(x) + w[i:])
					if i < len(w) {
						ask(w[:i] + string(x) + w[i+1:])
					}
				}
				if i < len(w) {
					ask(w[:i] + w[i+1:])
				}
			}
		}
		// every letter replaced by any that is like it in some way
		for _, w := range all {
			if len(w) == 0 {
				continue
			}
			for r := rune(0x80); r < 0x20000; r++ {
				lo, up := unicode.ToLower(r), unicode.ToUpper(r)
				var like byte
				switch {
				case lo < 128:
					like = byte(lo)
				case up < 128:
					like = byte(up) | 32
				case r >= 0xff21 && r <= 0xff3a:
					like = byte(r-0xff21) + 'a'
				case r >= 0xff41 && r <= 0xff5a:
					like = byte(r-0xff41) + 'a'
				case r >= 0x1d400 && r < 0x1d6a4:
					like = byte((r-0x1d400)%26) + 'a'
				case r >= 0x24b6 && r <= 0x24e9:
					like = byte((r-0x24b6)%26) + 'a'
				case r < 0x250:
					like = "aaaaaaceeeeiiiidnooooo_ouuuuypsaaaaaaceeeeiiiidnooooo_ouuuuypy"[int(r)%62]
				default:
					for i, x := range []rune("\u0430\u0435\u043e\u0440\u0441\u0445\u0456\u0410\u0412\u0415\u041a\u041c\u041d\u041e\u0420\u0421\u0422\u0425\u03b1\u03bf\u0391\u0392\u0395\u0399\u039a\u039c\u039d\u039f\u03a1\u03a4\u03a5\u03a7") {
						if x == r {
							like = "aeopcxiabekmhopctxaoabeikmnoptyx"[i]
						}
					}
				}
				if like == 0 || !strings.Contains(w, string(like)) {
					continue
				}
				for i := range w {
					if w[i] == like {
						ask(w[:i] + string(r) + w[i+1:])
						ask(strings.ToUpper(w[:i]) + string(r) + strings.ToUpper(w[i+1:]))
					}
				}
				ask(strings.ReplaceAll(w, string(like), string(r)))
			}
		}
		// every keyword in every kind of wrapping
		for w := range t.words {
			for _, k := range []string{w, strings.ToUpper(w), strings.Title(w)} {
				for x := 0; x < 128; x++ {
					s := string(rune(x))
					for _, y := range []string{k + s, s + k, s + k + s, k + s + s, s + s + k, k + s + k, "(" + k + s, k + s + ")"} {
						ask(y)
					}
				}
				for _, x := range "\u00a0\u0085\u2003\u2028\u3000\ufeff\u200b\u0301\u00e9\uff49\ufffd" {
					s := string(x)
					for _, y := range []string{k + s, s + k, s + k + s, k[:1] + s + k[1:]} {
						ask(y)
					}
				}
				for _, y := range []string{k + "()", k + "(1)", k + "(" + k + ")", k + k, k + " " + k, k + "s", k + "es", k + "\x00", k + "--", k + "/**/", "`" + k + "`", "\"" + k + "\"", "'" + k + "'", "[" + k + "]", "@" + k, "$" + k, "#" + k, "##" + k, k + "\r\n", "\r\n" + k} {
					ask(y)
				}
			}
		}
		for kw, want := range t.words {
			src := t.src(kw)
			if src == "" {
				continue
			}
			o := sut.Compile(src)
			if !o.OK() || t.out(o.Tree) != want {
				c.Fail("lookup", fmt.Sprintf("keyword %q compiles to %v (%s), the lookup says %q", kw, o.Tree, o.Failure(), want), src, nil)
			}
			c.Count("keywords compiled", 1)
		}
	}
}
