package sut

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"kfverif/kf"
)

// Expected is the deployed JSON a program must compile to, as a generic tree.
// Statements are given in canonical form.
func Expected(p *kf.Prog) map[string]any { return expected(p, kf.Stmt.Canon) }

// Handmade is the JSON of the schema of p as a program could build it by
// hand, without the compiler. Modifiers and init blocks beyond what a schema
// can say are lost.
func Handmade(p *kf.Prog) []byte {
	b, _ := json.Marshal(expected(p, func(s kf.Stmt) string {
		if s.IsSQL() {
			return strings.TrimSpace(s.SQL + ";")
		}
		var w []string
		for _, t := range s.Toks() {
			w = append(w, t.T)
		}
		return strings.Join(w, " ")
	}))
	return b
}

func expected(p *kf.Prog, text func(kf.Stmt) string) map[string]any {
	m := map[string]any{"owner": "", "name": p.Name}
	var tabs, acts, exts []any
	strs := func(l []string) any {
		if len(l) == 0 {
			return nil
		}
		var r []any
		for _, s := range l {
			r = append(r, s)
		}
		return r
	}
	for _, t := range p.Tabs {
		var cols, idxs, fks []any
		for _, c := range t.Cols {
			var at []any
			for _, a := range c.Attrs {
				x := map[string]any{"type": a.K}
				if a.V != "" {
					x["value"] = a.V
				}
				at = append(at, x)
			}
			cols = append(cols, obj("name", c.Name, "type", c.Type, "attributes", arr(at)))
		}
		for _, x := range t.Idxs {
			idxs = append(idxs, obj("name", x.Name, "type", x.Type, "columns", strs(x.Cols)))
		}
		for _, f := range t.FKs {
			var ac []any
			for _, a := range f.Actions {
				ac = append(ac, obj("on", a.On, "do", a.Do))
			}
			fks = append(fks, obj("child_keys", strs(f.Child), "parent_keys", strs(f.Keys), "parent_table", f.Parent, "actions", arr(ac)))
		}
		tabs = append(tabs, obj("name", t.Name, "columns", arr(cols), "indexes", arr(idxs), "foreign_keys", arr(fks)))
	}
	act := func(a kf.Act) any {
		var an, au, st []any
		for _, n := range a.Annots {
			an = append(an, n.Compact())
		}
		mut := "update"
		if a.View() {
			mut = "view"
		}
		if a.Owner() {
			au = append(au, "owner")
		}
		for _, s := range a.Stmts {
			st = append(st, text(s))
		}
		return obj("name", a.Name, "annotations", arr(an), "inputs", strs(a.Params), "public", a.Public(), "mutability", mut, "auxiliaries", arr(au), "statements", arr(st))
	}
	for _, a := range p.Acts {
		acts = append(acts, act(a))
	}
	if p.Init != nil {
		acts = append(acts, act(*p.Init))
	}
	for _, e := range p.Exts {
		var cf []any
		for _, c := range e.Conf {
			cf = append(cf, obj("argument", c.K, "value", c.V))
		}
		exts = append(exts, obj("name", e.Name, "alias", e.Alias, "config", arr(cf)))
	}
	m["tables"], m["actions"], m["extensions"] = arr(tabs), arr(acts), arr(exts)
	return clean(m).(map[string]any)
}

func arr(l []any) any {
	if len(l) == 0 {
		return nil
	}
	return l
}
func obj(kv ...any) map[string]any {
	m := map[string]any{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}

// clean drops nulls and empty lists: the two are not told apart.
func clean(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			if e = clean(e); e == nil {
				delete(x, k)
			} else {
				x[k] = e
			}
		}
		return x
	case []any:
		if len(x) == 0 {
			return nil
		}
		for i := range x {
			x[i] = clean(x[i])
		}
		return x
	}
	return v
}

// Observed is the compiled JSON in the same form as Expected.
func Observed(tree map[string]any) map[string]any {
	b, _ := json.Marshal(tree)
	m, _ := Decode(b)
	if acts, ok := m["actions"].([]any); ok {
		for _, a := range acts {
			if am, ok := a.(map[string]any); ok {
				if l, ok := am["statements"].([]any); ok {
					for i := range l {
						if s, ok := l[i].(string); ok {
							l[i] = kf.CanonText(s)
						}
					}
				}
			}
		}
	}
	return clean(m).(map[string]any)
}

// Diff gives the first difference of two trees, or "".
func Diff(path string, want, got any) string {
	if reflect.DeepEqual(want, got) {
		return ""
	}
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			break
		}
		keys := map[string]bool{}
		for k := range w {
			keys[k] = true
		}
		for k := range g {
			keys[k] = true
		}
		var l []string
		for k := range keys {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			if d := Diff(path+"."+k, w[k], g[k]); d != "" {
				return d
			}
		}
	case []any:
		g, ok := got.([]any)
		if !ok {
			break
		}
		for i := 0; i < len(w) && i < len(g); i++ {
			if d := Diff(fmt.Sprintf("%s[%d]", path, i), w[i], g[i]); d != "" {
				return d
			}
		}
		if len(w) != len(g) {
			return fmt.Sprintf("%s: want %d elements, got %d", path, len(w), len(g))
		}
	}
	return fmt.Sprintf("%s: want %s, got %s", path, short(want), short(got))
}

func short(v any) string {
	if v == nil {
		return "nothing"
	}
	b, _ := json.Marshal(v)
	if len(b) > 300 {
		b = append(b[:300], "..."...)
	}
	return string(b)
}

// Sec picks parts out of a schema tree: "" keeps nothing.
type Sec func(tree map[string]any) any

func tables(keys ...string) Sec {
	return func(m map[string]any) any { return pluck(m["tables"], keys) }
}
func actions(keys ...string) Sec {
	return func(m map[string]any) any { return pluck(m["actions"], keys) }
}
func pluck(l any, keys []string) any {
	a, ok := l.([]any)
	if !ok {
		return l
	}
	var r []any
	for _, e := range a {
		m, ok := e.(map[string]any)
		if !ok {
			r = append(r, e)
			continue
		}
		n := map[string]any{}
		for _, k := range keys {
			if v, ok := m[k]; ok {
				n[k] = v
			}
		}
		r = append(r, n)
	}
	return r
}

// Sections of the schema, by property.
var (
	SecTables  = tables("name", "columns")
	SecIdxFK   = tables("name", "indexes", "foreign_keys")
	SecSig     = actions("name", "inputs", "public", "mutability", "auxiliaries")
	SecBody    = actions("name", "statements")
	SecAnnot   = actions("name", "annotations")
	SecExts    = Sec(func(m map[string]any) any { return m["extensions"] })
	SecHead    = Sec(func(m map[string]any) any { return []any{m["name"], m["owner"]} })
	SecAll     = Sec(func(m map[string]any) any { return m })
	SecActions = actions("name", "inputs", "public", "mutability", "auxiliaries", "annotations", "statements")
)
