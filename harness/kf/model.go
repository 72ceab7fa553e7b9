package kf

import (
	"fmt"
	"strings"
)

// The abstract program. Values are spelled exactly as the deployed JSON spells
// them, so that a change of a constant is visible.
type (
	Prog struct {
		Name string
		Exts []Ext
		Tabs []Tab
		Acts []Act // source order; init not included
		Init *Act
		// Inits counts init blocks (more than one is an error)
		Inits int
	}
	KV  struct{ K, V string }
	Ext struct {
		Name  string
		Conf  []KV
		Alias string
	}
	Col struct {
		Name, Type string
		Attrs      []KV // JSON attribute type, literal ("" when it takes none)
	}
	Idx struct {
		Name, Type string
		Cols       []string
	}
	FKAct struct{ On, Do string }
	FK    struct {
		Child   []string
		Parent  string
		Keys    []string
		Actions []FKAct
	}
	// Tab keeps indexes and foreign keys in separate declaration orders, plus
	// Order ('i'/'f') to be able to write them interleaved.
	Tab struct {
		Name  string
		Cols  []Col
		Idxs  []Idx
		FKs   []FK
		Order string
	}
	Annot struct {
		Target string
		Attrs  []KV
	}
	Act struct {
		Name   string
		Annots []Annot
		Params []string
		Mods   []string // modifiers as written: public private view owner
		Stmts  []Stmt
	}
	// Stmt is either SQL (verbatim text, no ';') or a call.
	Stmt struct {
		SQL  string
		Recv []string
		Ext  string
		Fn   string
		Args []Tok // tokens between the parentheses
	}
)

func (s Stmt) IsSQL() bool { return s.SQL != "" }

// Compact is the annotation as the compiled schema carries it.
func (a Annot) Compact() string {
	var p []string
	for _, kv := range a.Attrs {
		p = append(p, kv.K+"="+kv.V)
	}
	return a.Target + "(" + strings.Join(p, ",") + ")"
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Public, View and Owner give the effective modifiers.
func (a Act) Public() bool { return has(a.Mods, "public") }
func (a Act) View() bool   { return has(a.Mods, "view") }
func (a Act) Owner() bool  { return has(a.Mods, "owner") }

// StmtToks gives the token spelling of a statement including the final ';'.
func (s Stmt) Toks() []Tok {
	if s.IsSQL() {
		return []Tok{{K: SQL, T: s.SQL}, {K: ";", T: ";"}}
	}
	var t []Tok
	for i, r := range s.Recv {
		if i > 0 {
			t = append(t, Tok{K: ",", T: ","})
		}
		t = append(t, Tok{K: VAR, T: r})
	}
	if len(s.Recv) > 0 {
		t = append(t, Tok{K: "=", T: "="})
	}
	if s.Ext != "" {
		t = append(t, Tok{K: IDENT, T: s.Ext}, Tok{K: ".", T: "."})
	}
	t = append(t, Tok{K: IDENT, T: s.Fn}, Tok{K: "(", T: "("})
	for _, x := range s.Args {
		t = append(t, Tok{K: x.K, T: x.T})
	}
	return append(t, Tok{K: ")", T: ")"}, Tok{K: ";", T: ";"})
}

// TokString is a canonical spelling of a token sequence.
func TokString(t []Tok) string {
	var b strings.Builder
	for _, x := range t {
		if x.K == EOF {
			continue
		}
		fmt.Fprintf(&b, "%s\x1f", x.T)
	}
	return b.String()
}

// Canon of a statement: verbatim text for SQL, token sequence for a call.
func (s Stmt) Canon() string {
	if s.IsSQL() {
		return "SQL:" + strings.TrimSpace(s.SQL+";")
	}
	return "CALL:" + TokString(s.Toks())
}

// CanonText canonicalises the text of a compiled statement in the same way.
func CanonText(text string) string {
	t, errs := Lex(text)
	if len(errs) == 0 && len(t) > 0 && t[0].K == SQL {
		return "SQL:" + strings.TrimSpace(text)
	}
	if len(errs) > 0 {
		return "BAD:" + text
	}
	return "CALL:" + TokString(t)
}
