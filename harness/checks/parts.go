package checks

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/antlr4-go/antlr/v4"

	"github.com/kwilteam/kuneiform/kfgrammar"
	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/kfparser/ast"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
)

// partNode is a subtree of an accepted program with the part of the schema it
// stands for.
type partNode struct {
	tree antlr.ParserRuleContext
	part any
	// rule parses the text of the subtree alone, nil if it is not meant to be
	rule func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext
}

// subtrees pairs the subtrees of a program with the parts of its schema. It
// gives none if there are not as many of one as of the other, which others
// look at.
func subtrees(t *kfgrammar.Source_unitContext, s *schema.Schema) (l []partNode) {
	exts, tables, acts, inits := t.AllExtension_directive(), t.AllTable_decl(), t.AllAction_decl(), t.AllInit_decl()
	if len(exts) != len(s.Extensions) || len(tables) != len(s.Tables) || len(acts)+len(inits) != len(s.Actions) {
		return nil
	}
	add := func(t antlr.ParserRuleContext, part any, rule func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext) {
		l = append(l, partNode{t, part, rule})
	}
	for i, e := range exts {
		add(e, s.Extensions[i], func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext { return p.Extension_directive() })
	}
	for i, d := range tables {
		tab := s.Tables[i]
		add(d, tab, func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext { return p.Table_decl() })
		if d.Column_def_list() == nil {
			continue
		}
		cols, idxs, fks := d.Column_def_list().AllColumn_def(), d.AllIndex_def(), d.AllForeign_key_def()
		if len(cols) != len(tab.Columns) || len(idxs) != len(tab.Indexes) || len(fks) != len(tab.ForeignKeys) {
			continue
		}
		add(d.Column_def_list(), tab.Columns, func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext { return p.Column_def_list() })
		for k, c := range cols {
			add(c, tab.Columns[k], func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext { return p.Column_def() })
			if at := c.AllColumn_constraint(); len(at) == len(tab.Columns[k].Attributes) {
				for x, a := range at {
					add(a, tab.Columns[k].Attributes[x], func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext { return p.Column_constraint() })
				}
			}
		}
		for k, x := range idxs {
			add(x, tab.Indexes[k], func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext { return p.Index_def() })
			add(x.Column_name_list(), tab.Indexes[k].Columns, func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext { return p.Column_name_list() })
		}
		for k, x := range fks {
			add(x, tab.ForeignKeys[k], func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext { return p.Foreign_key_def() })
			if as := x.AllForeign_key_action(); len(as) == len(tab.ForeignKeys[k].Actions) {
				for y, a := range as {
					add(a, tab.ForeignKeys[k].Actions[y], func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext { return p.Foreign_key_action() })
				}
			}
		}
	}
	body := func(list kfgrammar.IAction_stmt_listContext, want []string) {
		if list == nil || len(list.AllAction_stmt()) != len(want) {
			return
		}
		add(list, want, nil)
		for i, x := range list.AllAction_stmt() {
			add(x, want[i], nil)
		}
	}
	for i, d := range acts {
		a := s.Actions[i]
		add(d, a, func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext { return p.Action_decl() })
		if an := d.AllAnnotation_decl(); len(an) == len(a.Annotations) {
			for k, x := range an {
				add(x, a.Annotations[k], func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext { return p.Annotation_decl() })
			}
		}
		body(d.Action_stmt_list(), a.Statements)
	}
	for i, d := range inits {
		a := s.Actions[len(acts)+i]
		add(d, a, func(p *kfgrammar.KuneiformParser) antlr.ParserRuleContext { return p.Init_decl() })
		body(d.Action_stmt_list(), a.Statements)
	}
	return l
}

// stagesParts: the subtrees of an accepted program visited alone, from the
// last to the first and across each other, and their texts parsed alone, give
// the parts of the schema.
func stagesParts(src string, tree antlr.ParseTree, n ast.Ast) (msg string) {
	unit, ok := tree.(*kfgrammar.Source_unitContext)
	s, ok2 := n.(*schema.Schema)
	if !ok || !ok2 {
		return ""
	}
	what := ""
	runes := []rune(src)
	l := subtrees(unit, s)
	step := 1
	if len(l) > 300 {
		step = len(l)/300 + 1
	}
	one := kfparser.NewKuneiformVisitor(kfparser.Default)
	judge := func(v *kfparser.KFVisitor, t antlr.ParserRuleContext, part any) (m string) {
		defer func() {
			if recover() != nil {
				m = "" // nor that every rule can be visited alone
			}
		}()
		got := v.Visit(t)
		g := reflect.ValueOf(got)
		if g.Kind() == reflect.Pointer && !g.IsNil() {
			g = g.Elem()
		}
		if !g.IsValid() || g.Type() != reflect.TypeOf(part) {
			return "" // no document says what it is
		}
		a, err1 := json.Marshal(g.Interface())
		b, err2 := json.Marshal(part)
		if err1 != nil || err2 != nil || string(a) != string(b) {
			return fmt.Sprintf("%s alone gives %.300s, within the program %.300s", what, a, b)
		}
		return ""
	}
	name := func(p partNode, how string) string {
		return fmt.Sprintf("%s %T %.60q", how, p.part, p.tree.GetText())
	}
	for i := 0; i < len(l); i += step {
		p := l[len(l)-1-i]
		what = name(p, "the subtree of")
		if m := judge(one, p.tree, p.part); m != "" {
			return m
		}
		p = l[i*7919%len(l)]
		what = name(p, "the subtree of")
		if m := judge(kfparser.NewKuneiformVisitor(kfparser.Default), p.tree, p.part); m != "" {
			return m
		}
		if p.rule == nil || i%3 != 0 {
			continue
		}
		a, b := p.tree.GetStart().GetStart(), p.tree.GetStop().GetStop()+1
		if a < 0 || b < a || b > len(runes) {
			return fmt.Sprintf("%s has no place in the text", what)
		}
		what = name(p, "the text of")
		lex := kfgrammar.NewKuneiformLexer(antlr.NewInputStream(string(runes[a:b])))
		lst := utils.NewErrorListener()
		lex.RemoveErrorListeners()
		lex.AddErrorListener(lst)
		parser := kfgrammar.NewKuneiformParser(antlr.NewCommonTokenStream(lex, antlr.TokenDefaultChannel))
		parser.RemoveErrorListeners()
		parser.AddErrorListener(lst)
		t := p.rule(parser)
		if err := lst.Err(); err != nil {
			return fmt.Sprintf("%s alone is refused with %v", what, err)
		}
		if m := judge(one, t, p.part); m != "" {
			return m
		}
	}
	return ""
}
