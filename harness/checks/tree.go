package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/antlr4-go/antlr/v4"
	"github.com/kwilteam/kuneiform/kfgrammar"
	"github.com/kwilteam/kuneiform/utils"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
)

// ---- C32: the parse tree as a data structure

// foreigner is a visitor that knows nothing of this grammar.
type foreigner struct{ r treeRec }

func (f *foreigner) Visit(t antlr.ParseTree) any            { return f.r.Visit(t) }
func (f *foreigner) VisitChildren(t antlr.RuleNode) any     { return f.r.VisitChildren(t) }
func (f *foreigner) VisitTerminal(t antlr.TerminalNode) any { return f.r.VisitTerminal(t) }
func (f *foreigner) VisitErrorNode(t antlr.ErrorNode) any   { return f.r.VisitErrorNode(t) }

type accessor struct {
	method int
	form   byte // '1' the only one, 'a' all, 'i' by place
	rule   int  // or -1
	token  int
}

// accessors of a type of node: the methods named after a rule or a token.
var accessorsOf = map[reflect.Type][]accessor{}

func accessors(t reflect.Type, p *kfgrammar.KuneiformParser) []accessor {
	if l, ok := accessorsOf[t]; ok {
		return l
	}
	rules, tokens := map[string]int{}, map[string]int{"EOF": antlr.TokenEOF}
	for i, n := range p.RuleNames {
		rules[strings.ToUpper(n[:1])+n[1:]] = i
	}
	for i, n := range p.SymbolicNames {
		if n != "" {
			tokens[n] = i
		}
	}
	var l []accessor
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		a := accessor{method: i, rule: -1}
		name := m.Name
		switch in, out := m.Type.NumIn()-1, m.Type.NumOut(); {
		case out != 1 || in > 1:
			continue
		case in == 1:
			if m.Type.In(1).Kind() != reflect.Int {
				continue
			}
			a.form = 'i'
		case strings.HasPrefix(name, "All") && m.Type.Out(0).Kind() == reflect.Slice:
			a.form, name = 'a', name[3:]
		default:
			a.form = '1'
		}
		if k, ok := rules[name]; ok {
			a.rule = k
		} else if k, ok := tokens[name]; ok {
			a.token = k
		} else {
			continue
		}
		l = append(l, a)
	}
	accessorsOf[t] = l
	return l
}

func isNil(v reflect.Value) bool { return !v.IsValid() || v.IsNil() }

type treeJudge struct {
	p        *kfgrammar.KuneiformParser
	accepted bool
	counts   map[string]int
}

// leaves gives the tokens below a node.
func leaves(t antlr.Tree, l []antlr.Token) []antlr.Token {
	if x, ok := t.(antlr.TerminalNode); ok {
		return append(l, x.GetSymbol())
	}
	for i := 0; i < t.GetChildCount(); i++ {
		l = leaves(t.GetChild(i), l)
	}
	return l
}

func (j *treeJudge) terminal(t antlr.TerminalNode) string {
	if t.GetText() != t.GetSymbol().GetText() {
		return fmt.Sprintf("the leaf for token %q says %q", t.GetSymbol().GetText(), t.GetText())
	}
	r := treeRec{say: t.GetSymbol().GetTokenIndex()}
	want := "VisitTerminal"
	if _, ok := t.(antlr.ErrorNode); ok {
		want = "VisitErrorNode"
	}
	if out := t.Accept(&r); len(r.calls) != 1 || r.calls[0] != want || r.nodes[0] != any(t) || out != r.say {
		return fmt.Sprintf("the leaf for token %q that accepts a visitor calls %v and returns %v", t.GetText(), r.calls, out)
	}
	return ""
}

func (j *treeJudge) node(n antlr.RuleContext, depth int) string {
	ctx, ok := n.(antlr.ParserRuleContext)
	if !ok {
		return fmt.Sprintf("a node is of type %T", n)
	}
	if ri := n.GetRuleIndex(); ri < 0 || ri >= len(j.p.RuleNames) {
		return fmt.Sprintf("a node %T has the rule number %d", n, ri)
	}
	rule := j.p.RuleNames[n.GetRuleIndex()]
	name := strings.ToUpper(rule[:1]) + rule[1:]
	v := reflect.ValueOf(n)
	if s := v.Type().Elem().Name(); s != name+"Context" {
		return fmt.Sprintf("a node of rule %s is of type %s", rule, s)
	}
	j.counts[rule]++
	kids := n.GetChildren()
	if len(kids) != n.GetChildCount() {
		return fmt.Sprintf("%s has %d children and counts %d", rule, len(kids), n.GetChildCount())
	}
	// visiting
	r := treeRec{say: depth}
	if out := n.Accept(&r); len(r.calls) != 1 || r.calls[0] != "Visit"+name || r.nodes[0] != any(n) || out != any(depth) {
		return fmt.Sprintf("%s that accepts a visitor calls %v and returns %v", rule, r.calls, out)
	}
	f := foreigner{treeRec{say: depth}}
	if out := n.Accept(&f); len(f.r.calls) != 1 || f.r.calls[0] != "VisitChildren" || f.r.nodes[0] != any(n) || out != any(depth) {
		return fmt.Sprintf("%s that accepts a visitor of no grammar calls %v and returns %v", rule, f.r.calls, out)
	}
	// its text and its ends
	if toks := leaves(n, nil); depth < 40 && len(toks) < 3000 {
		var b strings.Builder
		for _, t := range toks {
			b.WriteString(t.GetText())
		}
		if n.GetText() != b.String() {
			return fmt.Sprintf("%s says %q, its tokens are %q", rule, mon.Clip(n.GetText(), 200), mon.Clip(b.String(), 200))
		}
		if j.accepted && len(toks) > 0 {
			if len(toks) > 1 && toks[len(toks)-1].GetTokenType() == antlr.TokenEOF { // not counted
				toks = toks[:len(toks)-1]
			}
			if ctx.GetStart() != toks[0] || ctx.GetStop() != toks[len(toks)-1] {
				return fmt.Sprintf("%s says it goes from %v to %v, its tokens from %v to %v", rule, ctx.GetStart(), ctx.GetStop(), toks[0], toks[len(toks)-1])
			}
		}
	}
	// what it gives of its children
	has := map[[2]int]bool{}
	for _, a := range accessors(v.Type(), j.p) {
		var want []antlr.Tree
		key := [2]int{a.rule, a.token}
		for _, k := range kids {
			switch k := k.(type) {
			case antlr.TerminalNode:
				if a.rule < 0 && k.GetSymbol().GetTokenType() == a.token {
					want = append(want, k)
				}
			case antlr.RuleContext:
				if a.rule == k.GetRuleIndex() {
					want = append(want, k)
				}
			}
		}
		what := func() string { return fmt.Sprintf("%s, asked for %s,", rule, v.Type().Method(a.method).Name) }
		same := func(x reflect.Value, i int) bool {
			if i < 0 || i >= len(want) {
				return isNil(x)
			}
			return !isNil(x) && x.Interface() == any(want[i])
		}
		m := v.Method(a.method)
		switch a.form {
		case '1':
			if !same(m.Call(nil)[0], 0) {
				return fmt.Sprintf("%s does not give the first of its %d", what(), len(want))
			}
		case 'a':
			l := m.Call(nil)[0]
			if l.Len() != len(want) {
				return fmt.Sprintf("%s gives %d of its %d", what(), l.Len(), len(want))
			}
			for i := range want {
				if !same(l.Index(i), i) {
					return fmt.Sprintf("%s gives another as number %d of %d", what(), i, len(want))
				}
			}
			// what a caller does to the list changes nothing
			if l.Len() > 0 {
				for i := 0; i < l.Len(); i++ {
					l.Index(i).SetZero()
				}
				if l = m.Call(nil)[0]; l.Len() != len(want) || !same(l.Index(0), 0) || !same(l.Index(l.Len()-1), l.Len()-1) {
					return fmt.Sprintf("%s gives another list after a caller has changed the first", what())
				}
			}
		case 'i':
			places := []int{0, 1, len(want) - 1, len(want), len(want) + 1, len(want) + 70, -1, -2, -len(want)}
			if len(want) < 40 {
				for i := 2; i < len(want)-1; i++ {
					places = append(places, i)
				}
			}
			for _, i := range places {
				if i = min(i, 1<<20); !same(m.Call([]reflect.Value{reflect.ValueOf(i)})[0], i) {
					return fmt.Sprintf("%s does not give number %d of its %d", what(), i, len(want))
				}
			}
		}
		has[key] = has[key] || a.form != 'i'
		j.counts["answers of accessors"]++
	}
	// every child can be had, and knows its parent
	for i, k := range kids {
		if up, ok := k.GetParent().(antlr.RuleContext); !ok || up.GetRuleIndex() != n.GetRuleIndex() {
			return fmt.Sprintf("child %d of %s has a parent of another kind", i, rule)
		}
		if _, leaf := k.(antlr.TerminalNode); !leaf && k.GetParent() != antlr.Tree(n) { // (a leaf knows only the embedded part)
			return fmt.Sprintf("child %d of %s has another parent", i, rule)
		}
		if n.GetChild(i) != k {
			return fmt.Sprintf("child %d of %s is not that of its list", i, rule)
		}
		msg := ""
		switch k := k.(type) {
		case antlr.TerminalNode:
			if j.accepted && !has[[2]int{-1, k.GetSymbol().GetTokenType()}] {
				msg = fmt.Sprintf("%s has no accessor for its token %q", rule, k.GetText())
			}
			if msg == "" {
				msg = j.terminal(k)
			}
		case antlr.RuleContext:
			if j.accepted && !has[[2]int{k.GetRuleIndex(), 0}] {
				msg = fmt.Sprintf("%s has no accessor for its part %s", rule, j.p.RuleNames[k.GetRuleIndex()])
			}
			if msg == "" {
				msg = j.node(k, depth+1)
			}
		default:
			msg = fmt.Sprintf("a child of %s is of type %T", rule, k)
		}
		if msg != "" {
			return msg
		}
	}
	return ""
}

// base is a visitor with nothing of its own.
type base struct {
	kfgrammar.BaseKuneiformParserVisitor
}

type parsing struct {
	lex  *kfgrammar.KuneiformLexer
	p    *kfgrammar.KuneiformParser
	l    *utils.ErrorListener
	tree kfgrammar.ISource_unitContext
}

func (x *parsing) run(src string) {
	x.l = utils.NewErrorListener()
	if x.p == nil {
		x.lex = kfgrammar.NewKuneiformLexer(antlr.NewInputStream(src))
		x.p = kfgrammar.NewKuneiformParser(antlr.NewCommonTokenStream(x.lex, antlr.TokenDefaultChannel))
	} else {
		x.lex.SetInputStream(antlr.NewInputStream(src))
		x.p.SetTokenStream(antlr.NewCommonTokenStream(x.lex, antlr.TokenDefaultChannel))
	}
	x.lex.RemoveErrorListeners()
	x.lex.AddErrorListener(x.l)
	x.p.RemoveErrorListeners()
	x.p.AddErrorListener(x.l)
	x.tree = x.p.Source_unit()
}

var oldParsing parsing

func judgeTree(src string) (msg string) { m, _ := judgeTreeCounts(src); return m }

func judgeTreeCounts(src string) (msg string, counts map[string]int) {
	stage := "parsing"
	defer func() {
		if r := recover(); r != nil {
			oldParsing = parsing{}
			msg = fmt.Sprintf("%s panics: %v", stage, r)
		}
	}()
	var x parsing
	x.run(src)
	j := &treeJudge{p: x.p, accepted: x.l.Err() == nil, counts: map[string]int{}}
	counts = j.counts
	stage = "walking the tree"
	if x.tree.GetParent() != nil {
		return "the root has a parent", counts
	}
	if msg = j.node(x.tree, 0); msg != "" {
		return
	}
	if out := x.tree.Accept(&base{}); out != nil {
		return fmt.Sprintf("the bare visitor gives %v", out), counts
	}
	// names
	for i := range x.p.SymbolicNames {
		if i >= len(x.lex.SymbolicNames) || x.lex.SymbolicNames[i] != x.p.SymbolicNames[i] {
			return fmt.Sprintf("token type %d has other names in lexer and parser", i), counts
		}
	}
	for i := range x.p.LiteralNames {
		if i >= len(x.lex.LiteralNames) || x.lex.LiteralNames[i] != x.p.LiteralNames[i] {
			return fmt.Sprintf("token type %d has other words in lexer and parser", i), counts
		}
	}
	// a lexer and a parser that have served before
	stage = "parsing with what has served before"
	if len(src) > 20000 {
		return
	}
	oldParsing.run(src)
	if a, b := fmt.Sprint(texts(x.l)), fmt.Sprint(texts(oldParsing.l)); a != b {
		return fmt.Sprintf("new lexer and parser report %s, ones that served before %s", mon.Clip(a, 300), mon.Clip(b, 300)), counts
	}
	if a, b := x.tree.ToStringTree(nil, x.p), oldParsing.tree.ToStringTree(nil, oldParsing.p); a != b {
		return fmt.Sprintf("new lexer and parser give the tree %s, ones that served before %s", mon.Clip(a, 300), mon.Clip(b, 300)), counts
	}
	return
}

func init() {
	reg(&mon.Check{ID: "C32", Rule: "valid, faulty, edited and random texts, parsed with the exported lexer and parser: at every node of the tree, every accessor (found by reflection from the names of rules and tokens) is compared with the list of children, " +
		"a visitor of the grammar and one of none are accepted; a lexer and parser that served before are compared with new ones. Distinct by text.",
		Quick: 16000, Thorough: 1000000, Judge: judgeTree, Case: textCase(func(g *gen.G, i int) (string, string) {
			switch i % 3 {
			case 0:
				return "valid", g.Text(g.Prog(gen.Full))
			case 1:
				return smallText(g, i/3)
			}
			return hostileText(g, i/3)
		}, func(c *mon.C, kind, src string) {
			if len(src) > 5000 {
				return
			}
			_, counts := judgeTreeCounts(src)
			for k, n := range counts {
				if k != "answers of accessors" {
					k = "nodes: " + k
				}
				c.Count(k, int64(n))
			}
			if _, errs := kf.Lex(src); len(errs) > 0 {
				c.Count("texts with foreign characters", 1)
			}
		}), Floors: map[string]int64{"answers of accessors": 1000000, "nodes: foreign_key_action": 1000, "nodes: fn_arg_expr": 5000, "nodes: init_decl": 500, "nodes: ext_config": 500, "nodes: annotation_attr": 500}})
}
