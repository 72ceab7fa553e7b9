package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"

	"github.com/antlr4-go/antlr/v4"
	"github.com/kwilteam/kuneiform/kfgrammar"
	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
)

// listOp is one call of a history over some error lists and listeners.
type listOp struct {
	Do   string // add, nest, syntax, report, lex, parse, compile
	On   int    // which list
	Text string `json:",omitempty"`
	Line int    `json:",omitempty"`
	Col  int    `json:",omitempty"`
	Of   int    `json:",omitempty"` // kind of error; other list
}

const lists = 4 // 0 and 1 are zero values, 2 and 3 from the constructor; 0 is a bare list

var ownKinds = []error{utils.ErrInvalidSyntax, schema.ErrDuplicateTable, schema.ErrColumnNotFound, io.EOF, fs.ErrNotExist, errSpy}

type ownErr struct{ s string }

func (e *ownErr) Error() string { return e.s }

// judgeLists runs a history of calls; the model of a list is the slice of what
// was added.
func judgeLists(src string) (msg string) {
	var ops []listOp
	if json.Unmarshal([]byte(src), &ops) != nil {
		return ""
	}
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	var bare utils.ErrorList
	ls := []*utils.ErrorListener{nil, {}, utils.NewErrorListener(), utils.NewErrorListener()}
	list := func(k int) *utils.ErrorList {
		if k == 0 {
			return &bare
		}
		return &ls[k].ErrorList
	}
	var model [lists][]error   // what is in the list
	var syntax [lists][]string // for those that a listener made, their text
	note := func(k int, err error, text string) {
		model[k], syntax[k] = append(model[k], err), append(syntax[k], text)
	}
	var kept []struct {
		err  error
		list int
	}
	for step, op := range ops {
		k := op.On % lists
		if k == 0 && op.Do != "add" && op.Do != "nest" {
			k = 1
		}
		switch op.Do {
		case "add":
			var err error
			switch op.Of % 4 {
			case 0:
				err = errors.New(op.Text)
			case 1:
				err = fmt.Errorf("%s: %w", op.Text, ownKinds[op.Line%len(ownKinds)])
			case 2:
				err = &ownErr{op.Text}
			case 3:
				err = ownKinds[op.Line%len(ownKinds)]
			}
			list(k).Add(err)
			note(k, err, "")
		case "nest":
			o := op.Of % lists
			if o >= k { // only a list before it, so that none holds itself
				continue
			}
			err := list(o).Err()
			if err == nil {
				continue
			}
			list(k).Add(err)
			note(k, err, "")
		case "syntax":
			ls[k].SyntaxError(nil, nil, op.Line, op.Col, op.Text, nil)
			note(k, nil, fmt.Sprintf("line %d:%d %s", op.Line, op.Col, op.Text))
		case "report":
			ls[k].ReportAmbiguity(nil, nil, op.Line, op.Col, op.Of%2 == 0, nil, nil)
			ls[k].ReportAttemptingFullContext(nil, nil, op.Line, op.Col, nil, nil)
			ls[k].ReportContextSensitivity(nil, nil, op.Line, op.Col, 0, nil)
		case "lex", "parse", "compile":
			before := len(*list(k))
			lexer := kfgrammar.NewKuneiformLexer(antlr.NewInputStream(op.Text))
			lexer.RemoveErrorListeners()
			fresh := utils.NewErrorListener()
			lexer.AddErrorListener(fresh)
			stream := antlr.NewCommonTokenStream(lexer, antlr.TokenDefaultChannel)
			p := kfgrammar.NewKuneiformParser(stream)
			p.RemoveErrorListeners()
			p.AddErrorListener(fresh)
			switch op.Do {
			case "lex":
				lexer.AddErrorListener(ls[k])
				stream.Fill()
			case "parse":
				lexer.AddErrorListener(ls[k])
				p.AddErrorListener(ls[k])
				p.Source_unit()
			case "compile":
				if before > 0 { // what an old error means for a new text is not said
					continue
				}
				p.Source_unit()
				kfparser.ParseKF(op.Text, ls[k], kfparser.Default)
				if len(fresh.ErrorList) == 0 { // then it may hold the error of a later stage
					for _, e := range *list(k) {
						note(k, e, "")
					}
					break
				}
			}
			if op.Do != "compile" || len(fresh.ErrorList) > 0 {
				if len(*list(k)) != before+len(fresh.ErrorList) {
					return fmt.Sprintf("step %d (%s): the listener got %d diagnostics, another got %d", step, op.Do, len(*list(k))-before, len(fresh.ErrorList))
				}
				for i := range fresh.ErrorList {
					if a, b := (*list(k))[before+i], fresh.ErrorList[i]; a.Error() != b.Error() {
						return fmt.Sprintf("step %d (%s): the listener got %q, another %q", step, op.Do, a, b)
					}
					note(k, nil, strings.TrimPrefix(fresh.ErrorList[i].Error(), utils.ErrInvalidSyntax.Error()+": "))
				}
			}
		}
		for k := 0; k < lists; k++ {
			if m := listAgrees(list(k), model[k], syntax[k]); m != "" {
				return fmt.Sprintf("step %d (%s on %d), list %d: %s", step, op.Do, op.On, k, m)
			}
			if k > 0 && ls[k].Error() != list(k).Error() {
				return fmt.Sprintf("step %d: the listener says %q, its list %q", step, ls[k].Error(), list(k).Error())
			}
			if err := list(k).Err(); err != nil {
				kept = append(kept, struct {
					err  error
					list int
				}{err, k})
			}
		}
	}
	// an error taken from a list early is still one of that list
	for _, x := range kept {
		if first := (*list(x.list))[0]; !errors.Is(x.err, first) {
			return fmt.Sprintf("an error kept from list %d is not its first error any more", x.list)
		}
	}
	return ""
}

func listAgrees(l *utils.ErrorList, model []error, syntax []string) string {
	if len(*l) != len(model) {
		return fmt.Sprintf("has %d errors, %d were added", len(*l), len(model))
	}
	for i, e := range *l {
		if model[i] != nil && e != model[i] {
			return fmt.Sprintf("error %d is %q, added was %q", i, e, model[i])
		}
		if model[i] == nil {
			if !errors.Is(e, utils.ErrInvalidSyntax) {
				return fmt.Sprintf("error %d, a syntax error, is not of that kind: %q", i, e)
			}
			if !strings.HasSuffix(e.Error(), syntax[i]) {
				return fmt.Sprintf("error %d is %q, it should say %q", i, e, syntax[i])
			}
		}
	}
	err := l.Err()
	if len(model) == 0 {
		if err != nil || l.Unwrap() != nil {
			return fmt.Sprintf("is empty, but is an error: %v, %v", err, l.Unwrap())
		}
		_ = l.Error()
		return ""
	}
	if err == nil {
		return "has errors, but is none"
	}
	first := (*l)[0]
	if err.Error() != l.Error() || !strings.HasPrefix(err.Error(), first.Error()) {
		return fmt.Sprintf("says %q and %q, its first error is %q", err, l.Error(), first)
	}
	if rest := err.Error()[len(first.Error()):]; (rest == "") != (len(model) == 1) || rest != "" && !strings.Contains(rest, fmt.Sprint(len(model)-1)) && !strings.Contains(rest, fmt.Sprint(len(model))) {
		return fmt.Sprintf("of %d errors says %q", len(model), err)
	}
	if !errors.Is(err, first) {
		return "is not its first error"
	}
	var own *ownErr
	if want := new(ownErr); errors.As(first, &want) != errors.As(err, &own) || own != nil && own != want {
		return "errors.As gives another error than for its first one"
	}
	for _, k := range ownKinds {
		if errors.Is(first, k) != errors.Is(err, k) {
			return fmt.Sprintf("its first error and it differ in being %q", k)
		}
	}
	return ""
}

func listHistory(g *gen.G) string {
	r := g.R
	var ops []listOp
	words := []string{"", "x", "%d %s %w", "line 1:2 x", "a\nb", "\x00", "é", "syntax error", "(with 3+ errors)", strings.Repeat("long ", 200), "extraneous input 'x' expecting {<EOF>, '@'}"}
	num := func() int { return []int{0, 1, 2, 9, 10, 99, 100, 1 << 16, 1 << 31, -1}[r.Intn(10)] }
	n := r.Intn(14)
	if r.Intn(30) == 0 {
		n = 120
	}
	for ; n > 0; n-- {
		op := listOp{Do: []string{"add", "add", "nest", "syntax", "syntax", "report", "lex", "parse", "compile"}[r.Intn(9)], On: r.Intn(lists)}
		switch op.Do {
		case "add":
			op.Text, op.Of, op.Line = words[r.Intn(len(words))], r.Intn(4), r.Intn(6)
		case "nest":
			op.Of = r.Intn(lists)
		case "syntax":
			op.Text, op.Line, op.Col = words[r.Intn(len(words))], num(), num()
		case "report":
			op.Of, op.Line, op.Col = r.Intn(2), num(), num()
		default:
			_, op.Text = hostileText(g, r.Intn(1000))
			if len(op.Text) > 3000 {
				op.Text = op.Text[:3000]
			}
		}
		ops = append(ops, op)
	}
	b, _ := json.Marshal(ops)
	return string(b)
}

func init() {
	reg(&mon.Check{ID: "C30", Rule: "random histories of calls on four error lists and listeners (zero values and made ones): errors of all kinds added, lists added to lists, syntax errors and reports with odd numbers and texts, " +
		"real lexers, parsers and compilations reporting to them. After every call each list is compared with a model, the slice of what was added. Distinct by history.",
		Quick: 16000, Thorough: 1000000, Judge: judgeLists, Case: func(c *mon.C, i int) {
			src := listHistory(c.G())
			var ops []listOp
			json.Unmarshal([]byte(src), &ops)
			for _, op := range ops {
				c.Count("calls: "+op.Do, 1)
			}
			c.Judged(src)
			c.Eval(src)
			if len(src) < 400 {
				c.Sample(src)
			}
		},
		Floors: map[string]int64{"calls: add": 5000, "calls: nest": 2000, "calls: syntax": 5000, "calls: parse": 2000}})
}

// A wordSweep gives every list of three to five names over few names that are
// much like each other, so also the same name with others between.
func wordSweep(id string) func(c *mon.C) {
	forms := map[string][]string{
		"C10": {"database d; <table % {a int}! >", "database d; <action %() public {select 1;}! >", "database d; <use e as %;! >", "database d; table t {<% int!,>}", "database d; table t {a int, <#% index(a)!,>}", "database d; action t(<$%!,>) public {select 1;}"},
		"C12": {"database d; use e as f; action t() public {<$%!,> = f.g();}", "database d; use e as f; action t($x) public {<$%!,> = f.g($X); t($x1);}", "database d; use e as f; action t() public {<$% = f.g();! > t($x); t($y);}", "database d; action x() public {<%();! >} action y() private {X();}"},
		"C11": {"database d; table t {x int, X int, #i index(<%!,>)}", "database d; table t {x int, x1 int, fk(<%!,>) ref t(<%!,>)}"},
	}[id]
	if id == "C26" || id == "C33" || id == "C23" || id == "C27" {
		forms = []string{"database d; <table % {a int}! >", "database d; table t {<% int!,>}", "database d; action t(<$%!,>) public {select 1;}", "database d; use e as f; action t() public {<$%!,> = f.g();}"}
	}
	fill := func(form string, l []string) string {
		for strings.Contains(form, "<") {
			a, b := strings.Index(form, "<"), strings.Index(form, ">")
			one := form[a+1 : b]
			m := strings.LastIndex(one, "!")
			var out []string
			for _, n := range l {
				out = append(out, strings.ReplaceAll(one[:m], "%", n))
			}
			form = form[:a] + strings.Join(out, one[m+1:]) + form[b+1:]
		}
		return form
	}
	return func(c *mon.C) {
		k := 0
		for ai, letters := range [][]string{{"x", "X", "x1", "y"}, {"b", "a_", "A_", "a"}, {"n2", "n10", "n1", "n01"}, {"id", "i", "d", "Id"}} {
			for n := 3; n <= 5; n++ {
				all := 1
				for i := 0; i < n; i++ {
					all *= 4
				}
				for w := 0; w < all; w++ {
					if n > 3 && (w+ai+int(c.Seed))%[]int{4, 24}[n-4] != 0 && !c.Thorough() {
						continue
					}
					l := make([]string, n)
					for i, x := 0, w; i < n; i, x = i+1, x/4 {
						l[i] = letters[x%4]
					}
					for _, f := range forms {
						if k++; k%c.Shards != c.Shard || c.Full() {
							continue
						}
						if len(forms) == 4 && id != "C12" && (k/c.Shards+int(c.Seed))%6 != 0 && !c.Thorough() {
							continue
						}
						s := fill(f, l)
						if _, e := kf.Parse(s); e != nil {
							panic("HARNESS: does not parse: " + s)
						}
						c.Judged(s)
						c.Count("lists of a few names", 1)
						c.Eval("word" + s)
					}
				}
			}
		}
	}
}
