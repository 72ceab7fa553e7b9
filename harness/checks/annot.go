package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/kwilteam/kuneiform/utils"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
)

// wellFormed reads target(name=value, ...), with white space between the
// parts: an annotation by an independent reader.
func wellFormed(s string) *kf.Annot {
	name := func() string {
		n := 0
		for n < len(s) && (s[n] >= 'a' && s[n] <= 'z' || s[n] >= 'A' && s[n] <= 'Z' || n > 0 && (s[n] == '_' || s[n] >= '0' && s[n] <= '9')) {
			n++
		}
		x := s[:n]
		s = s[n:]
		return x
	}
	blank := func() { s = strings.TrimLeft(s, " \t\r\n") }
	eat := func(c string) bool {
		if strings.HasPrefix(s, c) {
			s = s[len(c):]
			return true
		}
		return false
	}
	a := &kf.Annot{Target: name()}
	if a.Target == "" || !eat("(") {
		return nil
	}
	blank()
	for s != ")" {
		if len(a.Attrs) > 0 && !eat(",") {
			return nil
		}
		blank()
		kv := kf.KV{K: name()}
		blank()
		if kv.K == "" || !eat("=") {
			return nil
		}
		blank()
		if kv.V = literal(s); kv.V == "" {
			return nil
		}
		s = s[len(kv.V):]
		blank()
		a.Attrs = append(a.Attrs, kv)
	}
	return a
}

// literal is the number or string s begins with, or "".
func literal(s string) string {
	n := 0
	for n < len(s) && s[n] >= '0' && s[n] <= '9' {
		n++
	}
	if n > 0 || !strings.HasPrefix(s, "'") {
		return s[:n]
	}
	for i := 1; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
		case '\'':
			return s[:i+1]
		}
	}
	return ""
}

func readAnnot(s string) (a *utils.Annotation, err error, pan any) {
	defer func() {
		if r := recover(); r != nil {
			pan = r
		}
	}()
	a, err = utils.ParseAnnotation(s)
	return
}

// judgeAnnot decides what the annotation reader says of a text.
func judgeAnnot(src string) (msg string) {
	a, err, pan := readAnnot(src)
	switch {
	case pan != nil:
		return fmt.Sprintf("reading panics: %v", pan)
	case a != nil && err != nil:
		return "there is a result and an error"
	case a == nil && err == nil:
		return "there is neither a result nor an error"
	case err != nil && err.Error() == "":
		return "the error has no message"
	case err == nil && (!strings.Contains(src, "(") || !strings.HasSuffix(src, ")")):
		return fmt.Sprintf("a text without brackets reads as %+v", *a)
	}
	want := wellFormed(src)
	if want != nil {
		if m := annDiff(*want, src); m != "" {
			return m
		}
	}
	if err != nil {
		if want != nil {
			return "a well-formed annotation is refused: " + err.Error()
		}
		return ""
	}
	// nothing is made up: all it says is in the text, in order
	if !strings.HasPrefix(src, a.Target+"(") {
		return fmt.Sprintf("the target %q is not what stands before the bracket", a.Target)
	}
	rest := src[len(a.Target)+1:]
	n := kf.Annot{Target: a.Target}
	for _, kv := range a.Attributes {
		if kv.Value == "" || literal(kv.Value) != kv.Value {
			return fmt.Sprintf("the value %q is no literal", kv.Value)
		}
		k := strings.Index(rest, kv.Name)
		if kv.Name == "" || k < 0 {
			return fmt.Sprintf("the attribute %q is not in the text there", kv.Name)
		}
		rest = rest[k+len(kv.Name):]
		if k = strings.Index(rest, kv.Value); k < 0 {
			return fmt.Sprintf("the value %q of %q is not in the text there", kv.Value, kv.Name)
		}
		rest = rest[k+len(kv.Value):]
		n.Attrs = append(n.Attrs, kf.KV{K: kv.Name, V: kv.Value})
	}
	// written again, it reads the same
	if n.Target != "" {
		if m := annDiff(n, n.Compact()); m != "" {
			return "written again: " + m
		}
	}
	// and as JSON
	if utf8.ValidString(src) {
		b, err := json.Marshal(a)
		if err != nil {
			return "the result does not serialise: " + err.Error()
		}
		var m map[string]any
		json.Unmarshal(b, &m)
		if _, ok := m["target"]; !ok {
			return "serialised, the result lacks its target: " + string(b)
		}
		l, _ := m["attributes"].([]any)
		if len(l) != len(a.Attributes) {
			return "serialised, the result lacks attributes: " + string(b)
		}
		for i, x := range l {
			if o, _ := x.(map[string]any); o["name"] != a.Attributes[i].Name || o["value"] != a.Attributes[i].Value {
				return "serialised, the result has other attributes: " + string(b)
			}
		}
	}
	// what the caller does to it changes no later one
	kept := *a
	kept.Attributes = append([]utils.AnnotationAttribute{}, a.Attributes...)
	for i := range a.Attributes {
		a.Attributes[i] = utils.AnnotationAttribute{Name: "spoilt", Value: "spoilt"}
	}
	a.Attributes = append(a.Attributes, utils.AnnotationAttribute{Name: "more"})
	a.Target = "spoilt"
	b, err, pan := readAnnot(src)
	if pan != nil || err != nil {
		return fmt.Sprintf("read again, it gives %v %v", err, pan)
	}
	if b.Target != kept.Target || len(b.Attributes) != len(kept.Attributes) || len(b.Attributes) > 0 && !reflect.DeepEqual(b.Attributes, kept.Attributes) {
		return fmt.Sprintf("read again after the first result was changed, it gives %+v instead of %+v", *b, kept)
	}
	return ""
}

func annotText(g *gen.G, i int) (string, string) {
	o := gen.Full
	n := g.Annot(o)
	if i%40 == 0 { // long ones
		for k, m := 0, gen.Sizes(5000)[g.R.Intn(len(gen.Sizes(5000)))]; k < m; k++ {
			n.Attrs = append(n.Attrs, kf.KV{K: fmt.Sprintf("a%d", k%977), V: []string{"1", "'x'", "'\\''", fmt.Sprint(k)}[g.R.Intn(4)]})
		}
	}
	if g.R.Intn(3) == 0 && len(n.Attrs) > 1 { // related ones
		for k := range n.Attrs {
			x := n.Attrs[g.R.Intn(len(n.Attrs))]
			switch g.R.Intn(6) {
			case 0:
				n.Attrs[k].K = x.K
			case 1:
				n.Attrs[k].V = x.V
			case 2:
				n.Attrs[k].V = "'" + strings.ReplaceAll(strings.ReplaceAll(x.K+"="+x.V, "\\", "\\\\"), "'", "\\'") + "'"
			case 3:
				n.Attrs[k].K = x.K + "_" + n.Target
			case 4:
				n.Target = x.K
			}
		}
	}
	if g.R.Intn(5) == 0 {
		n.Attrs = nil
	}
	if i%2 == 0 {
		return "compact", n.Compact()
	}
	if i%8 == 1 {
		return "noise", g.Noise()
	}
	ws := func() string {
		return []string{"", "", "", " ", "  ", "\t", "\n", "\r\n", " \n "}[g.R.Intn(9)]
	}
	var b strings.Builder
	b.WriteString(n.Target + "(" + ws())
	for k, kv := range n.Attrs {
		if k > 0 {
			b.WriteString("," + ws())
		}
		b.WriteString(kv.K + ws() + "=" + ws() + kv.V + ws())
	}
	b.WriteString(")")
	if i%8 == 3 {
		return "edited", g.MutateText(b.String())
	}
	return "spaced", b.String()
}

// shortAnnots judges every short text over the characters that mean
// something.
func shortAnnots(c *mon.C) {
	const letters = "a1 ()=',\\"
	n := 6
	if c.Thorough() {
		n = 8
	}
	b := make([]byte, 0, n)
	var rec func(pre, post string, left int)
	rec = func(pre, post string, left int) {
		s := pre + string(b) + post
		if m := judgeAnnot(s); m != "" {
			c.Fail("oracle", m, s, nil)
		}
		c.Count("short texts", 1)
		if left == 0 || c.Full() {
			return
		}
		for i := range letters {
			if len(b) == 0 && i%c.Shards != c.Shard {
				continue
			}
			b = append(b, letters[i])
			if len(b) == 2 {
				c.Begin(pre + string(b) + "..." + post)
			}
			rec(pre, post, left-1)
			b = b[:len(b)-1]
		}
	}
	rec("", "", n-1)
	rec("t(", ")", n)
	rec("t(a=1,", ")", n-1)
	rec("t(a='", "',b='x')", n-1)
	c.End()
	c.Eval(fmt.Sprint("all short texts", c.Shard))
}

func init() {
	reg(&mon.Check{ID: "C31", Rule: "annotation texts: compact and with white space, with any literals (escapes, brackets, text that looks like attributes), repeated and related names, up to thousands of attributes, edited, and noise; " +
		"exhaustively all texts of up to five, and all insides of up to six, characters out of nine. An independent reader says what a well-formed text has; of others, the result must be made of the text. Distinct by text.",
		Quick: 40000, Thorough: 4000000, Judge: judgeAnnot, OnceShard: shortAnnots, Case: textCase(annotText, func(c *mon.C, kind, src string) {
			if wellFormed(src) != nil {
				c.Count("well-formed", 1)
			}
		}), Floors: map[string]int64{"well-formed": 20000, "short texts": 100000, "text: noise": 1000}})
}
