package gen

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// dict has what the code under test compares with: the words and the numbers
// in its source. It only steers the generator (as a fuzzer's dictionary does):
// what happens on an input is judged as for any other input.
//
// What is new since the committed list of words (words.txt) is tried more
// often: a change tends to matter where its own words occur.
type dict struct {
	Frags []string // runs of letters, digits and underscores
	Raws  []string // short string literals as they are
	Ints  []int    // numbers above 3

	NewFrags, NewRaws []string
	NewInts           []int
}

//go:embed words.txt
var oldWords string

// Words is the text of words.txt for the present source.
func Words() string {
	var b strings.Builder
	for _, s := range theDict().Frags {
		fmt.Fprintf(&b, "%q\n", s)
	}
	for _, s := range theDict().Raws {
		fmt.Fprintf(&b, "=%q\n", s)
	}
	for _, n := range theDict().Ints {
		fmt.Fprintf(&b, "%d\n", n)
	}
	return b.String()
}

// Fresh are the new words that can be part of a name, Ints the new numbers.
func Fresh() (l []string) {
	seen := map[string]bool{}
	for _, s := range append(append([]string{}, theDict().NewFrags...), theDict().NewRaws...) {
		if fragRE.FindString(s) == s && s != "" && !seen[s] && len(l) < 12 {
			seen[s] = true
			l = append(l, s)
		}
	}
	return
}

// FreshRaws are the new string literals and characters as they are.
func FreshRaws() []string { return theDict().NewRaws }

func FreshInts() []int { return theDict().NewInts }

// NewWords says how many words are not in the committed list.
func NewWords() int { return len(theDict().NewFrags) + len(theDict().NewRaws) }

var theDict = sync.OnceValue(loadDict)

var fragRE = regexp.MustCompile(`[A-Za-z0-9_]+`)

func loadDict() *dict {
	root := os.Getenv("KF_REPO")
	if root == "" {
		root = "/repo"
	}
	frags, raws, ints := map[string]bool{}, map[string]bool{}, map[int]bool{}
	note := func(v constant.Value) {
		switch v.Kind() {
		case constant.Int, constant.Float:
			if n, ok := constant.Int64Val(constant.ToInt(v)); ok && n > 3 && n < 1<<31 {
				ints[int(n)] = true
			}
		case constant.String:
			s := constant.StringVal(v)
			if len(s) <= 24 && !strings.ContainsAny(s, "\r\n") && utf8.ValidString(s) {
				raws[s] = true
			}
			for _, f := range fragRE.FindAllString(s, -1) {
				if len(f) <= 32 {
					frags[f] = true
				}
			}
		}
	}
	// the value of a constant expression of literals, if it is one
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) (v constant.Value) {
		defer func() {
			if recover() != nil {
				v = nil
			}
		}()
		switch e := e.(type) {
		case *ast.BasicLit:
			return constant.MakeFromLiteral(e.Value, e.Kind, 0)
		case *ast.ParenExpr:
			return eval(e.X)
		case *ast.BinaryExpr:
			x, y := eval(e.X), eval(e.Y)
			if x == nil || y == nil || x.Kind() != constant.Int || y.Kind() != constant.Int {
				return nil
			}
			if e.Op == token.SHL || e.Op == token.SHR {
				n, ok := constant.Uint64Val(y)
				if !ok || n > 40 {
					return nil
				}
				return constant.Shift(x, e.Op, uint(n))
			}
			switch e.Op {
			case token.ADD, token.SUB, token.MUL:
				return constant.BinaryOp(x, e.Op, y)
			}
		}
		return nil
	}
	filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() && (d.Name() == ".git" || d.Name() == "kuneiform-grammar") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		generated := strings.Contains(p, "kfgrammar")
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				n.Tag = nil
			case *ast.CompositeLit:
				if generated {
					return false
				}
			case *ast.CallExpr:
				if generated { // parser states and tokens
					return true
				}
			case *ast.BasicLit:
				if generated && n.Kind != token.STRING {
					return true
				}
				if n.Kind == token.CHAR {
					if c, err := strconv.Unquote(n.Value); err == nil && c != "\n" && c != "\r" && utf8.ValidString(c) {
						raws[c] = true
					}
					return true
				}
				if v := eval(n); v != nil {
					note(v)
				}
			case *ast.BinaryExpr:
				if v := eval(n); v != nil {
					note(v)
				}
			}
			return true
		})
		return nil
	})
	o := &dict{}
	for s := range frags {
		o.Frags = append(o.Frags, s)
	}
	for s := range raws {
		o.Raws = append(o.Raws, s)
	}
	for n := range ints {
		o.Ints = append(o.Ints, n)
	}
	sort.Strings(o.Frags)
	sort.Strings(o.Raws)
	sort.Ints(o.Ints)
	old, oldInts := map[string]bool{}, map[string]bool{}
	for _, l := range strings.Split(oldWords, "\n") {
		if w, err := strconv.Unquote(strings.TrimPrefix(l, "=")); err == nil {
			old[l[:1]+w] = true
		} else {
			oldInts[l] = true
		}
	}
	for _, s := range o.Frags {
		if !old[`"`+s] {
			o.NewFrags = append(o.NewFrags, s)
		}
	}
	for _, s := range o.Raws {
		if !old["="+s] {
			o.NewRaws = append(o.NewRaws, s)
		}
	}
	for _, n := range o.Ints {
		if !oldInts[strconv.Itoa(n)] {
			o.NewInts = append(o.NewInts, n)
		}
	}
	return o
}

// dictName is a name made of a word of the dictionary.
func (g *G) dictName() string {
	l := theDict().Frags
	if n := theDict().NewFrags; len(n) > 0 && g.p(75) {
		l = n
	}
	if len(l) == 0 {
		return g.word(3)
	}
	s := l[g.n(len(l))]
	switch g.n(6) {
	case 0:
		s = g.word(g.between(1, 4)) + s
	case 1:
		s += g.word(g.between(1, 4))
	case 2:
		s = g.word(g.between(1, 3)) + g.pick("_", "__") + s
	case 3:
		s += g.pick("_", "__", "0", "1", "2") + g.pick("", g.word(2))
	}
	if c := s[0]; c == '_' || c >= '0' && c <= '9' {
		s = g.word(g.between(1, 2)) + s
	}
	return s
}

// dictRaw is a literal of the dictionary as it is.
func (g *G) dictRaw() string {
	l := theDict().Raws
	if n := theDict().NewRaws; len(n) > 0 && g.p(75) {
		l = n
	}
	if len(l) == 0 {
		return "x"
	}
	return l[g.n(len(l))]
}

// fresh says, for pct percent of the times, to use a new word, if there are any.
func (g *G) fresh(pct int) bool { return NewWords() > 0 && g.p(pct) }

var stdSizes = []int{4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 499, 500, 501, 511, 512, 513,
	999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 32767, 32768, 65535, 65536, 65537}

// Sizes are sizes up to max at which something might change.
func Sizes(max int) (l []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n > 0 && n <= max && !seen[n] {
			seen[n] = true
			l = append(l, n)
		}
	}
	for _, n := range theDict().Ints {
		for _, x := range []int{n, n + 1, n + 2, n - 1, n + n/4, 2*n + 1} {
			add(x)
		}
	}
	for _, n := range stdSizes {
		add(n)
	}
	sort.Ints(l)
	return
}

// oddSize is a size up to max at which something might change.
func (g *G) oddSize(max int) int {
	if l := theDict().Ints; len(l) > 0 && g.p(60) {
		for k := 0; k < 4; k++ {
			if n := l[g.n(len(l))]; n < max {
				return min(max, n+[]int{0, 1, 1, 2, -1, n / 4, n}[g.n(7)])
			}
		}
	}
	for {
		if n := stdSizes[g.n(len(stdSizes))]; n <= max {
			return n
		}
	}
}

// dimMax is the largest size tried of each dimension.
var dimMax = map[string]int{"tabs": 130, "acts": 130, "cols": 300, "stmts": 260, "params": 300, "idxcols": 150, "idxs": 260, "fks": 260, "exts": 260, "conf": 300, "annots": 260, "annattrs": 300,
	"args": 300, "recv": 300, "strlen": 70000, "namelen": 5000, "sqllen": 70000, "numlen": 5000, "argdepth": 160, "pad": 70000}
