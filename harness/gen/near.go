package gen

import (
	"strings"

	"kfverif/kf"
)

var sameLen = map[string][]string{"text": {"blob"}, "blob": {"text"}, "min": {"max", "int"}, "max": {"min"}, "minlen": {"maxlen"}, "maxlen": {"minlen"},
	"on_update": {"on_delete"}, "on_delete": {"on_update"}, "restrict": {"set_null"}, "set_null": {"restrict"}, "view": {"text"}, "unique": {"public"},
	"not": {"and"}, "and": {"not"}, "+": {"-", "*"}, "-": {"+", "*"}, "*": {"/", "-"}, "/": {"%"}, "<": {">", "="}, ">": {"<"}, "=": {"<"}, "<=": {">=", "<>"}, ">=": {"<="}, "!=": {"<>"}, "<>": {"!="}}

// SameSize changes a text into another one of the same length: another digit,
// another letter of a name or of a literal, another keyword, two tokens
// exchanged. It gives s if it finds nothing to change.
func (g *G) SameSize(s string) string { return easy(g.sameSize(s), s) }

func (g *G) sameSize(s string) string {
	toks, _ := kf.Lex(s)
	r := []rune(s)
	if len(toks) < 2 || len(r) == 0 {
		return s
	}
	toks = toks[:len(toks)-1]
	for try := 0; try < 20; try++ {
		t := toks[g.n(len(toks))]
		if t.Pos < 0 || t.End > len(r) || t.Pos >= t.End {
			continue
		}
		old := string(r[t.Pos:t.End])
		var nw string
		switch t.K {
		case kf.NUM:
			b := []byte(old)
			i := g.n(len(b))
			b[i] = byte('0' + (int(b[i]-'0')+1+g.n(8))%10)
			nw = string(b)
		case kf.STR, kf.SQL:
			b := []byte(old)
			var at []int
			in := t.K == kf.STR
			for i := 1; i < len(b)-1; i++ {
				if t.K == kf.SQL && b[i] == '\'' {
					in = !in
				}
				c := b[i]
				if in && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') && b[i-1] != '\\' || !in && c >= '0' && c <= '9' {
					at = append(at, i)
				}
			}
			if len(at) == 0 {
				continue
			}
			i := at[g.n(len(at))]
			b[i] = turn(b[i], g.n(3))
			nw = string(b)
		case kf.IDENT, kf.VAR, kf.ATNAME, kf.IDXNAME:
			b := []byte(old)
			i := len(b) - 1 - g.n(min(len(b), 3))
			if b[i] == '_' || b[i] == '$' || b[i] == '#' || b[i] == '@' {
				continue
			}
			b[i] = turn(b[i], g.n(3))
			nw = string(b)
			if g.p(70) { // everywhere
				o := append([]rune{}, r...)
				for _, u := range toks {
					if strings.TrimLeft(u.T, "$@#") == strings.TrimLeft(old, "$@#") && len(u.T) > 0 && u.End <= len(o) {
						k := u.End - u.Pos - len(strings.TrimLeft(nw, "$@#"))
						copy(o[u.Pos+k:u.End], []rune(strings.TrimLeft(nw, "$@#")))
					}
				}
				if x := string(o); x != s {
					return x
				}
				continue
			}
		default:
			l := sameLen[old]
			if len(l) == 0 {
				continue
			}
			nw = l[g.n(len(l))]
		}
		if n := []rune(nw); nw != old && len(n) == t.End-t.Pos {
			return string(r[:t.Pos]) + nw + string(r[t.End:])
		}
	}
	return s
}

func turn(c byte, k int) byte {
	step := byte(1 + k)
	switch {
	case c >= '0' && c <= '9':
		return '0' + (c-'0'+step)%10
	case c >= 'a' && c <= 'z':
		if k == 2 {
			return c - 32
		}
		return 'a' + (c-'a'+step)%26
	case c >= 'A' && c <= 'Z':
		if k == 2 {
			return c + 32
		}
		return 'A' + (c-'A'+step)%26
	}
	return c
}

// Blanks changes only white space, anywhere: also inside literals and SQL,
// where it matters.
func (g *G) Blanks(s string) string {
	var at []int
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return s + " "
	}
	for k, n := 0, g.between(1, 2); k < n; k++ {
		i := at[g.n(len(at))]
		if i >= len(s) {
			break
		}
		switch g.n(4) {
		case 0:
			return s[:i] + "  " + s[i+1:]
		case 1:
			return s[:i] + g.pick("\n", "\t", "\r\n", " \n", "\r") + s[i+1:]
		case 2:
			return s[:i] + s[i+1:]
		default:
			s = s[:i] + g.pick(" ", "\n", "\t") + s[i+1:]
		}
	}
	return s
}

// Near is a text that is easily taken for s.
func (g *G) Near(s string) string { return easy(g.near(s), s) }

func (g *G) near(s string) string {
	switch g.n(8) {
	case 0, 1, 2, 3:
		return g.SameSize(s)
	case 4, 5:
		return g.Blanks(s)
	case 6:
		if g.p(50) {
			return s + g.pick(" ", "\n", "//", ";", "}", "x")
		}
		if len(s) > 0 {
			return s[:len(s)-1]
		}
		return "x"
	default:
		return g.MutateText(s)
	}
}

// Grown is s with white space or comments in it, so that it has about as many
// bytes as some buffer or limit, up to max, and something of it comes after
// the filling.
func (g *G) Grown(s string, max int) string {
	n := g.oddSize(max)
	if g.p(40) {
		n = []int{4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 131072, 262144, 1 << 20, 1<<20 + 1}[g.n(12)]
	}
	n = min(n, max) + []int{0, 0, 1, -1, len(s) / 2, len(s)}[g.n(6)] - len(s)
	if n <= 4 {
		return s
	}
	var fill string
	switch g.n(4) {
	case 0:
		fill = strings.Repeat(g.pick(" ", "\n", "\t"), n)
	case 1:
		fill = "//" + strings.Repeat(g.pick("x", "/", " ", "é", "*"), n)[:n-3] + "\n"
	case 2:
		fill = "/*" + strings.Repeat(g.pick("x", "/", "\n", " ;"), n)[:n-4] + "*/"
	default:
		fill = strings.Repeat("// filler\n", n/10) + strings.Repeat(" ", n%10)
	}
	toks, _ := kf.Lex(s)
	r := []rune(s)
	var at []int
	for _, t := range toks {
		if (t.T == ";" || t.T == "}" || t.T == "{" || t.T == ",") && t.End <= len(r) && t.End > 0 {
			at = append(at, t.End)
		}
	}
	if len(at) == 0 || g.p(20) {
		return fill + s
	}
	k := at[g.n(min(len(at), 1+g.n(len(at))))]
	return string(r[:k]) + fill + string(r[k:])
}

// Pad puts blanks, line ends and comments around a text.
func (g *G) Pad(s string) string {
	pad := func() (t string) {
		for n := g.n(4); n > 0; n-- {
			t += g.pick("\n", "\n\n", "\r\n", " ", "\t", " \n", "// c\n", "/* c */", "\n\n\n\n", "  \n\n", "\n ")
		}
		return
	}
	return pad() + s + pad()
}
