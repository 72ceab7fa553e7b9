package gen

import (
	"strings"

	"kfverif/kf"
)

var junkToks = strings.Fields(`database use as table action init public private view owner int text blob min max minlen maxlen notnull primary default unique index
 foreign_key fk references ref on_update on_delete do no_action cascade set_null set_default restrict not and or select insert update delete with
 : ; ( { ) } , . = + - * / % ~ || << >> & | == < <= > >= != <> $ # @ $a #i @b x y 1 0 'a' '' "q" /* */ // ' ! ? [ ] ^ \ -1 1.5 0x1 TABLE Action Int NOTNULL null true`)

// MutateToks changes one or a few tokens.
func (g *G) MutateToks(t []kf.Tok) []kf.Tok {
	t = append([]kf.Tok{}, t...)
	for k, n := 0, 1+g.n(2)*g.n(2); k < n && len(t) > 0; k++ {
		i := g.n(len(t))
		junk := kf.Tok{K: "?", T: junkToks[g.n(len(junkToks))]}
		switch g.n(10) {
		case 0, 1: // delete
			t = append(t[:i], t[i+1:]...)
		case 2, 3: // insert
			t = append(t[:i], append([]kf.Tok{junk}, t[i:]...)...)
		case 4: // replace
			t[i] = junk
		case 5: // swap neighbours
			if i+1 < len(t) {
				t[i], t[i+1] = t[i+1], t[i]
			}
		case 6: // repeat
			t = append(t[:i+1], t[i:]...)
		case 7: // another token of the same text
			t[i] = t[g.n(len(t))]
		case 8: // cut a run
			j := i + 1 + g.n(6)
			if j > len(t) {
				j = len(t)
			}
			t = append(t[:i], t[j:]...)
		default: // move a run
			j := i + 1 + g.n(12)
			if j > len(t) {
				j = len(t)
			}
			run := append([]kf.Tok{}, t[i:j]...)
			t = append(t[:i], t[j:]...)
			at := g.n(len(t) + 1)
			t = append(t[:at], append(run, t[at:]...)...)
		}
	}
	return t
}

// JoinToks writes tokens without any promise about how they lex.
func (g *G) JoinToks(t []kf.Tok) string { return easy(g.joinToks(t), "database d") }

// easy is s, or another text if the SQL parser that is depended on would not
// come back from s.
func easy(s, other string) string {
	if kf.Hard(s) {
		return other
	}
	return s
}

func (g *G) joinToks(t []kf.Tok) string {
	var b strings.Builder
	style := g.n(3)
	for i, x := range t {
		if i > 0 && !(t[i-1].K == kf.SQL) {
			switch style {
			case 0:
				b.WriteByte(' ')
			case 1:
				b.WriteString(g.pick(" ", "\n", "\t", " /* c */ "))
			default:
				if glues(t[i-1], x) || g.p(30) {
					b.WriteByte(' ')
				}
			}
		}
		b.WriteString(x.T)
	}
	return b.String()
}

var junkChars = []string{"'", "\"", "\\", "/", "*", "/*", "*/", "//", ";", "}", "{", "(", ")", ",", ".", "=", "$", "#", "@", "0", "9", "a", "Z", "_", "-",
	" ", "\n", "\r", "\t", "\x00", "\x0b", "\x0c", "\u00a0", "\u2028", "é", "世", "😀", "\ufeff", "\xff", "\xc3", "\xe2\x82", "!", "?", "[", "]", "^", "`", "\x7f", "<", ">", "|", "&", "%", "~", ":"}

// MutateText changes characters.
func (g *G) MutateText(s string) string { return easy(g.mutateText(s), s) }

func (g *G) mutateText(s string) string {
	for k, n := 0, 1+g.n(3); k < n; k++ {
		if s == "" {
			return junkChars[g.n(len(junkChars))]
		}
		i := g.n(len(s))
		c := junkChars[g.n(len(junkChars))]
		if g.p(4) || g.fresh(15) {
			c = g.dictRaw()
		}
		switch g.n(7) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1, 2:
			s = s[:i] + c + s[i:]
		case 3:
			s = s[:i] + c + s[i+1:]
		case 4:
			s = s[:i]
		case 5:
			j := i + g.n(20)
			if j > len(s) {
				j = len(s)
			}
			s = s[:i] + s[j:]
		default: // case of a letter
			b := []byte(s)
			for j := i; j < len(b); j++ {
				if b[j] >= 'a' && b[j] <= 'z' {
					b[j] -= 32
					break
				} else if b[j] >= 'A' && b[j] <= 'Z' {
					b[j] += 32
					break
				}
			}
			s = string(b)
		}
	}
	return s
}

// Random text of no particular form.
func (g *G) Noise() string {
	var b strings.Builder
	n := g.n(60)
	if g.p(5) {
		n = g.n(2000)
	}
	switch g.n(4) {
	case 0:
		for i := 0; i < n; i++ {
			b.WriteByte(byte(g.n(256)))
		}
	case 1:
		for i := 0; i < n; i++ {
			b.WriteString(junkChars[g.n(len(junkChars))])
		}
	case 2:
		for i := 0; i < n; i++ {
			b.WriteString(junkToks[g.n(len(junkToks))])
			b.WriteString(g.pick(" ", "", "\n", " "))
		}
	default:
		b.WriteString("database a; ")
		for i := 0; i < n; i++ {
			b.WriteString(junkToks[g.n(len(junkToks))])
			b.WriteString(g.pick(" ", " ", "\n"))
		}
	}
	return b.String()
}
