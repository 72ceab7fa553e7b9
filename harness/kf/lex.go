// Package kf is an independent reference front end for the Kuneiform language:
// a hand-written lexer, recursive-descent parser and validator that share no
// code with /repo.  The monitors compare what the real compiler does with what
// this model says it must do.
package kf

import "strings"

// Kind of token. Punctuation and keywords use their own spelling as the kind.
type Kind string

const (
	IDENT   Kind = "IDENT"
	IDXNAME Kind = "#IDENT"
	VAR     Kind = "$IDENT"
	ATNAME  Kind = "@IDENT"
	NUM     Kind = "NUM"
	STR     Kind = "STR"
	SQL     Kind = "SQL"
	SQLKW   Kind = "SQLKW"
	EOF     Kind = "EOF"
)

// Tok is one token of the default channel.
type Tok struct {
	K    Kind
	T    string
	Line int // 1-based
	Col  int // 0-based, in runes
	Pos  int // rune offset
	End  int
}

// Keywords of the language (all lower case, reserved as names).
var Keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields(`database use as table action init public private view owner int text blob
		min max minlen maxlen notnull primary default unique index foreign_key fk references ref
		on_update on_delete do no_action cascade set_null set_default restrict not and or`) {
		Keywords[k] = true
	}
}

// SQLKeywords are reserved in every letter case.
var SQLKeywords = map[string]bool{"select": true, "insert": true, "update": true, "delete": true, "with": true}

// Reserved says whether s cannot be used as a plain name.
func Reserved(s string) bool { return Keywords[s] || SQLKeywords[strings.ToLower(s)] }

func letter(c rune) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func digit(c rune) bool  { return c >= '0' && c <= '9' }
func idch(c rune) bool   { return letter(c) || digit(c) || c == '_' }

// LexErr is a position at which no token starts.
type LexErr struct{ Line, Col, Pos int }

// Lex splits src into default-channel tokens (ending with EOF) and reports the
// positions at which no token could be recognised.
func Lex(src string) (toks []Tok, errs []LexErr) {
	r := []rune(src)
	i, line, col := 0, 1, 0
	adv := func(n int) {
		for k := 0; k < n; k++ {
			if r[i] == '\n' {
				line++
				col = 0
			} else {
				col++
			}
			i++
		}
	}
	emit := func(k Kind, n int) {
		toks = append(toks, Tok{k, string(r[i : i+n]), line, col, i, i + n})
		adv(n)
	}
	at := func(k int) rune {
		if i+k < len(r) {
			return r[i+k]
		}
		return -1
	}
	run := func(from int) int { // identifier length starting at i+from, 0 if none
		if !letter(at(from)) {
			return 0
		}
		n := 1
		for idch(at(from + n)) {
			n++
		}
		return n
	}
	for i < len(r) {
		c := r[i]
		switch {
		case c == ' ' || c == '\t' || c == '\r' || c == '\n':
			adv(1)
		case c == '/' && at(1) == '/':
			n := 2
			for at(n) != -1 && at(n) != '\r' && at(n) != '\n' {
				n++
			}
			adv(n)
		case c == '/' && at(1) == '*':
			n := 2
			for at(n) != -1 && !(at(n) == '*' && at(n+1) == '/') {
				n++
			}
			if at(n) == -1 {
				emit("/", 1)
			} else {
				adv(n + 2)
			}
		case letter(c):
			n := run(0)
			w := string(r[i : i+n])
			if SQLKeywords[strings.ToLower(w)] {
				ws := at(n)
				if ws == ' ' || ws == '\t' || ws == '\r' || ws == '\n' {
					m := n
					for at(m) != -1 && at(m) != ';' && at(m) != '}' {
						m++
					}
					if m-n >= 2 {
						emit(SQL, m)
						continue
					}
				}
				emit(SQLKW, n)
			} else if Keywords[w] {
				emit(Kind(w), n)
			} else {
				emit(IDENT, n)
			}
		case digit(c):
			n := 1
			for digit(at(n)) {
				n++
			}
			emit(NUM, n)
		case c == '$' || c == '#' || c == '@':
			n := run(1)
			if n == 0 {
				emit(Kind(string(c)), 1)
				continue
			}
			emit(map[rune]Kind{'$': VAR, '#': IDXNAME, '@': ATNAME}[c], n+1)
		case c == '\'':
			n, ok := 1, false
			for {
				d := at(n)
				if d == -1 || d == '\r' || d == '\n' {
					break
				}
				if d == '\'' {
					n++
					ok = true
					break
				}
				if d == '\\' {
					if at(n+1) == -1 {
						break
					}
					n += 2
					continue
				}
				n++
			}
			if ok {
				emit(STR, n)
			} else {
				errs = append(errs, LexErr{line, col, i})
				adv(1)
			}
		default:
			two := string(c)
			if at(1) != -1 {
				two += string(at(1))
			}
			switch two {
			case "||", "<<", ">>", "==", "<=", ">=", "!=", "<>":
				emit(Kind(two), 2)
				continue
			}
			if strings.ContainsRune(":;({)},.=+-*/%~&|<>", c) {
				emit(Kind(string(c)), 1)
				continue
			}
			errs = append(errs, LexErr{line, col, i})
			adv(1)
		}
	}
	toks = append(toks, Tok{EOF, "<EOF>", line, col, i, i})
	return toks, errs
}

// SameTokens says whether two texts have the same token sequence.
func SameTokens(a, b []Tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].K != b[i].K || a[i].T != b[i].T {
			return false
		}
	}
	return true
}
