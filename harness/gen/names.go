// Package gen makes workloads: random abstract programs, source layouts,
// fault injections and textual mutations. Everything is a function of the
// *rand.Rand it is given.
package gen

import (
	"fmt"
	"math/rand"
	"strings"

	"kfverif/kf"
)

// G is a generator state for one case.
type G struct {
	R    *rand.Rand
	Pool []string // names used so far, of every kind (to provoke coincidences)
	Big  string   // dimension of the current program that is unusually large
	BigN int
}

func New(seed int64) *G { return &G{R: rand.New(rand.NewSource(seed))} }

func (g *G) n(n int) int {
	if n <= 0 {
		return 0
	}
	return g.R.Intn(n)
}
func (g *G) p(pct int) bool          { return g.R.Intn(100) < pct }
func (g *G) pick(l ...string) string { return l[g.R.Intn(len(l))] }
func (g *G) between(lo, hi int) int  { return lo + g.n(hi-lo+1) }

var hostile = strings.Fields(`tables int_ notnull2 initx Init INIT Table TABLE selects updatex withdraw deleted inserted
 SELECTED current Current column index1 Index default_ asx do_ a_b__c x9 Z null true false owner2 Public privateX view_ Foreign_key
 fk1 refs on_updates no_actions cascade1 set_nulls min1 MAX minlen_ Text Int Blob id name user_id a1 A1 aA Aa AA as_ usea Use AS
 unique_ Unique primaryKey Primary_ database_ Database actions Action and_ nota orb And OR Not caller erc20 lower abs count
 blobs ints texts owner_ action1 init_ T t1 tt1 tc1 act1 td1
 kwil_ kwil kwil_x sqlite_master sqlite_ sqlite pg_ pg_catalog sys system admin internal main temp master rowid oid block height self this
 super root user users schema db test tmp x__ func function return returns proc procedure call void err error txid balance
 foreign proto json x_internal deprecated hidden reserved default_value auto increment serial uuid bool boolean string number integer varchar`)

const alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const alnum = alpha + "0123456789_"

func (g *G) rawName() string {
	if g.fresh(10) {
		return g.dictName()
	}
	switch k := g.n(100); {
	case k < 30:
		return string(alpha[g.n(len(alpha))]) + g.pick("", "", "1", "2", "_", "_x", "x", "Q", "0")
	case k < 55:
		return hostile[g.n(len(hostile))]
	case k < 70 && len(g.Pool) > 0: // the same name as something else
		return g.Pool[g.n(len(g.Pool))]
	case k < 80 && len(g.Pool) > 0: // near collision
		s := g.Pool[g.n(len(g.Pool))]
		switch g.n(6) {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return strings.ToLower(s)
		case 2:
			return s + string(alnum[g.n(len(alnum))])
		case 3:
			return s + "_" + s
		case 4:
			if len(s) > 1 {
				return s[:len(s)-1]
			}
			return s + s
		default:
			b := []byte(s)
			i := g.n(len(b))
			if b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			} else if b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 32
			}
			return string(b)
		}
	case g.Big == "namelen" && k < 90:
		return g.word(g.BigN)
	case k < 82 && g.p(50): // a word that might mean something, with something before or behind it
		h := hostile[g.n(len(hostile))]
		if g.p(50) {
			return h + g.pick("_", "__", "") + g.word(g.between(1, 4))
		}
		return g.word(g.between(1, 4)) + g.pick("_", "__", "") + h
	case k < 89 && k >= 83:
		return g.dictName()
	case k < 83: // long
		return g.word(g.between(33, 300))
	default:
		return g.word(g.between(1, 12))
	}
}

func (g *G) word(n int) string {
	b := make([]byte, n)
	b[0] = alpha[g.n(len(alpha))]
	for i := 1; i < n; i++ {
		b[i] = alnum[g.n(len(alnum))]
	}
	return string(b)
}

// Name returns a legal name not in used (nil allowed) and records it.
func (g *G) Name(used map[string]bool) string {
	for i := 0; ; i++ {
		s := g.rawName()
		if i > 50 {
			s += fmt.Sprint(g.n(1 << 30))
		}
		if kf.Reserved(s) || len(s) > 6000 || used[s] {
			continue
		}
		if used != nil {
			used[s] = true
		}
		if len(s) > 400 {
			return s
		}
		if len(g.Pool) < 64 {
			g.Pool = append(g.Pool, s)
		} else {
			g.Pool[g.n(64)] = s
		}
		return s
	}
}

// Sigil names after $, # and @ may be keywords too.
func (g *G) SigilName(used map[string]bool) string {
	if g.p(15) {
		s := g.pick("select", "table", "init", "with", "update", "int", "not", "and", "or", "action", "caller", "default", "Insert", "owner", "public")
		if !used[s] {
			if used != nil {
				used[s] = true
			}
			return s
		}
	}
	return g.Name(used)
}

// Number literal.
func (g *G) Number() string {
	if g.Big == "numlen" && g.p(40) {
		return "1" + strings.Repeat(fmt.Sprint(g.n(10)), g.BigN-1)
	}
	if l := theDict().Ints; len(l) > 0 && g.p(6) {
		return fmt.Sprint(l[g.n(len(l))] + g.n(3) - 1)
	}
	switch g.n(12) {
	case 0:
		return "0"
	case 1:
		return "00"
	case 2:
		return "007"
	case 3:
		return g.pick("9223372036854775807", "9223372036854775808", "18446744073709551616", "2147483648", "4294967295")
	case 4:
		n := g.between(20, 90)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + g.n(10))
		}
		return string(b)
	case 5:
		return "1" + strings.Repeat("0", g.n(20))
	default:
		return fmt.Sprint(g.n([]int{10, 100, 1000, 1000000}[g.n(4)]))
	}
}

var strBits = []string{"a", "B", " ", "  ", "0", "1", "=", ",", "(", ")", "{", "}", ";", ":", "@", "$", "#", ".", "--", "//", "/*", "*/",
	`\'`, `\\`, `\"`, `\n`, `\a`, `"`, "`", "<", ">", "&", "|", "~", "é", "ü", "世界", "😀", "\u2028", "\u00a0", "\ufeff", "\t", "x=1", "k='", "select ",
	"as", "%s", "%d", "%", "null", "'", "\x00", "\x01", "\x7f", "\ufffd", "e\u0301", "$a", "@caller", "act1(1);", "\\u0041", `\\u003c`, `\\u003e`, `\\u0026`, `\\u2028`, `\u003c`, `\u0026`, `\\n`, `\\"`, `\\t`, `\x00`, `\0`, `\\x41`, `&lt;`, `&amp;`, "\\\n", "\\\r", "\\ ", "\\\t", `\é`, `\世`, `%3c`, `\/`, "[", "]", "a = 'b'", "a=2", "ñ"}

// String literal in the language's own quoting.
func (g *G) Str() string {
	if g.Big == "strlen" && g.p(50) {
		return "'" + strings.Repeat("\u00e9x y", g.BigN/4) + "'"
	}
	switch g.n(10) {
	case 0:
		return "''"
	case 3:
		return g.format()
	case 1:
		return "'" + g.word(g.between(1, 8)) + "'"
	case 2:
		if g.p(10) {
			return "'" + strings.Repeat(g.word(7)+" ", g.between(20, 700)) + "'"
		}
	}
	var b strings.Builder
	b.WriteByte('\'')
	for i, n := 0, g.between(1, 7); i < n; i++ {
		s := strBits[g.n(len(strBits))]
		if g.p(8) || g.fresh(8) {
			s = g.dictRaw()
			if strings.Contains(s, `\`) {
				s = strings.ReplaceAll(s, `\`, `\\`)
			}
		}
		if strings.Contains(s, "'") && s != `\'` {
			s = strings.ReplaceAll(s, "'", `\'`)
		}
		b.WriteString(s)
	}
	b.WriteByte('\'')
	return b.String()
}

func (g *G) Lit() string {
	if g.p(50) {
		return g.Number()
	}
	return g.Str()
}
