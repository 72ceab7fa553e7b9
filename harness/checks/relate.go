package checks

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
)

// A relateSweep takes small programs in which every name is another word and
// gives every name, everywhere or at one place only, a name (or a literal)
// that is made of another one: the same, with something before or behind it,
// without its end, in another case, made of two others. Code that tells
// things apart by less than their whole names, or takes a name that looks
// like another one for something it is not, is bound to be caught by one.

// placeholders are Q and a letter
var relatePrograms = map[string][]string{
	"C01": {"database Qa; table Qb {Qc int primary min(1), Qd text default('Qe') notnull, Qf blob} table Qg {Qh int unique, Qc text default('Qi')}"},
	"C02": {"database Qa; table Qb {Qc int, Qd text, #Qe unique(Qc), #Qf index(Qd, Qc), #Qk primary(Qd), fk(Qc) ref Qg(Qh) on_delete cascade} table Qg {Qh int, #Qi unique(Qh), #Qe index(Qh)}",
		"database Qa; table Qb {Qc int, Qd text, #Qe unique(Qc), fk(Qc, Qd) ref Qf(Qh, Qg) on_update set_null} table Qf {Qg int, Qh int, fk(Qg) ref Qb(Qc), fk(Qh) ref Qf(Qg)}",
		"database Qa; table Qb {Qc int, Qd text, Qe blob, #Qf unique(Qc, Qd, Qe), #Qg index(Qe, Qc, Qd), #Qh primary(Qd, Qe, Qc), fk(Qc, Qd, Qe) ref Qi(Qj, Qk, Ql) on_delete set_null on_update cascade} table Qi {Qj int, Qk text, Ql blob}"},
	"C03": {"database Qa; table Qb {Qc int} action Qd($Qe, $Qf) public view {select Qc from Qb where Qc = $Qe;} action Qg($Qh, $Qe) owner private {Qd($Qh, 'Qi');} action Qj() {select 1;} init() {Qj();}"},
	"C04": {"database Qa; use Qb as Qc; table Qd {Qe int} action Qf($Qg, $Qh) public {select Qe as Qp from Qd where Qe = $Qg and x = 'Qi'; $Qj, $Qk = Qc.Ql($Qg, 'Qm'); Qf($Qj, $Qk); Qn(@caller, lower($Qg));} action Qn($Qo) private {update Qd set Qe = $Qo;}"},
	"C05": {"database Qa; use Qb as Qc; use Qd {Qe: 'Qf', Qg: 'Qh', Qi: 1} as Qj; use Qb {Qe: 'Qf'} as Qk; action Qx() public {Qj.Ql();}"},
	"C06": {"database d; @Qb(Qc='Qd', Qe='Qf') @Qg(Qh=1, Qc='Qd') action Qi($Qj) public {select 1;} @Qb(Qc='Qk') action Ql() public {select 2;}"},
	"C07": {"database Qa; use Qb as Qc; table Qd {Qe int} init() {insert into Qd (Qe) values ('Qf'); Qg(@caller, 'Qh'); $Qi = Qc.Qj('Qk'); Qg($Qi, 1);} action Qg($Qm, $Qn) public {select $Qm;}"},
	"C10": {"database Qa; use Qb {Qe: 'Qf'} as Qc; use Qd as Qj; table Qg {Qh int, Qi text, Qk blob, #Ql index(Qh), #Qm index(Qi)} table Qn {Qh int}",
		"database Qa; use Qb as Qc; table Qd {Qe int} action Qf($Qg, $Qh, $Qi) public {select 1;} action Qj($Qg) public {select 2;} init() {Qj(1);} action Qk($Ql) private {select 3;}"},
	"C12": {"database Qa; use Qb as Qc; use Qd as Qe; action Qf($Qg, $Qh) public {Qf($Qg); $Qi, $Qj = Qc.Qk($Qg); Qe.Ql($Qi, lower($Qj)); Qm($Qh, @caller);} action Qm($Qn) private {Qf($Qn);}",
		"database Qa; use Qb as Qc; init() {$Qi = Qc.Qk(@caller); Qm(-$Qi, 'Qj');} action Qm($Qn) private {Qd($Qn);} action Qd($Qe) {$Qf = Qc.Qk($Qe); Qd($Qf);}"},
	"C14": {"database Qa; table Qd {Qe int, Qg text} action Qf($Qg, $Qh) public {select Qi.Qe as Qj from Qd as Qi join Qk as Ql on Qi.Qe = Ql.Qm where Qi.Qe = $Qg and Qm = 'Qn'; insert into Qd (Qe, Qg) values ($Qg, 'Qo');}"},
}

func init() {
	relatePrograms["C11"] = relatePrograms["C02"]
	relatePrograms["C22"] = []string{relatePrograms["C02"][0], relatePrograms["C05"][0], relatePrograms["C06"][0], relatePrograms["C12"][0]}
	var ids []string
	for id := range relatePrograms {
		if id != "C11" && id != "C22" {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for id := range relateThin {
		for _, x := range ids {
			relatePrograms[id] = append(relatePrograms[id], relatePrograms[x]...)
		}
	}
	relatePrograms["C13"] = append(append([]string{}, relatePrograms["C01"]...), relatePrograms["C03"]...)
}

// thin: other checks take every so manieth of all
var relateThin = map[string]int{"C09": 7, "C18": 16, "C23": 9, "C26": 20, "C27": 16, "C15": 40, "C33": 30}

var placeholder = regexp.MustCompile(`Q[a-z]`)

// the words the names are at first, for Qa, Qb, ...
var relateWords = [][]string{
	strings.Fields("shop item price_of note hello Raw sale qty world wren who total Buyer seller pay lookup amount rate zone kind"),
	strings.Fields("a b c d e f g h i j k l m n o p q r s t"),
	longWords(),
}

func longWords() (l []string) {
	for i, n := range []int{64, 63, 65, 70, 40, 62, 100, 128, 33, 256, 66, 80, 48, 127, 31, 200, 64, 63, 255, 90, 65} {
		l = append(l, strings.Repeat(string(rune('a'+i))+"bcdefghijk", n)[:n])
	}
	return
}

var relateFixed = strings.Fields("init caller database table action use select int text blob primary primary_key index unique owner public private view default min maxlen fk notnull ref on_update cascade null as with not and or lower abs kwil")

func flip(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		} else if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func reverse(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

var relateBefore = strings.Fields("idx_ fk_ pk_ ix_ uq_ tbl_ t_ my_ new_ old_ get_ set_ is_ has_ x the init_ db_ tmp_ p i f c q n__ a_ z do_ no_ un ref_ ext_ main_ pre_")
var relateBehind = strings.Fields("_ __ s 1 0 2 9 _idx _key _pkey _fk _fkey _pk _id id _ids _seq _list _table _action _col _ext _type _name _old _new _at _by _of _init x X z _x _1 00 001 _a _view _owner er es ed_")

var relateSame = [][2]string{{"t1", "t01"}, {"t1", "t001"}, {"item2", "item_2"}, {"user_id", "userId"}, {"a_b", "a__b"}, {"ab", "ba"}, {"abc", "acb"}, {"ad", "bc"},
	{"AaAa", "BBBB"}, {"AaBB", "BBAa"}, {"plumless", "buckeroo"}, {"costarring", "liquid"}, {"declinate", "macallums"}, {"altarage", "zinke"}, {"creamwove", "quists"},
	{"x10", "x9"}, {"Zed", "abc"}, {"t2", "t10"}, {"item", "items"}, {"old_a", "new_a"}, {"a1b2", "a2b1"}, {"a", "A"}, {"O0", "OO"}}

// related names; k turns the choice where there are many
func relate(s string, k int, all bool) []string {
	l := []string{s, s + "_", strings.ToUpper(s), strings.ToLower(s), flip(s[:1]) + s[1:], s[:len(s)-1] + flip(s[len(s)-1:]), s + s, s + "_" + s, s[1:], s[:len(s)-1], reverse(s), strings.ReplaceAll(s, "_", "")}
	if n := len(s); n > 2 { // the same length and ends
		l = append(l, s[:n-1]+"q", s[:n-2]+"q"+s[n-1:], s[:1]+"q"+s[2:], s[:n/2]+"q"+s[n/2+1:], s[1:2]+s[:1]+s[2:], s[:n-2]+s[n-1:]+s[n-2:n-1], s[1:]+s[:1], s[n-1:]+s[:n-1])
	}
	if len(s) > 3 {
		l = append(l, s[2:], s[:len(s)-2], s[:2], s[:1])
	}
	nb, na := 4, 5
	if all {
		nb, na = len(relateBefore), len(relateBehind)
	}
	for _, w := range gen.Fresh() {
		l = append(l, w+s, s+w, w+"_"+s, s+"_"+w)
	}
	for i := 0; i < nb; i++ {
		l = append(l, relateBefore[(k+i*7)%len(relateBefore)]+s)
	}
	for i := 0; i < na; i++ {
		l = append(l, s+relateBehind[(k+i*7)%len(relateBehind)])
	}
	return l
}

func relateSweep(id string) func(c *mon.C) { return both(nameSweep(id), joinSweep(id), wordSweep(id)) }

func nameSweep(id string) func(c *mon.C) {
	return func(c *mon.C) {
		k, thin := 0, relateThin[id]
		seen := map[string]bool{}
		for pi, prog := range relatePrograms[id] {
			at := placeholder.FindAllStringIndex(prog, -1)
			var syms []string
			for _, a := range at {
				s := prog[a[0]:a[1]]
				if !strings.Contains(" "+strings.Join(syms, " ")+" ", " "+s+" ") {
					syms = append(syms, s)
				}
			}
			for wi, words := range relateWords {
				val := map[string]string{}
				for i, s := range syms {
					val[s] = words[i]
				}
				fill := func(sym, v string, only int) string {
					var b strings.Builder
					last := 0
					for i, a := range at {
						b.WriteString(prog[last:a[0]])
						s := prog[a[0]:a[1]]
						if only < 0 && s == sym || only == i {
							b.WriteString(v)
						} else {
							b.WriteString(val[s])
						}
						last = a[1]
					}
					return b.String() + prog[last:]
				}
				try := func(kind, s string) {
					if k++; k%c.Shards != c.Shard || c.Full() {
						return
					}
					thin := thin
					if kind == "same" {
						thin = (thin + 5) / 6
					}
					if thin > 0 && (k/c.Shards+int(c.Seed))%thin != 0 && !c.Thorough() {
						return
					}
					if len(s) < 2000 {
						if seen[s] {
							return
						}
						seen[s] = true
					}
					p, e := kf.Parse(s)
					if e != nil { // the name is not one
						return
					}
					if kf.Validate(p).OK() {
						c.Count("related names, valid", 1)
					} else {
						c.Count("related names, faulty", 1)
					}
					c.Judged(s)
					c.Eval(kind + s)
				}
				if e := fill("", "", -1); !kf.Validate(mustParse(e)).OK() {
					panic("HARNESS: relate program is not valid: " + e)
				}
				// a name made of another, everywhere or at one place
				for i, from := range syms {
					for j, r := range relate(val[from], i*5+wi*3+int(c.Seed), c.Thorough()) {
						for _, to := range syms {
							if to != from && r != "" && (wi < 2 || c.Thorough() || j < 2 || (len(from)+i+j+int(to[1]))%4 == 0) {
								try("rename", fill(to, r, -1))
							}
						}
						for a := range at {
							if r != "" && ((a+j+i)%2 == wi || wi == 2 && (a+j+i)%8 == 0 || c.Thorough()) {
								try("one place", fill("", r, a))
							}
						}
					}
				}
				// of a word that means something
				if wi == 0 {
					for i, w := range append(gen.Fresh(), relateFixed...) {
						for j, r := range relate(w, i*5+int(c.Seed), c.Thorough()) {
							for a, to := range syms {
								if (a+i+j)%2 == 0 || c.Thorough() {
									try("word", fill(to, r, -1))
								}
								if (a+i+j)%4 == 0 || c.Thorough() {
									try("word at one place", fill("", r, (a*7+i+j)%len(at)))
								}
							}
						}
					}
				}
				// two that are the same to code that normalises, sorts or hashes
				if wi == 0 {
					for i, x := range syms {
						for j, y := range syms {
							for t, l := range relateSame {
								if x != y && ((i+j*3+t*7+pi+int(c.Seed))%3 == 0 || c.Thorough()) {
									was := val[x]
									val[x] = l[0]
									try("same", fill(y, l[1], -1))
									val[x] = was
								}
							}
						}
					}
				}
				// of two others
				for i, x := range syms {
					for j, y := range syms {
						for t, to := range syms {
							if to == x || to == y || x == y {
								continue
							}
							for si, sep := range []string{"_", "", "__"} {
								if (i+j*3+t*5+si+wi+pi)%4 == 0 && si < 2 && wi < 2 || c.Thorough() {
									try("of two", fill(to, val[x]+sep+val[y], -1))
								}
							}
						}
					}
				}
			}
		}
	}
}

func mustParse(s string) *kf.Prog {
	p, e := kf.Parse(s)
	if e != nil {
		panic(fmt.Sprintf("HARNESS: does not parse at %d:%d: %s", e.Line, e.Col, s))
	}
	return p
}
