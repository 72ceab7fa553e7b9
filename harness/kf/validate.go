package kf

import (
	"fmt"
	"strings"
	"sync"

	sqlparser "github.com/kwilteam/kwil-db/parse/sql"
)

// Fault classes. Each names the documented rejection it must be reported as.
const (
	DupExt    = "duplicate extension"
	DupTable  = "duplicate table"
	DupColumn = "duplicate column"
	DupAttr   = "duplicate attribute"
	DupIndex  = "duplicate index"
	DupAction = "duplicate action"
	DupParam  = "duplicate param"
	DupFKAct  = "duplicate foreign key action"
	DupVar    = "duplicate variable"
	AttrNA    = "attribute not allowed"
	MultiInit = "more than one init"
	VisSet    = "visibility already set"
	MutSet    = "mutability already set"
	AuxSet    = "auxiliary already set"
	TableNF   = "table not found"
	ColumnNF  = "column not found"
	ActionNF  = "action not found"
	ExtNF     = "extension not found"
	VarNF     = "variable not found"
	BadSQL    = "invalid SQL"
	BadFn     = "unsupported function"
)

// Verdict of the reference validator.
type Verdict struct {
	Faults []string // all fault classes found, in discovery order
	Where  []string
	Names  []string // the offending name of each fault
	// Unspecified lists reasons why the language description does not settle
	// whether the program is valid; the monitors then judge nothing.
	Unspecified []string
}

func (v *Verdict) add(class, where string, a ...any) {
	v.Faults = append(v.Faults, class)
	name := ""
	if len(a) > 0 {
		name = fmt.Sprint(a[len(a)-1])
	}
	v.Names = append(v.Names, name)
	v.Where = append(v.Where, fmt.Sprintf(where, a...))
}
func (v *Verdict) dunno(s string) { v.Unspecified = append(v.Unspecified, s) }

// OK: the program must be accepted.
func (v *Verdict) OK() bool { return len(v.Faults) == 0 && len(v.Unspecified) == 0 }

// Bad: the program must be rejected.
func (v *Verdict) Bad() bool { return len(v.Faults) > 0 }

// Single gives the only fault class, or "".
func (v *Verdict) Single() string {
	if len(v.Unspecified) > 0 {
		return ""
	}
	s := ""
	for _, f := range v.Faults {
		if s != "" && s != f {
			return ""
		}
		s = f
	}
	return s
}

// Functions of call-argument expressions.
var Functions = map[string]bool{"abs": true, "length": true, "lower": true, "upper": true, "format": true, "count": true, "sum": true, "error": true}

var (
	sqlMu   sync.Mutex
	sqlMemo = map[string]bool{}
)

// SQLOK asks the (trusted, unmodified) SQL dependency whether a statement is
// acceptable. Serialised, because the dependency has shared mutable state.
func SQLOK(stmt string) bool {
	sqlMu.Lock()
	defer sqlMu.Unlock()
	if v, ok := sqlMemo[stmt]; ok {
		return v
	}
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				ok = false
			}
		}()
		ast, err := sqlparser.ParseSql(stmt, 1, nil, false)
		if err != nil {
			return false
		}
		_, err = ast.ToSQL()
		return err == nil
	}()
	if len(sqlMemo) < 200000 && len(stmt) < 4096 {
		sqlMemo[stmt] = ok
	}
	return ok
}

// SQLBroken says how the SQL dependency itself fails on a statement, called
// alone: with what internal error, or "".
func SQLBroken(stmt string) (how string) {
	sqlMu.Lock()
	defer sqlMu.Unlock()
	defer func() {
		if r := recover(); r != nil {
			how = fmt.Sprint(r)
		}
	}()
	ast, err := sqlparser.ParseSql(stmt, 1, nil, false)
	if err == nil {
		_, err = ast.ToSQL()
	}
	if err != nil && strings.HasPrefix(err.Error(), "panic: ") {
		return err.Error()
	}
	return ""
}

// Validate judges a syntactically valid program.
func Validate(g *Prog) *Verdict {
	v := &Verdict{}
	if g.Inits > 1 {
		v.add(MultiInit, "%d init blocks", g.Inits)
	}
	exts := map[string]bool{}
	for _, e := range g.Exts {
		n := e.Alias
		if n == "" {
			n = e.Name
		}
		if exts[n] {
			v.add(DupExt, "%s", n)
		}
		exts[n] = true
	}
	cols := map[string]map[string]bool{}
	for _, t := range g.Tabs {
		if cols[t.Name] != nil {
			v.add(DupTable, "%s", t.Name)
		}
		cs := map[string]bool{}
		for _, c := range t.Cols {
			if cs[c.Name] {
				v.add(DupColumn, "%s.%s", t.Name, c.Name)
			}
			cs[c.Name] = true
			seen := map[string]bool{}
			for _, a := range c.Attrs {
				if seen[a.K] {
					v.add(DupAttr, "%s.%s %s", t.Name, c.Name, a.K)
				}
				seen[a.K] = true
				lenB := a.K == "min_length" || a.K == "max_length"
				valB := a.K == "min" || a.K == "max"
				if c.Type == "int" && lenB || c.Type == "text" && valB {
					v.add(AttrNA, "%s.%s %s", t.Name, c.Name, a.K)
				}
				if c.Type == "blob" && valB {
					v.dunno("value bound on blob")
				}
			}
		}
		is := map[string]bool{}
		for _, x := range t.Idxs {
			if is[x.Name] {
				v.add(DupIndex, "%s.#%s", t.Name, x.Name)
			}
			is[x.Name] = true
			if cs[x.Name] {
				v.dunno("index named like a column")
			}
			for _, c := range x.Cols {
				if !cs[c] {
					v.add(ColumnNF, "%s.#%s(%s)", t.Name, x.Name, c)
				}
			}
		}
		if cols[t.Name] == nil {
			cols[t.Name] = cs
		}
	}
	acts := map[string]bool{}
	all := append([]Act{}, g.Acts...)
	for _, a := range all {
		if acts[a.Name] {
			v.add(DupAction, "%s", a.Name)
		}
		acts[a.Name] = true
		seen := map[string]bool{}
		for _, p := range a.Params {
			if seen[p] {
				v.add(DupParam, "%s(%s)", a.Name, p)
			}
			seen[p] = true
		}
		n := map[string]int{}
		for _, m := range a.Mods {
			n[m]++
		}
		if n["public"]+n["private"] > 1 {
			v.add(VisSet, "%s", a.Name)
		}
		if n["view"] > 1 {
			v.add(MutSet, "%s", a.Name)
		}
		if n["owner"] > 1 {
			v.add(AuxSet, "%s", a.Name)
		}
	}
	for _, t := range g.Tabs {
		for _, f := range t.FKs {
			for _, c := range f.Child {
				if !cols[t.Name][c] {
					v.add(ColumnNF, "%s fk child %s", t.Name, c)
				}
			}
			if cols[f.Parent] == nil {
				v.add(TableNF, "%s fk -> %s", t.Name, f.Parent)
			} else {
				for _, c := range f.Keys {
					if !cols[f.Parent][c] {
						v.add(ColumnNF, "%s fk -> %s.%s", t.Name, f.Parent, c)
					}
				}
			}
			if len(f.Child) != len(f.Keys) {
				v.dunno("foreign key of different lengths")
			}
			seen := map[string]bool{}
			for _, a := range f.Actions {
				if seen[a.On] {
					v.add(DupFKAct, "%s %s", t.Name, a.On)
				}
				seen[a.On] = true
			}
		}
	}
	if g.Init != nil {
		all = append(all, *g.Init)
	}
	for _, a := range all {
		scope := map[string]bool{}
		for _, p := range a.Params {
			scope[p] = true
		}
		for _, s := range a.Stmts {
			if s.IsSQL() {
				if !SQLOK(strings.TrimSpace(s.SQL + ";")) {
					v.add(BadSQL, "%s: %s", a.Name, s.SQL)
				}
				continue
			}
			if s.Ext == "" {
				if !acts[s.Fn] {
					v.add(ActionNF, "%s: %s", a.Name, s.Fn)
				}
				if len(s.Recv) > 0 {
					v.dunno("receivers of an action call")
				}
			} else if !exts[s.Ext] {
				v.add(ExtNF, "%s: %s", a.Name, s.Ext)
			}
			for i, t := range s.Args {
				switch t.K {
				case VAR:
					if !scope[t.T] {
						v.add(VarNF, "%s: %s", a.Name, t.T)
					}
				case ATNAME:
					if t.T != "@caller" {
						v.add(VarNF, "%s: %s", a.Name, t.T)
					}
				case IDENT:
					if !Functions[strings.ToLower(t.T)] {
						v.add(BadFn, "%s: %s", a.Name, t.T)
					}
				case "(":
					if i+1 < len(s.Args) && s.Args[i+1].K == "*" {
						v.dunno("star argument")
					}
				case "~":
					v.dunno("operator outside the action dialect")
				default:
					if ok, is := BinOps[t.K]; is && !ok {
						v.dunno("operator outside the action dialect")
					}
				}
			}
			if s.Ext != "" {
				line := map[string]bool{}
				for _, r := range s.Recv {
					if line[r] {
						v.add(DupVar, "%s: %s", a.Name, r)
					}
					line[r] = true
					scope[r] = true
				}
			}
		}
	}
	return v
}

// Hard tells if a text of the language has an SQL statement whose parentheses
// nest so deep that the SQL parser that is depended on needs unbounded time
// (it takes exponential time in that depth, a listed finding).
func Hard(src string) bool {
	const most = 10
	d, top := 0, 0
	for i := 0; i < len(src); i++ {
		switch src[i] {
		case '(':
			if d++; d > top {
				top = d
			}
		case ')':
			d--
		}
	}
	if top <= most && strings.Count(src, "(") <= most {
		return false
	}
	p, e := Parse(src)
	if e != nil {
		return false
	}
	acts := append([]Act{}, p.Acts...)
	if p.Init != nil {
		acts = append(acts, *p.Init)
	}
	for _, a := range acts {
		for _, s := range a.Stmts {
			if !s.IsSQL() {
				continue
			}
			d := 0
			for i := 0; i < len(s.SQL); i++ { // comments and strings too, for simplicity
				switch s.SQL[i] {
				case '(':
					if d++; d > most {
						return true
					}
				case ')':
					if d > 0 {
						d--
					}
				}
			}
		}
	}
	return false
}
