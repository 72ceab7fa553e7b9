// Package sut runs the real compiler and observes what it does.
package sut

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/kfparser/ast"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
)

// Out is everything observed of one compilation.
type Out struct {
	Src   string
	Ast   ast.Ast
	Err   error
	Panic any    // a panic that escaped
	JSON  []byte // of the schema, when Err is nil
	JErr  error
	Tree  map[string]any // decoded JSON, numbers kept as json.Number
}

func (o *Out) OK() bool { return o.Err == nil && o.Panic == nil && o.Tree != nil }

// Failure describes the rejection, or "".
func (o *Out) Failure() string {
	switch {
	case o.Panic != nil:
		return fmt.Sprintf("panic: %v", o.Panic)
	case o.Err != nil:
		return "error: " + o.Err.Error()
	case o.JErr != nil:
		return "ToJSON error: " + o.JErr.Error()
	case o.Tree == nil:
		return "no JSON object"
	}
	return ""
}

// Compile runs the compiler on src.
func Compile(src string) *Out { return CompileWith(src, nil, kfparser.Default) }

func CompileWith(src string, l *utils.ErrorListener, mode kfparser.Mode) *Out {
	o := &Out{Src: src}
	func() {
		defer func() {
			if r := recover(); r != nil {
				o.Panic = r
			}
		}()
		o.Ast, o.Err = kfparser.ParseKF(src, l, mode)
		if o.Err == nil && o.Ast != nil {
			o.JSON, o.JErr = o.Ast.ToJSON()
		}
	}()
	if o.Panic == nil && o.Err == nil && o.JErr == nil && o.JSON != nil {
		o.Tree, _ = Decode(o.JSON)
	}
	return o
}

// Decode reads exactly one JSON object.
func Decode(b []byte) (map[string]any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var m map[string]any
	if err := d.Decode(&m); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, errors.New("trailing data after the JSON object")
	}
	if _, err := d.Token(); err == nil {
		return nil, errors.New("trailing data after the JSON object")
	}
	return m, nil
}

// Internal says whether an error is an internal failure of the compiler (a Go
// runtime error or an unexpected panic) and not a diagnostic. A diagnostic may
// quote the program src, so what src says itself counts for nothing.
func Internal(err error, src string) string {
	if err == nil {
		return ""
	}
	var re runtime.Error
	if errors.As(err, &re) {
		return "runtime error: " + re.Error()
	}
	s, low := err.Error(), strings.ToLower(src)
	for _, x := range []string{"unknown panic", "interface conversion", "nil pointer", "index out of range", "slice bounds out of range", "failed to parse", "implement me", "unknown expression type", "stack overflow"} {
		if strings.Contains(s, x) && !strings.Contains(low, x) {
			return "internal failure: " + s
		}
	}
	return ""
}

// Sentinels maps fault classes (package kf) to the exported errors.
var Sentinels = map[string]error{
	"duplicate extension":          schema.ErrDuplicateExtension,
	"duplicate table":              schema.ErrDuplicateTable,
	"duplicate column":             schema.ErrDuplicateColumn,
	"duplicate attribute":          schema.ErrDuplicateAttribute,
	"duplicate index":              schema.ErrDuplicateIndex,
	"duplicate action":             schema.ErrDuplicateAction,
	"duplicate param":              schema.ErrDuplicateParam,
	"duplicate foreign key action": schema.ErrDupFKAction,
	"duplicate variable":           schema.ErrDuplicateVariable,
	"attribute not allowed":        schema.ErrAttributeNotAllow,
	"more than one init":           schema.ErrMultiInit,
	"visibility already set":       schema.ErrActionVisibilityAlreadySet,
	"mutability already set":       schema.ErrActionMutabilityAlreadySet,
	"auxiliary already set":        schema.ErrActionAuxiliaryAlreadySet,
	"table not found":              schema.ErrTableNotFound,
	"column not found":             schema.ErrColumnNotFound,
	"action not found":             schema.ErrActionNotFound,
	"extension not found":          schema.ErrExtensionNotFound,
	"variable not found":           schema.ErrVariableNotFound,
}

// Which lists the sentinels an error is.
func Which(err error) (l []string) {
	for k, s := range Sentinels {
		if errors.Is(err, s) {
			l = append(l, k)
		}
	}
	if errors.Is(err, utils.ErrInvalidSyntax) {
		l = append(l, "syntax error")
	}
	sort.Strings(l)
	return
}

// ValidateJSON decodes a schema and runs the exported validator on it.
func ValidateJSON(b []byte) (err error, panicked any) {
	defer func() {
		if r := recover(); r != nil {
			panicked = r
		}
	}()
	var s schema.Schema
	if e := json.Unmarshal(b, &s); e != nil {
		return e, nil
	}
	return s.Accept(schema.NewCtxValidator()), nil
}

var posRe = regexp.MustCompile(`line (\d+):(\d+) `)

// Pos is a source position as diagnostics spell it.
type Pos struct{ Line, Col int }

// ErrPos gives the earliest position of the diagnostics in a listener.
func ErrPos(l *utils.ErrorListener) (p Pos, ok bool) {
	for _, e := range l.ErrorList {
		m := posRe.FindStringSubmatch(e.Error())
		if m == nil {
			continue
		}
		a, _ := strconv.Atoi(m[1])
		b, _ := strconv.Atoi(m[2])
		if !ok || a < p.Line || a == p.Line && b < p.Col {
			p, ok = Pos{a, b}, true
		}
	}
	return
}

// ErrPosText finds a position in a message.
func ErrPosText(s string) (p Pos, ok bool) {
	m := posRe.FindStringSubmatch(s)
	if m == nil {
		return
	}
	p.Line, _ = strconv.Atoi(m[1])
	p.Col, _ = strconv.Atoi(m[2])
	return p, true
}
