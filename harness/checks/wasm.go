package checks

import (
	"bufio"
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
	"unicode/utf8"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
	"kfverif/sut"
)

//go:embed wasm_driver.js
var wasmDriver []byte

// call is one call of the exported JavaScript function.
type call struct {
	Args []any `json:"args"`
	This bool  `json:"this"`           // called as a method of something else
	Half int   `json:"half,omitempty"` // what U+E000 stands for
}

type answer struct {
	Type    string          `json:"type"`
	Value   json.RawMessage `json:"value"`
	Keys    []string        `json:"keys"`
	Json    *string         `json:"json"`
	Error   *string         `json:"error"`
	Throw   string          `json:"throw"`
	Earlier string          `json:"earlier"` // a result of an earlier call that changed
}

// node runs calls in one instance of the WebAssembly module.
func node(c *mon.C, calls []call) ([]answer, string, error) {
	dir := c.Dir
	drv := filepath.Join(dir, "driver.js")
	if err := os.WriteFile(drv, wasmDriver, 0o644); err != nil {
		panic("HARNESS: " + err.Error())
	}
	var in bytes.Buffer
	for _, x := range calls {
		b, _ := json.Marshal(x)
		in.Write(b)
		in.WriteByte('\n')
	}
	inf := filepath.Join(dir, "calls")
	if err := os.WriteFile(inf, in.Bytes(), 0o644); err != nil {
		panic("HARNESS: " + err.Error())
	}
	ctx, cancel := context.WithTimeout(context.Background(), 140*time.Second)
	defer cancel()
	outf := filepath.Join(dir, "answers")
	os.Remove(outf)
	cmd := exec.CommandContext(ctx, "node", "--stack-size=2000", drv, os.Getenv("KF_WASM_EXEC"), os.Getenv("KF_WASM"), inf, outf)
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	err := cmd.Run()
	var l []answer
	if f, e := os.Open(outf); e == nil {
		r := bufio.NewReaderSize(f, 1<<20)
		for {
			ln, e := r.ReadBytes('\n')
			if len(ln) > 0 {
				var a answer
				if json.Unmarshal(ln, &a) == nil {
					l = append(l, a)
				}
			}
			if e != nil {
				break
			}
		}
		f.Close()
	}
	return l, log.String(), err
}

// largeText has a large artifact or a long error message.
func largeText(g *gen.G, k int) string {
	n := []int{5000, 14000, 40000, 150000, 400000}[g.R.Intn(5)]
	var b strings.Builder
	switch k % 4 {
	case 0:
		return "database d; table t {a text default('" + strings.Repeat("x é世😀", min(n, 30000)) + "')}"
	case 1: // a long message
		return "database d; table t" + strings.Repeat("_long", n) + " {a int} table t" + strings.Repeat("_long", n) + " {a int}"
	case 2: // very many messages
		b.WriteString("database d; ")
		for i := 0; i < min(n, 14000)/10; i++ {
			fmt.Fprintf(&b, "table t%d {a int b text} ", i)
		}
	default:
		b.WriteString("database d; ")
		for i := 0; i < min(n, 40000)/4; i++ {
			fmt.Fprintf(&b, "table t%d {a int notnull, b text default('é%d')} ", i, i)
		}
	}
	return b.String()
}

// wasmBatch compiles texts in one instance and natively.
func wasmBatch(c *mon.C, i int) {
	if os.Getenv("KF_WASM") == "" {
		panic("HARNESS: KF_WASM is not set")
	}
	g := c.G()
	n := 60
	if i%16 == 9 { // one instance is used for long
		n = 900
	}
	var texts []string // "" for misuse
	var calls []call
	var pool []string
	misuse := map[int]string{}
	for k := 0; k < n; k++ {
		r := g.R.Intn(12)
		switch {
		case r == 0:
			m := [][]any{{}, {"database d;", "database d;"}, {"", "", ""}, {nil, nil}}[g.R.Intn(4)]
			misuse[len(calls)] = "wrong number of arguments"
			calls = append(calls, call{Args: m})
			texts = append(texts, "")
			continue
		case r == 1 && len(pool) > 0: // again
			s := pool[g.R.Intn(len(pool))]
			calls, texts = append(calls, call{Args: []any{s}, This: g.R.Intn(2) == 0}), append(texts, s)
			continue
		}
		if len(pool) > 0 && (r < 5 || n > 60 && r < 11) { // a text that is easily taken for an earlier one
			s := strings.ToValidUTF8(g.Near(pool[g.R.Intn(len(pool))]), "?")
			if n > 60 && len(s) > 1500 {
				s = fmt.Sprintf("database d%d; table t {a int default(%d)}", k, k%7)
			}
			c.Count("text: near an earlier one", 1)
			if len(pool) < 40 {
				pool = append(pool, s)
			}
			calls, texts = append(calls, call{Args: []any{s}}), append(texts, s)
			continue
		}
		kind, s := hostileText(g, g.R.Intn(Kinds))
		if g.R.Intn(3) == 0 {
			kind, s = "valid", g.Text(g.Prog(gen.Full))
		}
		if k == 5 && i%3 == 0 {
			kind, s = "large", largeText(g, i/3)
		}
		s = strings.ToValidUTF8(s, "?")
		if g.R.Intn(4) == 0 {
			if g.R.Intn(2) == 0 { // a fault at the end
				if t, e := kf.Lex(s); len(e) == 0 && len(t) > 2 {
					s = string([]rune(s)[:t[g.R.Intn(len(t))].Pos])
				}
			}
			s = g.Pad(s)
		}
		if g.R.Intn(40) == 0 { // half of a surrogate pair, which JavaScript strings may have
			k := g.R.Intn(len(s) + 1)
			for k < len(s) && !utf8.RuneStart(s[k]) {
				k++
			}
			kind, s = "with half a surrogate pair", strings.ReplaceAll(s[:k], "\ue000", "")+"\ufffd"+strings.ReplaceAll(s[k:], "\ue000", "")
			c.Count("text: "+kind, 1)
			calls, texts = append(calls, call{Args: []any{strings.Replace(s, "\ufffd", "\ue000", 1)}, Half: 0xd800 + g.R.Intn(2048)}), append(texts, s)
			continue
		}
		c.Count("text: "+kind, 1)
		pool = append(pool, s)
		calls, texts = append(calls, call{Args: []any{s}}), append(texts, s)
	}
	all, _ := json.Marshal(texts)
	c.Begin(string(all))
	defer c.End()
	l, log, err := node(c, calls)
	if err != nil && len(l) == 0 && !strings.Contains(log, "panic") && !strings.Contains(log, "exit code") {
		panic("HARNESS: node: " + err.Error() + ": " + mon.Clip(log, 2000))
	}
	fail := func(k int, m string) {
		src := ""
		if k < len(texts) {
			src = texts[k]
		}
		c.Fail("wasm", fmt.Sprintf("call %d of one instance: %s", k+1, m), src, map[string]any{"earlier": texts[:min(k, len(texts))], "log": mon.Clip(log, 2000)})
	}
	for k := range calls {
		if k >= len(l) {
			fail(k, "the module gave no answer: "+mon.Clip(log, 800))
			return
		}
		a := l[k]
		c.Count("calls", 1)
		if a.Throw != "" {
			fail(k, "the call throws "+a.Throw)
			return
		}
		if a.Earlier != "" {
			fail(k, "this call changes "+a.Earlier)
			return
		}
		if misuse[k] != "" {
			c.Count("calls with a wrong number of arguments", 1)
			if a.Type != "string" || !strings.Contains(string(a.Value), "Invalid no of arguments") {
				fail(k, fmt.Sprintf("%d arguments give %s %s", len(calls[k].Args), a.Type, a.Value))
				return
			}
			continue
		}
		o := sut.Compile(texts[k])
		if o.Panic != nil {
			continue
		}
		c.Eval(texts[k])
		switch {
		case a.Type != "object" || a.Json == nil:
			fail(k, fmt.Sprintf("the answer is not an object with json: %s %s %v", a.Type, a.Value, a.Keys))
		case o.OK() && (a.Error != nil || *a.Json != string(o.JSON)):
			fail(k, fmt.Sprintf("natively the program compiles to %s, here json is %s, error %s", mon.Clip(string(o.JSON), 300), mon.Clip(*a.Json, 300), str(a.Error)))
		case o.Err != nil && (a.Error == nil || *a.Json != "" || *a.Error != "parsing failed: "+o.Err.Error()+"\n"):
			fail(k, fmt.Sprintf("natively the program is rejected with %q, here json is %q, error %s", o.Err, mon.Clip(*a.Json, 300), str(a.Error)))
		case o.OK():
			c.Count("compiled alike", 1)
			continue
		default:
			c.Count("rejected alike", 1)
			continue
		}
		return
	}
	c.Max("max calls in one instance", int64(len(calls)))
	if i < 2 {
		c.Sample(map[string]any{"calls": len(calls), "first": mon.Clip(texts[0], 200)})
	}
}

// wasmSizes: texts and artifacts of exact sizes in one instance.
func wasmSizes(c *mon.C) {
	var texts []string
	for i, n := range exactSizes(c) {
		for k, s := range sized(n) {
			if (i+k)%c.Shards == c.Shard {
				texts = append(texts, s)
			}
		}
	}
	for ; len(texts) > 200; texts = texts[200:] {
		wasmAll(c, texts[:200])
	}
	wasmAll(c, texts)
}

func wasmAll(c *mon.C, texts []string) {
	c.Begin("texts of exact sizes")
	defer c.End()
	calls := make([]call, len(texts))
	for i, s := range texts {
		calls[i] = call{Args: []any{s}}
	}
	l, log, err := node(c, calls)
	if err != nil && len(l) == 0 && !strings.Contains(log, "panic") && !strings.Contains(log, "exit code") {
		panic("HARNESS: node: " + err.Error() + ": " + mon.Clip(log, 2000))
	}
	for i, s := range texts {
		o := sut.Compile(s)
		if i >= len(l) {
			c.Fail("wasm", "the module gave no answer: "+mon.Clip(log, 800), s, nil)
			return
		}
		a := l[i]
		c.Count("texts or artifacts of an exact size", 1)
		c.Eval("size " + s)
		switch {
		case o.Panic != nil:
		case a.Earlier != "":
			c.Fail("wasm", fmt.Sprintf("call %d of one instance changes %s", i+1, a.Earlier), s, nil)
			return
		case a.Type != "object" || a.Json == nil,
			o.OK() && (a.Error != nil || *a.Json != string(o.JSON)),
			o.Err != nil && (a.Error == nil || *a.Json != "" || *a.Error != "parsing failed: "+o.Err.Error()+"\n"):
			c.Fail("wasm", fmt.Sprintf("call %d of one instance, a text of %d bytes with an artifact of %d: not as natively: %s %s", i+1, len(s), len(o.JSON), mon.Clip(string(a.Value), 300), str(a.Error)), s, nil)
			return
		}
	}
}

func str(s *string) string {
	if s == nil {
		return "none"
	}
	return fmt.Sprintf("%q", mon.Clip(*s, 300))
}

func init() {
	reg(&mon.Check{ID: "C21", Rule: "batches of 60 calls to the exported function of one instance of the real WebAssembly module under node: valid, faulty, edited, random and repeated texts, and calls with a wrong number of arguments; " +
		"every answer is compared with the native compilation of the same text. Distinct by text.",
		Quick: 32, Thorough: 6000, Case: wasmBatch, OnceShard: wasmSizes,
		Floors: map[string]int64{"compiled alike": 500, "rejected alike": 500, "calls with a wrong number of arguments": 50}})
}
