package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
	"kfverif/sut"
)

func goid() int64 {
	var b [40]byte
	s := string(b[:runtime.Stack(b[:], false)])
	f := strings.Fields(s)
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n
}

type event struct {
	t     int64
	who   int
	phase string
}

// crew runs the same moment on n goroutines. What they note of the phases they
// pass goes to buffers of their own, so that watching adds no ordering between
// them that would hide a race.
type crew struct {
	n      int
	jitter int
	slots  map[int64]int // goroutine to slot, fixed before the start
	bufs   [][]event
	start  time.Time
}

func (w *crew) hook(phase string) {
	i, ok := w.slots[goid()]
	if !ok {
		return
	}
	now := time.Since(w.start).Nanoseconds()
	w.bufs[i] = append(w.bufs[i], event{now, i, phase})
	switch x := (now ^ int64(i)*7919) % 16; {
	case w.jitter == 0:
	case w.jitter == 1 || x < 6:
		runtime.Gosched()
	case w.jitter == 2 && x < 12:
		for t := time.Now(); time.Since(t) < time.Duration(x*5)*time.Microsecond; {
		}
	case w.jitter == 3:
		time.Sleep(time.Duration(x*20) * time.Microsecond)
	case w.jitter == 4: // all are under way at once
		time.Sleep(time.Duration(400+x*40) * time.Microsecond)
	}
}

// run releases n goroutines at once, and gives the order in which they passed their phases.
func (w *crew) run(watch bool, f func(i int)) []event {
	w.slots, w.bufs = map[int64]int{}, make([][]event, w.n)
	ids := make([]int64, w.n)
	var ready, done sync.WaitGroup
	gate := make(chan struct{})
	ready.Add(w.n)
	done.Add(w.n)
	for i := 0; i < w.n; i++ {
		i := i
		go func() {
			defer done.Done()
			ids[i] = goid()
			ready.Done()
			<-gate
			f(i)
		}()
	}
	ready.Wait()
	for i, id := range ids {
		w.slots[id] = i
	}
	w.start = time.Now()
	if watch {
		setHook(w.hook)
	}
	close(gate)
	done.Wait()
	setHook(nil)
	var l []event
	for _, b := range w.bufs {
		l = append(l, b...)
	}
	sort.SliceStable(l, func(a, b int) bool { return l[a].t < l[b].t })
	return l
}

// note counts what was seen to overlap.
func note(c *mon.C, l []event, tag string) {
	var sig strings.Builder
	in := map[int]bool{}
	most := 0
	pairs := map[string]bool{}
	at := map[int]string{}
	for _, e := range l {
		fmt.Fprintf(&sig, "%d%s,", e.who, e.phase[:1])
		in[e.who] = e.phase != "done"
		if e.phase != "done" {
			at[e.who] = e.phase
		} else {
			delete(at, e.who)
		}
		n := 0
		for _, x := range in {
			if x {
				n++
			}
		}
		if n > most {
			most = n
		}
		for o, ph := range at {
			if o != e.who {
				pairs[ph+" while "+e.phase] = true
			}
		}
	}
	if len(l) > 0 {
		c.Count("phase events", int64(len(l)))
		c.Max("max compilations under way at once", int64(most))
		for p := range pairs {
			c.Count("rounds with "+p, 1)
		}
		c.Eval(tag + sig.String())
	} else {
		c.Eval("")
	}
}

// readers uses everything a shared result offers for reading, starting with
// another part each time.
func readers(s *schema.Schema, first int) string {
	parts := []func(all *bytes.Buffer){
		func(all *bytes.Buffer) {
			b, err := s.ToJSON()
			fmt.Fprint(all, string(b), err)
		},
		func(all *bytes.Buffer) { fmt.Fprint(all, s.Accept(schema.NewCtxValidator())) },
		func(all *bytes.Buffer) {
			for i := range s.Tables {
				x, _ := s.Tables[i].ToJSON()
				all.Write(x)
				for k := range s.Tables[i].Columns {
					x, _ := s.Tables[i].Columns[k].ToJSON()
					all.Write(x)
					for j := range s.Tables[i].Columns[k].Attributes {
						x, _ := s.Tables[i].Columns[k].Attributes[j].ToJSON()
						all.Write(x)
					}
				}
				for k := range s.Tables[i].Indexes {
					x, _ := s.Tables[i].Indexes[k].ToJSON()
					all.Write(x)
				}
				for k := range s.Tables[i].ForeignKeys {
					x, _ := s.Tables[i].ForeignKeys[k].ToJSON()
					all.Write(x)
				}
			}
			for i := range s.Extensions {
				x, _ := s.Extensions[i].ToJSON()
				all.Write(x)
			}
		},
		func(all *bytes.Buffer) {
			for i := range s.Actions {
				x, _ := s.Actions[i].ToJSON()
				all.Write(x)
				for _, t := range s.Actions[i].Annotations {
					a, err := utils.ParseAnnotation(t)
					fmt.Fprint(all, err)
					if a != nil {
						fmt.Fprintf(all, "%+v", *a)
					}
				}
			}
		},
		func(all *bytes.Buffer) {
			for _, kw := range []string{"int", "TEXT", "unique", "minlen", "Max", "index", "nosuch"} {
				all.WriteString(lookAll(kw))
			}
		},
	}
	bufs := make([]bytes.Buffer, len(parts))
	for i := range parts {
		k := (i + first) % len(parts)
		parts[k](&bufs[k])
	}
	var all bytes.Buffer
	for i := range bufs {
		fmt.Fprintf(&all, "[%d] %s\n", i, bufs[i].String())
	}
	return all.String()
}

func lookAll(kw string) string {
	a, e1 := schema.GetColumnType(kw)
	d, e2 := schema.GetAttributeType(kw)
	f, e3 := schema.GetIndexType(kw)
	return fmt.Sprintln(kw, a, e1, d, e2, f, e3)
}

// freshWords are spellings of the keywords that nobody looked up before, and
// annotation texts that nobody read before.
func freshWords(g *gen.G) (words, annots []string) {
	for _, kw := range strings.Fields("null text int blob primary unique notnull default min max minlen maxlen index nosuch primary_key not_null unique_btree btree") {
		for k := 0; k < 3; k++ {
			b := []byte(kw)
			for i := range b {
				if b[i] >= 'a' && b[i] <= 'z' && g.R.Intn(2) == 0 {
					b[i] -= 32
				}
			}
			words = append(words, string(b))
		}
	}
	for k := 0; k < 6; k++ {
		annots = append(annots, g.Annot(gen.Full).Compact())
	}
	return
}

func useWords(words, annots []string, from int) string {
	l := make([]string, len(words)+len(annots))
	for i := range l {
		k := (i + from) % len(l)
		if k < len(words) {
			l[k] = lookAll(words[k])
			continue
		}
		a, err := utils.ParseAnnotation(annots[k-len(words)])
		l[k] = fmt.Sprint(err)
		if a != nil {
			l[k] += fmt.Sprintf("%+v", *a)
		}
	}
	return strings.Join(l, "\n")
}

// traceOff sends what trace mode prints nowhere.
func traceOff() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}

var quietOnce sync.Once

// raceRound is one round of concurrent use; it returns what went wrong.
func raceRound(c *mon.C, g *gen.G, kind int, texts []string) string {
	var want []string
	alone := func() {
		for _, t := range texts {
			want = append(want, outcome(sut.Compile(t)))
		}
	}
	// what is expected is found before or after: both what is remembered from
	// earlier uses and what is done for the first time may go wrong
	if g.R.Intn(2) == 0 {
		alone()
	}
	quietOnce.Do(traceOff)
	n := []int{2, 3, 4, 8, 16, 24}[g.R.Intn(6)]
	w := &crew{n: n, jitter: g.R.Intn(4)}
	watch := g.R.Intn(3) > 0
	if kind == 7 {
		n = 26 + g.R.Intn(40)
		w.n, w.jitter, watch = n, 4, true
	}
	bad := atomic.Pointer[string]{}
	fail := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		bad.CompareAndSwap(nil, &s)
	}
	plan := make([][]int, n) // which texts each goroutine compiles
	for i := range plan {
		for k, n := 0, 1+g.R.Intn(2); k < n; k++ {
			switch kind {
			case 0: // all the same
				plan[i] = append(plan[i], 0)
			case 1: // few
				plan[i] = append(plan[i], g.R.Intn(min(3, len(texts))))
			default:
				plan[i] = append(plan[i], g.R.Intn(len(texts)))
			}
		}
	}
	var shared []*schema.Schema
	var sharedWant []string
	if kind == 3 || kind == 4 {
		for _, t := range texts {
			get := func() *schema.Schema { // not used yet
				defer func() { recover() }()
				r, err := kfparser.Parse(t)
				if s, ok := r.(*schema.Schema); ok && err == nil {
					return s
				}
				return nil
			}
			s, twin := get(), get()
			if s == nil || twin == nil {
				continue
			}
			if k := g.R.Intn(3); k > 0 { // built otherwise than by the compiler
				b, _ := s.ToJSON()
				seed := g.R.Int63()
				s, twin = new(schema.Schema), new(schema.Schema)
				for _, x := range []*schema.Schema{s, twin} {
					if json.Unmarshal(b, x) != nil {
						return "a result cannot be read back"
					}
					if k == 2 {
						reshape(reflect.ValueOf(x), gen.New(seed))
					}
				}
			}
			shared = append(shared, s)
			sharedWant = append(sharedWant, readers(twin, 0))
		}
	}
	words, annots := freshWords(g)
	heard := make([][]string, n) // what each goroutine got, in its order
	modes := g.R.Intn(4)
	ev := w.run(watch, func(i int) {
		defer func() {
			if r := recover(); r != nil {
				fail("a goroutine panicked: %v", r)
			}
		}()
		if (kind == 3 || kind == 4 && i%2 == 0) && len(shared) > 0 {
			for k := 0; k < 3; k++ {
				j := (i/2 + k) % len(shared)
				if kind == 3 {
					j = k % len(shared)
				}
				if got := readers(shared[j], (i*modes+k)%5); got != sharedWant[j] {
					fail("reading a shared result gives %s, alone %s", mon.Clip(got, 500), mon.Clip(sharedWant[j], 500))
				}
			}
			return
		}
		if kind == 6 {
			heard[i] = append(heard[i], useWords(words, annots, i*modes))
			return
		}
		for _, t := range plan[i] {
			var l *utils.ErrorListener
			if modes&1 == 1 && i%2 == 0 {
				l = utils.NewErrorListener()
			}
			mode := kfparser.Default
			if modes == 2 && i%2 == 1 {
				mode = kfparser.Trace
			}
			o := sut.CompileWith(texts[t], l, mode)
			heard[i] = append(heard[i], outcome(o))
			if o.OK() {
				scribble(reflect.ValueOf(o.Ast)) // it is ours alone
			}
		}
	})
	if want == nil {
		alone()
	}
	if kind == 6 {
		ref := useWords(words, annots, 0)
		for i := range heard {
			if len(heard[i]) > 0 && heard[i][0] != ref {
				fail("lookups among %d others: %s; alone: %s", n-1, mon.Clip(heard[i][0], 2000), mon.Clip(ref, 2000))
			}
		}
	} else {
		for i := range heard {
			for k, got := range heard[i] {
				if t := plan[i][k]; got != want[t] {
					fail("compiled among %d others: %s; alone: %s; text %q", n-1, mon.Clip(got, 500), mon.Clip(want[t], 500), mon.Clip(texts[t], 3000))
				}
			}
		}
	}
	if c != nil {
		note(c, ev, fmt.Sprint(kind))
		c.Count(fmt.Sprintf("rounds of kind %d", kind), 1)
		c.Count("concurrent uses", int64(n))
		c.Max("max goroutines", int64(n))
	}
	if p := bad.Load(); p != nil {
		return *p
	}
	return ""
}

// Cold is run in a fresh process: the very first uses of the compiler are concurrent.
func Cold(seedText, kindText string) {
	seed, _ := strconv.ParseInt(seedText, 10, 64)
	kind, _ := strconv.Atoi(kindText)
	g := gen.New(seed)
	texts := raceTexts(g, 6)
	out := os.Stdout
	traceOff()
	n := 8
	got := make([]string, n)
	w := &crew{n: n}
	words, annots := freshWords(g)
	said := make([]string, n)
	w.run(false, func(i int) {
		if (i+kind/2)%3 == 0 {
			said[i] = useWords(words, annots, i)
		}
		if kind%2 == 0 {
			got[i] = outcome(sut.Compile(texts[0]))
			return
		}
		got[i] = outcome(sut.Compile(texts[i%len(texts)]))
	})
	ref := useWords(words, annots, 0)
	for i := range said {
		if said[i] != "" && said[i] != ref {
			fmt.Fprintf(out, "the first lookups, at once: %s; later: %s", mon.Clip(said[i], 2000), mon.Clip(ref, 2000))
			return
		}
	}
	for i := range got {
		t := texts[0]
		if kind%2 != 0 {
			t = texts[i%len(texts)]
		}
		if want := outcome(sut.Compile(t)); got[i] != want {
			fmt.Fprintf(out, "the first uses of the compiler, at once: %s; later: %s; text %q", mon.Clip(got[i], 500), mon.Clip(want, 500), mon.Clip(t, 3000))
			return
		}
	}
	fmt.Fprint(out, "ok")
}

func raceTexts(g *gen.G, n int) (l []string) {
	for i := 0; i < n; i++ {
		switch g.R.Intn(8) {
		case 0, 1, 2:
			l = append(l, g.Text(g.Prog(gen.Full)))
		case 3: // the same declarations under other contents: caches keyed too coarsely
			p := g.Prog(gen.Full)
			q := newRenamer(g.R.Int63(), false).prog(p)
			q.Name = p.Name
			l = append(l, g.Text(p), g.Text(q))
		case 4:
			l = append(l, KitchenSink)
		default:
			_, s := hostileText(g, g.R.Intn(Kinds))
			l = append(l, strings.ToValidUTF8(s, "?"))
		}
	}
	g.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return
}

// shortTexts are small ones, valid and with every kind of fault.
var shortTexts = strings.FieldsFunc(`database d;|database d; table t {a int}|database d; table t {a int, a int}|database d; table t {a int} table t {a int}|database d; table t {a int, #i index(b)}|database d; table t {a int, fk(a) ref u(a)}
database d; table t {a text min(1)}|database d; table t {a int unique unique}|database d; table t {a int, fk(a) ref t(a) on_update cascade on_update cascade}|database d; action a($x, $x) public {select 1;}|database d; action a() public {b();}|database d; action a() public {a($x);}
database d; action a() public {e.m();}|database d; action a() public public {select 1;}|database d; action a() public {select from;}|database d; init() {select 1;} init() {select 1;}|database d; use e as f; use g as f;|database d; use e as f; action a() public {$x, $x = f.m();}
database d|table t {a int}|database d; table t {a}|database d; @n(x=1) action a() view owner {select 1;}|database d; init() {select 'x';}|database d; action a() private {select 1; select 2;} action a() public {select 3;}|#`, func(r rune) bool { return r == 124 || r == 10 })

func raceCase(c *mon.C, i int) {
	g := c.G()
	if i%12 == 11 {
		self, _ := os.Executable()
		seed := g.R.Int63()
		c.Begin(fmt.Sprintf("first uses in a fresh process, seed %d", seed))
		cmd := exec.Command(self, "cold", fmt.Sprint(seed), fmt.Sprint(i/12))
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		c.End()
		c.Count("cold starts", 1)
		c.Eval("")
		if err != nil || out.String() != "ok" {
			msg := out.String()
			if err != nil {
				msg = "a process whose first uses of the compiler were concurrent failed: " + err.Error()
				if strings.Contains(errb.String(), "HARNESS:") || !strings.Contains(errb.String(), "goroutine") {
					panic("HARNESS: cold start: " + errb.String())
				}
				if strings.Contains(errb.String(), "DATA RACE") {
					msg = "data race among the first uses of the compiler"
				}
			}
			c.Fail("cold start", msg, "", mon.Clip(errb.String(), 6000))
		}
		return
	}
	texts := raceTexts(g, 5)
	if i%8 == 7 {
		texts = append([]string{}, shortTexts...)
		g.R.Shuffle(len(texts), func(i, j int) { texts[i], texts[j] = texts[j], texts[i] })
		texts = texts[:5+g.R.Intn(len(texts)-5)]
	}
	all, _ := json.Marshal(texts)
	c.Begin(string(all))
	kind := i % 8
	if m := raceRound(c, g, kind, texts); m != "" {
		c.Fail("concurrency", m, "", texts)
	}
	c.End()
	for _, t := range texts { // what was compiled alone is also right
		if p, e := kf.Parse(t); e == nil && kf.Validate(p).OK() {
			c.Count("valid texts", 1)
			if !strings.HasPrefix(outcome(sut.Compile(t)), "ok ") {
				c.Count("valid texts rejected", 1)
			}
		}
	}
	if i < 4 {
		c.Sample(map[string]any{"kind": kind, "texts": len(texts), "first": mon.Clip(texts[0], 200)})
	}
}

func init() {
	reg(&mon.Check{ID: "C17", Rule: "rounds of 2 to 24 goroutines released at once that compile the same or different texts (valid, faulty, edited, near-copies), with and without a listener, tracing or not, " +
		"overwrite their own results, and read shared results (serialise, validate, read annotations, look words up; fresh from the compiler or decoded), look up spellings never looked up before, under the Go race detector and at full speed, with jitter injected between the phases of a compilation; " +
		"every twelfth round is a fresh process whose very first uses are concurrent. Every outcome is compared with the sequential one. Distinct by the observed order of phases of all goroutines.",
		Quick: 480, Thorough: 60000, Case: raceCase, MaxShards: 4, Race: true,
		Floors: map[string]int64{"phase events": 5000, "max compilations under way at once": 4, "cold starts": 20},
		Assume: []string{"the race detector sees races only on schedules that ran"}})
}
