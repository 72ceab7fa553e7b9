// Package mon runs checks: it shards cases over worker processes, watches
// them, collects what the monitors observed, and writes evidence and replays.
package mon

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"kfverif/gen"
	"kfverif/kf"
)

// Check is the decision procedure of one property.
type Check struct {
	ID        string
	Rule      string // how cases are made and what makes one non-trivial
	Level     string
	Quick     int // number of cases
	Thorough  int
	Case      func(c *C, i int)
	Once      func(c *C)              // fixed scenarios, on shard 0
	OnceShard func(c *C)              // on every shard, after the cases
	Replay    func(c *C, src string)  // judge one source text again
	Judge     func(src string) string // "" if src shows no violation; enables shrinking
	Floors    map[string]int64        // counters the run must reach to count as an answer
	Assume    []string
	MaxShards int
	Exhaust   bool
	Race      bool // every other shard runs under the race detector
}

// Violation is one observed breach.
type Violation struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Message  string `json:"message"`
	Source   string `json:"source,omitempty"`
	Shrunk   string `json:"shrunk,omitempty"`
	Case     int    `json:"case"`
	Seed     int64  `json:"seed"`
	Detail   any    `json:"detail,omitempty"`
}

// C is the state of one worker.
type C struct {
	Check  *Check
	Tier   string
	Seed   int64
	Shard  int
	Shards int
	Dir    string // private scratch directory
	I      int    // current case

	mu       sync.Mutex
	Evals    int64
	Counters map[string]int64
	distinct map[uint64]struct{}
	samples  []any
	viol     []Violation
	cur      *os.File
	started  atomic.Int64
	failures int
}

// Result of a worker.
type Result struct {
	Evals    int64
	Counters map[string]int64
	Distinct []uint64
	Samples  []any
	Viol     []Violation
}

func (c *C) Thorough() bool { return c.Tier == "thorough" }

// G is the generator of the current case.
func (c *C) G() *gen.G { return gen.New(c.CaseSeed(c.I)) }

func (c *C) CaseSeed(i int) int64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", c.Check.ID, c.Seed, i)))
	return int64(binary.LittleEndian.Uint64(h[:8]) >> 1)
}

// Count adds to a named counter of observed events.
func (c *C) Count(name string, n int64) {
	c.mu.Lock()
	c.Counters[name] += n
	c.mu.Unlock()
}

// Max keeps the largest value.
func (c *C) Max(name string, n int64) {
	c.mu.Lock()
	if n > c.Counters[name] {
		c.Counters[name] = n
	}
	c.mu.Unlock()
}

// Eval notes one execution; key identifies it among distinct ones, "" if it is trivial.
func (c *C) Eval(key string) {
	c.mu.Lock()
	c.Evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		c.distinct[h.Sum64()] = struct{}{}
	}
	c.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence.
func (c *C) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 2 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Begin notes the input about to be given to the compiler, so that a crash or
// a hang of this process can be attributed.
func (c *C) Begin(src string) {
	c.started.Store(time.Now().UnixNano())
	if c.cur != nil {
		b, _ := json.Marshal(map[string]any{"case": c.I, "source": Clip(src, 200000)})
		c.cur.Truncate(0)
		c.cur.WriteAt(b, 0)
	}
}

// End notes that the compiler came back.
func (c *C) End() { c.started.Store(0) }

func Clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(clipped)"
	}
	return s
}

// Full says that enough violations were collected.
func (c *C) Full() bool { return c.failures >= 3 }

// Fail records a violation.
func (c *C) Fail(kind, msg, src string, detail any) {
	v := Violation{Property: c.Check.ID, Kind: kind, Message: msg, Source: src, Case: c.I, Seed: c.Seed, Detail: detail}
	if c.Check.Judge != nil && src != "" && kind == "oracle" {
		// a smaller text may need more time than there is: give up then, and
		// look no further in this process
		small := make(chan string, 1)
		go func() { small <- Shrink(src, c.Check.Judge, 20*time.Second) }()
		select {
		case v.Shrunk = <-small:
		case <-time.After(60 * time.Second):
			c.failures += 3
		}
	}
	c.mu.Lock()
	c.failures++
	if len(c.viol) < 5 {
		c.viol = append(c.viol, v)
	}
	c.mu.Unlock()
}

// Judged runs Judge on src, with bookkeeping.
func (c *C) Judged(src string) bool {
	if kf.Hard(src) {
		c.Count("left out: deep parentheses in SQL", 1)
		return true
	}
	c.Begin(src)
	m := c.Check.Judge(src)
	c.End()
	if m != "" {
		c.Fail("oracle", m, src, nil)
	}
	return m == ""
}

const hang = 150 * time.Second

// Worker runs one shard and writes its result.
func Worker(ch *Check, tier string, seed int64, shard, shards int, dir string) {
	c := newC(ch, tier, seed, shard, shards, dir)
	c.cur, _ = os.Create(filepath.Join(dir, "current"))
	go func() {
		for {
			time.Sleep(2 * time.Second)
			if t := c.started.Load(); t != 0 && time.Since(time.Unix(0, t)) > hang {
				os.WriteFile(filepath.Join(dir, "hang"), []byte("x"), 0o644)
				os.Exit(3)
			}
		}
	}()
	n := ch.Quick
	if c.Thorough() {
		n = ch.Thorough
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if shard == 0 && ch.Once != nil {
		c.I = -1
		ch.Once(c)
	}
	if ch.Case != nil {
		for i := shard; i < n && !c.Full(); i += shards {
			c.I = i
			ch.Case(c, i)
		}
	}
	if ch.OnceShard != nil && !c.Full() {
		c.I = -2
		ch.OnceShard(c)
	}
	r := Result{Evals: c.Evals, Counters: c.Counters, Samples: c.samples, Viol: c.viol}
	for h := range c.distinct {
		r.Distinct = append(r.Distinct, h)
	}
	b, err := json.Marshal(r)
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, "result"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
}

func newC(ch *Check, tier string, seed int64, shard, shards int, dir string) *C {
	return &C{Check: ch, Tier: tier, Seed: seed, Shard: shard, Shards: shards, Dir: dir, Counters: map[string]int64{}, distinct: map[uint64]struct{}{}}
}

// Root is /verif.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// Finding is one line of the known-findings file.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	Match    string `json:"match"`  // substring of the violation's message that identifies it
	Input    string `json:"input"`  // substring of the violation's source that identifies it
	What     string `json:"what"`
}

func findings() (l []Finding) {
	b, err := os.ReadFile(filepath.Join(Root(), "known_findings.jsonl"))
	if err != nil {
		return
	}
	for _, ln := range strings.Split(string(b), "\n") {
		var f Finding
		if strings.HasPrefix(ln, "{") && json.Unmarshal([]byte(ln), &f) == nil {
			l = append(l, f)
		}
	}
	return
}

// Main runs a check and gives the exit code.
func Main(ch *Check) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if shards < 2 {
		shards = 2
	}
	if ch.MaxShards > 0 && shards > ch.MaxShards {
		shards = ch.MaxShards
	}
	tmp, err := os.MkdirTemp("", "kfverif-"+ch.ID+"-")
	if err != nil {
		fmt.Println("cannot make a scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	limit := 600 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	var viol []Violation
	broken := ""
	tot := Result{Counters: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			dir := filepath.Join(tmp, fmt.Sprint("s", s))
			os.MkdirAll(dir, 0o755)
			timedOut := false
			var err error
			for try := 0; try < 2; try++ {
				out, _ := os.Create(filepath.Join(dir, "log"))
				bin := self
				env := append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
				if ch.Race {
					if b := os.Getenv("KF_RACE_BIN"); b != "" && s%2 == 0 {
						bin = b
					}
					env = append(env, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=4")
				}
				// some workers run where many variables are set
				if o := s % 8; o > 4 {
					env = append(env, gen.Environment(rand.New(rand.NewSource(seed*100+int64(s))), []int{30, 100, 100}[o-5], []string{"", "true", "1"}[o-5])...)
				}
				cmd := exec.Command(bin, "worker", ch.ID, tier, fmt.Sprint(seed), fmt.Sprint(s), fmt.Sprint(shards), dir)
				cmd.Stdout, cmd.Stderr = out, out
				cmd.Env = env
				err = cmd.Start()
				if err == nil {
					done := make(chan error, 1)
					go func() { done <- cmd.Wait() }()
					select {
					case err = <-done:
					case <-time.After(limit):
						timedOut = true
						cmd.Process.Kill()
						err = <-done
					}
				}
				info, _ := out.Stat()
				out.Close()
				// ended from outside, and not because of what it did: once more
				if timedOut || err == nil || err.Error() != "signal: killed" || info == nil || info.Size() > 0 {
					break
				}
			}
			mu.Lock()
			defer mu.Unlock()
			var r Result
			b, rerr := os.ReadFile(filepath.Join(dir, "result"))
			if err == nil && rerr == nil && json.Unmarshal(b, &r) == nil {
				tot.Evals += r.Evals
				for k, v := range r.Counters {
					if strings.HasPrefix(k, "max ") {
						if v > tot.Counters[k] {
							tot.Counters[k] = v
						}
						continue
					}
					tot.Counters[k] += v
				}
				for _, h := range r.Distinct {
					distinct[h] = struct{}{}
				}
				if len(tot.Samples) < 6 {
					tot.Samples = append(tot.Samples, r.Samples...)
				}
				viol = append(viol, r.Viol...)
				return
			}
			log, _ := os.ReadFile(filepath.Join(dir, "log"))
			text := string(log)
			if strings.Contains(text, "HARNESS:") || strings.Contains(text, "gen: ") {
				broken = fmt.Sprintf("the harness itself failed: %s", Clip(tail(text), 3000))
				return
			}
			var cur struct {
				Case   int
				Source string
			}
			cb, _ := os.ReadFile(filepath.Join(dir, "current"))
			json.Unmarshal(cb, &cur)
			v := Violation{Property: ch.ID, Kind: "crash", Source: cur.Source, Case: cur.Case, Seed: seed, Detail: Clip(tail(text), 6000)}
			v.Message = "the process running the compiler died: " + firstLine(text)
			if _, e := os.Stat(filepath.Join(dir, "hang")); e == nil {
				v.Kind = "hang"
				v.Message = fmt.Sprintf("the compiler did not answer within %v", hang)
			} else if timedOut {
				broken = fmt.Sprintf("shard %d ran out of time", s)
				return
			} else if cur.Source == "" {
				broken = fmt.Sprintf("shard %d failed: %v: %s", s, err, Clip(tail(text), 2000))
				return
			}
			viol = append(viol, v)
		}(s)
	}
	wg.Wait()
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Case < viol[j].Case })

	known := findings()
	var fresh []Violation
	seen := map[string]bool{}
	for _, v := range viol {
		hit := false
		for _, f := range known {
			if f.Status == "known" && f.Property == v.Property && strings.Contains(v.Message, f.Match) && strings.Contains(v.Source, f.Input) {
				hit = true
				if !seen[f.What] {
					seen[f.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Property, f.What)
				}
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	// a repeated message says nothing new
	seen = map[string]bool{}
	n := 0
	for _, v := range fresh {
		if n >= 5 || seen[v.Message] {
			continue
		}
		seen[v.Message] = true
		n++
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n", v.Property, writeReplay(v), v.Kind, Clip(v.Message, 1500))
		if v.Shrunk != "" {
			fmt.Printf("  smallest input found: %q\n", Clip(v.Shrunk, 600))
		}
	}
	evidence(ch, tier, seed, tot, len(distinct), len(fresh), time.Since(start))
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1fs\n", ch.ID, tier, seed, tot.Evals, len(distinct), len(fresh), time.Since(start).Seconds())
	if len(fresh) > 0 {
		return 1
	}
	if broken != "" {
		fmt.Println("NO ANSWER:", broken)
		return 2
	}
	var ks []string
	for k := range ch.Floors {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if os.Getenv("VERIF_CASES") == "" {
		for _, k := range ks {
			if tot.Counters[k] < ch.Floors[k] {
				fmt.Printf("NO ANSWER: observed only %d of %q, need %d\n", tot.Counters[k], k, ch.Floors[k])
				return 2
			}
		}
	}
	return 0
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "DATA RACE") || strings.Contains(l, "exceeds") {
			return Clip(l, 300)
		}
	}
	return Clip(strings.TrimSpace(s), 300)
}

func tail(s string) string {
	if len(s) > 6000 {
		return s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	return s
}

func writeReplay(v Violation) string {
	dir := filepath.Join(Root(), "replays")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(v, "", " ")
	h := fnv.New32a()
	h.Write(b)
	p := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", v.Property, h.Sum32()))
	os.WriteFile(p, b, 0o644)
	return p
}

func evidence(ch *Check, tier string, seed int64, r Result, distinct, viol int, d time.Duration) {
	level := ch.Level
	if level == "" {
		level = "exploration"
	}
	if len(r.Samples) > 6 {
		r.Samples = r.Samples[:6]
	}
	if r.Samples == nil {
		r.Samples = []any{}
	}
	cov := map[string]any{"evaluations": r.Evals, "distinct_nontrivial": distinct, "rule": ch.Rule, "samples": r.Samples, "observed": r.Counters}
	if ch.Exhaust {
		cov["exhaustive"] = true
	}
	e := map[string]any{"property": ch.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": d.Seconds(), "violations": viol}
	if len(ch.Assume) > 0 {
		e["assumptions"] = ch.Assume
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(Root(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(Root(), "evidence", ch.ID+".json"), append(b, '\n'), 0o644)
}

// ReplayFile judges a recorded violation again.
func ReplayFile(checks map[string]*Check, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	ch := checks[v.Property]
	if ch == nil {
		fmt.Println("unknown property", v.Property)
		return 2
	}
	dir, _ := os.MkdirTemp("", "kfverif-replay-")
	defer os.RemoveAll(dir)
	c := newC(ch, "quick", v.Seed, 0, 1, dir)
	c.I = v.Case
	for _, src := range []string{v.Shrunk, v.Source} {
		if src == "" {
			continue
		}
		switch {
		case ch.Judge != nil:
			if m := ch.Judge(src); m != "" {
				fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", v.Property, path, m)
				return 1
			}
		case ch.Replay != nil:
			ch.Replay(c, src)
		}
	}
	if len(c.viol) == 0 && ch.Case != nil && v.Case >= 0 {
		ch.Case(c, v.Case)
	} else if len(c.viol) == 0 && v.Case == -1 && ch.Once != nil {
		ch.Once(c)
	} else if len(c.viol) == 0 && v.Case == -2 && ch.OnceShard != nil {
		ch.OnceShard(c)
	}
	for _, x := range c.viol {
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", x.Property, path, x.Message)
	}
	if len(c.viol) > 0 {
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
