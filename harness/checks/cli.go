package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"kfverif/gen"
	"kfverif/kf"
	"kfverif/mon"
	"kfverif/sut"
)

// The command runs as an unprivileged user whose only files are in a scratch
// directory, so that whatever a broken build does stays there.
const nobody = 65534

var canDrop = sync.OnceValue(func() bool {
	if os.Geteuid() != 0 {
		return false
	}
	c := exec.Command("/bin/true")
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	return c.Run() == nil
})

// box is a scratch directory with what it should contain.
type box struct {
	dir string
}

func newBox(c *mon.C) *box {
	base := c.Dir
	d, err := os.MkdirTemp(base, "box-")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	os.Chmod(filepath.Dir(base), 0o711)
	os.Chmod(base, 0o711)
	b := &box{d}
	b.own("")
	return b
}

func (b *box) own(rel string) {
	p := filepath.Join(b.dir, rel)
	if canDrop() {
		os.Lchown(p, nobody, nobody)
	}
}

func (b *box) write(rel, s string) {
	p := filepath.Join(b.dir, rel)
	b.mkdir(filepath.Dir(rel))
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		panic("HARNESS: " + err.Error())
	}
	b.own(rel)
}

func (b *box) mkdir(rel string) {
	if rel == "." || rel == "" {
		return
	}
	p := filepath.Join(b.dir, rel)
	if _, err := os.Stat(p); err == nil {
		return
	}
	b.mkdir(filepath.Dir(rel))
	if err := os.Mkdir(p, 0o755); err != nil {
		panic("HARNESS: " + err.Error())
	}
	b.own(rel)
}

func (b *box) link(rel, to string) {
	b.mkdir(filepath.Dir(rel))
	if err := os.Symlink(to, filepath.Join(b.dir, rel)); err != nil {
		panic("HARNESS: " + err.Error())
	}
	b.own(rel)
}

func (b *box) remove() {
	filepath.WalkDir(b.dir, func(p string, d fs.DirEntry, err error) error {
		if d != nil && d.IsDir() {
			os.Chmod(p, 0o755)
		}
		return nil
	})
	os.RemoveAll(b.dir)
}

// tree is every file, directory and link of a box.
type tree map[string]string

func (b *box) tree() tree {
	t := tree{}
	filepath.WalkDir(b.dir, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(b.dir, p)
		if err != nil || rel == "." {
			return nil
		}
		switch {
		case d.IsDir():
			t[rel] = "dir"
		case d.Type()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			t[rel] = "link " + l
		case d.Type().IsRegular():
			x, err := os.ReadFile(p)
			if err != nil {
				t[rel] = "unreadable"
			} else {
				t[rel] = "file " + string(x)
			}
		default:
			t[rel] = d.Type().String()
		}
		return nil
	})
	return t
}

// diff tells how got differs from want; new directories in may are tolerated.
func (want tree) diff(got tree, mayDir func(string) bool) string {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		w, okw := want[k]
		g, okg := got[k]
		switch {
		case okw && !okg:
			return fmt.Sprintf("%q is gone", k)
		case !okw && g == "dir" && mayDir != nil && mayDir(k):
		case !okw:
			return fmt.Sprintf("%q appeared: %s", k, mon.Clip(g, 200))
		case w != g:
			i := 0
			for i < len(w) && i < len(g) && w[i] == g[i] {
				i++
			}
			return fmt.Sprintf("%q has %d bytes, should have %d, first difference at %d: %s", k, len(g), len(w), i, mon.Clip(g[i:], 100))
		}
	}
	return ""
}

// ran is what a run of the command showed.
type ran struct {
	code   int // -1 if killed by a signal
	out    string
	stdout string
	hung   bool
}

func cliPath() string {
	p := os.Getenv("KF_CLI")
	if p == "" {
		panic("HARNESS: KF_CLI is not set")
	}
	return p
}

// exec runs a command in the box.
func (b *box) exec(c *mon.C, argv []string, tweak func(*exec.Cmd)) ran {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = b.dir
	cmd.Env = runEnvironment(c, b.dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if canDrop() {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if tweak != nil {
		tweak(cmd)
	}
	cmd.WaitDelay = 2 * time.Second
	if err := cmd.Start(); err != nil {
		panic("HARNESS: cannot start " + argv[0] + ": " + err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var r ran
	var err error
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
		r.hung = true
	}
	var ee *exec.ExitError
	switch {
	case err == nil || errors.Is(err, exec.ErrWaitDelay):
	case errors.As(err, &ee):
		r.code = ee.ExitCode()
	default:
		panic("HARNESS: running " + argv[0] + ": " + err.Error())
	}
	r.stdout = so.String()
	r.out = so.String() + se.String()
	if c != nil {
		c.Count(fmt.Sprintf("exit code %d", r.code), 1)
	}
	return r
}

func (b *box) cli(c *mon.C, args ...string) ran {
	return b.exec(c, append([]string{cliPath()}, args...), nil)
}

// outName is the file a run writes in its output directory.
func outName(input string) string {
	n := filepath.Base(input)
	return strings.TrimSuffix(n, filepath.Ext(n)) + ".json"
}

func cliText(g *gen.G, valid int) string {
	if g.R.Intn(10) < valid {
		if g.R.Intn(15) == 0 { // a large artifact
			var b strings.Builder
			b.WriteString("database large;")
			for k, n := 0, g.R.Intn(600); k < n; k++ {
				fmt.Fprintf(&b, " action a%d($x) public { select '%s' from t; }", k, strings.Repeat("y", g.R.Intn(400)))
			}
			return b.String()
		}
		return g.Text(g.Prog(gen.Full))
	}
	_, s := hostileText(g, 1+g.R.Intn(7))
	return s
}

var cliNames = []string{"a.kf", "b.kf", "a", "a.b.kf", "my schema.kf", "übung.kf", "x.txt", "x.json", "A.KF", "a.kf.kf", "a..kf", "-x.kf", ".kf", ".hidden.kf", "a.", "%d.kf", "a;b.kf", "'q'.kf", "build", "b.", "1", " lead.kf", "trail .kf", "tail.kf ", "tab\t.kf", "new\nline.kf", "\u00a0nb.kf", " ", "q?.kf", "st*r.kf", "[x].kf", "b\\s.kf", "~", "~.kf", "$HOME.kf", "e=.kf", "c,d.kf", "x.KF", "x.json.kf", "json", ".json", "x.tar.gz", "-", "--", "\xff.kf", "#h.kf", "b!ng.kf", "co:lon.kf", "p|pe.kf", "a&b.kf", "<x>.kf", "(y).kf", "con.kf", "nul"}
var cliDirs = []string{"", "src", "src/deep/er", "in put", "v1.2", "build"}
var outDirs = []string{"", "", "out", "out/nested/deep", "o u t", "v1.2", "build", "src", "./out", "out/", "out/../out2", ".", "a.kf.d", "übung",
	"~", "~/x", "~root/x", "o$HOME", "$PWD/y", "${X}", "%TEMP%", "o*", "{a,b}", "a,b", "x;y", "%s", "o.json", " lead", "trail ", "new\nline", "file:x", "'q'", "...", "`x`", "-", "--", "o\\p", "#h", "o?a=b", "build.", "BUILD"}

// age gives a file a time of its own, at times.
func age(g *gen.G, p string) {
	if g.R.Intn(2) == 0 {
		return
	}
	d := []time.Duration{-time.Hour, time.Hour, -10 * 365 * 24 * time.Hour, 24 * time.Hour, -time.Second, time.Second}[g.R.Intn(6)]
	t := time.Now().Add(d).Truncate([]time.Duration{time.Second, time.Nanosecond}[g.R.Intn(2)])
	os.Chtimes(p, t, t)
}

// history is a random sequence of edits and runs in one directory, each judged
// against a model of what the directory should contain.
func history(c *mon.C, i int) {
	g := c.G()
	b := newBox(c)
	defer b.remove()
	c.Begin(fmt.Sprintf("command history, case %d", i))
	defer c.End()
	texts := map[string]string{} // inputs by path
	first := map[string]string{} // what they said at first
	var log []string
	var names []string
	pick := func() string {
		d := cliDirs[g.R.Intn(len(cliDirs))]
		n := cliNames[g.R.Intn(len(cliNames))]
		if g.R.Intn(12) == 0 {
			n = strings.Repeat("n", 1+g.R.Intn(240)) + ".kf"
		}
		if g.R.Intn(10) == 0 {
			n = []string{"x.json", "a.json", ".json", "a.b.json"}[g.R.Intn(4)]
		}
		return filepath.Join(d, n)
	}
	isInput := func(p string) bool { _, ok := texts[p]; return ok }
	ok := func(rel string) bool { // a new input may not sit where a directory or an output is
		st, err := os.Lstat(filepath.Join(b.dir, rel))
		if err == nil && !isInput(rel) || err == nil && st.IsDir() {
			return false
		}
		for d := filepath.Dir(rel); d != "."; d = filepath.Dir(d) {
			if st, err := os.Lstat(filepath.Join(b.dir, d)); err == nil && !st.IsDir() {
				return false
			}
		}
		return true
	}
	fail := func(kind, f string, a ...any) {
		c.Fail(kind, fmt.Sprintf(f, a...)+"; after: "+mon.Clip(strings.Join(log, " | "), 3000), "", log)
	}
	for len(names) == 0 {
		if p := pick(); ok(p) {
			texts[p] = cliText(g, 8)
			first[p] = texts[p]
			b.write(p, texts[p])
			names = append(names, p)
		}
	}
	mine := []string{outDirs[g.R.Intn(len(outDirs))], outDirs[g.R.Intn(len(outDirs))], ""}
	steps := 4 + g.R.Intn(7)
	if c.Thorough() {
		steps = 4 + g.R.Intn(30)
	}
	var runs int
	for s := 0; s < steps && !c.Full(); s++ {
		switch k := g.R.Intn(10); {
		case k == 0: // another input
			if p := pick(); ok(p) {
				texts[p] = cliText(g, 8)
				if g.R.Intn(4) == 0 {
					texts[p] = g.Near(texts[names[g.R.Intn(len(names))]])
				}
				if _, ok := first[p]; !ok {
					names = append(names, p)
					first[p] = texts[p]
				}
				b.write(p, texts[p])
				log = append(log, fmt.Sprintf("write %q (%d bytes)", p, len(texts[p])))
			}
			continue
		case k <= 2: // edit an input
			p := names[g.R.Intn(len(names))]
			switch g.R.Intn(8) {
			case 0: // shorter
				texts[p] = "database d;"
			case 1:
				texts[p] = g.MutateText(texts[p])
			case 2: // another text of the same size
				texts[p] = g.SameSize(texts[p])
			case 3:
				texts[p] = g.Near(texts[p])
			case 4: // and back again, or to what another input says
				texts[p] = first[names[g.R.Intn(len(names))]]
			case 5:
				texts[p] = g.Grown(texts[p], 3<<20)
			default:
				texts[p] = cliText(g, 8)
			}
			st, _ := os.Stat(filepath.Join(b.dir, p))
			b.write(p, texts[p])
			if g.R.Intn(3) == 0 && st != nil { // the clock of the editor's machine stands still
				os.Chtimes(filepath.Join(b.dir, p), st.ModTime(), st.ModTime())
			} else {
				age(g, filepath.Join(b.dir, p))
			}
			log = append(log, fmt.Sprintf("edit %q (%d bytes)", p, len(texts[p])))
			continue
		case k == 3: // something in the way of an output, of any length
			p := names[g.R.Intn(len(names))]
			od := mine[g.R.Intn(len(mine))]
			if od == "" {
				od = "build"
			}
			o := filepath.Join(od, outName(p))
			if !isInput(o) && ok(o) {
				old := strings.Repeat("old ", g.R.Intn(3000))
				if x := sut.Compile(texts[p]); x.OK() && g.R.Intn(2) == 0 { // much like what is to come
					j := string(x.JSON)
					switch g.R.Intn(6) {
					case 0:
						old = j + strings.Repeat("x", 1+g.R.Intn(9))
					case 1:
						old = j[:g.R.Intn(len(j))]
					case 2:
						old = strings.Repeat("x", len(j))
					case 3:
						old = j + j
					case 4:
						old = j + "\n"
					default:
						k := g.R.Intn(len(j))
						old = j[:k] + "x" + j[k+1:]
					}
				}
				b.write(o, old)
				age(g, filepath.Join(b.dir, o))
				log = append(log, fmt.Sprintf("old content of %d bytes in %q", len(old), o))
			}
			continue
		case k == 4 && runs > 0: // several at once
			if parallelRuns(c, g, b, &log, fail) {
				runs++
			}
			continue
		}
		before := b.tree()
		p := names[g.R.Intn(len(names))]
		arg, asked := p, true
		if g.R.Intn(8) == 0 { // an input that is not there
			miss := []string{"nosuch.kf", "no/such.kf", "src2", "", "a.kf/x", "nosuch", "*", "*.kf", "?.kf", "src/*", "[a-b].kf", "{a,b}.kf", "~/a.kf", "$PWD/a.kf", "file:a.kf", "@a.kf", "\\a.kf", "'a.kf'"}
			if g.R.Intn(3) == 0 { // almost the name of one
				miss = []string{p + " ", " " + p, strings.ToUpper(p), strings.ToLower(p), p + "~", p + ".kf", strings.TrimSuffix(p, filepath.Ext(p)), "file:" + p, p + "\n", filepath.Base(p), "'" + p + "'", p + "*", strings.ReplaceAll(p, "/", "\\"), p + "/", p + "/."}
			}
			arg = miss[g.R.Intn(len(miss))]
			if _, err := os.Lstat(filepath.Join(b.dir, arg)); err == nil && arg != "" {
				continue
			}
			asked = false
		} else {
			switch g.R.Intn(7) {
			case 3: // a link to it
				ln := fmt.Sprintf("ln%d%s", s, filepath.Ext(p))
				if ok(ln) {
					b.link(ln, p)
					arg, before = ln, b.tree()
				}
			case 0:
				arg = filepath.Join(b.dir, p)
			case 1:
				arg = "./" + p
			case 2:
				arg = "../" + filepath.Base(b.dir) + "/" + p
			}
		}
		od := mine[g.R.Intn(len(mine))]
		switch g.R.Intn(8) {
		case 0: // where the input is
			od = filepath.Dir(p)
		case 1: // or above or beside it
			od = filepath.Dir(filepath.Dir(p))
		}
		if filepath.Ext(p) == ".json" && g.R.Intn(2) == 0 { // which will be its artifact
			od = filepath.Dir(p)
		}
		if od != "" {
			od = []string{od, od, od, od + "/", od + "//", od + "/.", "./" + od, strings.ReplaceAll(od, "/", "//"), ".//" + od + "/"}[g.R.Intn(9)]
		}
		clean := filepath.Clean(od)
		if od == "" {
			clean = "build"
		}
		// what the run would meet on its way
		plain := true
		for d := clean; d != "."; d = filepath.Dir(d) {
			if st, err := os.Lstat(filepath.Join(b.dir, d)); err == nil && !st.IsDir() {
				plain = false
			}
		}
		target := filepath.Join(clean, outName(arg))
		if st, err := os.Lstat(filepath.Join(b.dir, target)); err == nil && !st.Mode().IsRegular() || !plain {
			continue // the faults are another property's business
		}
		if strings.Contains(od, "..") { // the directory stepped over has to exist on the way
			b.mkdir("out")
			before = b.tree()
		}
		var args []string
		var oargs []string
		if od != "" {
			v := od
			if g.R.Intn(4) == 0 {
				v = filepath.Join(b.dir, clean) + []string{"", "/", "//", "/."}[g.R.Intn(4)]
			}
			switch g.R.Intn(4) {
			case 0:
				oargs = []string{"-o", v}
			case 1:
				oargs = []string{"--output", v}
			case 2:
				oargs = []string{"--output=" + v}
			default:
				oargs = []string{"-o" + v}
			}
		}
		want, what := 0, "compile"
		trace := ""
		if g.R.Intn(3) == 0 {
			trace = []string{"-t", "--trace", "--trace=true", "-t=true", "--trace=false", "-t=false"}[g.R.Intn(6)]
		}
		traced := trace != "" && !strings.HasSuffix(trace, "false")
		dashed := strings.HasPrefix(arg, "-")
		switch k := g.R.Intn(20); {
		case k == 0:
			args, what = append(args, []string{"-v", "--version"}[g.R.Intn(2)]), "version"
			if g.R.Intn(2) == 0 && !dashed {
				args = append(args, arg)
				args = append(args, oargs...)
			}
		case k == 1:
			args, what = append(args, []string{"-h", "--help"}[g.R.Intn(2)]), "help"
			if g.R.Intn(2) == 0 && !dashed {
				args = append(args, arg)
			}
		case k == 2:
			what, want = "no input", 2
			args = append(args, oargs...)
			if trace != "" {
				args = append(args, trace)
			}
		case k == 3:
			what, want = "two inputs", 2
			args = append(append(args, oargs...), "--", arg, p)
		case k == 4:
			what, want = "bad flag", 1
			args = append(append(args, oargs...), [][]string{{"--nosuch"}, {"-x"}, {"--trace=perhaps"}, {"-o"}, {"--output"}}[g.R.Intn(5)]...)
			if !dashed && !strings.HasSuffix(args[len(args)-1], "o") && args[len(args)-1] != "--output" {
				args = append([]string{arg}, args...)
			}
		default:
			switch {
			case dashed:
				if trace != "" {
					args = append(args, trace)
				}
				args = append(append(args, oargs...), "--", arg)
			case g.R.Intn(2) == 0:
				args = append(append(args, arg), oargs...)
				if trace != "" {
					args = append(args, trace)
				}
			default:
				if trace != "" {
					args = append(args, trace)
				}
				args = append(append(args, oargs...), arg)
			}
		}
		expect := tree{}
		for k, v := range before {
			expect[k] = v
		}
		var o *sut.Out
		if what == "compile" {
			switch {
			case !asked:
				want, what = 4, "missing input"
			default:
				o = sut.Compile(texts[p])
				if o.OK() {
					expect[target] = "file " + string(o.JSON)
					if isInput(target) {
						texts[target] = string(o.JSON)
						c.Count("outputs in the place of an input", 1)
					}
				} else {
					want, what = 5, "invalid input"
				}
			}
		}
		r := b.cli(c, args...)
		runs++
		log = append(log, fmt.Sprintf("run %q -> %d", args, r.code))
		c.Count("runs: "+what, 1)
		if prior, ok := before[target]; ok && want == 0 && o != nil {
			if len(prior) > len(expect[target]) {
				c.Count("outputs replaced by shorter ones", 1)
			} else {
				c.Count("outputs replaced by others", 1)
			}
		}
		after := b.tree()
		may := func(d string) bool { return d == clean || strings.HasPrefix(clean, d+"/") }
		if want != 0 && want < 4 || what == "version" || what == "help" {
			may = nil
		}
		switch {
		case r.hung:
			fail("hang", "%s: the command did not end", what)
		case r.code != want:
			fail("exit code", "%s: exit code %d, should be %d; output %q", what, r.code, want, mon.Clip(r.out, 500))
		case strings.TrimSpace(r.out) == "":
			fail("silent", "%s: the command says nothing", what)
		case want == 5 && o.Err != nil && !strings.Contains(r.out, o.Err.Error()):
			fail("message", "an invalid input: the output %q lacks the error %q", mon.Clip(r.out, 500), o.Err)
		case want == 0 && o != nil && !strings.Contains(r.out, outName(arg)):
			fail("message", "success without naming the output file %q: %q", outName(arg), mon.Clip(r.out, 500))
		case o != nil && traced && len(r.stdout) < 3:
			fail("trace", "asked to trace, the command traces nothing")
		case o != nil && !traced && r.stdout != "" && !strings.HasPrefix(r.stdout, "Successfully") && want == 0:
			fail("trace", "not asked to trace, standard output has %q", mon.Clip(r.stdout, 300))
		default:
			if d := expect.diff(after, may); d != "" {
				fail("files", "%s: %s", what, d)
			}
		}
	}
	c.Eval(strings.Join(log, "|"))
	c.Count("runs", int64(runs))
	if i < 3 {
		c.Sample(log)
	}
}

// parallelRuns compiles different inputs into one directory at the same time.
func parallelRuns(c *mon.C, g *gen.G, b *box, log *[]string, fail func(string, string, ...any)) bool {
	od := "par"
	if st, err := os.Lstat(filepath.Join(b.dir, od)); err == nil && !st.IsDir() {
		return false
	}
	n := 2 + g.R.Intn(3)
	before := b.tree()
	want := make([]int, n)
	args := make([][]string, n)
	expect := tree{}
	for i := 0; i < n; i++ {
		in := fmt.Sprintf("p%d.kf", i)
		t := cliText(g, 8)
		b.write(in, t)
		before[in] = "file " + t
		o := sut.Compile(t)
		args[i] = []string{in, "-o", od}
		if o.OK() {
			expect[filepath.Join(od, fmt.Sprintf("p%d.json", i))] = "file " + string(o.JSON)
		} else {
			want[i] = 5
		}
	}
	for k, v := range before {
		if _, ok := expect[k]; !ok {
			expect[k] = v
		}
	}
	got := make([]ran, n)
	var wg sync.WaitGroup
	for i := range got {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					got[i] = ran{code: -99, out: fmt.Sprint(r)}
				}
			}()
			got[i] = b.cli(nil, args[i]...)
		}()
	}
	wg.Wait()
	*log = append(*log, fmt.Sprintf("%d runs at once into %q", n, od))
	c.Count("runs at once", int64(n))
	for i := range got {
		if got[i].code == -99 {
			panic(got[i].out)
		}
		if got[i].code != want[i] {
			fail("exit code", "one of %d runs at once: exit code %d, should be %d: %s", n, got[i].code, want[i], mon.Clip(got[i].out, 300))
			return true
		}
	}
	if d := expect.diff(b.tree(), func(d string) bool { return d == od }); d != "" {
		fail("files", "%d runs at once: %s", n, d)
	}
	return true
}

// crowd: many runs at once, of inputs that take about the same time, over and
// over into one directory.
func crowd(c *mon.C) {
	g := gen.New(c.CaseSeed(79000000 + c.Shard))
	b := newBox(c)
	defer b.remove()
	c.Begin("many runs at once")
	defer c.End()
	n, rounds := 10, 14
	if c.Thorough() {
		rounds = 300
	}
	for r := 0; r < rounds && !c.Full(); r++ {
		size := []int{0, 1, 30, 200}[r%4]
		var args [][]string
		expect := b.tree()
		for i := 0; i < n; i++ {
			in := fmt.Sprintf("in%d.kf", i)
			if size == 0 { // all kinds
				b.write(in, cliText(g, 10))
			} else if r < 4 || g.R.Intn(3) == 0 {
				var t strings.Builder
				fmt.Fprintf(&t, "database d%d;", i)
				for k := 0; k < size; k++ {
					fmt.Fprintf(&t, " table t%d_%d {a int, b%s text}", i, k, strings.Repeat("x", g.R.Intn(9)))
				}
				b.write(in, t.String())
			}
			text, err := os.ReadFile(filepath.Join(b.dir, in))
			if err != nil {
				panic("HARNESS: " + err.Error())
			}
			expect[in] = "file " + string(text)
			if o := sut.Compile(string(text)); o.OK() {
				expect[fmt.Sprintf("out/in%d.json", i)] = "file " + string(o.JSON)
				args = append(args, []string{in, "-o", "out"})
			}
		}
		got := make([]ran, len(args))
		var wg sync.WaitGroup
		for i := range got {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						got[i] = ran{code: -99, out: fmt.Sprint(r)}
					}
				}()
				got[i] = b.cli(nil, args[i]...)
			}()
		}
		wg.Wait()
		c.Count("runs at once", int64(len(args)))
		for i := range got {
			if got[i].code == -99 {
				panic(got[i].out)
			}
			if got[i].code != 0 {
				c.Fail("exit code", fmt.Sprintf("one of %d runs at once into one directory: exit code %d, should be 0: %s", len(args), got[i].code, mon.Clip(got[i].out, 300)), "", args)
				return
			}
		}
		if d := expect.diff(b.tree(), func(d string) bool { return d == "out" }); d != "" {
			c.Fail("files", fmt.Sprintf("%d runs at once into one directory, round %d: %s", len(args), r, d), "", args)
		}
		c.Eval(fmt.Sprintf("crowd %d %d", c.Shard, r))
	}
}

// fault is something that goes wrong around a run.
type fault struct {
	name string
	code int // expected exit code; 0 for "any, but 0 only with a complete artifact"; -2 must be 0
	// set prepares the box and gives the arguments; heal takes the fault away.
	set  func(f *faulty) []string
	heal func(f *faulty)
	wrap func(f *faulty, argv []string) []string
	run  func(f *faulty, cmd *exec.Cmd)
	need func() bool
}

type faulty struct {
	g    *gen.G
	b    *box
	in   string
	text string
	out  string // the output file
	args []string
	json string
}

func notRoot() bool { return canDrop() || os.Geteuid() != 0 }

func (f *faulty) usual() []string { return []string{f.in, "-o", filepath.Dir(f.out)} }

func (f *faulty) rm(rel string) {
	p := filepath.Join(f.b.dir, rel)
	if !strings.HasPrefix(p, f.b.dir+"/") {
		panic("HARNESS: outside the box")
	}
	os.RemoveAll(p)
}

var faults = []fault{
	{name: "output is a full device", code: 7, set: func(f *faulty) []string { f.b.link(f.out, "/dev/full"); return f.usual() }, heal: func(f *faulty) { f.rm(f.out) }},
	{name: "output is a directory", code: 7, set: func(f *faulty) []string { f.b.mkdir(f.out); return f.usual() }, heal: func(f *faulty) { f.rm(f.out) }},
	{name: "output is a directory with content", code: 7, set: func(f *faulty) []string { f.b.write(f.out+"/keep", "x"); return f.usual() }, heal: func(f *faulty) { f.rm(f.out) }},
	{name: "output is a link loop", code: 7, set: func(f *faulty) []string { f.b.link(f.out, filepath.Base(f.out)); return f.usual() }, heal: func(f *faulty) { f.rm(f.out) }},
	{name: "output links into a missing directory", code: 7, set: func(f *faulty) []string { f.b.link(f.out, "nosuch/x.json"); return f.usual() }, heal: func(f *faulty) { f.rm(f.out) }},
	{name: "output name is too long", code: 7, set: func(f *faulty) []string {
		n := strings.Repeat("n", 252) + ".k"
		f.b.write(n, f.text)
		return []string{n, "-o", "out"}
	}},
	{name: "output directory is a file", code: 3, set: func(f *faulty) []string { f.b.write(filepath.Dir(f.out), "file"); return f.usual() }, heal: func(f *faulty) { f.rm(filepath.Dir(f.out)) }},
	{name: "output directory is below a file", code: 3, set: func(f *faulty) []string {
		f.b.write(filepath.Dir(f.out), "file")
		return []string{f.in, "-o", filepath.Dir(f.out) + "/sub"}
	}, heal: func(f *faulty) { f.rm(filepath.Dir(f.out)) }},
	{name: "output directory is a link loop", code: 3, set: func(f *faulty) []string {
		f.b.link(filepath.Dir(f.out), "loop")
		f.b.link("loop", filepath.Dir(f.out))
		return f.usual()
	},
		heal: func(f *faulty) { f.rm(filepath.Dir(f.out)); f.rm("loop") }},
	{name: "output directory name is too long", code: 3, set: func(f *faulty) []string { return []string{f.in, "-o", strings.Repeat("d", 300)} }},
	{name: "output directory is a dangling link", code: 3, set: func(f *faulty) []string { f.b.link(filepath.Dir(f.out), "nosuch"); return f.usual() }, heal: func(f *faulty) { f.rm(filepath.Dir(f.out)) }},
	{name: "output directory is an empty file", code: 3, set: func(f *faulty) []string { f.b.write(filepath.Dir(f.out), ""); return f.usual() }, heal: func(f *faulty) { f.rm(filepath.Dir(f.out)) }},
	{name: "output directory is below an empty file", code: 3, set: func(f *faulty) []string {
		f.b.write(filepath.Dir(f.out), "")
		return []string{f.in, "-o", filepath.Dir(f.out) + "/sub/deep"}
	}, heal: func(f *faulty) { f.rm(filepath.Dir(f.out)) }},
	{name: "output directory is the input", code: 3, set: func(f *faulty) []string { return []string{f.in, "-o", f.in} }},
	{name: "output directory links to a file", code: 3, set: func(f *faulty) []string {
		f.b.write("elsewhere", []string{"", "x", f.json}[f.g.R.Intn(3)])
		f.b.link(filepath.Dir(f.out), "elsewhere")
		return f.usual()
	}, heal: func(f *faulty) { f.rm(filepath.Dir(f.out)); f.rm("elsewhere") }},
	{name: "output directory links to a device", code: 3, set: func(f *faulty) []string { f.b.link(filepath.Dir(f.out), "/dev/null"); return f.usual() }, heal: func(f *faulty) { f.rm(filepath.Dir(f.out)) }},
	{name: "output directory is a pipe", code: 3, set: func(f *faulty) []string {
		syscall.Mkfifo(filepath.Join(f.b.dir, filepath.Dir(f.out)), 0o644)
		f.b.own(filepath.Dir(f.out))
		return f.usual()
	}, heal: func(f *faulty) { f.rm(filepath.Dir(f.out)) }},
	{name: "input is missing", code: 4, set: func(f *faulty) []string { return []string{"nosuch.kf", "-o", filepath.Dir(f.out)} }},
	{name: "input is a directory", code: 4, set: func(f *faulty) []string { f.b.mkdir("dir.kf"); return []string{"dir.kf", "-o", filepath.Dir(f.out)} }},
	{name: "input is a dangling link", code: 4, set: func(f *faulty) []string {
		f.b.link("dl.kf", "nosuch")
		return []string{"dl.kf", "-o", filepath.Dir(f.out)}
	}},
	{name: "input is a link loop", code: 4, set: func(f *faulty) []string {
		f.b.link("ll.kf", "ll.kf")
		return []string{"ll.kf", "-o", filepath.Dir(f.out)}
	}},
	{name: "input is below a file", code: 4, set: func(f *faulty) []string { return []string{f.in + "/x.kf", "-o", filepath.Dir(f.out)} }},
	{name: "input name is too long", code: 4, set: func(f *faulty) []string { return []string{strings.Repeat("x", 300), "-o", filepath.Dir(f.out)} }},
	{name: "input name is empty", code: 4, set: func(f *faulty) []string { return []string{"", "-o", filepath.Dir(f.out)} }},
	{name: "input cannot be read", code: 4, need: notRoot, set: func(f *faulty) []string { os.Chmod(filepath.Join(f.b.dir, f.in), 0); return f.usual() },
		heal: func(f *faulty) { os.Chmod(filepath.Join(f.b.dir, f.in), 0o644) }},
	{name: "input directory cannot be entered", code: 4, need: notRoot, set: func(f *faulty) []string {
		f.b.write("locked/a.kf", f.text)
		os.Chmod(filepath.Join(f.b.dir, "locked"), 0)
		return []string{"locked/a.kf", "-o", filepath.Dir(f.out)}
	}, heal: func(f *faulty) { os.Chmod(filepath.Join(f.b.dir, "locked"), 0o755) }},
	{name: "output file is read-only", code: 7, need: notRoot, set: func(f *faulty) []string {
		f.b.write(f.out, "precious")
		os.Chmod(filepath.Join(f.b.dir, f.out), 0o444)
		os.Chmod(filepath.Join(f.b.dir, filepath.Dir(f.out)), 0o555)
		return f.usual()
	}, heal: func(f *faulty) {
		os.Chmod(filepath.Join(f.b.dir, filepath.Dir(f.out)), 0o755)
		os.Chmod(filepath.Join(f.b.dir, f.out), 0o644)
	}},
	{name: "output directory is read-only", code: 7, need: notRoot, set: func(f *faulty) []string {
		f.b.mkdir(filepath.Dir(f.out))
		os.Chmod(filepath.Join(f.b.dir, filepath.Dir(f.out)), 0o555)
		return f.usual()
	}, heal: func(f *faulty) { os.Chmod(filepath.Join(f.b.dir, filepath.Dir(f.out)), 0o755) }},
	{name: "output directory cannot be made", code: 3, need: notRoot, set: func(f *faulty) []string {
		f.b.mkdir("ro")
		os.Chmod(filepath.Join(f.b.dir, "ro"), 0o555)
		return []string{f.in, "-o", "ro/out"}
	}, heal: func(f *faulty) { os.Chmod(filepath.Join(f.b.dir, "ro"), 0o755) }},
	{name: "file size limit", code: 0, set: (*faulty).usual, wrap: func(f *faulty, argv []string) []string {
		return shell(fmt.Sprintf("ulimit -f %d", f.g.R.Intn(1+len(f.json)/1024*3/2)), argv)
	}},
	{name: "file size limit with an earlier artifact", code: 0, set: func(f *faulty) []string { f.b.write(f.out, strings.Repeat("{old}", 2000)); return f.usual() }, wrap: func(f *faulty, argv []string) []string {
		return shell(fmt.Sprintf("ulimit -f %d", f.g.R.Intn(1+len(f.json)/1024*3/2)), argv)
	}},
	{name: "few open files", code: 0, set: (*faulty).usual, wrap: func(f *faulty, argv []string) []string {
		return shell(fmt.Sprintf("ulimit -n %d", 3+f.g.R.Intn(8)), argv)
	}},
	{name: "no standard error", code: 0, set: (*faulty).usual, wrap: func(f *faulty, argv []string) []string { return shell("exec 2>&-", argv) }},
	{name: "no standard streams", code: 0, set: (*faulty).usual, wrap: func(f *faulty, argv []string) []string { return shell("exec 0<&- 1>&- 2>&-", argv) }},
	{name: "standard error is full", code: 0, set: (*faulty).usual, wrap: func(f *faulty, argv []string) []string { return shell("exec 2>/dev/full", argv) }},
	{name: "standard output is full", code: 0, set: (*faulty).usual, wrap: func(f *faulty, argv []string) []string { return shell("exec >/dev/full", argv) }},
	{name: "working directory is gone", code: 0, set: func(f *faulty) []string {
		return []string{filepath.Join(f.b.dir, f.in), "-o", filepath.Join(f.b.dir, filepath.Dir(f.out))}
	}, wrap: func(f *faulty, argv []string) []string { return shell("mkdir wd; cd wd; rmdir ../wd", argv) }},
	{name: "input is a pipe fed in pieces", code: -2, set: func(f *faulty) []string {
		syscall.Mkfifo(filepath.Join(f.b.dir, "pipe.kf"), 0o644)
		f.b.own("pipe.kf")
		f.out = filepath.Join(filepath.Dir(f.out), "pipe.json")
		return []string{"pipe.kf", "-o", filepath.Dir(f.out)}
	}, run: func(f *faulty, cmd *exec.Cmd) {
		go func() {
			w, err := os.OpenFile(filepath.Join(f.b.dir, "pipe.kf"), os.O_WRONLY, 0)
			if err != nil {
				return
			}
			defer w.Close()
			t := f.text
			for len(t) > 0 {
				n := min(len(t), 1+len(f.text)/7)
				w.WriteString(t[:n])
				t = t[n:]
				time.Sleep(2 * time.Millisecond)
			}
		}()
	}, heal: func(f *faulty) { f.rm("pipe.kf"); f.out = filepath.Join(filepath.Dir(f.out), outName(f.in)) }},
	{name: "killed at some moment", code: 0, set: func(f *faulty) []string {
		if f.g.R.Intn(2) == 0 {
			f.b.write(f.out, strings.Repeat("{old}", f.g.R.Intn(3000)))
		}
		return f.usual()
	}, run: func(f *faulty, cmd *exec.Cmd) {
		d := time.Duration(f.g.R.Intn(30000)) * time.Microsecond
		sig := []syscall.Signal{syscall.SIGKILL, syscall.SIGKILL, syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGHUP}[f.g.R.Intn(6)]
		go func() {
			for cmd.Process == nil {
				time.Sleep(100 * time.Microsecond)
			}
			time.Sleep(d)
			cmd.Process.Signal(sig)
		}()
	}},
}

func shell(pre string, argv []string) []string {
	return append([]string{"/bin/bash", "-c", pre + `; exec "$@"`, "x"}, argv...)
}

// newFaulty makes a box with a valid input and bystanders.
func newFaulty(c *mon.C, g *gen.G, big bool) *faulty {
	f := &faulty{g: g, b: newBox(c), in: "in.kf", out: "out/in.json"}
	f.text = g.Text(g.Prog(gen.Full))
	if big {
		f.text = "database d;"
		size := g.R.Intn(200 << 10)
		if g.R.Intn(3) == 0 {
			size = []int{4096, 32768, 65536, 131072, 1 << 20}[g.R.Intn(5)] + g.R.Intn(4096) - 1024
		}
		for k := 0; k < 20 || len(f.text) < size; k++ {
			f.text += fmt.Sprintf(" action a%d($x) public { select '%s'; }", k, strings.Repeat("x", g.R.Intn(300)))
		}
	}
	o := sut.Compile(f.text)
	if !o.OK() {
		if p, e := kf.Parse(f.text); e == nil && kf.Validate(p).OK() {
			f.b.remove()
			return nil // a valid program that does not compile is another property's business
		}
		panic("HARNESS: the program of a fault case is not valid")
	}
	f.json = string(o.JSON)
	f.b.write(f.in, f.text)
	f.b.write("bystander.json", "1")
	f.b.write("build/in.json", "not yours")
	return f
}

// judge applies what holds under every fault: success means a complete
// artifact, nothing else was touched.
func (f *faulty) judge(r ran, before tree, code int, healed bool) string {
	after := f.b.tree()
	got, has := after[f.out]
	if st, err := os.Stat(filepath.Join(f.b.dir, f.out)); err == nil && st.Mode().IsRegular() {
		if x, err := os.ReadFile(filepath.Join(f.b.dir, f.out)); err == nil {
			got = "file " + string(x)
		}
	}
	switch {
	case r.hung:
		return "the command did not end"
	case r.code == 0 && (!has || got != "file "+f.json):
		return fmt.Sprintf("exit code 0, but the artifact is not complete: %d of %d bytes", max(0, len(got)-5), len(f.json))
	case code > 0 && r.code != code:
		return fmt.Sprintf("exit code %d, should be %d; output %q", r.code, code, mon.Clip(r.out, 400))
	case code == -2 && r.code != 0:
		return fmt.Sprintf("exit code %d, should be 0; output %q", r.code, mon.Clip(r.out, 400))
	case code > 0 && strings.TrimSpace(r.out) == "":
		return "the command says nothing about the failure"
	}
	says := func(x string) bool { return strings.Contains(r.out, x) && !strings.Contains(f.text, x) } // a trace quotes the program
	if code > 0 && (says("goroutine 1 [") || says("Successfully")) {
		return fmt.Sprintf("exit code %d, output %q", r.code, mon.Clip(r.out, 400))
	}
	exp := tree{}
	for k, v := range before {
		exp[k] = v
	}
	od := filepath.Dir(f.out)
	if code <= 0 { // the artifact may be there, whole or (after a failure) in part
		delete(exp, f.out)
		delete(after, f.out)
	}
	if d := exp.diff(after, func(d string) bool { return d == od || strings.HasPrefix(d, "ro/") }); d != "" {
		return fmt.Sprintf("exit code %d, and %s", r.code, d)
	}
	return ""
}

func faultCase(c *mon.C, i int) {
	ft := faults[i%len(faults)]
	if ft.need != nil && !ft.need() {
		c.Count("skipped for lack of an unprivileged user", 1)
		return
	}
	g := c.G()
	big := g.R.Intn(2) == 0 || strings.Contains(ft.name, "limit")
	f := newFaulty(c, g, big)
	if f == nil {
		return
	}
	defer f.b.remove()
	c.Begin(fmt.Sprintf("fault %q, case %d", ft.name, i))
	defer c.End()
	if g.R.Intn(3) == 0 && ft.name != "output is a link loop" {
		f.b.mkdir("other/dir")
	}
	args := ft.set(f)
	if g.R.Intn(4) == 0 {
		args = append([]string{"-t"}, args...)
	}
	argv := append([]string{cliPath()}, args...)
	if ft.wrap != nil {
		argv = ft.wrap(f, argv)
	}
	before := f.b.tree()
	r := f.b.exec(c, argv, func(cmd *exec.Cmd) {
		if ft.run != nil {
			ft.run(f, cmd)
		}
	})
	c.Count("fault: "+ft.name, 1)
	fail := func(m string) {
		c.Fail("fault", fmt.Sprintf("%s (%q): %s", ft.name, argv[1:], m), "", map[string]any{"program": f.text, "output": mon.Clip(r.out, 2000)})
	}
	if m := f.judge(r, before, ft.code, false); m != "" {
		fail(m)
		return
	}
	if r.code != 0 {
		c.Count("faults that made the run fail", 1)
	}
	// without the fault the same call works
	if ft.heal != nil {
		ft.heal(f)
	}
	r = f.b.cli(c, f.usual()...)
	if x, err := os.ReadFile(filepath.Join(f.b.dir, f.out)); r.code != 0 || err != nil || string(x) != f.json {
		fail(fmt.Sprintf("and the run after it, without the fault, gives exit code %d and %d of %d bytes: %s", r.code, len(x), len(f.json), mon.Clip(r.out, 300)))
	}
	c.Count("recoveries", 1)
	c.Eval(ft.name + fmt.Sprint(r.code, len(f.json)/64, args))
	if i < 3 {
		c.Sample(map[string]any{"fault": ft.name, "arguments": args, "artifact bytes": len(f.json)})
	}
}

var canTrace = sync.OnceValue(func() bool {
	d, err := os.MkdirTemp("", "kfverif-strace-")
	if err != nil {
		return false
	}
	defer os.RemoveAll(d)
	c := exec.Command("strace", "-f", "-o", filepath.Join(d, "log"), "-e", "trace=close", "/bin/true")
	if canDrop() {
		os.Chmod(d, 0o777)
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	return c.Run() == nil
})

// injectAll makes every system call on the input, the output directory and the
// output fail in turn, or the process die there.
func injectAll(c *mon.C) {
	if !canTrace() {
		c.Count("system call faults not possible here", 1)
		return
	}
	rounds := 1
	if c.Thorough() {
		rounds = 12
	}
	k := 0
	for round := 0; round < rounds; round++ {
		for _, prior := range []string{"no earlier artifact", "longer earlier artifact", "shorter earlier artifact"} {
			for _, on := range []string{"input", "output", "directory"} {
				for _, inj := range []string{"error=EIO", "error=ENOSPC", "error=EACCES", "error=EINTR", "error=EDQUOT", "signal=KILL"} {
					for n := 1; n <= 8; n++ {
						k++
						if k%c.Shards != c.Shard || c.Full() {
							continue
						}
						inject(c, round, k, prior, on, inj, n)
					}
				}
			}
		}
	}
}

func inject(c *mon.C, round, k int, prior, on, inj string, n int) {
	g := gen.New(c.CaseSeed(5000000 + round*1000 + k))
	f := newFaulty(c, g, g.R.Intn(2) == 0)
	if f == nil {
		return
	}
	defer f.b.remove()
	switch prior {
	case "longer earlier artifact":
		f.b.write(f.out, strings.Repeat("{old}", len(f.json)))
	case "shorter earlier artifact":
		f.b.write(f.out, "{old}")
	}
	path := filepath.Join(f.b.dir, map[string]string{"input": f.in, "output": f.out, "directory": filepath.Dir(f.out)}[on])
	calls := "openat,open,creat,read,pread64,write,pwrite64,writev,close,fstat,newfstatat,stat,lstat,statx,mkdir,mkdirat,rename,renameat,renameat2,fsync,fdatasync,ftruncate,truncate,unlink,unlinkat,fchmod,fchmodat,link,linkat,copy_file_range,sendfile,lseek"
	args := []string{filepath.Join(f.b.dir, f.in), "-o", filepath.Join(f.b.dir, filepath.Dir(f.out))}
	logf := filepath.Join(c.Dir, "strace.log")
	os.Remove(logf)
	os.WriteFile(logf, nil, 0o666)
	os.Chmod(logf, 0o666)
	argv := append([]string{"strace", "-f", "-qq", "-o", logf, "-P", path, "-e", "trace=" + calls, "-e", fmt.Sprintf("inject=%s:%s:when=%d", calls, inj, n), cliPath()}, args...)
	before := f.b.tree()
	c.Begin(fmt.Sprintf("system call fault %s on the %s, call %d", inj, on, n))
	defer c.End()
	r := f.b.exec(c, argv, func(cmd *exec.Cmd) { cmd.Env = append(cmd.Env, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1") })
	lg, _ := os.ReadFile(logf)
	hit := strings.Contains(string(lg), "INJECTED") || strings.Contains(string(lg), "+++ killed by SIGKILL")
	what := ""
	for _, l := range strings.Split(string(lg), "\n") {
		if strings.Contains(l, "INJECTED") {
			what = l
		}
	}
	if hit {
		c.Count(fmt.Sprintf("system calls made to fail, %s, %s", on, strings.SplitN(inj, "=", 2)[0]), 1)
		c.Count("system calls made to fail", 1)
		call := strings.Fields(what + " ?")
		name := call[0]
		if len(call) > 1 {
			name = strings.SplitN(call[1], "(", 2)[0]
		}
		c.Eval(strings.Join([]string{prior, on, inj, fmt.Sprint(n), name}, " "))
	} else {
		c.Eval("")
	}
	fail := func(m string) {
		c.Fail("system call", fmt.Sprintf("%s on the %s, call %d (%s), %s: %s", inj, on, n, mon.Clip(what, 200), prior, m), "", map[string]any{"program": f.text, "output": mon.Clip(r.out, 1000), "calls": mon.Clip(string(lg), 4000)})
	}
	// an error on the output or the directory that kept the artifact from being
	// written must show in the exit code; judge compares exit code and artifact
	if m := f.judge(r, before, 0, false); m != "" {
		fail(m)
		return
	}
	// writing failed: it has to be reported
	if hit && on == "output" && !strings.Contains(inj, "EINTR") && (strings.Contains(what, " write(") || strings.Contains(what, " fsync(")) && r.code == 0 {
		fail("a failed write is not reported")
		return
	}
	r = f.b.cli(c, f.usual()...)
	if x, err := os.ReadFile(filepath.Join(f.b.dir, f.out)); r.code != 0 || err != nil || string(x) != f.json {
		fail(fmt.Sprintf("the run after it, without the fault, gives exit code %d and %d of %d bytes: %s", r.code, len(x), len(f.json), mon.Clip(r.out, 300)))
		return
	}
	c.Count("recoveries", 1)
}

func init() {
	reg(&mon.Check{ID: "C19", Rule: "random histories of 4 to 10 steps in one directory: inputs written and edited (valid, invalid, shorter, longer; hostile file names), old artifacts of any length, runs of the real command with every flag and spelling " +
		"(-o, -t, -v, -h, wrong flags, none or two inputs, missing inputs, relative and absolute paths), several runs at once. A model of the directory predicts every file, the exit code and the messages. Distinct by history.",
		Quick: 700, Thorough: 60000, Case: history, OnceShard: both(crowd, cliSizes, cliTempt, cliPlaces),
		Floors: map[string]int64{"runs": 2000, "runs: compile": 800, "runs: invalid input": 200, "outputs replaced by shorter ones": 40, "runs at once": 100}})
	reg(&mon.Check{ID: "C20", Level: "fault_enumeration", Rule: fmt.Sprintf("%d kinds of input/output faults (full device, loops, missing permissions, size and descriptor limits, closed streams, signals at random moments) around the real command, on small and large artifacts; ", len(faults)) +
		"and every system call on the input, the output directory and the output made to fail with five errors or to be the last before SIGKILL (strace injection), with no, a longer, or a shorter earlier artifact. " +
		"Success must mean a complete artifact, nothing else may change, and the next run must succeed. Distinct by fault, call and arguments.",
		Quick: 420, Thorough: 40000, Case: faultCase, OnceShard: injectAll,
		Floors: map[string]int64{"recoveries": 350}})
}
