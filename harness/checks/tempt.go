package checks

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"kfverif/gen"
	"kfverif/mon"
	"kfverif/sut"
)

// A cliTempt asks for inputs that cannot be read, next to readable ones that
// a command might take in their place: with another extension, in another
// directory, in the directory that was named, on the standard input.
func cliTempt(c *mon.C) {
	valid := "database d; table t {a int}"
	b := newBox(c)
	defer b.remove()
	c.Begin("inputs that cannot be read, with others near them")
	defer c.End()
	put := func(p string) { b.write(p, "database "+"d_"+fmt.Sprint(len(p))+"; table t {a int}") }
	inside := []string{"main.kf", "index.kf", "schema.kf", "kuneiform.kf", "dir.kf", "dir", "db.kf", "default.kf", "app.kf", "init.kf", "mod.kf", "a.kf", ".kf", "Main.kf", "__init__.kf", "root.kf", "database.kf", "kwil.kf", "kuneiform", "dir.kf.kf", "lib.kf"}
	exts := []string{".kf", ".KF", ".kuneiform", ".kwil", ".txt", ".sql", ".json", ".bak", "~", ".tmp", ".swp", ".orig", ".old", ".new", ".1", ".gz", ".kfs", ".in"}
	for _, s := range gen.FreshRaws() {
		if s != "" && len(s) < 60 && !strings.ContainsAny(s, "/\x00") && s != "." && s != ".." {
			inside = append(inside, s)
			exts = append(exts, s, "."+s)
		}
	}
	for _, d := range []string{"dir", "dir.kf", "dir.d"} {
		for _, f := range inside {
			put(filepath.Join(d, f))
		}
	}
	put("one.d/only.kf") // a directory with a single file
	b.mkdir("empty.d")
	for _, e := range exts {
		put("miss" + e)
	}
	for _, d := range []string{"src", "contracts", "schemas", "kf", "build", "input", "inputs", "examples", "test", "."} {
		put(filepath.Join(d, "else.kf"))
	}
	for _, f := range []string{"Case.kf", "two.kf", "Two.kf", "un_der.kf", "sp ace.kf", "x.y.kf", "sub/x.kf", "other"} {
		put(f)
	}
	b.link("loop.kf", "loop.kf")
	b.link("dangling.kf", "nosuch.kf")
	b.link("todir.kf", "dir")
	asks := []string{"dir", "dir/", "dir.kf", "dir.kf/", "dir.d", "./dir", "one.d", "empty.d", ".", "..", "./", "miss", "miss.k", "miss.", "./miss", "miss.kf.kf", "miss.kf ", " miss.kf", "miss.kf/", "miss.kf\n", "miss.kfx", "mis.kf",
		"case.kf", "CASE.KF", "under.kf", "un-der.kf", "sp+ace.kf", "sp%20ace.kf", "sp\\ ace.kf", "\"two.kf\"", "'two.kf'", "two.kf,Two.kf", "two.kf;Two.kf", "two.kf:Two.kf", "two.kf Two.kf", "*.kf", "tw?.kf", "[tT]wo.kf", "{two,Two}.kf", "**/x.kf", "sub/*", "-", "/dev/stdin.kf", "file:two.kf", "file://two.kf",
		"file://" + b.dir + "/two.kf", "~/two.kf", "$HOME/two.kf", "${HOME}/two.kf", "%HOME%/two.kf", "$PWD/two.kf", "@two.kf", "<two.kf", "|cat two.kf", "x.y", "x", "x.kf", "sub", "else", "build/../nosuch/else.kf", "nosuch/else.kf", "nosuch/../else.kf", "/two.kf", "/else.kf", "\\two.kf", "sub\\x.kf", "two.kf\x01", "loop.kf", "dangling.kf", "todir.kf", "other.kf", "", "two.kf#a", "two.kf?a=1", "two.kf:1", "TWO", "kf", "two.KF", "nosuch", strings.Repeat("n", 300) + ".kf", strings.Repeat("n/", 2500) + "a.kf"}
	if wd := b.dir; wd != "" {
		asks = append(asks, wd, wd+"/", wd+"/miss", wd+"/dir", "../"+filepath.Base(wd), "../two.kf", "../"+filepath.Base(wd)+"/miss")
	}
	for _, s := range gen.FreshRaws() {
		if s != "" && len(s) < 60 && !strings.ContainsAny(s, "\x00") {
			asks = append(asks, s, "nosuch"+s, s+"nosuch")
		}
	}
	before := b.tree()
	for i, ask := range asks {
		if i%c.Shards != c.Shard || c.Full() || strings.ContainsRune(ask, 0) {
			continue
		}
		readable := false
		if !filepath.IsAbs(ask) && ask != "" || filepath.IsAbs(ask) {
			p := ask
			if !filepath.IsAbs(p) {
				p = b.dir + "/" + ask
			}
			_, err := os.ReadFile(p)
			readable = ask != "" && err == nil
		}
		if readable { // asked by a word of the code
			continue
		}
		for k, in := range []string{"", valid} {
			if k == 0 && i%3 > 0 {
				continue
			}
			r := b.cliIn(c, in, []string{"-o", "out", "--", ask})
			c.Count("inputs that cannot be read", 1)
			c.Eval(fmt.Sprintf("tempt %q %d", strings.ReplaceAll(ask, b.dir, ""), k))
			if r.code != 4 || r.hung {
				c.Fail("exit code", fmt.Sprintf("an input %q that cannot be read, with others near it: exit code %d, should be 4: %s", mon.Clip(ask, 100), r.code, mon.Clip(r.out, 300)), "", ask)
			} else if strings.TrimSpace(r.out) == "" {
				c.Fail("silent", fmt.Sprintf("an input %q that cannot be read: the command says nothing", mon.Clip(ask, 100)), "", ask)
			}
			if d := before.diff(b.tree(), func(d string) bool { return d == "out" }); d != "" {
				c.Fail("files", fmt.Sprintf("an input %q that cannot be read: %s", mon.Clip(ask, 100), d), "", ask)
				return
			}
		}
	}
	// and those that can be, whatever is near them
	text := func(p string) string { x, _ := os.ReadFile(filepath.Join(b.dir, p)); return string(x) }
	for i, p := range []string{"miss.kf", "miss.KF", "miss.kfs", "miss.txt", "miss~", "miss.json", "dir/main.kf", "dir.kf/dir.kf", "Case.kf", "Two.kf", "two.kf", "else.kf", "src/else.kf", "build/else.kf", "sub/x.kf", "x.y.kf", "other", "sp ace.kf", "dir/.kf"} {
		if i%c.Shards != c.Shard || c.Full() {
			continue
		}
		o := sut.Compile(text(p))
		r := b.cliIn(c, valid, []string{"-o", "out", p})
		out := "out/" + outName(p)
		if got, err := os.ReadFile(filepath.Join(b.dir, out)); r.code != 0 || err != nil || string(got) != string(o.JSON) {
			c.Fail("files", fmt.Sprintf("the input %q, with others near it: exit code %d, %d of %d bytes written: %s", p, r.code, len(got), len(o.JSON), mon.Clip(r.out, 300)), "", p)
			return
		}
		os.Remove(filepath.Join(b.dir, out))
		if d := before.diff(b.tree(), func(d string) bool { return d == "out" }); d != "" {
			c.Fail("files", fmt.Sprintf("the input %q: %s", p, d), "", p)
			return
		}
		c.Count("inputs with others near them", 1)
		c.Eval("near " + p)
	}
}

func (b *box) cliIn(c *mon.C, in string, args []string) ran {
	return b.exec(c, append([]string{cliPath()}, args...), func(cmd *exec.Cmd) { cmd.Stdin = strings.NewReader(in) })
}

// cliPlaces: every input name in every relation of the input's directory to
// the output directory and every spelling of the two.
func cliPlaces(c *mon.C) {
	names := append([]string{}, cliNames...)
	for _, s := range gen.FreshRaws() {
		if s != "" && len(s) < 60 && !strings.ContainsAny(s, "/\x00") && s != "." && s != ".." {
			names = append(names, s, "x"+s, s+".kf", "x"+s+".kf", s+"x.kf", "x.kf"+s)
		}
	}
	for _, e := range []string{".json", ".kf", ".txt", ".KF", ".min", ".schema", ".d", ".tar", ".0"} {
		names = append(names, "x"+e+e, "x"+e+".kf", "x.kf"+e, "x"+e+".json", "x.json"+e)
	}
	c.Begin("inputs of all names in all places")
	defer c.End()
	for i, n := range names {
		if i%c.Shards != c.Shard || c.Full() {
			continue
		}
		b := newBox(c)
		text := fmt.Sprintf("database d%d; table t {a int}", i)
		want := string(sut.Compile(text).JSON)
		for _, p := range [][3]string{{"src", "src", "src"}, {"src", "./src", "src"}, {"./src", "src", "src"}, {"src/", "src", "src"}, {"src", "src/", "src"}, {"src", "src/.", "src"}, {"src", "src/../src", "src"}, {".", ".", "."}, {".", "", "build"},
			{"src", "src/deep", "src/deep"}, {"src/deep", "src", "src"}, {"src", ".", "."}, {"src", "other", "other"}, {"src", "lnk", "src"}, {"lnk", "src", "src"}, {"lnk", "lnk", "src"}, {"src", b.dir + "/src", "src"}, {b.dir + "/src", "src", "src"}, {b.dir + "/src", b.dir + "/src", "src"}, {"src", "", "build"}, {"build", "", "build"}, {"build", "build", "build"}} {
			at := filepath.Join("src", n) // where the input is
			if in := strings.TrimPrefix(strings.Trim(p[0], "./"), strings.Trim(b.dir, "/")+"/"); in != "lnk" && in != "src" {
				at = filepath.Join(in, n)
			}
			if p[2] == "build" && at == "build" || p[2] == "." && filepath.Join(".", outName(n)) == "src" {
				continue
			}
			b.mkdir("src/deep")
			b.link("lnk", "src")
			b.write(at, text)
			before := b.tree()
			args := []string{p[0] + "/" + n}
			if p[1] != "" {
				args = append(args, "-o", p[1])
			}
			r := b.cli(c, args...)
			before[filepath.Join(p[2], outName(n))] = "file " + want
			msg := before.diff(b.tree(), func(d string) bool { return d == p[2] })
			if r.code != 0 {
				msg = fmt.Sprintf("exit code %d: %s", r.code, mon.Clip(r.out, 300))
			}
			c.Count("names and places", 1)
			c.Eval(strings.Join(args, "\x00"))
			if msg != "" {
				c.Fail("place", fmt.Sprintf("kf %q: %s", args, msg), text, map[string]any{"args": args})
			}
			os.Remove(filepath.Join(b.dir, "lnk"))
			for _, d := range []string{"src", "build", "other"} {
				os.RemoveAll(filepath.Join(b.dir, d))
			}
			os.Remove(filepath.Join(b.dir, n))
			os.Remove(filepath.Join(b.dir, outName(n)))
		}
		b.remove()
	}
}
