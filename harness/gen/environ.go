package gen

import (
	"math/rand"
	"strings"
)

// Environment gives variables as they may be set where the code runs: those
// that programs commonly look at, those named by new words of the source, with
// values that are switches, numbers, paths and languages. Variables that the
// dynamic linker or the Go runtime act upon are not among them.
func Environment(r *rand.Rand, pct int, mostly string) (l []string) {
	names := []string{"DEBUG", "VERBOSE", "TRACE", "QUIET", "SILENT", "STRICT", "FORCE", "DRY_RUN", "CI", "NO_COLOR", "FORCE_COLOR", "CLICOLOR", "TERM", "COLUMNS", "LINES", "EDITOR", "PAGER", "USER", "LOGNAME", "HOSTNAME", "SHELL", "PWD", "OLDPWD",
		"LANG", "LC_ALL", "LC_CTYPE", "LC_NUMERIC", "LANGUAGE", "TZ", "SOURCE_DATE_EPOCH", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR", "APPDATA", "POSIXLY_CORRECT", "IFS", "TESTING", "TEST", "ENV", "GO_ENV", "NODE_ENV", "LOG_LEVEL", "LOGLEVEL", "GOPATH", "GOROOT", "GOFLAGS",
		"OUTPUT", "OUTPUT_DIR", "OUTPUTDIR", "OUT", "OUT_DIR", "BUILD", "BUILD_DIR", "DESTDIR", "PREFIX", "INPUT", "FILE", "CONFIG", "MODE", "VERSION", "DATABASE", "DATABASE_URL", "SCHEMA", "INDENT", "PRETTY", "COMPACT", "FORMAT", "JSON_INDENT"}
	for _, p := range []string{"KF", "KUNEIFORM", "KWIL", "KF_CLI", "ANTLR", "COBRA"} {
		for _, s := range []string{"", "_DEBUG", "_TRACE", "_OUTPUT", "_OUTPUT_DIR", "_OUT", "_BUILD_DIR", "_STRICT", "_MODE", "_VERSION", "_HOME", "_CONFIG", "_CACHE", "_CACHE_DIR", "_LOG", "_VERBOSE", "_INDENT", "_PRETTY", "_COMPAT", "_LEGACY", "_NO_VALIDATE", "_SKIP_VALIDATION", "_MAX"} {
			if p != "KF_CLI" && p+s != "COBRA" {
				names = append(names, p+s)
			}
		}
	}
	values := []string{"1", "true", "yes", "on", "0", "false", "", "out2", "/nonexistent", "/dev/null", ".", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "C", "POSIX", "dumb", "xterm-256color", "debug", "trace", "production", "80", "-1", "UTC", "Asia/Kathmandu", "0x10", "99999999999999999999", "{}", "a b"}
	for _, n := range names {
		if r.Intn(100) < pct {
			v := values[r.Intn(len(values))]
			if mostly != "" && r.Intn(8) > 0 {
				v = mostly
			}
			l = append(l, n+"="+v)
		}
	}
	for _, n := range Fresh() {
		if r.Intn(2) == 0 {
			v := values[r.Intn(len(values))]
			if f := FreshRaws(); len(f) > 0 && r.Intn(2) == 0 {
				v = f[r.Intn(len(f))]
			}
			if mostly != "" && r.Intn(2) == 0 {
				v = mostly
			}
			if !strings.HasPrefix(n, "VERIF_") && n != "PATH" && n != "HOME" && n != "TMPDIR" && !strings.HasPrefix(n, "LD_") && !strings.HasPrefix(n, "GO") && !strings.Contains(v, "\x00") {
				l = append(l, n+"="+v)
			}
		}
	}
	return l
}
