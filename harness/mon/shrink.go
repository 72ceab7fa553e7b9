package mon

import (
	"strings"
	"time"

	"kfverif/kf"
)

// Shrink looks for a smaller text on which judge still complains: first by
// dropping runs of tokens, then runs of characters.
func Shrink(src string, judge func(string) string, budget time.Duration) string {
	if len(src) > 400000 {
		return ""
	}
	end := time.Now().Add(budget)
	bad := func(s string) (r bool) {
		defer func() {
			if recover() != nil {
				r = false
			}
		}()
		return !kf.Hard(s) && judge(s) != ""
	}
	if !bad(src) {
		return ""
	}
	// by tokens: only if a token-wise spelling still fails
	toks, errs := kf.Lex(src)
	if len(errs) == 0 {
		var parts []string
		for _, t := range toks {
			if t.K != kf.EOF {
				parts = append(parts, t.T)
			}
		}
		join := func(p []string) string { return strings.ReplaceAll(strings.Join(p, " "), " ;", ";") }
		if bad(join(parts)) {
			parts = ddmin(parts, func(p []string) bool { return bad(join(p)) }, end)
			src = join(parts)
		}
	}
	if len(src) < 600 {
		r := strings.Split(src, "")
		r = ddmin(r, func(p []string) bool { return bad(strings.Join(p, "")) }, end)
		src = strings.Join(r, "")
	}
	return src
}

func ddmin(l []string, bad func([]string) bool, end time.Time) []string {
	for n := len(l) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(l); {
			if time.Now().After(end) {
				return l
			}
			c := append(append([]string{}, l[:i]...), l[i+n:]...)
			if bad(c) {
				l = c
			} else {
				i += n
			}
		}
	}
	return l
}
