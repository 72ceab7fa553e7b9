package checks

import (
	"fmt"
	"sync/atomic"

	"kfverif/gen"
	"kfverif/mon"
)

// environment is one for a run.
func environment(g *gen.G) []string {
	return gen.Environment(g.R, []int{0, 5, 40, 100}[g.R.Intn(4)], []string{"", "1", "true", "out2"}[g.R.Intn(4)])
}

var environments atomic.Int64

// runEnvironment is the environment of a run of the command.
func runEnvironment(c *mon.C, dir string) []string {
	l := []string{"HOME=" + dir, "TMPDIR=" + dir, "PATH=/usr/bin:/bin", "LC_ALL=C.UTF-8"}
	if c == nil {
		return l
	}
	n := int(environments.Add(1))
	e := environment(gen.New(c.CaseSeed(3000000 + n)))
	c.Count(fmt.Sprintf("runs with %s in the environment", []string{"nothing else", "a few more variables", "many more variables"}[min(2, (len(e)+39)/40)]), 1)
	return append(l, e...)
}
