// kfverif runs the checks: see /verif/DESIGN.md.
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"

	"kfverif/checks"
	"kfverif/mon"
)

func main() {
	a := os.Args[1:]
	switch {
	case len(a) == 2 && a[0] == "check":
		ch := checks.All[a[1]]
		if ch == nil {
			fmt.Println("no such check:", a[1])
			os.Exit(2)
		}
		os.Exit(mon.Main(ch))
	case len(a) == 7 && a[0] == "worker":
		seed, _ := strconv.ParseInt(a[3], 10, 64)
		shard, _ := strconv.Atoi(a[4])
		shards, _ := strconv.Atoi(a[5])
		mon.Worker(checks.All[a[1]], a[2], seed, shard, shards, a[6])
	case len(a) == 1 && a[0] == "batch":
		checks.CompileBatch()
	case len(a) == 3 && a[0] == "cold":
		checks.Cold(a[1], a[2])
	case len(a) == 2 && a[0] == "replay":
		os.Exit(mon.ReplayFile(checks.All, a[1]))
	case len(a) == 1 && a[0] == "list":
		var l []string
		for k := range checks.All {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			fmt.Println(k)
		}
	default:
		fmt.Println("usage: kfverif check ID | replay FILE | list")
		os.Exit(2)
	}
}
