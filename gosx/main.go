// Command gosx executes Go code symbolically and decides assertions with an
// SMT solver.
package main

import (
	"flag"
	"os"
	"runtime/pprof"
)

var (
	onlyShard  int
	replayFile string
)

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "code under test")
	verif := flag.String("verif", "/verif", "the framework's directory")
	only := flag.String("only", "", "only harnesses whose name contains this")
	limit := flag.Int("limit", 0, "time limit of the exploration, in seconds")
	verbose := flag.Bool("v", false, "print paths")
	flag.IntVar(&onlyShard, "shard", -1, "only this shard")
	flag.StringVar(&replayFile, "replay", "", "run a reported counterexample natively")
	flag.Parse()
	if f := os.Getenv("GOSX_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	rc := checkMain(*prop, *tier, *repo, *verif, *only, *verbose, *limit)
	pprof.StopCPUProfile()
	os.Exit(rc)
}
