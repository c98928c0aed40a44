package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	steps := flag.Int64("steps", 0, "step budget of a path (debugging)")
	hname := flag.String("h", "", "harness")
	tier := flag.Int("tier", 0, "tier")
	secs := flag.Float64("t", 30, "seconds")
	workers := flag.Int("w", 8, "workers")
	verbose := flag.Bool("v", false, "verbose")
	dir := flag.String("dir", "/verif/harness", "harness module")
	check := flag.String("check", "", "property to check")
	tierName := flag.String("tiername", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "verification directory")
	replay := flag.String("replay", "", "replay a stored violation")
	seed := flag.Int64("seed", 1, "seed")
	flag.Parse()
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(12 << 30)
	if *replay != "" {
		os.Exit(runReplay(*verif, *replay))
	}
	if *check != "" {
		os.Exit(runCheck(*check, *tierName, *verif, *secs, *workers, *seed, *hname))
	}
	t0 := time.Now()
	L, err := load(*dir, "./hs", "./vmodel", "./vrt")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	P := newProgram(L)
	if err := P.setup(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0))
	cfg := &runCfg{tier: *tier, pathTime: 30 * time.Second, timeoutMS: 5000, assertMS: 20000, concCap: 64, maxSteps: 3000000, maxAlloc: 64 << 20, workers: *workers, sampleN: 20, verbose: *verbose}
	ex := &Explorer{P: P, cfg: cfg, deadline: time.Now().Add(time.Duration(*secs * float64(time.Second)))}
	for _, n := range strings.Split(*hname, ",") {
		f := L.pkgs["vh/hs"].Func(n)
		if f == nil {
			fmt.Println("no harness", n)
			os.Exit(2)
		}
		h := newHState(ex, n, P.cfn(f))
		h.maxSteps = *steps
		ex.hs = append(ex.hs, h)
	}
	if f := os.Getenv("VSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	ex.Run()
	for _, h := range ex.hs {
		fmt.Printf("%s: %+v\n", h.name, h.st)
		for k, cs := range h.cands {
			fmt.Println("  CAND", k, cs[0].Msg, cs[0].Vals)
		}
		for i, s := range h.samp {
			if i < 5 {
				fmt.Println("  ", s.Vals, truncAll(s.Obs, 120))
			}
		}
	}
	if profSteps {
		var fs []*cfunc
		for _, f := range P.fns {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].steps > fs[j].steps })
		for _, f := range fs[:25] {
			fmt.Println("  steps", f.steps, f.name)
		}
	}
	q, sat, unsat, unk := 0, 0, 0, 0
	var st time.Duration
	for _, m := range ex.workers {
		q += m.sol.Queries
		sat += m.sol.Sat
		unsat += m.sol.Unsat
		unk += m.sol.Unknown
		st += m.sol.Time
	}
	fmt.Println("queries", q, "sat", sat, "unsat", unsat, "unknown", unk, "solver", st, "wall", time.Since(t0))
}

func newHState(ex *Explorer, n string, f *cfunc) *hstate {
	return &hstate{name: n, fn: f, ex: ex, weight: 1, cands: map[string][]*Candidate{}, taken: map[uint64]bool{}, st: hstats{UnsupWhy: map[string]int{}, UnknownWhy: map[string]int{}, Reach: map[string]int{}}}
}
