package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// native replays assignments against the ordinary build of /repo.
type native struct {
	verif string
	bin   string
	race  string
	dir   string
	mu    sync.Mutex
	n     int
}

type nrec struct {
	K string
	L string
	V string
	B []byte
	S []string
}

type nresult struct {
	Recs    []nrec
	Timeout bool
	Exit    int
	Stderr  string
	Cwd     string
	Wall    time.Duration
}

const repoRoot = "/repo"

func (n *native) build(race bool) (string, error) {
	out := filepath.Join(n.dir, "replay")
	cg := "CGO_ENABLED=0"
	args := []string{"build", "-o", out}
	if race {
		out += "-race"
		args = []string{"build", "-race", "-o", out}
		cg = "CGO_ENABLED=1"
		if o, err := noiseOverlay(repoRoot, n.dir); err == nil {
			args = append(args, "-overlay", o)
		}
	}
	cmd := exec.Command(goBin, append(args, "./replay")...)
	cmd.Dir = filepath.Join(n.verif, "harness")
	for _, e := range goEnv() {
		if !strings.HasPrefix(e, "CGO_ENABLED=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, cg)
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build ./replay: %v\n%s", err, b)
	}
	return out, nil
}

func (n *native) run(bin, h string, vals []uint64, ext uint64, tier int, timeout time.Duration, env ...string) (*nresult, error) {
	n.mu.Lock()
	n.n++
	id := n.n
	n.mu.Unlock()
	base := filepath.Join(n.dir, "r"+strconv.Itoa(id))
	cwd := filepath.Join(base, "w")
	if err := os.MkdirAll(cwd, 0o755); err != nil {
		return nil, err
	}
	defer os.RemoveAll(base)
	if vals == nil {
		vals = []uint64{}
	}
	ab, _ := json.Marshal(map[string]any{"Vals": vals, "Tier": tier, "Ext": ext})
	af, rf := filepath.Join(base, "assign.json"), filepath.Join(base, "result.jsonl")
	if err := os.WriteFile(af, ab, 0o644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, h, af, rf)
	cmd.Dir = cwd
	cmd.Env = append(os.Environ(), "TMPDIR="+base, "GOTRACEBACK=single", "PWD="+cwd)
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	var eb bytes.Buffer
	cmd.Stderr = &limitWriter{b: &eb, n: 64 << 10}
	t0 := time.Now()
	err := cmd.Run()
	r := &nresult{Cwd: cwd, Wall: time.Since(t0), Stderr: eb.String()}
	if ctx.Err() != nil {
		r.Timeout = true
	}
	if cmd.ProcessState != nil {
		r.Exit = cmd.ProcessState.ExitCode()
	} else if err != nil {
		return nil, err
	}
	if b, err := os.ReadFile(rf); err == nil {
		dec := json.NewDecoder(bytes.NewReader(b))
		for dec.More() {
			var x nrec
			if dec.Decode(&x) != nil {
				break
			}
			r.Recs = append(r.Recs, x)
		}
	}
	return r, nil
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if k := l.n - l.b.Len(); k > 0 {
		l.b.Write(p[:min(k, len(p))])
	}
	return len(p), nil
}

// verdict classifies a native run: "" means the harness completed with every assertion true.
func (r *nresult) verdict() (kind, msg string) {
	ended := false
	for _, x := range r.Recs {
		switch x.K {
		case "fail":
			return "assert " + x.L, x.V
		case "panic":
			return "panic", firstLine(x.V)
		case "assume":
			return "", "assumption not met"
		case "end":
			ended = true
		}
	}
	if strings.Contains(r.Stderr, "WARNING: DATA RACE") {
		return "data race", raceSummary(r.Stderr)
	}
	if r.Timeout {
		return "hang", "no result after " + r.Wall.Round(time.Second).String()
	}
	if !ended {
		return "crash", fmt.Sprintf("the process ended with status %d: %s", r.Exit, firstLine(r.Stderr))
	}
	return "", ""
}

func raceSummary(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Previous") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, " | ")
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func (r *nresult) obs() []string {
	var o []string
	for _, x := range r.Recs {
		if x.K == "obs" {
			o = append(o, x.L+"="+strings.ReplaceAll(string(x.B), r.Cwd, "/w"))
		}
	}
	return o
}

// Violation is a counterexample confirmed against the real code.
type Violation struct {
	Property  string   `json:"property"`
	Harness   string   `json:"harness"`
	Kind      string   `json:"kind"`
	Label     string   `json:"label"`
	Engine    string   `json:"engine_message"`
	Native    string   `json:"native_verdict"`
	NativeMsg string   `json:"native_message"`
	Obs       []string `json:"observed"`
	Vals      []uint64 `json:"vals"`
	Ext       uint64   `json:"ext,omitempty"`
	Tier      int      `json:"tier"`
	Race      bool     `json:"race"`
	How       string   `json:"how_to_replay"`
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Obs      string `json:"observed_contains"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

func loadKnown(path string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var ks []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			return nil, fmt.Errorf("%s: %v in %q", path, err, l)
		}
		ks = append(ks, k)
	}
	return ks, nil
}

type checker struct {
	prop, tier string
	verif      string
	seed       int64
	L          *Loaded
	P          *Program
	ex         *Explorer
	nat        *native
	natReady   chan struct{}
	natErr     error
	known      []knownFinding

	mu          sync.Mutex
	viol        []*Violation
	violKeys    map[string]bool
	knownHit    map[string]int
	unconfirmed []string
	tried       int
	nval        int
	ntried      int
	mismatch    []string
	wg          sync.WaitGroup
	sem         chan bool
}

func tierNum(t string) int {
	if t == "thorough" {
		return 1
	}
	return 0
}

var directive = regexp.MustCompile(`(?m)^vrt:([a-z]+)\s*(.*)$`)

type hinfo struct {
	Name   string
	Doc    string
	Weight float64
	Race   bool
	Steps  int64
}

// harnesses finds the functions H_<prop>_... of vh/hs and their doc comments.
func (L *Loaded) harnesses(prop string) []hinfo {
	var r []hinfo
	pre := "H_" + prop + "_"
	for _, f := range L.hsFiles {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, pre) {
				continue
			}
			h := hinfo{Name: fd.Name.Name, Weight: 1}
			if fd.Doc != nil {
				var lines []string
				for _, c := range fd.Doc.List {
					l := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					if m := directive.FindStringSubmatch(l); m != nil {
						switch m[1] {
						case "weight":
							h.Weight, _ = strconv.ParseFloat(strings.TrimSpace(m[2]), 64)
						case "race":
							h.Race = true
						case "steps":
							h.Steps, _ = strconv.ParseInt(strings.TrimSpace(m[2]), 10, 64)
						}
						continue
					}
					lines = append(lines, l)
				}
				h.Doc = strings.TrimSpace(strings.TrimPrefix(strings.Join(lines, " "), h.Name))
			}
			r = append(r, h)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}

func runCheck(prop, tier, verif string, budget float64, workers int, seed int64, only string) int {
	t0 := time.Now()
	c := &checker{prop: prop, tier: tier, verif: verif, seed: seed, violKeys: map[string]bool{}, knownHit: map[string]int{}, natReady: make(chan struct{}), sem: make(chan bool, workers)}
	var err error
	if c.known, err = loadKnown(filepath.Join(verif, "known_findings.jsonl")); err != nil {
		fmt.Println(err)
		return 2
	}
	dir, err := os.MkdirTemp("", "vsym-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	c.nat = &native{verif: verif, dir: dir}
	// the natively built working tree; the race build only when a harness asks for it
	go func() {
		c.nat.bin, c.natErr = c.nat.build(false)
		if c.natErr == nil && prop == "C15" {
			c.nat.race, c.natErr = c.nat.build(true)
		}
		close(c.natReady)
	}()
	L, err := load(filepath.Join(verif, "harness"), "./hs", "./vmodel", "./vrt")
	if err != nil {
		fmt.Println("cannot load /repo's sources:", err)
		return 2
	}
	c.L = L
	c.P = newProgram(L)
	if err := c.P.setup(); err != nil {
		fmt.Println(err)
		return 2
	}
	infos := L.harnesses(prop)
	if len(infos) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	tn := tierNum(tier)
	cfg := &runCfg{tier: tn, pathTime: 20 * time.Second, timeoutMS: 5000, assertMS: 20000, concCap: 64, maxSteps: 3000000, maxAlloc: 64 << 20, workers: workers, sampleN: 40, seed: seed}
	if tn == 1 {
		cfg.assertMS, cfg.sampleN, cfg.pathTime = 60000, 150, 90*time.Second
	}
	ex := &Explorer{P: c.P, cfg: cfg, deadline: t0.Add(time.Duration(budget * float64(time.Second)))}
	c.ex = ex
	race := map[string]bool{}
	var used []hinfo
	for _, hi := range infos {
		if only != "" && !strings.Contains(","+only+",", ","+hi.Name+",") {
			continue
		}
		h := newHState(ex, hi.Name, c.P.cfn(L.pkgs["vh/hs"].Func(hi.Name)))
		h.weight = hi.Weight
		h.maxSteps = hi.Steps
		race[hi.Name] = hi.Race
		ex.hs = append(ex.hs, h)
		used = append(used, hi)
	}
	infos = used
	ex.onCand = func(h *hstate, cand *Candidate) {
		c.wg.Add(1)
		go func() {
			defer c.wg.Done()
			c.confirm(h, cand, race[h.name])
		}()
	}
	ex.Run()
	exploreWall := time.Since(ex.started)
	<-c.natReady
	if c.natErr != nil {
		fmt.Println("cannot build the native replay binary:", c.natErr)
		return 2
	}
	c.wg.Wait()
	c.crossValidate(race)
	c.tryUnsupported(race)
	c.wg.Wait()
	rc := c.report(infos, exploreWall, t0)
	return rc
}

// confirm replays a candidate natively.
func (c *checker) confirm(h *hstate, cand *Candidate, race bool) {
	<-c.natReady
	if c.natErr != nil {
		return
	}
	key := cand.H + "|" + cand.Kind + "|" + cand.Label
	c.mu.Lock()
	if c.violKeys[key] {
		c.mu.Unlock()
		return
	}
	c.tried++
	c.mu.Unlock()
	c.sem <- true
	defer func() { <-c.sem }()
	to := 20 * time.Second
	bin := c.nat.bin
	if race {
		bin, to = c.nat.race, 60*time.Second
	}
	var r *nresult
	var err error
	var kind, msg string
	tries := 1
	if race || strings.HasPrefix(cand.Kind, "race") {
		tries = 6
	}
	for i := 0; i < tries; i++ {
		r, err = c.nat.run(bin, cand.H, cand.Vals, 0, c.ex.cfg.tier, to)
		if err != nil {
			break
		}
		if kind, msg = r.verdict(); kind != "" {
			break
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if err != nil || kind == "" || (kind == "hang" && !strings.HasPrefix(cand.Kind, "limit")) {
		why := msg
		if err != nil {
			why = err.Error()
		} else if why == "" {
			why = "native run satisfies the property"
		}
		if kind == "hang" {
			why = "native run timed out"
		}
		if len(c.unconfirmed) < 20 {
			c.unconfirmed = append(c.unconfirmed, fmt.Sprintf("%s: %s (%s) vals=%v: %s", key, trunc(cand.Msg, 160), "not reproduced", truncVals(cand.Vals), trunc(why, 120)))
		}
		return
	}
	c.addViolation(&Violation{Property: c.prop, Harness: cand.H, Kind: cand.Kind, Label: cand.Label, Engine: cand.Msg, Native: kind, NativeMsg: msg, Obs: r.obs(), Vals: cand.Vals, Tier: c.ex.cfg.tier, Race: race}, key)
}

// addViolation records v unless it is a listed finding. Caller holds c.mu.
func (c *checker) addViolation(v *Violation, key string) {
	for _, k := range c.known {
		if k.Property == c.prop && k.Harness == v.Harness && (k.Label == "" || k.Label == v.Label) {
			if k.Obs != "" && !strings.Contains(strings.Join(v.Obs, "\n"), k.Obs) {
				continue
			}
			c.knownHit[k.What]++
			return
		}
	}
	if c.violKeys[key] {
		return
	}
	c.violKeys[key] = true
	c.viol = append(c.viol, v)
	// a confirmed violation decides the run: leave a little time for others
	if len(c.viol) == 1 && c.tier == "quick" {
		time.AfterFunc(4*time.Second, c.ex.stop)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func truncVals(v []uint64) []uint64 {
	if len(v) > 24 {
		return v[:24]
	}
	return v
}

// crossValidate runs sampled completed paths natively and compares what they observed.
func (c *checker) crossValidate(race map[string]bool) {
	for _, h := range c.ex.hs {
		for i, s := range h.samp {
			bin, to := c.nat.bin, 20*time.Second
			if race[h.name] && i < 10*(1+3*c.ex.cfg.tier) {
				// a share of the schedules is also left to real goroutines under the race detector
				bin, to = c.nat.race, 60*time.Second
			}
			if len(s.Vals) == 0 && len(s.Obs) == 0 {
				continue
			}
			c.wg.Add(1)
			go func() {
				defer c.wg.Done()
				c.sem <- true
				defer func() { <-c.sem }()
				if time.Since(c.ex.started) > c.ex.deadline.Sub(c.ex.started)+60*time.Second {
					return
				}
				r, err := c.nat.run(bin, h.name, s.Vals, 0, c.ex.cfg.tier, to)
				if err != nil {
					return
				}
				kind, msg := r.verdict()
				o := r.obs()
				c.mu.Lock()
				defer c.mu.Unlock()
				if kind == "" && msg == "" && c.prop == "C14" {
					if v := c.otherProcess(bin, h.name, s.Vals, 0, r); v != nil {
						c.addViolation(v, h.name+"|process")
						return
					}
				}
				if kind == "" && msg == "" && strings.Join(o, "\x00") == strings.Join(s.Obs, "\x00") {
					c.nval++
					return
				}
				if kind == "hang" {
					return
				}
				c.mismatch = append(c.mismatch, fmt.Sprintf("%s vals=%v engine=%q native=%q %s %s", h.name, s.Vals, trunc(strings.Join(s.Obs, ";"), 600), trunc(strings.Join(o, ";"), 600), kind, msg))
				if kind != "" {
					// the real code fails on a path the engine completed: still a real violation
					c.addViolation(&Violation{Property: c.prop, Harness: h.name, Kind: "validation", Label: kind, Engine: "path completed in the engine", Native: kind, NativeMsg: msg, Obs: o, Vals: s.Vals, Tier: c.ex.cfg.tier}, h.name+"|validation|"+kind)
				}
			}()
		}
	}
}

// otherProcess runs the same input again in another process with another environment. What is observed must be the same
// (C14: across processes). Caller holds c.mu.
func (c *checker) otherProcess(bin, h string, vals []uint64, ext uint64, r *nresult) *Violation {
	c.mu.Unlock()
	defer c.mu.Lock()
	r2, err := c.nat.run(bin, h, vals, ext, c.ex.cfg.tier, 20*time.Second, "TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "HOME=/nonexistent", "USER=other", "HOSTNAME=other", "GOMAXPROCS=2")
	if err != nil {
		return nil
	}
	if kind, msg := r2.verdict(); kind != "" || msg != "" {
		return nil
	}
	a, b := strings.Join(r.obs(), "; "), strings.Join(r2.obs(), "; ")
	if a == b {
		return nil
	}
	return &Violation{Property: c.prop, Harness: h, Kind: "process", Label: "the same result in another process", Engine: "path completed in the engine", Native: "two processes differ",
		NativeMsg: "other process: " + trunc(b, 300), Obs: r.obs(), Vals: vals, Ext: ext, Tier: c.ex.cfg.tier}
}

// tryUnsupported runs the real code on inputs of paths that the engine had to abandon. That decides nothing when it finds
// nothing (the paths are reported as unsupported), but what fails there is a violation.
func (c *checker) tryUnsupported(race map[string]bool) {
	for _, h := range c.ex.hs {
		for i, v := range h.unsup {
			for ext := uint64(0); ext < 3; ext++ {
				bin, to := c.nat.bin, 20*time.Second
				if race[h.name] {
					if i >= 8 {
						continue
					}
					bin, to = c.nat.race, 60*time.Second
				}
				c.wg.Add(1)
				go func() {
					defer c.wg.Done()
					c.sem <- true
					defer func() { <-c.sem }()
					if time.Since(c.ex.started) > c.ex.deadline.Sub(c.ex.started)+60*time.Second {
						return
					}
					seed := ext
					if ext > 0 {
						seed = uint64(c.seed)<<32 + uint64(i)<<8 + ext
					}
					r, err := c.nat.run(bin, h.name, v, seed, c.ex.cfg.tier, to)
					if err != nil {
						return
					}
					kind, msg := r.verdict()
					c.mu.Lock()
					defer c.mu.Unlock()
					c.ntried++
					if kind == "" && msg == "" && c.prop == "C14" {
						if v := c.otherProcess(bin, h.name, v, seed, r); v != nil {
							c.addViolation(v, h.name+"|process")
							return
						}
					}
					if kind != "" && kind != "hang" {
						c.addViolation(&Violation{Property: c.prop, Harness: h.name, Kind: "unsupported", Label: kind, Engine: "path abandoned by the engine", Native: kind, NativeMsg: msg, Obs: r.obs(), Vals: v, Ext: seed, Tier: c.ex.cfg.tier, Race: race[h.name]}, h.name+"|unsupported|"+kind)
					}
				}()
			}
		}
	}
}

func (c *checker) report(infos []hinfo, exploreWall time.Duration, t0 time.Time) int {
	type hrep struct {
		Harness    string         `json:"harness"`
		Domain     string         `json:"domain_and_bounds"`
		Paths      int            `json:"paths"`
		Completed  int            `json:"paths_completed"`
		Assumed    int            `json:"paths_ended_by_assumption"`
		Unsup      int            `json:"paths_unsupported"`
		Limits     int            `json:"paths_over_step_or_memory_budget"`
		Timeouts   int            `json:"paths_out_of_time"`
		Panics     int            `json:"paths_panicking"`
		Exhausted  bool           `json:"domain_exhausted"`
		Queue      int            `json:"paths_left_unexplored"`
		Branches   int64          `json:"symbolic_branches"`
		Asserts    int64          `json:"assertions_checked"`
		Solver     int64          `json:"assertions_decided_by_solver"`
		Unknown    int            `json:"solver_unknown"`
		Truncated  int            `json:"concretizations_truncated"`
		Incons     int            `json:"inconsistent_paths"`
		PCQ        int            `json:"path_condition_queries"`
		Steps      int64          `json:"ssa_instructions"`
		UnsupWhy   map[string]int `json:"unsupported_reasons,omitempty"`
		UnknownWhy map[string]int `json:"unknown_reasons,omitempty"`
		Reach      map[string]int `json:"reachability_witnesses,omitempty"`
	}
	var reps []hrep
	states, trans := 0, int64(0)
	exhaustive := true
	asserts, nontriv := int64(0), int64(0)
	var samples []any
	for i, h := range c.ex.hs {
		s := h.st
		reps = append(reps, hrep{Harness: h.name, Domain: infos[i].Doc, Paths: s.Paths, Completed: s.Done, Assumed: s.Assumed, Unsup: s.Unsup, Limits: s.Limits, Timeouts: s.Timeouts, Panics: s.Panics,
			Exhausted: s.Exhausted, Queue: s.Queue, Branches: s.Branches, Asserts: s.Asserts, Solver: s.Nontrivial, Unknown: s.Unknown, Truncated: s.Truncated, Incons: s.Inconsistent,
			PCQ: s.PCQueries, Steps: s.Steps, UnsupWhy: topN(s.UnsupWhy, 6), UnknownWhy: topN(s.UnknownWhy, 6), Reach: topN(s.Reach, 40)})
		states += s.Done
		trans += s.Branches
		asserts += s.Asserts
		nontriv += s.Nontrivial
		if !s.Exhausted || s.Unsup > 0 || s.Unknown > 0 || s.Truncated > 0 || s.Limits > 0 || s.Timeouts > 0 || s.Inconsistent > 0 {
			exhaustive = false
		}
		for j, sm := range h.samp {
			if j >= 3 {
				break
			}
			samples = append(samples, map[string]any{"harness": h.name, "inputs": truncVals(sm.Vals), "observed": truncAll(sm.Obs, 240)})
		}
	}
	var q, sat, unsat, unk int
	var st, mq time.Duration
	for _, m := range c.ex.workers {
		q += m.sol.Queries
		sat += m.sol.Sat
		unsat += m.sol.Unsat
		unk += m.sol.Unknown
		st += m.sol.Time
		mq = max(mq, m.sol.maxQ)
	}
	fns, std := []string{}, 0
	c.P.mu.Lock()
	for _, f := range c.P.fns {
		if !f.used.Load() || f.fn == nil {
			continue
		}
		n := f.fn.String()
		if strings.Contains(n, "textwire/textwire") {
			fns = append(fns, strings.ReplaceAll(n, "github.com/textwire/textwire/v2", "tw"))
		} else if f.fn.Pkg != nil && !strings.HasPrefix(f.fn.Pkg.Pkg.Path(), "vh") {
			std++
		}
	}
	c.P.mu.Unlock()
	sort.Strings(fns)
	if len(fns) > 420 {
		fns = fns[:420]
	}
	sort.Slice(c.viol, func(i, j int) bool { return c.viol[i].Harness+c.viol[i].Label < c.viol[j].Harness+c.viol[j].Label })
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"wall_s": round2(time.Since(t0).Seconds()), "violations": len(c.viol),
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": c.nval, "samples": samples, "exhaustive": exhaustive,
			"assertions_checked": asserts, "assertions_decided_by_solver_query": nontriv,
			"queries_discharged": q, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unk,
			"solver": "Z3 5.3.2 (z3-new), one incremental process per worker", "solver_time_s": round2(st.Seconds()), "longest_query_s": round2(mq.Seconds()),
			"exploration_wall_s": round2(exploreWall.Seconds()), "harnesses": reps, "functions_encoded": fns, "functions_encoded_count": len(fns), "stdlib_functions_encoded": std,
			"candidates_replayed": c.tried, "abandoned_paths_run_natively": c.ntried, "candidates_not_reproduced": c.unconfirmed, "validation_mismatches": firstN(c.mismatch, 5), "validation_mismatch_count": len(c.mismatch),
			"meaning": "states = symbolic paths run to completion, each covering every input that satisfies its path condition; transitions = symbolic branches decided on them",
		},
		"assumptions": []string{
			"bounds are those stated per harness; nothing is claimed outside them, and where domain_exhausted is false only for the explored paths",
			"the engine's SSA semantics and its models of os file calls, sync, reflect, time and rand (cross-validated natively on sampled paths)",
			"Z3's answers; unknown results are counted and reduce the claim",
		},
	}
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 60000 {
		ev["coverage"].(map[string]any)["functions_encoded"] = firstN(fns, 60)
		ev["coverage"].(map[string]any)["samples"] = samples[:min(len(samples), 6)]
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	if err := os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	for i, r := range reps {
		fmt.Printf("%s: %d paths (%d completed, %d assumed, %d unsupported, %d over budget, %d out of time, %d panics), exhausted=%v left=%d, asserts=%d (%d by solver), unknown=%d truncated=%d spent=%s\n", r.Harness, r.Paths, r.Completed, r.Assumed, r.Unsup, r.Limits, r.Timeouts, r.Panics, r.Exhausted, r.Queue, r.Asserts, r.Solver, r.Unknown, r.Truncated, c.ex.hs[i].spent.Round(time.Millisecond))
		for k, n := range r.UnsupWhy {
			fmt.Printf("  unsupported %d: %s\n", n, k)
		}
	}
	fmt.Printf("%s %s: %d paths, %d queries, %.1fs solver, %.1fs wall, %d traces validated, %d mismatches\n", c.prop, c.tier, states, q, st.Seconds(), time.Since(t0).Seconds(), c.nval, len(c.mismatch))
	for _, u := range firstN(c.unconfirmed, 8) {
		fmt.Println("not reproduced:", u)
	}
	for _, u := range firstN(c.mismatch, 5) {
		fmt.Println("validation mismatch:", u)
	}
	for _, k := range c.known {
		if k.Property == c.prop && c.knownHit[k.What] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.What)
		}
	}
	if len(c.viol) == 0 {
		return 0
	}
	rd := filepath.Join(c.verif, "replays")
	os.MkdirAll(rd, 0o755)
	for i, v := range c.viol {
		sum := sha1.Sum([]byte(fmt.Sprint(v.Harness, v.Kind, v.Label, v.Vals)))
		p := filepath.Join(rd, fmt.Sprintf("%s-%s-%s.json", c.prop, v.Harness, hex.EncodeToString(sum[:4])))
		v.How = "/verif/replay.sh " + p
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		if i < 8 {
			fmt.Printf("# %s %s: %s %s\n#   observed: %s\n", v.Harness, v.Label, v.Native, trunc(v.NativeMsg, 300), trunc(strings.Join(v.Obs, "; "), 600))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, p)
		}
	}
	return 1
}

func truncAll(s []string, n int) []string {
	r := []string{}
	for i, x := range s {
		if i >= 8 {
			break
		}
		r = append(r, trunc(x, n))
	}
	return r
}

func firstN[T any](s []T, n int) []T {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func topN(m map[string]int, n int) map[string]int {
	if len(m) == 0 {
		return nil
	}
	ks := sortedKeys(m)
	sort.SliceStable(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	r := map[string]int{}
	for i, k := range ks {
		if i >= n {
			break
		}
		r[k] = m[k]
	}
	return r
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

// runReplay re-runs a stored counterexample natively.
func runReplay(verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "vsym-replay-")
	defer os.RemoveAll(dir)
	n := &native{verif: verif, dir: dir}
	bin, err := n.build(v.Race)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r, err := n.run(bin, v.Harness, v.Vals, v.Ext, v.Tier, 30*time.Second)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	kind, msg := r.verdict()
	for _, o := range r.obs() {
		fmt.Println("observed", o)
	}
	if v.Kind == "process" && kind == "" {
		c := &checker{prop: v.Property, nat: n, ex: &Explorer{cfg: &runCfg{tier: v.Tier}}}
		c.mu.Lock()
		for i := 0; i < 5 && kind == ""; i++ {
			if w := c.otherProcess(bin, v.Harness, v.Vals, v.Ext, r); w != nil {
				kind, msg = w.Native, w.NativeMsg
			}
		}
		c.mu.Unlock()
	}
	for _, x := range r.Recs {
		if x.K == "fail" {
			fmt.Println("FAILED", x.L, x.V)
		} else if x.K == "panic" {
			fmt.Println("PANIC", x.V)
		}
	}
	if kind == "" {
		fmt.Println("the property holds on this input", msg)
		return 0
	}
	fmt.Println(kind, msg)
	if v.Race {
		fmt.Println(r.Stderr)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
	return 1
}
