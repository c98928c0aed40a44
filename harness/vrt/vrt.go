// Package vrt is the harness runtime. In the symbolic engine every exported function is an
// intrinsic; compiled natively it replays one concrete assignment.
package vrt

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
)

type assignment struct {
	Vals []uint64
	Tier int
	Ext  uint64 // when not zero, the seed of the values that follow Vals
}

var (
	asg    assignment
	pos    int
	out    *os.File
	isoIdx int
	isoCh  = -1
)

type rec struct {
	K string   // obs, fail, end, assume, iso, panic
	L string   `json:",omitempty"`
	V string   `json:",omitempty"`
	B []byte   `json:",omitempty"` // observed bytes, any encoding
	S []string `json:",omitempty"`
}

// Start loads the assignment (native replay only).
func Start(assign, result string) {
	b, err := os.ReadFile(assign)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &asg); err != nil {
		panic(err)
	}
	out, err = os.OpenFile(result, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600)
	if err != nil {
		panic(err)
	}
	if s := os.Getenv("VRT_ISO"); s != "" {
		isoCh, _ = strconv.Atoi(s)
	}
}

func emit(r rec) {
	b, _ := json.Marshal(r)
	out.Write(append(b, '\n'))
}

// End marks normal completion.
func End() { emit(rec{K: "end"}) }

// Panicked records an uncaught panic.
func Panicked(msg string) { emit(rec{K: "panic", V: msg}) }

func next(def uint64, dom func(r uint64) uint64) uint64 {
	if pos < len(asg.Vals) {
		pos++
		return asg.Vals[pos-1]
	}
	pos++
	if asg.Ext == 0 {
		return def
	}
	asg.Ext += 0x9e3779b97f4a7c15
	r := asg.Ext
	r = (r ^ r>>30) * 0xbf58476d1ce4e5b9
	r = (r ^ r>>27) * 0x94d049bb133111eb
	return dom(r ^ r>>31)
}

func upTo(n int) func(uint64) uint64 { return func(r uint64) uint64 { return r % uint64(n) } }

func word(r uint64) uint64 {
	if r&1 == 0 {
		return r >> 1
	}
	return uint64(int64(r>>1%16) - 4)
}

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return asg.Tier }

// Symbolic reports whether the engine is running the harness.
func Symbolic() bool { return false }

func Byte() byte { return byte(next(0, upTo(256))) }
func ByteIn(set string) byte {
	return byte(next(uint64(minByte(set)), func(r uint64) uint64 { return uint64(set[r%uint64(len(set))]) }))
}
func Int64() int64     { return int64(next(0, word)) }
func Uint64() uint64   { return next(0, word) }
func Bool() bool       { return next(0, upTo(2))&1 != 0 }
func Float64() float64 { return math.Float64frombits(next(0, func(r uint64) uint64 { return r })) }
func Choice(n int) int { return int(next(0, upTo(n))) }

func minByte(set string) byte {
	b := set[0]
	for i := range len(set) {
		if set[i] < b {
			b = set[i]
		}
	}
	return b
}

// IntRange is any integer in [lo, hi] (at most 256 values).
func IntRange(lo, hi int) int { return lo + int(next(0, upTo(hi-lo+1))) }

// Str is a string of n arbitrary bytes from set (any byte when set is empty).
func Str(n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		if set == "" {
			b[i] = Byte()
		} else {
			b[i] = ByteIn(set)
		}
	}
	return string(b)
}

func Assume(c bool) {
	if !c {
		emit(rec{K: "assume"})
		os.Exit(0)
	}
}

func Assert(c bool, label string) {
	if !c {
		emit(rec{K: "fail", L: label})
	}
}

func AssertEq(got, want, label string) {
	if got != want {
		emit(rec{K: "fail", L: label, V: fmt.Sprintf("got %q, want %q", got, want)})
	}
}

func Observe(label, v string) {
	if isoCh < 0 {
		emit(rec{K: "obs", L: label, B: []byte(v)})
	}
}

func Reach(label string) {}

// MapOrder makes map iteration order arbitrary from here on: 0 insertion order, 1 up to dev
// range statements deviate, 2 every range statement is arbitrary.
func MapOrder(mode, dev int) {}

// Repeat is how often a native replay repeats a nondeterministic comparison.
func Repeat(n int) int { return n }

// Cwd is the working directory.
func Cwd() string {
	d, _ := os.Getwd()
	return d
}

func WriteFile(path, content string) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, []byte(content), 0o644))
}
func Mkdir(path string) { must(os.MkdirAll(path, 0o755)) }

// Unreadable creates a directory entry whose content cannot be read.
func Unreadable(path string) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	if err := os.Symlink(filepath.Base(path), path); !os.IsExist(err) {
		must(err)
	}
}

// Symlink creates a symbolic link to target, which need not exist.
func Symlink(target, path string) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.Symlink(target, path))
}
func Remove(path string) { must(os.Remove(path)) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Isolate runs f on the package state of a fresh process and returns its result.
func Isolate(f func() []string) []string {
	i := isoIdx
	isoIdx++
	if isoCh >= 0 {
		if i == isoCh {
			r := func() (r []string) {
				defer func() {
					if p := recover(); p != nil {
						emit(rec{K: "panic", V: fmt.Sprint(p)})
						os.Exit(0)
					}
				}()
				return f()
			}()
			emit(rec{K: "iso", S: r})
			os.Exit(0)
		}
		return make([]string, 16)
	}
	tmp, err := os.CreateTemp("", "vrtiso")
	must(err)
	tmp.Close()
	defer os.Remove(tmp.Name())
	c := exec.Command(os.Args[0], os.Args[1], os.Args[2], tmp.Name())
	// a fresh process in the same working directory
	c.Dir = Cwd()
	c.Env = append(os.Environ(), "VRT_ISO="+strconv.Itoa(i))
	must(c.Run())
	b, err := os.ReadFile(tmp.Name())
	must(err)
	dec := json.NewDecoder(bytesReader(b))
	for dec.More() {
		var r rec
		must(dec.Decode(&r))
		switch r.K {
		case "iso":
			return r.S
		case "panic":
			panic("in isolated run: " + r.V)
		}
	}
	panic("isolated run gave no result")
}

// Setup runs f and returns its result. f makes no choices, uses no symbolic values and depends on
// nothing but key (and the process being fresh), so that the engine need interpret it only once.
func Setup(key string, f func() any) any { return f() }

// Parallel decides whether the operations may run at the same time: alone holds the result of each
// one issued alone, conc the results of all of them issued concurrently. Every operation builds its
// own data. The engine covers the schedules; a native replay runs rounds of goroutines.
func Parallel(fs ...func() []string) (alone, conc [][]string) {
	for _, f := range fs {
		alone = append(alone, Isolate(f))
	}
	if isoCh >= 0 {
		return alone, alone
	}
	conc = make([][]string, len(fs))
	procs := []int{8, 2, 4, 1}
	for round := 0; round < parRounds; round++ {
		if round%32 == 0 {
			runtime.GOMAXPROCS(procs[round/32%len(procs)])
		}
		n := len(fs) * (1 + round%3)
		got := make([][]string, n)
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				got[i] = fs[i%len(fs)]()
			}()
		}
		close(start)
		wg.Wait()
		for i, g := range got {
			same := len(g) == len(alone[i%len(fs)])
			for k := range g {
				same = same && g[k] == alone[i%len(fs)][k]
			}
			if !same {
				copy(conc, got[:len(fs)])
				conc[i%len(fs)] = g
				return alone, conc
			}
			conc[i%len(fs)] = g
		}
	}
	return alone, conc
}

const parRounds = 256

type reader struct{ b []byte }

func bytesReader(b []byte) *reader { return &reader{b} }
func (r *reader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, errEOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}
