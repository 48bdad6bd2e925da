// Package sym is the interface between harnesses and the symbolic executor.
// The executor intercepts every function here that has a symbolic meaning; the
// bodies below are the native meaning, used when a counterexample or a sampled
// path is replayed against the real code.
package sym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

type Replay struct {
	Harness string
	Vars    map[string]uint64
	Arrs    map[string]map[string]uint64
	Order   []string
	Tier    string
}

type Result struct {
	Outcome string
	Obs     []string
}

var cur Replay
var names map[string]int
var obs []string
var mu sync.Mutex
var orderPos int
var orderCond = sync.NewCond(&mu)
var baseG int
var noAlloc bool

func load(r Replay) {
	mu.Lock()
	defer mu.Unlock()
	cur = r
	names = map[string]int{}
	obs = nil
	orderPos = 0
	memLimit = 0
	for _, p := range pools {
		p.items = nil
	}
	pools = nil
	gids, gcount, level, only, running = map[uint64]int{goid(): 0}, 0, 0, "", -1
}

// Main runs the replays of the file named by VERIF_REPLAY.
func Main(table map[string]func()) {
	b, err := ioutil.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var rs []Replay
	if err := json.Unmarshal(b, &rs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for _, r := range rs {
		f := table[r.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", r.Harness)
			os.Exit(3)
		}
		load(r)
		baseG = runtime.NumGoroutine()
		emit(run1(f))
	}
	os.Exit(0)
}

type stop struct{ why string }

func run1(f func()) (out string) {
	defer func() {
		r := recover()
		if s, ok := r.(stop); ok {
			out = s.why
			return
		}
		if r != nil {
			out = "panic:" + fmt.Sprint(r)
		}
	}()
	f()
	return "ok"
}

func emit(out string) {
	mu.Lock()
	j, _ := json.Marshal(Result{out, obs})
	mu.Unlock()
	fmt.Printf("\nRESULT %s\n", j)
}

func fresh(n string) string {
	mu.Lock()
	defer mu.Unlock()
	k := names[n]
	names[n] = k + 1
	return n + "#" + strconv.Itoa(k)
}

func val(name string, dflt uint64) uint64 {
	n := fresh(name)
	if v, ok := cur.Vars[n]; ok {
		return v
	}
	return dflt
}

// ---- symbolic inputs

func U8(name string) uint8   { return uint8(val(name, 0)) }
func U32(name string) uint32 { return uint32(val(name, 0)) }
func U64(name string) uint64 { return val(name, 0) }
func I32(name string) int32  { return int32(val(name, 0)) }
func I64(name string) int64  { return int64(val(name, 0)) }
func Bool(name string) bool  { return val(name, 0) != 0 }

// Int is any value in [lo, hi], lo >= 0.
func Int(name string, lo, hi int) int { return int(val(name, uint64(lo))) }

// Choose is a concrete value in [0, n): every one is explored.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(val(name, 0))
}

// Bytes is any byte slice with a length in [lo, hi] and no spare capacity.
func Bytes(name string, lo, hi int) []byte {
	n := int(val(name+".len", uint64(lo)))
	b := make([]byte, n)
	for i, v := range cur.Arrs[fresh(name)] {
		k, _ := strconv.ParseUint(i, 10, 64)
		if k < uint64(n) {
			b[k] = byte(v)
		}
	}
	return b[:n:n]
}

// String is any string with a length in [lo, hi].
func String(name string, lo, hi int) string { return string(Bytes(name, lo, hi)) }

// ---- assumptions and assertions

func Assume(c bool) {
	if !c {
		panic(stop{"assume"})
	}
}

func fail(label string) {
	emit("assert:" + label)
	os.Exit(7)
}

func Assert(c bool, label string) {
	if !c {
		fail(label)
	}
}

// BytesEq asserts that a and b have the same length and contents.
func BytesEq(a, b []byte, label string) { Assert(string(a) == string(b), label) }

// StringEq asserts that a and b are equal.
func StringEq(a, b string, label string) { Assert(a == b, label) }

// Cover marks a place that must be reachable.
func Cover(label string) {}

// Skip abandons the path.
func Skip() { panic(stop{"assume"}) }

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// Conc makes a small value concrete by exploring each of 0..max.
func Conc(v int, max int) int { return v }

// Flat is b, for the executor to hold in a plainer form.
func Flat(b []byte) []byte { return b[:len(b):len(b)] }

// Tier selects a bound.
func Tier(quick, thorough int) int {
	if cur.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Roomy: appends leave any spare capacity (instead of none).
func Roomy(on bool) {}

// Native reports whether this is a native replay.
func Native() bool { return true }

// ---- observations compared between the encoding and the native run

func Obs(label string, v uint64) {
	mu.Lock()
	obs = append(obs, fmt.Sprintf("%s=%d", label, v))
	mu.Unlock()
}

func ObsBytes(label string, b []byte) {
	mu.Lock()
	if len(b) > 4096 {
		obs = append(obs, fmt.Sprintf("%s=len%d", label, len(b)))
	} else {
		obs = append(obs, label+"="+hex.EncodeToString(b))
	}
	mu.Unlock()
}

// ---- allocation

var memLimit uint64
var memLabel string
var memBase uint64

// AllocLimit bounds what may be allocated from here to AllocCheck.
func AllocLimit(limit uint64, label string) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	memBase = m.TotalAlloc
	memLimit = limit
	memLabel = label
}

func AllocCheck() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if memLimit != 0 && m.TotalAlloc-memBase > memLimit {
		fail(memLabel)
	}
	memLimit = 0
}

// ---- schedules

var (
	pools   []*Pool
	gids    = map[uint64]int{}
	gcount  int
	level   int
	only    string
	running = -1 // goroutine that passed a scheduling point last
)

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	id := uint64(0)
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

// Go starts a numbered goroutine.
func Go(f func()) {
	id := NewG()
	go func() {
		EnterG(id)
		f()
	}()
}

func NewG() int {
	mu.Lock()
	defer mu.Unlock()
	gcount++
	return gcount
}

func EnterG(id int) {
	g := goid()
	mu.Lock()
	gids[g] = id
	mu.Unlock()
}

// Grain selects the scheduling points inside the code under test: none (0),
// between the statements of ordinary functions (1), also of Xdr methods (2), of
// all functions (3).
func Grain(l int) {
	mu.Lock()
	level = l
	mu.Unlock()
}

// Only leaves out the scheduling points in Xdr methods of other types.
func Only(t string) {
	mu.Lock()
	only = t
	mu.Unlock()
}

// Preempts bounds the preemptions of a schedule; with -1 there is but one
// schedule, in order of creation.
func Preempts(n int) {}

func Step(l int, tag, recv string) {
	mu.Lock()
	on := l <= level && (only == "" || recv == "" || recv == only)
	mu.Unlock()
	if on {
		Yield(tag)
	}
}

// Pool stands for sync.Pool in code with scheduling points: it may return any
// of the items that were put, or none.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	n := len(p.items)
	k := 0
	if n > 0 {
		k = Choose("pool", n+1)
	}
	if k < n {
		x := p.items[n-1-k]
		rest := append([]interface{}(nil), p.items[:n-1-k]...)
		p.items = append(rest, p.items[n-k:]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x != nil {
		if len(p.items) == 0 && Native() {
			mu.Lock()
			pools = append(pools, p)
			mu.Unlock()
		}
		p.items = append(p.items, x)
	}
}

// Yield is a scheduling point; natively the recorded order is enforced.
func Yield(tag string) {
	id := goid()
	mu.Lock()
	defer mu.Unlock()
	me := gids[id]
	tag = strconv.Itoa(me) + " " + tag
	if running == me {
		running = -1
		orderCond.Broadcast()
	}
	for orderPos < len(cur.Order) && cur.Order[orderPos] != tag {
		// a tag that does not come any more is not waited for
		found := false
		for _, t := range cur.Order[orderPos:] {
			if t == tag {
				found = true
			}
		}
		if !found {
			return
		}
		if os.Getenv("SYM_TRACE") != "" {
			println("wait", tag, "at", orderPos, cur.Order[orderPos])
		}
		orderCond.Wait()
	}
	if orderPos < len(cur.Order) {
		// let the segment that ran before this one come to rest
		for i := 0; i < 8 && running >= 0; i++ {
			mu.Unlock()
			time.Sleep(time.Millisecond)
			mu.Lock()
		}
		running = me
		orderPos++
		orderCond.Broadcast()
	}
}

// Join waits for the goroutines started since the replay began.
func Join() {
	for i := 0; i < 2000; i++ {
		if runtime.NumGoroutine() <= baseG {
			return
		}
		time.Sleep(time.Millisecond)
	}
}
