package main

// Path exploration: a shared work list of decision prefixes, one solver and
// term table per worker.

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Harness struct {
	name string
	prop string
	fn   *ssa.Function

	mu         sync.Mutex
	paths      int
	ends       map[endKind]int
	endMsgs    map[string]int
	covers     map[string]bool
	wantCovers []string
	asserts    map[string]int
	confirmed  map[string]int
	trivially  int
	discharged int
	unknown    int
	violations []*violation
	samples    []sample
	seenDone   int
	elapsed    time.Duration
	stack      []workItem
}

type sample struct {
	Model   *Model
	Obs     []string
	Outcome string
	Order   []string
}

type workItem struct {
	h     *Harness
	dec   []decision
	model *Model
}

type Run struct {
	ld          *Loaded
	harnesses   []*Harness
	mu          sync.Mutex
	cond        *sync.Cond
	queued      int
	busy        int
	stop        bool
	deadline    time.Time
	timedOut    bool
	maxForks    int
	maxSteps    int
	maxSite     int
	maxPreempts int
	callYield   bool
	thorough    bool
	seed        int64
	stopOnViolation func(v *violation) bool
	fns         map[string]int
	workers     []*Worker
	totalPaths  int
	totalDecs   int
	left        map[string]int
	verbose     bool
	maxSamples  int
	maxConfirm  int
}

type Worker struct {
	run   *Run
	tt    *Table
	sv    *Solver
	cache map[string]cacheEnt
	fns   map[*ssa.Function]bool
	hits  int
}

type cacheEnt struct {
	r Result
	m *Model
}

func NewRun(ld *Loaded) *Run {
	r := &Run{ld: ld, maxForks: 4000, maxSteps: 3000000, maxSite: 600, maxPreempts: 2, fns: map[string]int{}, left: map[string]int{}, maxSamples: 6, maxConfirm: 8}
	r.cond = sync.NewCond(&r.mu)
	return r
}

func (w *Worker) cachedCheck(pc []*Term, goal *Term) (Result, *Model) {
	cs := append(w.sv.slice(pc, goal), goal)
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = c.id
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&b, "%d,", i)
	}
	k := b.String()
	if e, ok := w.cache[k]; ok {
		w.sv.Stats.CacheHits++
		return e.r, e.m
	}
	r, m := w.sv.checkAll(cs)
	if r != Unknown {
		w.cache[k] = cacheEnt{r, m}
	}
	return r, m
}

func (w *Worker) push(h *Harness, d []decision, m *Model) {
	r := w.run
	r.mu.Lock()
	h.stack = append(h.stack, workItem{h, d, m})
	r.queued++
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) expired() bool { return r.stop || (!r.deadline.IsZero() && time.Now().After(r.deadline)) }

func (r *Run) noteUnknown(h *Harness) { h.mu.Lock(); h.unknown++; h.mu.Unlock() }
func (r *Run) noteAssert(h *Harness, label string, fresh bool) {
	if !fresh {
		return
	}
	h.mu.Lock()
	h.asserts[label]++
	h.mu.Unlock()
}
func (r *Run) mayConfirm(h *Harness, label string) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.confirmed[label] >= r.maxConfirm {
		return false
	}
	h.confirmed[label]++
	return true
}

func (r *Run) noteDischarged(h *Harness, bySolver bool) {
	h.mu.Lock()
	if bySolver {
		h.discharged++
	} else {
		h.trivially++
	}
	h.mu.Unlock()
}
func (r *Run) noteFn(w *Worker, fn *ssa.Function) { w.fns[fn] = true }

func (r *Run) stepLimit(x *Exec) {
	// possible non-termination: let the replay decide
	r.violate(x, "terminates", "step limit at "+x.where(), x.model)
}

func (r *Run) violate(x *Exec, label, detail string, m *Model) {
	v := &violation{harness: x.h.name, label: label, model: m, detail: detail}
	v.model = m.overlay(NewModel())
	// every variable of the path gets a value
	v.order(x)
	if debugUnconf {
		old := x.model
		x.model = v.model
		v.obs = x.sample("").Obs
		for i, t := range x.pc {
			fmt.Fprintln(os.Stderr, "PC", i, len(t.String()), cutStr(t.String(), 600))
			if x.eval(t) != 1 {
				println("PC FALSE UNDER MODEL:", t.String())
			}
		}
		x.model = old
	}
	h := x.h
	h.mu.Lock()
	n := 0
	for _, o := range h.violations {
		if o.label == label {
			n++
		}
	}
	if n < 4 {
		h.violations = append(h.violations, v)
	}
	h.mu.Unlock()
	if n < 4 && r.stopOnViolation != nil && r.stopOnViolation(v) {
		r.mu.Lock()
		r.stop = true
		r.mu.Unlock()
		r.cond.Broadcast()
	}
}

var debugUnconf = os.Getenv("SYMGO_UNCONF") != ""

func (v *violation) order(x *Exec) { v.ord = append([]string(nil), x.order...) }

func (r *Run) explore(nworkers int) {
	for _, h := range r.harnesses {
		h.stack = append(h.stack, workItem{h, nil, NewModel()})
		r.queued++
	}
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		tt := NewTable()
		w := &Worker{run: r, tt: tt, sv: NewSolver(tt), cache: map[string]cacheEnt{}, fns: map[*ssa.Function]bool{}}
		if r.thorough {
			w.sv.Timeout = 120000
		}
		w.sv.cross = 29
		r.workers = append(r.workers, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.loop()
			w.sv.Close()
		}()
	}
	wg.Wait()
	for _, h := range r.harnesses {
		if len(h.stack) > 0 {
			r.left[h.name] = len(h.stack)
		}
	}
	if os.Getenv("SYMGO_TIMES") != "" {
		hs := append([]*Harness(nil), r.harnesses...)
		sort.Slice(hs, func(i, j int) bool { return hs[i].elapsed > hs[j].elapsed })
		for i := 0; i < len(hs) && i < 25; i++ {
			fmt.Fprintf(os.Stderr, "%8.1fs %5d paths %s\n", hs[i].elapsed.Seconds(), hs[i].paths, hs[i].name)
		}
	}
	for _, w := range r.workers {
		for f := range w.fns {
			r.fns[f.String()]++
		}
	}
}

func (w *Worker) loop() {
	r := w.run
	for {
		r.mu.Lock()
		for r.queued == 0 && r.busy > 0 && !r.stop {
			r.cond.Wait()
		}
		if r.stop || r.queued == 0 {
			r.mu.Unlock()
			r.cond.Broadcast()
			return
		}
		if !r.deadline.IsZero() && time.Now().After(r.deadline) {
			r.timedOut = true
			r.mu.Unlock()
			r.cond.Broadcast()
			return
		}
		it := r.take()
		r.busy++
		r.mu.Unlock()
		t0 := time.Now()
		w.one(it)
		r.mu.Lock()
		it.h.elapsed += time.Since(t0)
		r.busy--
		r.mu.Unlock()
		r.cond.Broadcast()
	}
}

// take returns the latest work of the harness that has had the least time, in
// steps of a few seconds, so that one that explodes does not starve the rest.
func (r *Run) take() workItem {
	var best *Harness
	for _, h := range r.harnesses {
		if len(h.stack) > 0 && (best == nil || h.elapsed/quantum < best.elapsed/quantum) {
			best = h
		}
	}
	it := best.stack[len(best.stack)-1]
	best.stack = best.stack[:len(best.stack)-1]
	r.queued--
	return it
}

const quantum = 4 * time.Second

func (w *Worker) one(it workItem) {
	if w.tt.n > 1500000 { // keep memory bounded
		w.tt = NewTable()
		st := w.sv.Stats
		w.sv.Close()
		to, cr := w.sv.Timeout, w.sv.cross
		w.sv = NewSolver(w.tt)
		w.sv.Stats, w.sv.Timeout, w.sv.cross = st, to, cr
		w.cache = map[string]cacheEnt{}
	}
	x := &Exec{w: w, tt: w.tt, sv: w.sv, ld: w.run.ld, h: it.h, pcSet: map[*Term]bool{}, model: it.model, dec: it.dec,
		names: map[string]int{}, maxPreempts: w.run.maxPreempts, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		siteHits: map[ssa.Instruction]int{}, covers: map[string]bool{}, pools: map[*Value][]Value{}, locks: map[*Value]int{}}
	x.alloc = x.k64(0)
	x.tt.NewEval()
	e := x.runPath(it.h.fn)
	h := it.h
	h.mu.Lock()
	h.paths++
	h.ends[e.kind]++
	if e.msg != "" && e.kind != endViolation {
		m := e.msg
		if os.Getenv("SYMGO_DEBUG") == "" {
			if i := strings.IndexByte(m, '\n'); i > 0 {
				m = m[:i]
			}
		}
		h.endMsgs[fmt.Sprintf("%d:%s", e.kind, m)]++
	}
	for c := range x.covers {
		h.covers[c] = true
	}
	takeSample := false
	if e.kind == endDone {
		h.seenDone++
		k := w.run.maxSamples
		if len(h.samples) < k {
			takeSample = true
		} else if (h.seenDone*2654435761+int(w.run.seed)*97)%(h.seenDone/k+1) == 0 && h.seenDone%7 == 0 {
			takeSample = true
		}
	}
	h.mu.Unlock()
	for n, v := range x.model.Vars { // gigabytes are not replayed as samples
		if v > 1<<26 && strings.Contains(n, ".len#") {
			takeSample = false
		}
	}
	if takeSample {
		s := x.sample("ok")
		h.mu.Lock()
		if len(h.samples) < w.run.maxSamples {
			h.samples = append(h.samples, s)
		} else {
			h.samples[(h.seenDone/7)%len(h.samples)] = s
		}
		h.mu.Unlock()
	}
	w.run.mu.Lock()
	w.run.totalPaths++
	w.run.totalDecs += len(x.dec)
	w.run.mu.Unlock()
	if w.run.verbose && e.kind != endDone && e.kind != endInfeasible {
		fmt.Fprintf(os.Stderr, "%s: path %d dec=%d end=%d %s\n", h.name, h.paths, len(x.dec), e.kind, e.msg)
	}
}

// sample records what a completed path must do natively under its model.
func (x *Exec) sample(outcome string) sample {
	s := sample{Model: x.model, Outcome: outcome, Order: x.order}
	for _, o := range x.obs {
		if o.t != nil {
			s.Obs = append(s.Obs, fmt.Sprintf("%s=%d", o.label, x.eval(o.t)))
			continue
		}
		n := x.eval(o.n)
		if n > 4096 {
			s.Obs = append(s.Obs, fmt.Sprintf("%s=len%d", o.label, n))
			continue
		}
		var b strings.Builder
		for i := uint64(0); i < n; i++ {
			fmt.Fprintf(&b, "%02x", x.eval(x.aRead(o.arr, x.tt.AddK(o.off, int64(i)))))
		}
		s.Obs = append(s.Obs, fmt.Sprintf("%s=%s", o.label, b.String()))
	}
	return s
}

func cutStr(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
