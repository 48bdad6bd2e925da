package main

// One symbolic execution of one path: decisions, path condition, assertions,
// the cooperative scheduler for simulated goroutines.

import (
	"os"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type decision struct {
	b      bool
	forced bool
	val    uint64
}

type endKind int

const (
	endDone endKind = iota
	endInfeasible
	endTruncated   // a stated bound was hit
	endUnsupported // the encoding does not cover something
	endUnknown     // solver gave up
	endViolation   // stopped after a violation
	endKilled
)

type pathEnd struct {
	kind endKind
	msg  string
}

func unsupported(m string) *pathEnd { return &pathEnd{endUnsupported, m} }

type targetPanic struct{ v Value }

type obs struct {
	label string
	w     int
	t     *Term
	arr   *AExpr
	off   *Term
	n     *Term
}

type violation struct {
	harness string
	label   string
	model   *Model
	detail  string
	ord     []string
	obs     []string
}

type Exec struct {
	wideMaps int
	w       *Worker
	tt      *Table
	sv      *Solver
	ld      *Loaded
	h       *Harness
	pc      []*Term
	pcSet   map[*Term]bool
	known   []*Term // all of pcSet's conjuncts, in order
	eqs     map[*Term]*Term
	eqKeys  []*Term
	normMemo map[*Term]*Term
	facts   []fact
	model   *Model
	dec     []decision
	pos     int
	forks   int
	names   map[string]int
	steps   int
	depth   int
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	alloc   *Term
	allocLimit *Term
	allocLabel string
	roomy   bool
	siteHits map[ssa.Instruction]int
	obs     []obs
	order   []string
	covers  map[string]bool
	pools   map[*Value][]Value
	locks   map[*Value]int
	stdout  int

	gs       []*G
	cur      *G
	preempts int
	maxPreempts int
	grain    int
	only     string
	schedOn  bool
	finished chan *pathEnd
	killed   bool
	lastFn   string
	curInstr ssa.Instruction
	opaque   bool
	exitCode *int
	noPanicLabel string
}

type G struct {
	id     int
	resume chan struct{}
	done   bool
	wait   func() bool
	panic  *targetPanic
	depth  int
}

func (x *Exec) simp(t *Term) *Term {
	if t.IsConst() {
		return t
	}
	if r := x.simp1(t); r != t {
		return r
	}
	if n := x.norm(t); n != t {
		t = n
		if t.IsConst() {
			return t
		}
		if r := x.simp1(t); r != t {
			return r
		}
	}
	if t.Op == OBAnd || t.Op == ONot && t.A[0].Op == OBAnd {
		return t
	}
	return x.linSimp(t)
}

func (x *Exec) simp1(t *Term) *Term {
	if x.pcSet[t] {
		return x.tt.True
	}
	if x.pcSet[x.tt.Not(t)] {
		return x.tt.False
	}
	if t.Op == OBAnd {
		var ps []*Term
		for _, a := range t.A {
			ps = append(ps, x.simp(a))
		}
		return x.tt.BAnd(ps...)
	}
	if t.Op == ONot && t.A[0].Op == OBAnd {
		return x.tt.Not(x.simp(t.A[0]))
	}
	return t
}

func (x *Exec) addPC(t *Term, redundant bool) {
	if x.addPC1(t, redundant) {
		x.renorm()
	}
}

// addPC1 reports whether a new equality was learnt.
func (x *Exec) addPC1(t *Term, redundant bool) (eq bool) {
	if t.IsTrue() || x.pcSet[t] {
		return false
	}
	if t.Op == OBAnd {
		for _, a := range t.A {
			if x.addPC1(a, redundant) {
				eq = true
			}
		}
		x.pcSet[t] = true
		return eq
	}
	x.pcSet[t] = true
	x.known = append(x.known, t)
	x.learn(t)
	eq = x.learnEq(t)
	if !redundant {
		x.pc = append(x.pc, t)
	}
	return eq
}

func (x *Exec) eval(t *Term) uint64 { return x.tt.Eval(t, x.model) }

func (m *Model) overlay(n *Model) *Model {
	r := NewModel()
	for k, v := range m.Vars {
		r.Vars[k] = v
	}
	for k, a := range m.Arrs {
		c := make(map[uint64]uint64, len(a))
		for i, v := range a {
			c[i] = v
		}
		r.Arrs[k] = c
	}
	for k, v := range n.Vars {
		r.Vars[k] = v
	}
	for k, a := range n.Arrs {
		c := r.Arrs[k]
		if c == nil {
			c = map[uint64]uint64{}
			r.Arrs[k] = c
		}
		for i, v := range a {
			c[i] = v
		}
	}
	return r
}

func (x *Exec) end(k endKind, msg string) { panic(&pathEnd{k, msg}) }

// check decides satisfiability of PC and goal; the model returned satisfies
// the whole PC.
func (x *Exec) check(goal *Term) (Result, *Model) {
	if goal.IsFalse() {
		return Unsat, nil
	}
	if x.w.run.expired() {
		x.end(endTruncated, "time budget")
	}
	r, m := x.w.cachedCheck(x.pc, goal)
	if r == Sat {
		m = x.model.overlay(m)
	}
	return r, m
}

func (x *Exec) setModel(m *Model) {
	x.model = m
	x.tt.NewEval()
}

// sane stops a path on which rewriting with the path condition changed the
// value of a term under the path's own model.
func (x *Exec) sane(orig, c *Term) {
	if orig == c || x.eval(c) == x.eval(orig) {
		return
	}
	if debugUnconf {
		fmt.Fprintln(os.Stderr, "SIMP MISMATCH", x.where(), "\nORIG", cutStr(orig.String(), 3000), "\nNEW", cutStr(c.String(), 2000))
	}
	x.end(endUnsupported, "rewriting and model disagree")
}

func (x *Exec) decide(c *Term) bool {
	orig := c
	c = x.simp(c)
	x.sane(orig, c)
	if c.IsConst() {
		return c.V == 1
	}
	if x.pos < len(x.dec) {
		d := x.dec[x.pos]
		x.pos++
		l := c
		if !d.b {
			l = x.tt.Not(c)
		}
		x.addPC(l, d.forced)
		if !d.forced {
			x.forks++
		}
		return d.b
	}
	v := x.eval(c) == 1
	l, o := c, x.tt.Not(c)
	if !v {
		l, o = o, l
	}
	r, m := x.check(o)
	forced := r == Unsat
	if debugDecide && forced {
		println("forced", x.where(), o.String())
	}
	switch r {
	case Sat:
		x.forks++
		if debugForks {
			println("fork", x.where())
		}
		if x.forks > x.w.run.maxForks {
			x.end(endTruncated, "decision depth")
		}
		d := append(append([]decision(nil), x.dec...), decision{b: !v})
		x.w.push(x.h, d, m)
	case Unknown:
		x.w.run.noteUnknown(x.h)
	}
	x.dec = append(x.dec, decision{b: v, forced: forced})
	x.pos++
	x.addPC(l, forced)
	return v
}

// concretize forks over the values of t (at most max of them per path set).
func (x *Exec) concretize(t *Term, max int) uint64 {
	for i := 0; ; i++ {
		t = x.norm(t)
		if t.IsConst() {
			return t.V
		}
		if i >= max {
			x.end(endTruncated, "too many values at "+x.where())
		}
		var v uint64
		var c *Term
		if x.pos < len(x.dec) {
			v = x.dec[x.pos].val
		} else {
			v = x.eval(t)
		}
		c = x.simp(x.tt.Eq(t, x.tt.Const(t.W, v)))
		if c.IsTrue() {
			if x.pos == len(x.dec) {
				x.dec = append(x.dec, decision{b: true, forced: true, val: v})
			}
			x.pos++
			return v
		}
		if c.IsFalse() {
			x.end(endUnsupported, "concretize: model out of step")
		}
		if x.pos < len(x.dec) {
			d := x.dec[x.pos]
			x.pos++
			if d.b {
				x.addPC(c, d.forced)
				return v
			}
			x.addPC(x.tt.Not(c), d.forced)
			continue
		}
		r, m := x.check(x.tt.Not(c))
		if r == Sat {
			x.forks++
			d := append(append([]decision(nil), x.dec...), decision{b: false, val: v})
			x.w.push(x.h, d, m)
		} else if r == Unknown {
			x.w.run.noteUnknown(x.h)
		}
		x.dec = append(x.dec, decision{b: true, forced: r == Unsat, val: v})
		x.pos++
		x.addPC(c, r == Unsat)
		return v
	}
}

// concSmall forks over the values 0..bound of t; larger values are beyond the
// bound (the path ends there, and is counted as truncated).
func (x *Exec) concSmall(t *Term, bound int) uint64 {
	if t.IsConst() {
		return t.V
	}
	if !x.decide(x.tt.Ule(t, x.tt.Const(t.W, uint64(bound)))) {
		x.end(endTruncated, "size bound at "+x.where())
	}
	return x.concretize(t, bound+2)
}

func (x *Exec) assume(c *Term) {
	c = x.simp(c)
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		x.end(endInfeasible, "assumption")
	}
	if x.eval(c) != 1 {
		r, m := x.check(c)
		switch r {
		case Unsat:
			x.end(endInfeasible, "assumption")
		case Unknown:
			x.w.run.noteUnknown(x.h)
			x.end(endUnknown, "assumption")
		}
		x.setModel(m)
	}
	x.addPC(c, false)
}

// assert decides whether c holds for every value on this path.
func (x *Exec) assert(c *Term, label, detail string) {
	x.w.run.noteAssert(x.h, label, x.pos >= len(x.dec))
	orig := c
	c = x.simp(c)
	x.sane(orig, c)
	if x.pos < len(x.dec) { // already decided by the parent path
		x.addPC(c, true)
		if c.IsFalse() {
			x.end(endViolation, label)
		}
		return
	}
	if c.IsTrue() {
		x.confirm(orig, label)
		return
	}
	r, m := x.check(x.tt.Not(c))
	switch r {
	case Unsat:
		x.w.run.noteDischarged(x.h, true)
		x.addPC(c, true)
	case Unknown:
		x.w.run.noteUnknown(x.h)
		x.addPC(c, false)
	case Sat:
		x.w.run.violate(x, label, detail, m)
		x.end(endViolation, label)
	}
}

// confirm has the solver decide an assertion that rewriting with the path
// condition already settled; identical terms on both sides leave no question.
func (x *Exec) confirm(orig *Term, label string) {
	if orig.IsTrue() || !x.w.run.mayConfirm(x.h, label) {
		x.w.run.noteDischarged(x.h, false)
		return
	}
	r, _ := x.check(x.tt.Not(orig))
	switch r {
	case Unsat:
		x.w.run.noteDischarged(x.h, true)
	case Unknown:
		x.w.run.noteDischarged(x.h, false)
	case Sat:
		x.end(endUnsupported, "rewriting and solver disagree on "+label)
	}
}

func (x *Exec) fresh(name string) string {
	k := x.names[name]
	x.names[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

// choose picks one of n alternatives, exploring all of them.
func (x *Exec) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := x.tt.Var(x.fresh(name), 64, 0, uint64(n-1))
	return int(x.concretize(v, n))
}

func (x *Exec) where() string {
	if x.curInstr == nil {
		return "?"
	}
	p := x.ld.prog.Fset.Position(x.curInstr.Pos())
	fn := x.curInstr.Parent()
	return fmt.Sprintf("%s (%s:%d)", fn, shortFile(p.Filename), p.Line)
}

func shortFile(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

var rtErrorType types.Type = types.NewNamed(types.NewTypeName(0, nil, "runtime.Error", nil), types.NewStruct(nil, nil), nil)

func (x *Exec) rtPanic(msg string) {
	panic(targetPanic{Iface{rtErrorType, rtError{"runtime error: " + msg}}})
}

func (x *Exec) addAlloc(n *Term) {
	if n.IsConst() && n.V == 0 {
		return
	}
	if x.alloc == nil {
		x.alloc = x.k64(0)
	}
	x.alloc = x.tt.Add(x.alloc, n)
	if x.allocLimit != nil && (!n.IsConst() || n.V > 4096) {
		x.assert(x.tt.Ule(x.alloc, x.allocLimit), x.allocLabel, "allocation of "+n.String()+" at "+x.where())
	}
}

// ---------- scheduler

type killedPanic struct{}

// runPath executes the harness function under the given decisions.
func (x *Exec) runPath(fn *ssa.Function) *pathEnd {
	x.finished = make(chan *pathEnd, 1)
	g := x.spawn(func() { x.call(nil, fn, nil, nil) }, true)
	x.cur = g
	g.resume <- struct{}{}
	e := <-x.finished
	// unwind whatever is still parked
	x.killed = true
	for _, g := range x.gs {
		if !g.done && g.resume != nil {
			close(g.resume)
		}
	}
	return e
}

func (x *Exec) finish(e *pathEnd) {
	select {
	case x.finished <- e:
	default:
	}
}

func (x *Exec) spawn(body func(), isMain bool) *G {
	g := &G{id: len(x.gs), resume: make(chan struct{})}
	x.gs = append(x.gs, g)
	go func() {
		<-g.resume
		if x.killed {
			return
		}
		defer func() {
			r := recover()
			g.done = true
			if _, ok := r.(killedPanic); ok {
				return
			}
			switch r := r.(type) {
			case nil:
			case *pathEnd:
				x.finish(r)
				return
			case targetPanic:
				e := x.protect(func() { x.uncaught(r) })
				x.finish(e)
				return
			default:
				x.finish(unsupported(fmt.Sprintf("engine: %v at %s\n%s", r, x.where(), stack())))
				return
			}
			if isMain {
				x.finish(&pathEnd{endDone, ""})
				return
			}
			// hand the baton on
			e := x.protect(func() { x.dispatch(nil) })
			if e != nil {
				x.finish(e)
			}
		}()
		body()
	}()
	return g
}

func (x *Exec) protect(f func()) (e *pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(*pathEnd); ok {
				e = p
				return
			}
			if _, ok := r.(killedPanic); ok {
				e = &pathEnd{endKilled, ""}
				return
			}
			e = unsupported(fmt.Sprintf("engine: %v\n%s", r, stack()))
		}
	}()
	f()
	return nil
}

// uncaught: a panic nobody recovered kills the program.
func (x *Exec) uncaught(p targetPanic) {
	label := "no-panic"
	if x.noPanicLabel != "" {
		label = x.noPanicLabel
	}
	x.assert(x.tt.False, label, "panic: "+x.panicString(p.v))
}

func (x *Exec) panicString(v Value) string {
	if i, ok := v.(Iface); ok {
		switch w := i.v.(type) {
		case rtError:
			return w.msg
		case Str:
			if !w.sym {
				return w.c
			}
		}
		if i.t != nil {
			return i.t.String()
		}
	}
	return fmt.Sprintf("%T", v)
}

func (x *Exec) runnable() []*G {
	var r []*G
	for _, g := range x.gs {
		if !g.done && (g.wait == nil || g.wait()) {
			r = append(r, g)
		}
	}
	return r
}

// yield is a scheduling point of the running goroutine.
func (x *Exec) yield(what string) {
	if len(x.gs) == 1 || !x.schedOn {
		return
	}
	x.dispatch(x.cur)
}

// block parks the running goroutine until cond holds.
func (x *Exec) block(cond func() bool) {
	if cond() {
		return
	}
	g := x.cur
	g.wait = cond
	x.dispatch(g)
	g.wait = nil
}

// dispatch picks who runs next; self (may be nil: it is finished) parks.
func (x *Exec) dispatch(self *G) {
	rs := x.runnable()
	selfRun := false
	for _, g := range rs {
		if g == self {
			selfRun = true
		}
	}
	if len(rs) == 0 {
		x.assert(x.tt.False, "no-deadlock", "all goroutines are blocked")
		return
	}
	var next *G
	if selfRun {
		if x.preempts >= x.maxPreempts {
			return
		}
		// current first, so that value 0 means "keep running"
		cand := []*G{self}
		for _, g := range rs {
			if g != self {
				cand = append(cand, g)
			}
		}
		next = cand[x.choose("sched", len(cand))]
		if next == self {
			return
		}
		x.preempts++
	} else {
		n := len(rs)
		if x.maxPreempts < 0 {
			n = 1
		}
		next = rs[x.choose("sched", n)]
		if next == self {
			return
		}
	}
	if self != nil {
		self.depth = x.depth
	}
	x.cur = next
	x.depth = next.depth
	next.resume <- struct{}{}
	if self == nil {
		return
	}
	if _, ok := <-self.resume; !ok || x.killed {
		panic(killedPanic{})
	}
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var debugForks = os.Getenv("SYMGO_FORKS") != ""
var debugDecide = os.Getenv("SYMGO_DECIDE") != ""
