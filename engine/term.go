package main

// Hash-consed bit-vector terms with a simplifier.  Width 0 is Bool.
// One table per worker: nothing here is safe for concurrent use.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin // sum of coef*atom + V
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OConcat // pieces, most significant first
	OExtract
	OSext
	OEq
	OUlt
	OSlt
	ONot
	OBAnd
	OBOr
	OIte
	OSelect
)

type Term struct {
	Op     Op
	W      int // 0 = bool
	V      uint64
	A      []*Term
	C      []uint64 // OLin coefficients
	Hi, Lo int      // OExtract
	Name   string   // OVar, OSelect (array name)
	id     int
	hash   uint64
	// unsigned range; exact: (OLin) the integer sum does not wrap
	lo, hi uint64
	exact  bool

	emitted bool
	evGen   int
	evVal   uint64
}

type Table struct {
	buckets map[uint64][]*Term
	n       int
	True    *Term
	False   *Term
	evGen   int
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func NewTable() *Table {
	t := &Table{buckets: map[uint64][]*Term{}}
	t.True = t.intern(&Term{Op: OConst, W: 0, V: 1, lo: 1, hi: 1, exact: true})
	t.False = t.intern(&Term{Op: OConst, W: 0, V: 0, exact: true})
	return t
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	return h * 0xff51afd7ed558ccd
}

func (tt *Table) intern(t *Term) *Term {
	h := uint64(t.Op)*1315423911 + uint64(t.W)
	h = mix(h, t.V)
	h = mix(h, uint64(t.Hi)<<8|uint64(t.Lo))
	for _, a := range t.A {
		h = mix(h, uint64(a.id))
	}
	for _, c := range t.C {
		h = mix(h, c)
	}
	for i := 0; i < len(t.Name); i++ {
		h = mix(h, uint64(t.Name[i]))
	}
next:
	for _, o := range tt.buckets[h] {
		if o.Op != t.Op || o.W != t.W || o.V != t.V || o.Hi != t.Hi || o.Lo != t.Lo || o.Name != t.Name || len(o.A) != len(t.A) || len(o.C) != len(t.C) {
			continue
		}
		for i := range o.A {
			if o.A[i] != t.A[i] {
				continue next
			}
		}
		for i := range o.C {
			if o.C[i] != t.C[i] {
				continue next
			}
		}
		return o
	}
	t.id = tt.n
	tt.n++
	t.hash = h
	tt.buckets[h] = append(tt.buckets[h], t)
	return t
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.W == 0 && t.V == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.W == 0 && t.V == 0 }

func (tt *Table) Const(w int, v uint64) *Term {
	v &= mask(w)
	return tt.intern(&Term{Op: OConst, W: w, V: v, lo: v, hi: v, exact: true})
}

func (tt *Table) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

// Var makes a variable with a declared range (an assumption the solver gets
// whenever the variable occurs in a query).
func (tt *Table) Var(name string, w int, lo, hi uint64) *Term {
	if w == 0 {
		return tt.intern(&Term{Op: OVar, W: 0, Name: name, hi: 1, exact: true})
	}
	key := name
	if lo != 0 || hi != mask(w) {
		key = fmt.Sprintf("%s{%d,%d}", name, lo, hi)
	}
	return tt.intern(&Term{Op: OVar, W: w, Name: key, lo: lo, hi: hi, exact: true})
}

func (tt *Table) Select(arr string, w int, idx *Term) *Term {
	return tt.intern(&Term{Op: OSelect, W: w, Name: arr, A: []*Term{idx}, hi: mask(w), exact: true})
}

func sx(v uint64, w int) int64 {
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// ---------- linear sums

type lin struct {
	a []*Term
	c []uint64
	k uint64
}

func linOf(t *Term) lin {
	switch t.Op {
	case OConst:
		return lin{k: t.V}
	case OLin:
		return lin{t.A, t.C, t.V}
	}
	return lin{[]*Term{t}, []uint64{1}, 0}
}

func (tt *Table) mkLin(w int, l lin) *Term {
	m := mask(w)
	var a []*Term
	var c []uint64
	for i := range l.a {
		if l.c[i]&m != 0 {
			a = append(a, l.a[i])
			c = append(c, l.c[i]&m)
		}
	}
	k := l.k & m
	if len(a) == 0 {
		return tt.Const(w, k)
	}
	if len(a) == 1 && c[0] == 1 && k == 0 {
		return a[0]
	}
	t := &Term{Op: OLin, W: w, V: k, A: a, C: c}
	lo, hi, ok := linRange(w, a, c, k)
	if ok && lo >= 0 && (w == 64 || uint64(hi) <= m) {
		t.lo, t.hi, t.exact = uint64(lo), uint64(hi), true
	} else {
		t.lo, t.hi = 0, m
	}
	return tt.intern(t)
}

// integer range of a linear sum with signed coefficients; ok=false on overflow
func linRange(w int, a []*Term, c []uint64, k uint64) (lo, hi int64, ok bool) {
	lo = sx(k, w)
	hi = lo
	for i, t := range a {
		s := sx(c[i], w)
		if t.hi > 1<<62 {
			return 0, 0, false
		}
		var x, y int64
		var o1, o2 bool
		x, o1 = mul64(s, int64(t.lo))
		y, o2 = mul64(s, int64(t.hi))
		if !o1 || !o2 {
			return 0, 0, false
		}
		if x > y {
			x, y = y, x
		}
		lo2, hi2 := lo+x, hi+y
		if (x > 0 && lo2 < lo) || (x < 0 && lo2 > lo) || (y > 0 && hi2 < hi) || (y < 0 && hi2 > hi) {
			return 0, 0, false
		}
		lo, hi = lo2, hi2
	}
	return lo, hi, true
}

func mul64(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	r := a * b
	if r/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return 0, false
	}
	return r, true
}

func addLin(x, y lin, cy uint64) lin {
	var r lin
	r.k = x.k + cy*y.k
	i, j := 0, 0
	for i < len(x.a) || j < len(y.a) {
		switch {
		case j >= len(y.a) || (i < len(x.a) && x.a[i].id < y.a[j].id):
			r.a = append(r.a, x.a[i])
			r.c = append(r.c, x.c[i])
			i++
		case i >= len(x.a) || y.a[j].id < x.a[i].id:
			r.a = append(r.a, y.a[j])
			r.c = append(r.c, cy*y.c[j])
			j++
		default:
			r.a = append(r.a, x.a[i])
			r.c = append(r.c, x.c[i]+cy*y.c[j])
			i++
			j++
		}
	}
	return r
}

func (tt *Table) Add(x, y *Term) *Term { return tt.mkLin(x.W, addLin(linOf(x), linOf(y), 1)) }
func (tt *Table) Sub(x, y *Term) *Term {
	if x == y {
		return tt.Const(x.W, 0)
	}
	return tt.mkLin(x.W, addLin(linOf(x), linOf(y), ^uint64(0)))
}
func (tt *Table) Neg(x *Term) *Term    { return tt.Sub(tt.Const(x.W, 0), x) }
func (tt *Table) BVNot(x *Term) *Term  { return tt.Sub(tt.Const(x.W, ^uint64(0)), x) }
func (tt *Table) AddK(x *Term, k int64) *Term {
	return tt.Add(x, tt.Const(x.W, uint64(k)))
}

func (tt *Table) Mul(x, y *Term) *Term {
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() {
		l := linOf(x)
		r := lin{a: l.a, k: l.k * y.V}
		for _, c := range l.c {
			r.c = append(r.c, c*y.V)
		}
		return tt.mkLin(x.W, r)
	}
	if x.id > y.id {
		x, y = y, x
	}
	t := &Term{Op: OMul, W: x.W, A: []*Term{x, y}, hi: mask(x.W), exact: true}
	if h, l := bits.Mul64(x.hi, y.hi); h == 0 && l <= mask(x.W) {
		t.hi = l
		t.lo = x.lo * y.lo
	}
	return tt.intern(t)
}

func isPow2(v uint64) (int, bool) {
	if v != 0 && v&(v-1) == 0 {
		return bits.TrailingZeros64(v), true
	}
	return 0, false
}

func (tt *Table) Udiv(x, y *Term) *Term {
	if y.IsConst() && y.V != 0 {
		if x.IsConst() {
			return tt.Const(x.W, x.V/y.V)
		}
		if k, ok := isPow2(y.V); ok {
			return tt.Lshr(x, tt.Const(x.W, uint64(k)))
		}
		return tt.intern(&Term{Op: OUdiv, W: x.W, A: []*Term{x, y}, lo: x.lo / y.V, hi: x.hi / y.V, exact: true})
	}
	return tt.intern(&Term{Op: OUdiv, W: x.W, A: []*Term{x, y}, hi: mask(x.W), exact: true})
}

func (tt *Table) Urem(x, y *Term) *Term {
	if y.IsConst() && y.V != 0 {
		if x.IsConst() {
			return tt.Const(x.W, x.V%y.V)
		}
		if _, ok := isPow2(y.V); ok {
			return tt.And(x, tt.Const(x.W, y.V-1))
		}
		if x.hi < y.V {
			return x
		}
		return tt.intern(&Term{Op: OUrem, W: x.W, A: []*Term{x, y}, hi: y.V - 1, exact: true})
	}
	return tt.intern(&Term{Op: OUrem, W: x.W, A: []*Term{x, y}, hi: mask(x.W), exact: true})
}

func (tt *Table) nonneg(x *Term) bool { return x.hi>>(uint(x.W)-1) == 0 }

func (tt *Table) Sdiv(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() && y.V != 0 {
		a, b := sx(x.V, x.W), sx(y.V, y.W)
		if b == -1 {
			return tt.Const(x.W, uint64(-a))
		}
		return tt.Const(x.W, uint64(a/b))
	}
	if tt.nonneg(x) && tt.nonneg(y) {
		return tt.Udiv(x, y)
	}
	return tt.intern(&Term{Op: OSdiv, W: x.W, A: []*Term{x, y}, hi: mask(x.W), exact: true})
}

func (tt *Table) Srem(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() && y.V != 0 {
		a, b := sx(x.V, x.W), sx(y.V, y.W)
		if b == -1 {
			return tt.Const(x.W, 0)
		}
		return tt.Const(x.W, uint64(a%b))
	}
	if tt.nonneg(x) && tt.nonneg(y) {
		return tt.Urem(x, y)
	}
	return tt.intern(&Term{Op: OSrem, W: x.W, A: []*Term{x, y}, hi: mask(x.W), exact: true})
}

// ---------- pieces

func (tt *Table) Concat(ps ...*Term) *Term {
	var fl []*Term
	for _, p := range ps {
		if p == nil || p.W == 0 {
			continue
		}
		if p.Op == OConcat {
			fl = append(fl, p.A...)
		} else {
			fl = append(fl, p)
		}
	}
	var r []*Term
	for _, p := range fl {
		if len(r) > 0 {
			q := r[len(r)-1]
			if q.IsConst() && p.IsConst() {
				r[len(r)-1] = tt.Const(q.W+p.W, q.V<<uint(p.W)|p.V)
				continue
			}
			if q.Op == OExtract && p.Op == OExtract && q.A[0] == p.A[0] && q.Lo == p.Hi+1 {
				r[len(r)-1] = tt.Extract(q.Hi, p.Lo, p.A[0])
				continue
			}
			// the low bits of a sum are themselves sums
			if q.Op == OExtract && q.A[0].Op == OLin && q.Lo >= p.W && tt.Extract(q.Lo-1, q.Lo-p.W, q.A[0]) == p {
				r[len(r)-1] = tt.Extract(q.Hi, q.Lo-p.W, q.A[0])
				continue
			}
		}
		r = append(r, p)
	}
	w := 0
	for _, p := range r {
		w += p.W
	}
	if w > 64 {
		panic("concat too wide")
	}
	if len(r) == 1 {
		return r[0]
	}
	if len(r) == 2 && r[0].IsConst() && r[0].V == 0 && r[1].Op == OExtract && r[1].Lo == 0 && r[1].A[0].W == w && r[1].A[0].hi <= mask(r[1].W) {
		return r[1].A[0]
	}
	t := &Term{Op: OConcat, W: w, A: r, exact: true}
	sh := w
	for _, p := range r {
		sh -= p.W
		t.lo |= p.lo << uint(sh)
		t.hi |= p.hi << uint(sh)
	}
	return tt.intern(t)
}

func (tt *Table) Zext(x *Term, w int) *Term {
	if w == x.W {
		return x
	}
	if x.IsConst() {
		return tt.Const(w, x.V)
	}
	return tt.Concat(tt.Const(w-x.W, 0), x)
}

func (tt *Table) Sext(x *Term, w int) *Term {
	if w == x.W {
		return x
	}
	if x.IsConst() {
		return tt.Const(w, uint64(sx(x.V, x.W)))
	}
	if tt.nonneg(x) {
		return tt.Zext(x, w)
	}
	return tt.intern(&Term{Op: OSext, W: w, A: []*Term{x}, hi: mask(w), exact: true})
}

func (tt *Table) Extract(hi, lo int, x *Term) *Term {
	w := hi - lo + 1
	if w == x.W {
		return x
	}
	switch x.Op {
	case OConst:
		return tt.Const(w, x.V>>uint(lo))
	case OExtract:
		return tt.Extract(x.Lo+hi, x.Lo+lo, x.A[0])
	case OConcat:
		var ps []*Term
		top := x.W
		for _, p := range x.A {
			bot := top - p.W
			h, l := hi, lo
			if h > top-1 {
				h = top - 1
			}
			if l < bot {
				l = bot
			}
			if h >= l {
				ps = append(ps, tt.Extract(h-bot, l-bot, p))
			}
			top = bot
		}
		return tt.Concat(ps...)
	case OSext:
		if hi < x.A[0].W {
			return tt.Extract(hi, lo, x.A[0])
		}
	case OIte:
		if x.A[1].IsConst() || x.A[2].IsConst() {
			return tt.Ite(x.A[0], tt.Extract(hi, lo, x.A[1]), tt.Extract(hi, lo, x.A[2]))
		}
	case OLin:
		if lo == 0 && !(x.exact && x.hi <= mask(w)) {
			r := lin{k: x.V}
			var ls []lin
			for i, a := range x.A {
				e := linOf(tt.Extract(hi, 0, a))
				for j := range e.c {
					e.c = append([]uint64(nil), e.c...)
					e.c[j] *= x.C[i]
				}
				e.k *= x.C[i]
				ls = append(ls, e)
			}
			for _, l := range ls {
				r = addLin(r, l, 1)
			}
			return tt.mkLin(w, r)
		}
	}
	if lo < 64 && x.hi>>uint(lo) == 0 {
		return tt.Const(w, 0)
	}
	t := &Term{Op: OExtract, W: w, A: []*Term{x}, Hi: hi, Lo: lo, hi: mask(w), exact: true}
	if x.hi>>uint(lo) <= mask(w) {
		t.hi = x.hi >> uint(lo)
		t.lo = x.lo >> uint(lo)
	}
	return tt.intern(t)
}

func (tt *Table) Shl(x, y *Term) *Term {
	if y.IsConst() {
		k := y.V
		if k >= uint64(x.W) {
			return tt.Const(x.W, 0)
		}
		if k == 0 {
			return x
		}
		if x.IsConst() {
			return tt.Const(x.W, x.V<<k)
		}
		if x.Op == OLin {
			return tt.Mul(x, tt.Const(x.W, 1<<k))
		}
		return tt.Concat(tt.Extract(x.W-1-int(k), 0, x), tt.Const(int(k), 0))
	}
	return tt.intern(&Term{Op: OShl, W: x.W, A: []*Term{x, y}, hi: mask(x.W), exact: true})
}

func (tt *Table) Lshr(x, y *Term) *Term {
	if y.IsConst() {
		k := y.V
		if k >= uint64(x.W) {
			return tt.Const(x.W, 0)
		}
		if k == 0 {
			return x
		}
		return tt.Concat(tt.Const(int(k), 0), tt.Extract(x.W-1, int(k), x))
	}
	return tt.intern(&Term{Op: OLshr, W: x.W, A: []*Term{x, y}, hi: x.hi, exact: true})
}

func (tt *Table) Ashr(x, y *Term) *Term {
	if tt.nonneg(x) {
		return tt.Lshr(x, y)
	}
	if y.IsConst() {
		k := y.V
		if k == 0 {
			return x
		}
		if k >= uint64(x.W) {
			k = uint64(x.W) - 1
		}
		return tt.Sext(tt.Extract(x.W-1, int(k), x), x.W)
	}
	return tt.intern(&Term{Op: OAshr, W: x.W, A: []*Term{x, y}, hi: mask(x.W), exact: true})
}

// split a term at the union of cut points implied by both operands
func constRuns(v uint64, w int) []int { // run lengths from msb
	var r []int
	i := w - 1
	for i >= 0 {
		b := v >> uint(i) & 1
		n := 0
		for i >= 0 && v>>uint(i)&1 == b {
			n++
			i--
		}
		r = append(r, n)
	}
	return r
}

func cuts(t *Term, m map[int]bool) {
	switch t.Op {
	case OConst:
		p := t.W
		for _, n := range constRuns(t.V, t.W) {
			p -= n
			m[p] = true
		}
	case OConcat:
		p := t.W
		for _, a := range t.A {
			if a.IsConst() {
				q := p
				for _, n := range constRuns(a.V, a.W) {
					q -= n
					m[q] = true
				}
			}
			p -= a.W
			m[p] = true
		}
	}
}

func (tt *Table) segs(x, y *Term) [][2]*Term {
	m := map[int]bool{}
	cuts(x, m)
	cuts(y, m)
	m[0] = true
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ks)))
	top := x.W - 1
	var r [][2]*Term
	for _, k := range ks {
		if k > top {
			continue
		}
		r = append(r, [2]*Term{tt.Extract(top, k, x), tt.Extract(top, k, y)})
		top = k - 1
	}
	return r
}

func (tt *Table) bitop(op Op, x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		var v uint64
		switch op {
		case OAnd:
			v = x.V & y.V
		case OOr:
			v = x.V | y.V
		default:
			v = x.V ^ y.V
		}
		return tt.Const(x.W, v)
	}
	if x == y {
		if op == OXor {
			return tt.Const(x.W, 0)
		}
		return x
	}
	if op == OXor {
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() && y.V == mask(x.W) {
			return tt.BVNot(x)
		}
	}
	if x.IsConst() || y.IsConst() || x.Op == OConcat || y.Op == OConcat {
		var ps []*Term
		ok := true
		for _, s := range tt.segs(x, y) {
			a, b := s[0], s[1]
			if b.IsConst() {
				a, b = b, a
			}
			switch {
			case a.IsConst() && b.IsConst():
				ps = append(ps, tt.bitop(op, a, b))
			case a.IsConst() && a.V == 0:
				if op == OAnd {
					ps = append(ps, a)
				} else {
					ps = append(ps, b)
				}
			case a.IsConst() && a.V == mask(a.W) && op == OAnd:
				ps = append(ps, b)
			case a.IsConst() && a.V == mask(a.W) && op == OOr:
				ps = append(ps, a)
			case a == b && op != OXor:
				ps = append(ps, a)
			default:
				ok = false
			}
		}
		if ok {
			return tt.Concat(ps...)
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	t := &Term{Op: op, W: x.W, A: []*Term{x, y}, hi: mask(x.W), exact: true}
	if op == OAnd {
		t.hi = x.hi
		if y.hi < t.hi {
			t.hi = y.hi
		}
	} else {
		t.hi = mask(bits.Len64(x.hi | y.hi))
	}
	return tt.intern(t)
}

func (tt *Table) And(x, y *Term) *Term { return tt.bitop(OAnd, x, y) }
func (tt *Table) Or(x, y *Term) *Term  { return tt.bitop(OOr, x, y) }
func (tt *Table) Xor(x, y *Term) *Term { return tt.bitop(OXor, x, y) }

// ---------- predicates

func (tt *Table) Not(x *Term) *Term {
	if x.IsConst() {
		return tt.Bool(x.V == 0)
	}
	if x.Op == ONot {
		return x.A[0]
	}
	return tt.intern(&Term{Op: ONot, W: 0, A: []*Term{x}, hi: 1, exact: true})
}

func (tt *Table) BAnd(xs ...*Term) *Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x.IsFalse() {
			return tt.False
		}
		if x.IsTrue() || seen[x] {
			continue
		}
		if x.Op == OBAnd {
			for _, y := range x.A {
				if !seen[y] {
					seen[y] = true
					r = append(r, y)
				}
			}
			continue
		}
		seen[x] = true
		r = append(r, x)
	}
	for _, x := range r {
		if x.Op == ONot && seen[x.A[0]] {
			return tt.False
		}
	}
	if len(r) == 0 {
		return tt.True
	}
	if len(r) == 1 {
		return r[0]
	}
	return tt.intern(&Term{Op: OBAnd, W: 0, A: r, hi: 1, exact: true})
}

func (tt *Table) BOr(xs ...*Term) *Term {
	var n []*Term
	for _, x := range xs {
		n = append(n, tt.Not(x))
	}
	return tt.Not(tt.BAnd(n...))
}

func diffRange(x, y *Term) (lo, hi int64, ok bool) {
	if !x.exact || !y.exact {
		return 0, 0, false
	}
	d := addLin(linOf(x), linOf(y), ^uint64(0))
	w := x.W
	m := mask(w)
	var a []*Term
	var c []uint64
	for i := range d.a {
		if d.c[i]&m != 0 {
			a = append(a, d.a[i])
			c = append(c, d.c[i]&m)
		}
	}
	// constants up to 2^62 only, so that signed reading is right
	if x.hi > 1<<62 || y.hi > 1<<62 {
		return 0, 0, false
	}
	if w < 64 {
		// the signed reading of mod-2^w coefficients must be the integer one
		if x.hi >= 1<<uint(w-1) || y.hi >= 1<<uint(w-1) {
			return 0, 0, false
		}
	}
	return linRange(w, a, c, d.k&m)
}

func exactLin(t *Term) bool {
	switch t.Op {
	case OLin:
		return t.exact
	case OConst:
		return t.W < 64 || t.V < 1<<62
	}
	return t.W < 64 || t.hi <= 1<<62
}

// balance moves what x and y have in common out of a comparison: x-y == p-n
// over the integers, both sides sums of non-negative parts.
func (tt *Table) balance(x, y *Term) (p, n *Term, ok bool) {
	if x.Op != OLin && y.Op != OLin || !exactLin(x) || !exactLin(y) {
		return nil, nil, false
	}
	d := addLin(linOf(x), linOf(y), ^uint64(0))
	var lp, ln lin
	for i, c := range d.c {
		switch v := sx(c, x.W); {
		case v > 0:
			lp.a, lp.c = append(lp.a, d.a[i]), append(lp.c, uint64(v))
		case v < 0:
			ln.a, ln.c = append(ln.a, d.a[i]), append(ln.c, uint64(-v))
		}
	}
	k := x.linK() - y.linK()
	if k > 0 {
		lp.k = uint64(k)
	} else {
		ln.k = uint64(-k)
	}
	for _, l := range []lin{lp, ln} {
		_, hi, ok := linRange(64, l.a, l.c, l.k)
		if !ok || (x.W < 64 && uint64(hi) > mask(x.W)) {
			return nil, nil, false
		}
	}
	p, n = tt.mkLin(x.W, lp), tt.mkLin(x.W, ln)
	if p == x && n == y {
		return nil, nil, false
	}
	return p, n, true
}

// linK is the constant of an exact sum, as an integer.
func (t *Term) linK() int64 {
	switch t.Op {
	case OConst:
		return int64(t.V)
	case OLin:
		return sx(t.V, t.W)
	}
	return 0
}

// allZero: a sum of non-negative parts is zero.
func (tt *Table) allZero(p *Term) *Term {
	l := linOf(p)
	var cs []*Term
	for _, a := range l.a {
		cs = append(cs, tt.Eq(a, tt.Const(a.W, 0)))
	}
	return tt.BAnd(cs...)
}

// sumOfParts: p is an exact sum of at least two non-negative parts.
func sumOfParts(p *Term) bool {
	if p.Op != OLin || !p.exact || p.V != 0 || len(p.A) < 2 {
		return false
	}
	for _, c := range p.C {
		if sx(c, p.W) < 0 {
			return false
		}
	}
	return true
}

func (tt *Table) Eq(x, y *Term) *Term {
	if x == y {
		return tt.True
	}
	if x.W != y.W {
		panic(fmt.Sprintf("eq width %d %d: %s %s", x.W, y.W, x, y))
	}
	if x.IsConst() && y.IsConst() {
		return tt.Bool(x.V == y.V)
	}
	if x.W == 0 {
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if y.V == 1 {
				return x
			}
			return tt.Not(x)
		}
		if x.Op == ONot && y.Op == ONot {
			return tt.Eq(x.A[0], y.A[0])
		}
		if tt.Not(x) == y {
			return tt.False
		}
	} else {
		if x.hi < y.lo || y.hi < x.lo {
			return tt.False
		}
		if x.IsConst() {
			x, y = y, x
		}
		if p, n, ok := tt.balance(x, y); ok {
			return tt.Eq(p, n)
		}
		if y.IsConst() && y.V == 0 && sumOfParts(x) {
			return tt.allZero(x)
		}
		if y.IsConst() {
			switch x.Op {
			case OConcat:
				var cs []*Term
				top := x.W
				for _, p := range x.A {
					top -= p.W
					cs = append(cs, tt.Eq(p, tt.Extract(top+p.W-1, top, y)))
				}
				return tt.BAnd(cs...)
			case OLin:
				if x.V != 0 {
					l := linOf(x)
					l.k = 0
					return tt.Eq(tt.mkLin(x.W, l), tt.Const(x.W, y.V-x.V))
				}
				if len(x.A) == 1 && x.C[0]&1 == 1 { // odd coefficient: invertible
					inv := uint64(1)
					for i := 0; i < 6; i++ {
						inv *= 2 - x.C[0]*inv
					}
					return tt.Eq(x.A[0], tt.Const(x.W, y.V*inv))
				}
			case OIte:
				if x.A[1].IsConst() || x.A[2].IsConst() {
					return tt.Ite(x.A[0], tt.Eq(x.A[1], y), tt.Eq(x.A[2], y))
				}
			case OSext:
				in := x.A[0]
				if uint64(sx(y.V, in.W))&mask(x.W) == y.V {
					return tt.Eq(in, tt.Const(in.W, y.V))
				}
				return tt.False
			}
		} else {
			if x.Op == OConcat || y.Op == OConcat {
				m := map[int]bool{}
				cuts(x, m)
				m2 := map[int]bool{}
				cuts(y, m2)
				same := x.Op == y.Op && len(x.A) == len(y.A)
				if same {
					for i := range x.A {
						if x.A[i].W != y.A[i].W {
							same = false
						}
					}
				}
				if same {
					var cs []*Term
					for i := range x.A {
						cs = append(cs, tt.Eq(x.A[i], y.A[i]))
					}
					return tt.BAnd(cs...)
				}
			}
			d := addLin(linOf(x), linOf(y), ^uint64(0))
			t := tt.mkLin(x.W, d)
			if t.IsConst() {
				return tt.Bool(t.V == 0)
			}
			if lo, hi, ok := diffRange(x, y); ok && (lo > 0 || hi < 0) {
				return tt.False
			}
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return tt.intern(&Term{Op: OEq, W: 0, A: []*Term{x, y}, hi: 1, exact: true})
}

func (tt *Table) Ult(x, y *Term) *Term {
	if x == y {
		return tt.False
	}
	if x.W != y.W {
		panic("ult width")
	}
	if x.hi < y.lo {
		return tt.True
	}
	if x.lo >= y.hi {
		return tt.False
	}
	if y.IsConst() && y.V == 1 {
		return tt.Eq(x, tt.Const(x.W, 0))
	}
	if x.IsConst() && x.V == 0 {
		return tt.Not(tt.Eq(y, x))
	}
	if lo, hi, ok := diffRange(x, y); ok {
		if hi < 0 {
			return tt.True
		}
		if lo >= 0 {
			return tt.False
		}
	}
	if p, n, ok := tt.balance(x, y); ok {
		return tt.Ult(p, n)
	}
	if x.Op == OIte && y.IsConst() && (x.A[1].IsConst() || x.A[2].IsConst()) {
		return tt.Ite(x.A[0], tt.Ult(x.A[1], y), tt.Ult(x.A[2], y))
	}
	if y.Op == OIte && x.IsConst() && (y.A[1].IsConst() || y.A[2].IsConst()) {
		return tt.Ite(y.A[0], tt.Ult(x, y.A[1]), tt.Ult(x, y.A[2]))
	}
	return tt.intern(&Term{Op: OUlt, W: 0, A: []*Term{x, y}, hi: 1, exact: true})
}

func (tt *Table) Ule(x, y *Term) *Term { return tt.Not(tt.Ult(y, x)) }

func (tt *Table) Slt(x, y *Term) *Term {
	if x == y {
		return tt.False
	}
	if x.IsConst() && y.IsConst() {
		return tt.Bool(sx(x.V, x.W) < sx(y.V, y.W))
	}
	if tt.nonneg(x) && tt.nonneg(y) {
		return tt.Ult(x, y)
	}
	if tt.nonneg(x) && y.IsConst() && sx(y.V, y.W) < 0 {
		return tt.False
	}
	if tt.nonneg(y) && x.IsConst() && sx(x.V, x.W) < 0 {
		return tt.True
	}
	return tt.intern(&Term{Op: OSlt, W: 0, A: []*Term{x, y}, hi: 1, exact: true})
}

func (tt *Table) Sle(x, y *Term) *Term { return tt.Not(tt.Slt(y, x)) }

func (tt *Table) Ite(c, x, y *Term) *Term {
	if c.IsTrue() {
		return x
	}
	if c.IsFalse() {
		return y
	}
	if x == y {
		return x
	}
	if c.Op == ONot {
		return tt.Ite(c.A[0], y, x)
	}
	if x.W == 0 {
		if x.IsConst() && y.IsConst() {
			if x.V == 1 {
				return c
			}
			return tt.Not(c)
		}
		if x.IsTrue() {
			return tt.BOr(c, y)
		}
		if x.IsFalse() {
			return tt.BAnd(tt.Not(c), y)
		}
		if y.IsTrue() {
			return tt.BOr(tt.Not(c), x)
		}
		if y.IsFalse() {
			return tt.BAnd(c, x)
		}
	}
	if x.Op == OIte && x.A[0] == c {
		x = x.A[1]
	}
	if y.Op == OIte && y.A[0] == c {
		y = y.A[2]
	}
	if x == y {
		return x
	}
	t := &Term{Op: OIte, W: x.W, A: []*Term{c, x, y}, exact: true, lo: x.lo, hi: x.hi}
	if y.lo < t.lo {
		t.lo = y.lo
	}
	if y.hi > t.hi {
		t.hi = y.hi
	}
	return tt.intern(t)
}

// ---------- printing and evaluation

func (t *Term) String() string { return t.str(4) }

func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			return fmt.Sprint(t.V == 1)
		}
		return fmt.Sprintf("%d", t.V)
	case OVar:
		return t.Name
	}
	if d == 0 {
		return "..."
	}
	names := map[Op]string{OLin: "lin", OMul: "*", OUdiv: "/u", OUrem: "%u", OSdiv: "/s", OSrem: "%s", OAnd: "&", OOr: "|", OXor: "^", OShl: "<<", OLshr: ">>u", OAshr: ">>s", OConcat: "cat", OExtract: "ext", OSext: "sext", OEq: "=", OUlt: "<u", OSlt: "<s", ONot: "not", OBAnd: "and", OBOr: "or", OIte: "ite", OSelect: "sel"}
	var b strings.Builder
	b.WriteString("(" + names[t.Op])
	if t.Op == OExtract {
		fmt.Fprintf(&b, "[%d:%d]", t.Hi, t.Lo)
	}
	if t.Op == OSelect {
		b.WriteString(" " + t.Name)
	}
	for i, a := range t.A {
		b.WriteString(" ")
		if t.Op == OLin {
			fmt.Fprintf(&b, "%d*", sx(t.C[i], t.W))
		}
		b.WriteString(a.str(d - 1))
	}
	if t.Op == OLin {
		fmt.Fprintf(&b, " %d", sx(t.V, t.W))
	}
	b.WriteString(")")
	return b.String()
}

type Model struct {
	Vars map[string]uint64
	Arrs map[string]map[uint64]uint64
}

func NewModel() *Model { return &Model{map[string]uint64{}, map[string]map[uint64]uint64{}} }

func baseName(n string) string {
	if i := strings.IndexByte(n, '{'); i >= 0 {
		return n[:i]
	}
	return n
}

// NewEval starts a new evaluation generation (model changed).
func (tt *Table) NewEval() { tt.evGen++ }

func (tt *Table) Eval(t *Term, m *Model) uint64 {
	if t.Op == OConst {
		return t.V
	}
	if t.evGen == tt.evGen {
		return t.evVal
	}
	w := t.W
	mk := mask(w)
	var v uint64
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	ev := func(i int) uint64 { return tt.Eval(t.A[i], m) }
	switch t.Op {
	case OVar:
		x, ok := m.Vars[baseName(t.Name)]
		if !ok {
			x = t.lo
		}
		v = x
		if w > 0 {
			v &= mk
		} else {
			v &= 1
		}
	case OLin:
		v = t.V
		for i := range t.A {
			v += t.C[i] * ev(i)
		}
		v &= mk
	case OMul:
		v = ev(0) * ev(1) & mk
	case OUdiv:
		a, b := ev(0), ev(1)
		if b == 0 {
			v = mk
		} else {
			v = a / b
		}
	case OUrem:
		a, b := ev(0), ev(1)
		if b == 0 {
			v = a
		} else {
			v = a % b
		}
	case OSdiv, OSrem:
		a, b := sx(ev(0), w), sx(ev(1), w)
		switch {
		case b == 0 && t.Op == OSdiv:
			if a < 0 {
				v = 1
			} else {
				v = mk
			}
		case b == 0:
			v = uint64(a) & mk
		case b == -1 && t.Op == OSdiv:
			v = uint64(-a) & mk
		case b == -1:
			v = 0
		case t.Op == OSdiv:
			v = uint64(a/b) & mk
		default:
			v = uint64(a%b) & mk
		}
	case OAnd:
		v = ev(0) & ev(1)
	case OOr:
		v = ev(0) | ev(1)
	case OXor:
		v = ev(0) ^ ev(1)
	case OShl:
		if s := ev(1); s < uint64(w) {
			v = ev(0) << s & mk
		}
	case OLshr:
		if s := ev(1); s < uint64(w) {
			v = ev(0) >> s
		}
	case OAshr:
		s := ev(1)
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		v = uint64(sx(ev(0), w)>>s) & mk
	case OConcat:
		for i, a := range t.A {
			v = v<<uint(a.W) | ev(i)
		}
	case OExtract:
		v = ev(0) >> uint(t.Lo) & mk
	case OSext:
		v = uint64(sx(ev(0), t.A[0].W)) & mk
	case OEq:
		v = b2(ev(0) == ev(1))
	case OUlt:
		v = b2(ev(0) < ev(1))
	case OSlt:
		v = b2(sx(ev(0), t.A[0].W) < sx(ev(1), t.A[0].W))
	case ONot:
		v = 1 - ev(0)
	case OBAnd:
		v = 1
		for i := range t.A {
			if ev(i) == 0 {
				v = 0
				break
			}
		}
	case OIte:
		if ev(0) == 1 {
			v = ev(1)
		} else {
			v = ev(2)
		}
	case OSelect:
		v = m.Arrs[t.Name][ev(0)] & mk
	default:
		panic("eval")
	}
	t.evGen = tt.evGen
	t.evVal = v
	return v
}
