package main

// Comparison of long arrays, piece by piece: both sides are taken apart into
// the pieces they were put together from, and equal pieces are matched up
// before anything is asked about contents.

type seg struct {
	a      *AExpr
	off, n *Term
}

// proves: c holds for every value on this path.
func (x *Exec) proves(c *Term) bool {
	c = x.simp(c)
	if c.IsConst() {
		return c.V == 1
	}
	if x.eval(c) != 1 {
		return false
	}
	r, _ := x.check(x.tt.Not(c))
	return r == Unsat
}

func (x *Exec) le(a, b *Term) bool {
	if a == b {
		return true
	}
	d := x.tt.Sub(b, a)
	if d.IsConst() && a.hi < 1<<62 && b.hi < 1<<62 {
		return int64(d.V) >= 0
	}
	return x.proves(x.tt.Ule(a, b))
}

// segs takes [off, off+n) of a apart.
func (x *Exec) segs(out []seg, a *AExpr, off, n *Term) []seg {
	for depth := 0; ; depth++ {
		off, n = x.norm(off), x.norm(n)
		if n.IsConst() && n.V == 0 {
			return out
		}
		if depth > 10000 {
			return append(out, seg{a, off, n})
		}
		var idx, cn *Term
		switch a.kind {
		case AStore:
			idx, cn = a.idx, x.k64(1)
		case ACopy:
			idx, cn = a.idx, a.n
		default:
			return append(out, seg{a, off, n})
		}
		e, end := x.tt.Add(idx, cn), x.tt.Add(off, n)
		if x.le(end, idx) || x.le(e, off) {
			a = a.prev
			continue
		}
		from, left := off, true // the copy starts inside
		if x.le(off, idx) {
			from = idx
		} else if x.le(idx, off) {
			left = false
		} else {
			return append(out, seg{a, off, n})
		}
		to, right := end, false
		if x.le(end, e) {
		} else if x.le(e, end) {
			to, right = e, true
		} else {
			return append(out, seg{a, off, n})
		}
		if left {
			out = x.segs(out, a.prev, off, x.tt.Sub(idx, off))
		}
		if a.kind == AStore {
			out = append(out, seg{aVec(a.w, []*Term{a.v}), x.k64(0), x.k64(1)})
		} else {
			out = x.segs(out, a.src, x.tt.Add(a.soff, x.tt.Sub(from, idx)), x.tt.Sub(to, from))
		}
		if !right {
			return out
		}
		off, n = to, x.tt.Sub(end, to)
		a = a.prev
	}
}

func (x *Exec) dropEmpty(s []seg) []seg {
	for len(s) > 0 && x.eval(s[0].n) == 0 && x.proves(x.tt.Eq(s[0].n, x.k64(0))) {
		s = s[1:]
	}
	return s
}

// sameConsts: equality of n elements.
func (x *Exec) sameElems(p, q seg, n uint64) *Term {
	var cs []*Term
	for i := uint64(0); i < n; i++ {
		cs = append(cs, x.tt.Eq(x.aRead(p.a, x.tt.AddK(p.off, int64(i))), x.aRead(q.a, x.tt.AddK(q.off, int64(i)))))
	}
	return x.tt.BAnd(cs...)
}

// sameVec: explicit elements that agree as far as n can reach.
func (x *Exec) sameVec(s, t seg, n *Term) bool {
	if s.a.kind != AVec || t.a.kind != AVec || !s.off.IsConst() || !t.off.IsConst() {
		return false
	}
	if s.off.V+n.hi > uint64(len(s.a.vec)) || t.off.V+n.hi > uint64(len(t.a.vec)) || n.hi > maxText {
		return false
	}
	for i := uint64(0); i < n.hi; i++ {
		if s.a.vec[s.off.V+i] != t.a.vec[t.off.V+i] {
			return false
		}
	}
	return true
}

func (x *Exec) quietAssert(c *Term, label string) {
	orig := c
	c = x.simp(c)
	if c.IsTrue() {
		x.confirm(orig, label)
		return
	}
	r, m := x.check(x.tt.Not(c))
	switch r {
	case Unsat:
		x.w.run.noteDischarged(x.h, true)
	case Unknown:
		x.w.run.noteUnknown(x.h)
	case Sat:
		x.w.run.violate(x, label, "contents differ", m)
		x.end(endViolation, label)
	}
}

func cut(s []seg, x *Exec, k uint64) []seg {
	r := append([]seg(nil), s...)
	r[0] = seg{s[0].a, x.tt.AddK(s[0].off, int64(k)), x.tt.AddK(s[0].n, -int64(k))}
	return r
}

// assertSame asserts that n elements of a from ao equal those of b from bo.
func (x *Exec) assertSame(a *AExpr, ao *Term, b *AExpr, bo, n, m *Term, label string) {
	if !n.IsConst() && m.IsConst() {
		n = m
	}
	if n.IsConst() && n.V == 0 || a == nil || b == nil {
		return
	}
	x.w.run.noteAssert(x.h, label, x.pos >= len(x.dec))
	if x.pos < len(x.dec) { // already decided by the parent path
		return
	}
	if a == b && ao == bo {
		x.w.run.noteDischarged(x.h, false)
		return
	}
	if n.IsConst() && n.V <= maxVec {
		x.quietAssert(x.sameElems(seg{a, ao, n}, seg{b, bo, n}, n.V), label)
		return
	}
	if n.hi > 1<<40 && !x.proves(x.tt.Ule(n, x.k64(1<<40))) {
		panic(unsupported("comparison of unbounded arrays"))
	}
	p := x.segs(nil, a, ao, n)
	q := x.segs(nil, b, bo, n)
	at := x.k64(0)
	var elems []*Term
	for {
		p, q = x.dropEmpty(p), x.dropEmpty(q)
		if len(p) == 0 || len(q) == 0 {
			break
		}
		s, t := p[0], q[0]
		d := x.tt.Sub(s.n, t.n)
		switch {
		case d.IsConst() && d.V == 0, !(s.n.IsConst() && t.n.IsConst()) && x.proves(x.tt.Eq(s.n, t.n)):
			l := s.n
			if t.n.IsConst() {
				l = t.n
			}
			switch {
			case s.a == t.a && (s.off == t.off || s.a.kind == AConst):
			case x.sameVec(s, t, l):
			case s.a.kind == AConst && t.a.kind == AConst && s.a.v == t.a.v:
			case l.IsConst() && l.V <= maxVec:
				elems = append(elems, x.sameElems(s, t, l.V))
			default:
				elems = append(elems, x.sameAt(s.a, s.off, t.a, t.off, l, label))
			}
			p, q = p[1:], q[1:]
			at = x.tt.Add(at, l)
			continue
		case s.n.IsConst() && t.n.IsConst():
			k := s.n.V
			if t.n.V < k {
				k = t.n.V
			}
			if k > maxVec {
				break
			}
			elems = append(elems, x.sameElems(s, t, k))
			p, q = cut(p, x, k), cut(q, x, k)
			at = x.tt.AddK(at, int64(k))
			continue
		case s.n.IsConst() && s.n.V <= maxVec && x.le(s.n, t.n):
			elems = append(elems, x.sameElems(s, t, s.n.V))
			p, q, at = p[1:], cut(q, x, s.n.V), x.tt.Add(at, s.n)
			continue
		case t.n.IsConst() && t.n.V <= maxVec && x.le(t.n, s.n):
			elems = append(elems, x.sameElems(s, t, t.n.V))
			p, q, at = cut(p, x, t.n.V), q[1:], x.tt.Add(at, t.n)
			continue
		}
		if debugRope {
			println("rope: unmatched at", at.String(), "of", n.String(), label)
		}
		elems = append(elems, x.sameAt(a, x.tt.Add(ao, at), b, x.tt.Add(bo, at), x.tt.Sub(n, at), label))
		break
	}
	x.quietAssert(x.tt.BAnd(elems...), label)
}

var debugRope = false

// sameAt: element k of both is the same, for a fresh k below n.
func (x *Exec) sameAt(a *AExpr, ao *Term, b *AExpr, bo, n *Term, label string) *Term {
	hi := n.hi
	if hi > 1<<40 {
		hi = 1 << 40
	}
	k := x.tt.Var(x.fresh("idx!"+label), 64, 0, hi)
	in := x.tt.Ult(k, n)
	r, s := x.aRead(a, x.tt.Add(ao, k)), x.aRead(b, x.tt.Add(bo, k))
	return x.tt.BOr(x.tt.Not(in), x.tt.Eq(r, s))
}
