package main

// Persistent array expressions: the contents of byte/int arrays and strings.
// Index terms are 64-bit.  Reads are pushed down to the leaves.

type AKind uint8

const (
	AConst AKind = iota // every element is v
	ABase               // uninterpreted contents, named
	AVec                // explicit elements; zero beyond
	AStore
	ACopy // elements [idx, idx+n) come from src at soff; the rest from prev
)

type AExpr struct {
	kind AKind
	w    int
	v    *Term
	name string
	vec  []*Term
	prev *AExpr
	idx  *Term
	src  *AExpr
	soff *Term
	n    *Term
	memo map[*Term]*Term
}

const maxVec = 1024

func (x *Exec) aConst(w int, v *Term) *AExpr { return &AExpr{kind: AConst, w: w, v: v} }
func (x *Exec) aBase(w int, name string) *AExpr {
	return &AExpr{kind: ABase, w: w, name: name}
}
func aVec(w int, v []*Term) *AExpr { return &AExpr{kind: AVec, w: w, vec: v} }

func (x *Exec) aRead(a *AExpr, i *Term) *Term {
	i = x.norm(i)
	for {
		switch a.kind {
		case AConst:
			return a.v
		case ABase:
			return x.tt.Select(a.name, a.w, i)
		case AVec:
			if i.IsConst() {
				if i.V < uint64(len(a.vec)) {
					return a.vec[i.V]
				}
				return x.tt.Const(a.w, 0)
			}
			if t, ok := a.memo[i]; ok {
				return t
			}
			r := x.tt.Const(a.w, 0)
			for k := len(a.vec) - 1; k >= 0; k-- {
				if uint64(k) < i.lo || uint64(k) > i.hi {
					continue
				}
				c := x.simp(x.tt.Eq(i, x.tt.Const(64, uint64(k))))
				r = x.tt.Ite(c, a.vec[k], r)
			}
			return a.remember(i, r)
		case AStore:
			c := x.simp(x.tt.Eq(i, a.idx))
			if c.IsTrue() {
				return a.v
			}
			if c.IsFalse() {
				a = a.prev
				continue
			}
			if t, ok := a.memo[i]; ok {
				return t
			}
			return a.remember(i, x.tt.Ite(c, a.v, x.aRead(a.prev, i)))
		case ACopy:
			ge := x.simp(x.tt.Ule(a.idx, i))
			lt := x.tt.False
			if !ge.IsFalse() {
				lt = x.simp(x.tt.Ult(i, x.tt.Add(a.idx, a.n)))
			}
			c := x.tt.BAnd(ge, lt)
			if c.IsFalse() {
				a = a.prev
				continue
			}
			si := x.tt.Add(x.tt.Sub(i, a.idx), a.soff)
			if c.IsTrue() {
				i = si
				a = a.src
				continue
			}
			if t, ok := a.memo[i]; ok {
				return t
			}
			return a.remember(i, x.tt.Ite(c, x.aRead(a.src, si), x.aRead(a.prev, i)))
		}
	}
}

func (a *AExpr) remember(i, r *Term) *Term {
	if a.memo == nil {
		a.memo = map[*Term]*Term{}
	}
	a.memo[i] = r
	return r
}

// aWrite: total is the array length when known to be a small constant.
func (x *Exec) aWrite(a *AExpr, total, i, v *Term) *AExpr {
	if i.IsConst() && total.IsConst() && total.V <= maxVec {
		vec := x.aFlat(a, x.k64(0), int(total.V))
		nv := append([]*Term(nil), vec...)
		nv[i.V] = v
		return aVec(a.w, nv)
	}
	return &AExpr{kind: AStore, w: a.w, prev: a, idx: i, v: v}
}

// aFlat returns n elements starting at off.
func (x *Exec) aFlat(a *AExpr, off *Term, n int) []*Term {
	if a.kind == AVec && off.IsConst() && off.V+uint64(n) <= uint64(len(a.vec)) {
		return a.vec[off.V : off.V+uint64(n) : off.V+uint64(n)]
	}
	r := make([]*Term, n)
	for k := range r {
		r[k] = x.aRead(a, x.tt.AddK(off, int64(k)))
	}
	return r
}

// aCopy: dst[di..di+n) = src[si..); total is dst's length.
func (x *Exec) aCopy(dst *AExpr, total, di *Term, src *AExpr, si, n *Term) *AExpr {
	if n.IsConst() && n.V == 0 {
		return dst
	}
	if total.IsConst() && total.V <= maxVec && di.IsConst() && n.IsConst() {
		nv := append([]*Term(nil), x.aFlat(dst, x.k64(0), int(total.V))...)
		copy(nv[di.V:], x.aFlat(src, si, int(n.V)))
		return aVec(dst.w, nv)
	}
	// the whole array is replaced by the whole of src
	if di.IsConst() && di.V == 0 && si.IsConst() && si.V == 0 && n == total {
		return src
	}
	if n.IsConst() && n.V <= 64 && src.kind != ABase && src.kind != AConst && src.kind != AVec {
		src = aVec(src.w, x.aFlat(src, si, int(n.V)))
		si = x.k64(0)
	}
	return &AExpr{kind: ACopy, w: dst.w, prev: dst, idx: di, src: src, soff: si, n: n}
}
