package main

// What a path knows, beyond the solver's assertions: equalities with constants
// (used to rewrite terms) and linear inequalities (used to decide comparisons
// that follow from a single known one).  All of it is implied by the path
// condition.

type fact struct {
	l lin // sum of c*a + k >= 0 over the integers, c and k signed
}

// rebuild makes t again with other arguments.
func (tt *Table) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OLin:
		r := lin{k: t.V}
		for i, p := range a {
			l := linOf(p)
			c := lin{k: l.k * t.C[i]}
			for j := range l.a {
				c.a, c.c = append(c.a, l.a[j]), append(c.c, l.c[j]*t.C[i])
			}
			r = addLin(r, c, 1)
		}
		return tt.mkLin(t.W, r)
	case OMul:
		return tt.Mul(a[0], a[1])
	case OUdiv:
		return tt.Udiv(a[0], a[1])
	case OUrem:
		return tt.Urem(a[0], a[1])
	case OSdiv:
		return tt.Sdiv(a[0], a[1])
	case OSrem:
		return tt.Srem(a[0], a[1])
	case OAnd, OOr, OXor:
		return tt.bitop(t.Op, a[0], a[1])
	case OShl:
		return tt.Shl(a[0], a[1])
	case OLshr:
		return tt.Lshr(a[0], a[1])
	case OAshr:
		return tt.Ashr(a[0], a[1])
	case OConcat:
		return tt.Concat(a...)
	case OExtract:
		return tt.Extract(t.Hi, t.Lo, a[0])
	case OSext:
		return tt.Sext(a[0], t.W)
	case OEq:
		return tt.Eq(a[0], a[1])
	case OUlt:
		return tt.Ult(a[0], a[1])
	case OSlt:
		return tt.Slt(a[0], a[1])
	case ONot:
		return tt.Not(a[0])
	case OBAnd:
		return tt.BAnd(a...)
	case OBOr:
		return tt.BOr(a...)
	case OIte:
		return tt.Ite(a[0], a[1], a[2])
	case OSelect:
		return tt.Select(t.Name, t.W, a[0])
	}
	return t
}

// norm rewrites t with the known equalities.
func (x *Exec) norm(t *Term) *Term {
	if len(x.eqs) == 0 || t.IsConst() {
		return t
	}
	if r, ok := x.normMemo[t]; ok {
		return r
	}
	r := t
	if c, ok := x.eqs[t]; ok {
		r = c
	} else if len(t.A) > 0 {
		var na []*Term
		for i, a := range t.A {
			b := x.norm(a)
			if b != a && na == nil {
				na = append([]*Term(nil), t.A...)
			}
			if na != nil {
				na[i] = b
			}
		}
		if na != nil {
			r = x.tt.rebuild(t, na)
			if c, ok := x.eqs[r]; ok {
				r = c
			}
		}
	}
	x.normMemo[t] = r
	return r
}

// intLin is the value of t, read as signed or unsigned, as a sum over the
// integers.
func (x *Exec) intLin(t *Term, signed bool) (lin, bool) {
	l := linOf(t)
	w := t.W
	if t.Op == OConst {
		l.k = uint64(sx(t.V, w))
		if !signed {
			l.k = t.V
			return l, t.V < 1<<62
		}
		return l, true
	}
	if w < 64 {
		l = lin{a: l.a, c: append([]uint64(nil), l.c...), k: uint64(sx(l.k, w))}
		for i := range l.c {
			l.c[i] = uint64(sx(l.c[i], w))
		}
	}
	lo, hi, ok := linRange(64, l.a, l.c, l.k)
	if !ok {
		return l, false
	}
	switch {
	case signed:
		return l, w == 64 || lo >= -1<<uint(w-1) && hi < 1<<uint(w-1)
	case lo < 0 && !x.follows(l):
		return l, false
	}
	return l, w == 64 || uint64(hi) <= mask(w)
}

// diffLin is y - x - k as a sum over the integers, for comparison c.
func (x *Exec) diffLin(c *Term, k uint64) (lin, bool) {
	a, b := c.A[0], c.A[1]
	if a.W > 64 || a.W == 0 {
		return lin{}, false
	}
	la, ok1 := x.intLin(a, c.Op == OSlt)
	lb, ok2 := x.intLin(b, c.Op == OSlt)
	if !ok1 || !ok2 {
		return lin{}, false
	}
	d := addLin(lb, la, ^uint64(0))
	d.k -= k
	_, _, ok := linRange(64, d.a, d.c, d.k)
	return d, ok
}

func negLin(l lin) lin { return addLin(lin{}, l, ^uint64(0)) }

func (x *Exec) learn(t *Term) {
	neg := false
	if t.Op == ONot {
		neg = true
		t = t.A[0]
	}
	switch t.Op {
	case OUlt, OSlt:
		if neg {
			if d, ok := x.diffLin(t, 0); ok { // a >= b
				x.facts = append(x.facts, fact{negLin(d)})
			}
		} else if d, ok := x.diffLin(t, 1); ok {
			x.facts = append(x.facts, fact{d})
		}
	case OEq:
		if !neg && t.A[0].W > 0 {
			if !t.A[0].IsConst() && !t.A[1].IsConst() {
				if d, ok := x.diffLin(t, 0); ok {
					x.facts = append(x.facts, fact{d}, fact{negLin(d)})
				}
			}
		}
	}
}

func (x *Exec) learnEq(t *Term) bool {
	if t.Op != OEq || t.A[0].W == 0 {
		return false
	}
	a, c := t.A[0], t.A[1]
	if a.IsConst() {
		a, c = c, a
	}
	if !c.IsConst() || a.IsConst() || a.Op == OLin {
		return false
	}
	if _, ok := x.eqs[a]; ok {
		return false
	}
	if x.eqs == nil {
		x.eqs = map[*Term]*Term{}
	}
	x.eqs[a] = c
	x.eqKeys = append(x.eqKeys, a)
	return true
}

// renorm brings what is known up to date with new equalities.
func (x *Exec) renorm() {
	x.normMemo = map[*Term]*Term{}
	for i := 0; i < len(x.eqKeys); i++ {
		k := x.eqKeys[i]
		if len(k.A) == 0 {
			continue
		}
		na := make([]*Term, len(k.A))
		same := true
		for j, a := range k.A {
			na[j] = x.norm(a)
			same = same && na[j] == a
		}
		if same {
			continue
		}
		r := x.tt.rebuild(k, na)
		if _, ok := x.eqs[r]; ok || r.IsConst() || r.Op == OLin {
			continue
		}
		x.eqs[r] = x.eqs[k]
		x.eqKeys = append(x.eqKeys, r)
		delete(x.normMemo, r)
		if e := x.tt.Eq(r, x.eqs[k]); !e.IsConst() {
			x.pcSet[e] = true
		}
	}
	n := len(x.known)
	for i := 0; i < n; i++ {
		t := x.known[i]
		r := x.norm(t)
		if r != t && !x.pcSet[r] && !r.IsConst() {
			x.note(r)
		}
	}
}

func (x *Exec) note(t *Term) {
	if t.Op == OBAnd {
		for _, a := range t.A {
			if !x.pcSet[a] {
				x.note(a)
			}
		}
	}
	x.pcSet[t] = true
	x.known = append(x.known, t)
	x.learn(t)
}

// follows: l >= 0 is implied by the ranges and one known inequality.
func (x *Exec) follows(l lin) bool {
	if lo, _, ok := linRange(64, l.a, l.c, l.k); ok && lo >= 0 {
		return true
	}
	for i := len(x.facts) - 1; i >= 0; i-- {
		d := addLin(l, x.facts[i].l, ^uint64(0))
		var a []*Term
		var c []uint64
		for j := range d.a {
			if d.c[j] != 0 {
				a, c = append(a, d.a[j]), append(c, d.c[j])
			}
		}
		if lo, _, ok := linRange(64, a, c, d.k); ok && lo >= 0 {
			return true
		}
	}
	return false
}

// linSimp decides a comparison from what is known, if that is enough.
func (x *Exec) linSimp(t *Term) *Term {
	if len(x.facts) == 0 {
		return t
	}
	switch t.Op {
	case ONot:
		r := x.linSimp(t.A[0])
		if r.IsConst() {
			return x.tt.Not(r)
		}
	case OUlt, OSlt:
		d, ok := x.diffLin(t, 1)
		if !ok {
			return t
		}
		if x.follows(d) {
			return x.tt.True
		}
		d = negLin(d)
		d.k--
		if x.follows(d) {
			return x.tt.False
		}
	case OEq:
		if t.A[0].W == 0 {
			return t
		}
		d, ok := x.diffLin(t, 1)
		if !ok {
			return t
		}
		if x.follows(d) {
			return x.tt.False
		}
		d = negLin(d)
		d.k -= 2
		if x.follows(d) {
			return x.tt.False
		}
	}
	return t
}
