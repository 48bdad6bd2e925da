package main

import (
	"fmt"
	"math/rand"
	"os"
	"testing"
)

// Random terms against direct evaluation of the operations that built them.
func TestSimplifier(t *testing.T) {
	const M = 8
	for seed := int64(0); seed < seeds(40000); seed++ {
		r := rand.New(rand.NewSource(seed))
		tt := NewTable()
		ms := make([]*Model, M)
		for i := range ms {
			ms[i] = NewModel()
		}
		type nd struct {
			t *Term
			v [M]uint64
			h string
		}
		var pool []nd
		ws := []int{8, 32, 64}
		add := func(x *Term, h string, f func(m int) uint64) {
			n := nd{t: x, h: h}
			mk := mask(x.W)
			if x.W == 0 {
				mk = 1
			}
			for m := range ms {
				n.v[m] = f(m) & mk
				tt.NewEval()
				if g := tt.Eval(x, ms[m]); g != n.v[m] {
					t.Fatalf("seed %d: %s: got %#x want %#x (%s)", seed, h, g, n.v[m], x)
				}
				if x.W > 0 && (n.v[m] < x.lo || n.v[m] > x.hi) {
					t.Fatalf("seed %d: %s: %#x outside %#x..%#x", seed, x, n.v[m], x.lo, x.hi)
				}
			}
			pool = append(pool, n)
		}
		for i := 0; i < 5; i++ {
			w := ws[r.Intn(3)]
			lo, hi := uint64(0), mask(w)
			if r.Intn(2) == 0 {
				hi = uint64(r.Intn(200))
				if r.Intn(3) == 0 {
					lo = uint64(r.Intn(int(hi + 1)))
				}
			}
			nm := fmt.Sprintf("v%d", i)
			for m := range ms {
				v := r.Uint64() & mask(w)
				switch r.Intn(4) {
				case 0:
					v = hi
				case 1:
					v = lo
				}
				if v < lo || v > hi {
					v = lo + v%(hi-lo+1)
				}
				ms[m].Vars[nm] = v
			}
			add(tt.Var(nm, w, lo, hi), nm, func(m int) uint64 { return ms[m].Vars[nm] })
		}
		pick := func(w int) nd {
			if w != 0 && r.Intn(4) == 0 {
				v := uint64(r.Intn(9))
				switch r.Intn(4) {
				case 0:
					v = r.Uint64()
				case 1:
					v = 1 << uint(r.Intn(64))
				case 2:
					v = -v
				}
				v &= mask(w)
				n := nd{t: tt.Const(w, v)}
				for m := range n.v {
					n.v[m] = v
				}
				return n
			}
			for k := 0; k < 20; k++ {
				n := pool[len(pool)-1-r.Intn(len(pool))]
				if n.t.W == w {
					return n
				}
			}
			n := nd{t: tt.Const(w, 1)}
			if w == 0 {
				n.t = tt.True
			}
			for m := range n.v {
				n.v[m] = 1
			}
			return n
		}
		b2 := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		for k := 0; k < 25; k++ {
			w := ws[r.Intn(3)]
			a, b := pick(w), pick(w)
			switch r.Intn(22) {
			case 0, 1:
				add(tt.Add(a.t, b.t), "add", func(m int) uint64 { return a.v[m] + b.v[m] })
			case 2, 3:
				add(tt.Sub(a.t, b.t), "sub", func(m int) uint64 { return a.v[m] - b.v[m] })
			case 4:
				add(tt.Mul(a.t, b.t), "mul", func(m int) uint64 { return a.v[m] * b.v[m] })
			case 5:
				add(tt.Udiv(a.t, b.t), "udiv", func(m int) uint64 {
					if b.v[m] == 0 {
						return mask(w)
					}
					return a.v[m] / b.v[m]
				})
			case 6:
				add(tt.Urem(a.t, b.t), "urem", func(m int) uint64 {
					if b.v[m] == 0 {
						return a.v[m]
					}
					return a.v[m] % b.v[m]
				})
			case 7:
				d := uint64(1 + r.Intn(8))
				add(tt.Srem(a.t, tt.Const(w, d)), "srem", func(m int) uint64 { return uint64(sx(a.v[m], w) % int64(d)) })
			case 8:
				d := uint64(1 + r.Intn(8))
				add(tt.Sdiv(a.t, tt.Const(w, d)), "sdiv", func(m int) uint64 { return uint64(sx(a.v[m], w) / int64(d)) })
			case 9:
				add(tt.And(a.t, b.t), "and", func(m int) uint64 { return a.v[m] & b.v[m] })
			case 10:
				add(tt.Or(a.t, b.t), "or", func(m int) uint64 { return a.v[m] | b.v[m] })
			case 11:
				add(tt.Xor(a.t, b.t), "xor", func(m int) uint64 { return a.v[m] ^ b.v[m] })
			case 12:
				s := uint64(r.Intn(w + 2))
				add(tt.Shl(a.t, tt.Const(w, s)), "shl", func(m int) uint64 { return a.v[m] << s })
			case 13:
				s := uint64(r.Intn(w + 2))
				add(tt.Lshr(a.t, tt.Const(w, s)), "lshr", func(m int) uint64 { return a.v[m] >> s })
			case 14:
				if w == 64 {
					continue
				}
				if r.Intn(2) == 0 {
					add(tt.Zext(a.t, 64), "zext", func(m int) uint64 { return a.v[m] })
				} else {
					add(tt.Sext(a.t, 64), "sext", func(m int) uint64 { return uint64(sx(a.v[m], w)) })
				}
			case 15:
				if w == 8 {
					continue
				}
				lo := 8 * r.Intn(w/8)
				if w == 64 && r.Intn(2) == 0 {
					lo = 32 * r.Intn(2)
					add(tt.Extract(lo+31, lo, a.t), "ext32", func(m int) uint64 { return a.v[m] >> uint(lo) })
				} else {
					add(tt.Extract(lo+7, lo, a.t), "ext8", func(m int) uint64 { return a.v[m] >> uint(lo) })
				}
			case 16:
				var ps []nd
				var ts []*Term
				for i := 0; i < 4; i++ {
					if r.Intn(2) == 0 {
						x := pick(64)
						l := 8 * r.Intn(5)
						n := nd{t: tt.Extract(l+7, l, x.t)}
						for m := range n.v {
							n.v[m] = x.v[m] >> uint(l) & 255
						}
						ps = append(ps, n)
					} else {
						ps = append(ps, pick(8))
					}
					ts = append(ts, ps[i].t)
				}
				if r.Intn(3) == 0 { // bytes of one word
					x := pick(32)
					for i := range ts {
						ts[i] = tt.Extract(31-8*i, 24-8*i, x.t)
						for m := range ms {
							ps[i].v[m] = x.v[m] >> uint(24-8*i) & 255
						}
					}
				}
				add(tt.Concat(ts...), "cat", func(m int) uint64 {
					v := uint64(0)
					for _, p := range ps {
						v = v<<8 | p.v[m]
					}
					return v
				})
			case 17:
				add(tt.Eq(a.t, b.t), "eq", func(m int) uint64 { return b2(a.v[m] == b.v[m]) })
			case 18:
				add(tt.Ult(a.t, b.t), "ult", func(m int) uint64 { return b2(a.v[m] < b.v[m]) })
			case 19:
				add(tt.Slt(a.t, b.t), "slt", func(m int) uint64 { return b2(sx(a.v[m], w) < sx(b.v[m], w)) })
			case 20:
				c := pick(0)
				add(tt.Ite(c.t, a.t, b.t), "ite", func(m int) uint64 {
					if c.v[m] == 1 {
						return a.v[m]
					}
					return b.v[m]
				})
			case 21:
				c, d := pick(0), pick(0)
				add(tt.BAnd(c.t, tt.Not(d.t)), "band", func(m int) uint64 { return c.v[m] & (1 - d.v[m]) })
				add(tt.BOr(c.t, d.t), "bor", func(m int) uint64 { return c.v[m] | d.v[m] })
			}
		}
	}
}

func seeds(n int64) int64 {
	if s := os.Getenv("SEEDS"); s != "" {
		fmt.Sscan(s, &n)
	}
	return n
}

// What a path concludes from its condition holds in every model of it.
func TestFacts(t *testing.T) {
	for seed := int64(0); seed < seeds(20000); seed++ {
		r := rand.New(rand.NewSource(seed))
		tt := NewTable()
		x := &Exec{tt: tt, pcSet: map[*Term]bool{}, normMemo: map[*Term]*Term{}}
		m := NewModel()
		x.model = m
		var ts []*Term
		for i := 0; i < 5; i++ {
			w := []int{8, 32, 64}[r.Intn(3)]
			hi := mask(w)
			if r.Intn(3) > 0 {
				hi = uint64(r.Intn(300)) & hi
			}
			v := r.Uint64()
			if r.Intn(2) == 0 {
				v = uint64(r.Intn(20))
			}
			if v > hi {
				v %= hi + 1
			}
			nm := fmt.Sprintf("v%d", i)
			m.Vars[nm] = v
			y := tt.Var(nm, w, 0, hi)
			ts = append(ts, y, tt.Zext(y, 64), tt.Sext(y, 64), tt.Extract(7, 0, y))
			if w > 8 {
				ts = append(ts, tt.Extract(w-1, w-8, y), tt.Extract(15, 8, y))
			}
		}
		pick := func(w int) *Term {
			for {
				if y := ts[r.Intn(len(ts))]; y.W == w {
					return y
				}
				if r.Intn(20) == 0 {
					v := uint64(r.Intn(20))
					if r.Intn(3) == 0 {
						v = -v
					}
					return tt.Const(w, v&mask(w))
				}
			}
		}
		for i := 0; i < 12; i++ {
			w := []int{8, 32, 64, 64}[r.Intn(4)]
			a, b := pick(w), pick(w)
			switch r.Intn(5) {
			case 0:
				ts = append(ts, tt.Add(a, b))
			case 1:
				ts = append(ts, tt.Sub(a, b))
			case 2:
				ts = append(ts, tt.Add(a, tt.Const(w, uint64(r.Intn(40)-20)&mask(w))))
			case 3:
				ts = append(ts, tt.Mul(a, tt.Const(w, uint64(r.Intn(8)))))
			case 4:
				ts = append(ts, tt.And(a, tt.Const(w, 3)))
			}
		}
		cond := func() *Term {
			w := []int{8, 32, 64, 64}[r.Intn(4)]
			a, b := pick(w), pick(w)
			switch r.Intn(4) {
			case 0:
				return tt.Eq(a, b)
			case 1:
				return tt.Ult(a, b)
			case 2:
				return tt.Slt(a, b)
			}
			return tt.Ule(a, b)
		}
		for i := 0; i < 30; i++ {
			c := cond()
			s := x.simp(c)
			tt.NewEval()
			v := tt.Eval(c, m)
			if g := tt.Eval(s, m); g != v {
				t.Fatalf("seed %d: %s became %s: %d, want %d; facts %v", seed, c, s, g, v, x.known)
			}
			if r.Intn(2) == 0 {
				if v == 0 {
					s = tt.Not(s)
				}
				x.addPC(s, false)
			}
		}
	}
}

// The integer reading of a condition has the models of the condition.
func TestInteger(t *testing.T) {
	tt := NewTable()
	s := NewSolver(tt)
	defer s.Close()
	s.start()
	n := 0
	for seed := int64(0); seed < seeds(1500); seed++ {
		r := rand.New(rand.NewSource(seed))
		var ts []*Term
		for i := 0; i < 4; i++ {
			w := []int{8, 32, 64, 64}[r.Intn(4)]
			hi := mask(w)
			if w == 64 || r.Intn(3) > 0 {
				hi = uint64(r.Intn(70000)) & hi
			}
			y := tt.Var(fmt.Sprintf("w%d_%d_%d", seed, i, w), w, 0, hi)
			ts = append(ts, y, tt.Zext(y, 64))
		}
		pick := func(w int) *Term {
			for k := 0; k < 200; k++ {
				if y := ts[r.Intn(len(ts))]; y.W == w {
					return y
				}
			}
			return tt.Const(w, uint64(r.Intn(20)))
		}
		for i := 0; i < 10; i++ {
			w := []int{8, 32, 64, 64}[r.Intn(4)]
			a, b := pick(w), pick(w)
			switch r.Intn(4) {
			case 0:
				ts = append(ts, tt.Add(a, b))
			case 1:
				ts = append(ts, tt.Sub(a, b))
			case 2:
				ts = append(ts, tt.Add(a, tt.Const(w, uint64(r.Intn(40)-20)&mask(w))))
			case 3:
				ts = append(ts, tt.Mul(a, tt.Const(w, uint64(r.Intn(8)))))
			}
		}
		var cs []*Term
		for i := 0; i < 4; i++ {
			w := []int{8, 32, 64, 64}[r.Intn(4)]
			a, b := pick(w), pick(w)
			c := tt.Eq(a, b)
			switch r.Intn(4) {
			case 0:
				c = tt.Ult(a, b)
			case 1, 2:
				c = tt.Slt(a, b)
			}
			if r.Intn(2) == 0 {
				c = tt.Not(c)
			}
			if !c.IsConst() {
				cs = append(cs, c)
			}
		}
		g, m, ok := s.tryLIA(cs)
		if !ok {
			continue
		}
		n++
		if g == Sat {
			tt.NewEval()
			for _, c := range cs {
				if tt.Eval(c, m) != 1 {
					t.Fatalf("seed %d: not a model of %s: %v", seed, c, m.Vars)
				}
			}
			continue
		}
		s.noInt = true
		if h, _ := s.checkAll(cs); h == Sat {
			t.Fatalf("seed %d: unsat as integers: %v", seed, cs)
		}
		s.noInt = false
	}
	if n < 100 {
		t.Fatalf("only %d", n)
	}
}
