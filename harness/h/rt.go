package h

import "github.com/zeldovich/go-rpcgen/zz_verif/sym"

// Runtime of the codecs derived from specifications: arbitrary values (ndc),
// reference encoder (enc) and reference decoder (rdr).

// focus restricts the choices of nested parts: outside the part that is in
// focus, shapes are fixed (contents are not).
type focus struct {
	thin int
	all  bool
}

func (f *focus) pick(n int) int {
	if f.thin > 0 || f.all {
		return -1
	}
	return sym.Choose("focus", n)
}

func (f *focus) on(k, i int) {
	if k >= 0 && k != i {
		f.thin++
	}
}

func (f *focus) off(k, i int) {
	if k >= 0 && k != i {
		f.thin--
	}
}

func fixedLen(n, limit int) int {
	if limit >= 0 && limit < n {
		return limit
	}
	return n
}

type ndc struct {
	focus
	depth  int  // optional/list entries still allowed
	max    int  // bound on the elements of an array
	blen   int  // bound on the length of unlimited data
	over   bool // lengths may exceed their limit
	full   bool // every field set, unselected arms included
	counts int  // full: length of arrays
	plain  bool // only the arms vary, those of all unions in step
	armIdx int  // plain: index of the arm, -1 before the first
	shift  int
	truths int
	depth0 int
}

func newNdc(depth, max int, all bool) *ndc {
	return &ndc{depth: depth, depth0: depth, max: max, blen: 1 << 16, focus: focus{all: all}}
}

func (c *ndc) arm(nm string, k int) int {
	if c.thin > 0 {
		return 0
	}
	if c.plain {
		if c.armIdx < 0 {
			c.armIdx = sym.Choose(nm+".arm", k)
		}
		return (c.armIdx + c.shift) % k
	}
	return sym.Choose(nm+".arm", k)
}

func (c *ndc) truth(nm string) bool {
	if c.plain {
		c.truths++
		return (c.truths+c.counts)%2 == 0
	}
	return sym.Bool(nm)
}

// count is the number of elements of an array.
func (c *ndc) count(nm string, limit int) int {
	if c.full {
		if limit >= 0 && c.counts > limit {
			return limit
		}
		return c.counts
	}
	if c.plain {
		return fixedLen(c.counts, limit)
	}
	if c.thin > 0 {
		return fixedLen(1, limit)
	}
	m := c.max
	if limit >= 0 && m > limit {
		m = limit
	}
	k := m + 1
	if c.over && limit >= 0 {
		k++ // limit + 1
		if limit > m {
			k++ // limit
		}
	}
	n := sym.Choose(nm+".n", k)
	if n == m+1 {
		if limit > m {
			return limit
		}
		return limit + 1
	}
	if n == m+2 {
		return limit + 1
	}
	return n
}

// nested bounds the number of values in an array of the type being made.
func (c *ndc) nested(n int) int {
	if n > c.depth {
		if !c.full && !c.plain && c.thin == 0 {
			sym.Skip()
		}
		n = c.depth
	}
	c.depth -= n
	return n
}

func (c *ndc) bytes(nm string, limit int) []byte {
	if c.plain || c.thin > 0 && !c.full {
		n := fixedLen(4+c.counts, limit)
		return sym.Bytes(nm, n, n)
	}
	m := c.blen
	if limit >= 0 && limit < m {
		m = limit
		if c.over {
			m += 9
		}
	}
	if c.full {
		m = 6
		if limit >= 0 && limit < m {
			m = limit
		}
	}
	return sym.Bytes(nm, 0, m)
}

func (c *ndc) more(nm string) bool {
	if c.depth <= 0 {
		return false
	}
	if c.full || c.plain {
		return true
	}
	if c.thin > 0 {
		return c.depth == c.depth0
	}
	return sym.Choose(nm+".opt", 2) == 1
}

// enc appends the reference form of a value.
type enc struct {
	b      []byte
	bad    bool // some limit is exceeded
	unspec bool // a union has no arm for its discriminant
}

func (e *enc) u32(v uint32) { e.b = be(e.b, uint64(v), 4) }
func (e *enc) u64(v uint64) { e.b = be(e.b, v, 8) }
func (e *enc) boolean(v bool) {
	e.b = be(e.b, sym.IteU64(v, 1, 0), 4)
}
func (e *enc) count(n, limit int) {
	if limit >= 0 {
		e.bad = sym.Or(e.bad, n > limit)
	}
	e.b = be(e.b, uint64(n), 4)
}
func (e *enc) fixed(d []byte) { e.b = ref_fixed(e.b, d) }
func (e *enc) opaque(d []byte, limit int) {
	if limit >= 0 {
		e.bad = sym.Or(e.bad, len(d) > limit)
	}
	e.b = ref_var(e.b, d)
}

// rdr is the reference decoder: bad means the input ends early or breaks a
// limit; unspec that the specification gives the input no meaning.
type rdr struct {
	focus
	b      []byte
	pos    int
	bad    bool
	unspec bool
	depth  int // list entries and optional data followed
	max    int // bound: more entries or elements are outside the exploration
}

func (r *rdr) take(n int) []byte {
	if r.bad || n > len(r.b)-r.pos {
		r.bad = true
		return nil
	}
	d := r.b[r.pos : r.pos+n]
	r.pos += n
	return d
}

func (r *rdr) u32() uint32 {
	d := r.take(4)
	if r.bad {
		return 0
	}
	return uint32(d[0])<<24 | uint32(d[1])<<16 | uint32(d[2])<<8 | uint32(d[3])
}

func (r *rdr) u64() uint64 {
	d := r.take(8)
	if r.bad {
		return 0
	}
	return unbe(d)
}

func (r *rdr) boolean() bool { return r.u32() != 0 }

func (r *rdr) more() bool {
	v := r.u32()
	if r.bad {
		return false
	}
	if r.thin > 0 {
		if r.depth == 0 && r.max > 0 {
			sym.Assume(v != 0)
		} else {
			sym.Assume(v == 0)
		}
	}
	return v != 0
}

func (r *rdr) fixed(n int) []byte {
	d := r.take(n)
	r.take((4 - n%4) % 4)
	return d
}

func (r *rdr) opaque(limit int) []byte {
	n := int(r.u32())
	if r.bad {
		return nil
	}
	if r.thin > 0 {
		sym.Assume(n == fixedLen(5, limit))
	}
	if limit >= 0 && n > limit {
		r.bad = true
		return nil
	}
	d := r.take(n)
	r.take((4 - n%4) % 4)
	return d
}

// count reads an element count; min is the least wire size of an element.
func (r *rdr) count(limit, min int) int {
	n := int(r.u32())
	if r.bad {
		return 0
	}
	if r.thin > 0 {
		sym.Assume(n == fixedLen(1, limit))
	}
	if limit >= 0 && n > limit {
		r.bad = true
		return 0
	}
	if n > r.max {
		// either far too little input, or beyond the exploration
		if min == 0 || len(r.b)-r.pos >= r.max*min+min {
			sym.Skip()
		}
		r.bad = true
		return 0
	}
	return sym.Conc(n, r.max)
}

func (r *rdr) enter() {
	r.depth++
	if r.depth > r.max {
		sym.Skip()
	}
}
