package main

import (

	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Float float64

type Str struct {
	c   string
	sym bool
	e   *AExpr
	off *Term
	n   *Term
}

// ScalArr is the storage of an array of integers.
type ScalArr struct {
	w int
	n *Term
	e *AExpr
}

// GArr is the storage of any other array.
type GArr struct{ v []Value }

type Struct []Value

type Ptr struct {
	c   *Value
	arr *ScalArr
	idx *Term
}

func (p Ptr) isNil() bool { return p.c == nil && p.arr == nil }

type Slice struct {
	arr  *ScalArr
	g    *GArr
	off  *Term
	n    *Term
	cap  *Term
	elem types.Type
}

func (s Slice) isNil() bool { return s.arr == nil && s.g == nil }

type Iface struct {
	t types.Type
	v Value
}

type Func struct {
	fn     *ssa.Function
	bind   []Value
	b      *ssa.Builtin
	native func(x *Exec, fr *frame, args []Value) Value
}

type Tuple []Value

type mapEntry struct {
	k Value
	v Value
}

type MapV struct {
	kt, vt types.Type
	ents   []*mapEntry
}

type mapIter struct {
	m    *MapV
	rest []*mapEntry
}

type strIter struct {
	s Str
	i int
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	recvq  int
	et     types.Type
}

type rtError struct{ msg string } // value inside an Iface with t == rtErrorType

func isScalar(t types.Type) (w int, signed bool, ok bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) k64(v uint64) *Term { return x.tt.Const(64, v) }

func (x *Exec) str(s string) Str { return Str{c: s, n: x.k64(uint64(len(s)))} }

func (x *Exec) newArr(elem types.Type, n int) Value {
	if w, _, ok := isScalar(elem); ok {
		return x.newScal(w, x.k64(uint64(n)))
	}
	g := &GArr{make([]Value, n)}
	for i := range g.v {
		g.v[i] = x.zero(elem)
	}
	return g
}

func (x *Exec) newScal(w int, n *Term) *ScalArr {
	return &ScalArr{w: w, n: n, e: x.aConst(w, x.tt.Const(w, 0))}
}

func (x *Exec) zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := isScalar(t); ok {
			return x.tt.Const(w, 0)
		}
		switch {
		case t.Info()&types.IsBoolean != 0:
			return x.tt.False
		case t.Info()&types.IsString != 0:
			return x.str("")
		case t.Info()&types.IsFloat != 0:
			return Float(0)
		case t.Kind() == types.UnsafePointer:
			return Ptr{}
		case t.Kind() == types.UntypedNil:
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{off: x.k64(0), n: x.k64(0), cap: x.k64(0), elem: t.Elem()}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Func)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = x.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		return x.newArr(t.Elem(), int(t.Len()))
	case *types.Tuple:
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = x.zero(t.At(i).Type())
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("zero value of %s", t)))
}

// clone copies a value with value semantics.
func clone(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = clone(v[i])
		}
		return r
	case *ScalArr:
		if v == nil {
			return v
		}
		c := *v
		return &c
	case *GArr:
		if v == nil {
			return v
		}
		r := &GArr{make([]Value, len(v.v))}
		for i := range v.v {
			r.v[i] = clone(v.v[i])
		}
		return r
	}
	return v
}

// assign stores v into the cell, keeping the identity of nested storage.
func assign(dst *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*dst).(Struct); ok && len(d) == len(v) {
			for i := range v {
				assign(&d[i], v[i])
			}
			return
		}
		*dst = clone(v)
	case *ScalArr:
		if d, ok := (*dst).(*ScalArr); ok && d != nil && v != nil {
			d.e = v.e
			d.n = v.n
			return
		}
		*dst = clone(v)
	case *GArr:
		if d, ok := (*dst).(*GArr); ok && d != nil && v != nil && len(d.v) == len(v.v) {
			for i := range v.v {
				assign(&d.v[i], v.v[i])
			}
			return
		}
		*dst = clone(v)
	default:
		*dst = v
	}
}

func (x *Exec) load(p Ptr) Value {
	if p.arr != nil {
		return x.aRead(p.arr.e, p.idx)
	}
	if p.c == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	return clone(*p.c)
}

func (x *Exec) store(p Ptr, v Value) {
	if p.arr != nil {
		p.arr.e = x.aWrite(p.arr.e, p.arr.n, p.idx, v.(*Term))
		return
	}
	if p.c == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	assign(p.c, v)
}

// ---------- strings

func (x *Exec) sAExpr(s Str) (*AExpr, *Term) {
	if s.sym {
		return s.e, s.off
	}
	v := make([]*Term, len(s.c))
	for i := range v {
		v[i] = x.tt.Const(8, uint64(s.c[i]))
	}
	return aVec(8, v), x.k64(0)
}

func (x *Exec) sAt(s Str, i *Term) *Term {
	if !s.sym && i.IsConst() {
		return x.tt.Const(8, uint64(s.c[i.V]))
	}
	e, off := x.sAExpr(s)
	return x.aRead(e, x.tt.Add(off, i))
}

// mkStr builds a string from array contents, concrete when it can.
func (x *Exec) mkStr(e *AExpr, off, n *Term) Str {
	if n.IsConst() && n.V == 0 {
		return x.str("")
	}
	if n.IsConst() && n.V <= maxVec {
		v := x.aFlat(e, off, int(n.V))
		b := make([]byte, len(v))
		conc := true
		for i, t := range v {
			if !t.IsConst() {
				conc = false
				break
			}
			b[i] = byte(t.V)
		}
		if conc {
			return x.str(string(b))
		}
		return Str{sym: true, e: aVec(8, v), off: x.k64(0), n: n}
	}
	if n.IsConst() && n.V <= maxText {
		if s, ok := x.concreteText(e, off, n); ok {
			return x.str(s)
		}
	}
	return Str{sym: true, e: e, off: off, n: n}
}

// maxText bounds the strings that are looked through for being concrete.
const maxText = 1 << 18

// concreteText is the string put together from concrete pieces only.
func (x *Exec) concreteText(e *AExpr, off, n *Term) (string, bool) {
	var b []byte
	for _, s := range x.segs(nil, e, off, n) {
		if s.a.kind != AVec && s.a.kind != AConst || !s.n.IsConst() || !s.off.IsConst() {
			return "", false
		}
		for i := uint64(0); i < s.n.V; i++ {
			t := x.aRead(s.a, x.k64(s.off.V+i))
			if !t.IsConst() {
				return "", false
			}
			b = append(b, byte(t.V))
		}
	}
	return string(b), true
}

// flat is n elements starting at off.
func (x *Exec) flat(e *AExpr, off *Term, n uint64) []*Term {
	if n <= maxVec {
		return x.aFlat(e, off, int(n))
	}
	var r []*Term
	for _, s := range x.segs(nil, e, off, x.k64(n)) {
		if !s.n.IsConst() {
			return x.aFlat(e, off, int(n))
		}
		r = append(r, x.aFlat(s.a, s.off, int(s.n.V))...)
	}
	return r
}

func (x *Exec) strConcat(a, b Str) Str {
	if !a.sym && !b.sym {
		return x.str(a.c + b.c)
	}
	if a.n.IsConst() && a.n.V == 0 {
		return b
	}
	if b.n.IsConst() && b.n.V == 0 {
		return a
	}
	ae, ao := x.sAExpr(a)
	be, bo := x.sAExpr(b)
	n := x.tt.Add(a.n, b.n)
	e := x.aConst(8, x.tt.Const(8, 0))
	e = x.aCopy(e, n, x.k64(0), ae, ao, a.n)
	e = x.aCopy(e, n, a.n, be, bo, b.n)
	return x.mkStr(e, x.k64(0), n)
}

// strEq is the equality of two strings as a term; lengths that stay symbolic
// are made concrete by forking.
func (x *Exec) strEq(a, b Str) *Term {
	if !a.sym && !b.sym {
		return x.tt.Bool(a.c == b.c)
	}
	if a.sym && b.sym && a.e == b.e && a.off == b.off && a.n == b.n {
		return x.tt.True
	}
	le := x.tt.Eq(a.n, b.n)
	if !x.decide(le) {
		return x.tt.False
	}
	n := a.n
	if !n.IsConst() {
		n = b.n
	}
	k := x.concSmall(n, 64)
	var cs []*Term
	ae, ao := x.sAExpr(a)
	be, bo := x.sAExpr(b)
	p, q := x.flat(ae, ao, k), x.flat(be, bo, k)
	for i := range p {
		c := x.tt.Eq(p[i], q[i])
		if c.IsFalse() {
			return c
		}
		cs = append(cs, c)
	}
	return x.tt.BAnd(cs...)
}

func (x *Exec) strLess(a, b Str) *Term {
	if !a.sym && !b.sym {
		return x.tt.Bool(a.c < b.c)
	}
	na := x.concSmall(a.n, 64)
	nb := x.concSmall(b.n, 64)
	r := x.tt.Bool(na < nb)
	m := na
	if nb < m {
		m = nb
	}
	for i := int(m) - 1; i >= 0; i-- {
		p, q := x.sAt(a, x.k64(uint64(i))), x.sAt(b, x.k64(uint64(i)))
		r = x.tt.Ite(x.tt.Eq(p, q), r, x.tt.Ult(p, q))
	}
	return r
}

// ---------- equality

func (x *Exec) eq(a, b Value) *Term {
	switch a := a.(type) {
	case *Term:
		return x.tt.Eq(a, b.(*Term))
	case Float:
		return x.tt.Bool(a == b.(Float))
	case Str:
		return x.strEq(a, b.(Str))
	case Ptr:
		c := b.(Ptr)
		if a.c != c.c || a.arr != c.arr {
			return x.tt.False
		}
		if a.arr != nil {
			return x.tt.Eq(a.idx, c.idx)
		}
		return x.tt.True
	case Iface:
		c := b.(Iface)
		if a.t == nil || c.t == nil {
			return x.tt.Bool(a.t == nil && c.t == nil)
		}
		if !types.Identical(a.t, c.t) {
			return x.tt.False
		}
		return x.eq(a.v, c.v)
	case Struct:
		c := b.(Struct)
		var ts []*Term
		for i := range a {
			ts = append(ts, x.eq(a[i], c[i]))
		}
		return x.tt.BAnd(ts...)
	case *GArr:
		c := b.(*GArr)
		var ts []*Term
		for i := range a.v {
			ts = append(ts, x.eq(a.v[i], c.v[i]))
		}
		return x.tt.BAnd(ts...)
	case *ScalArr:
		c := b.(*ScalArr)
		if a.e == c.e {
			return x.tt.True
		}
		if !a.n.IsConst() {
			panic(unsupported("comparison of symbolic-length arrays"))
		}
		var ts []*Term
		for i := uint64(0); i < a.n.V; i++ {
			ts = append(ts, x.tt.Eq(x.aRead(a.e, x.k64(i)), x.aRead(c.e, x.k64(i))))
		}
		return x.tt.BAnd(ts...)
	case Slice: // only against nil
		c := b.(Slice)
		if c.isNil() {
			return x.tt.Bool(a.isNil())
		}
		if a.isNil() {
			return x.tt.Bool(c.isNil())
		}
	case *MapV:
		return x.tt.Bool(a == b.(*MapV))
	case *ChanV:
		return x.tt.Bool(a == b.(*ChanV))
	case *Func:
		c := b.(*Func)
		if a == nil || c == nil {
			return x.tt.Bool(a == nil && c == nil)
		}
	case rtError:
		return x.tt.Bool(a == b.(rtError))
	}
	panic(unsupported(fmt.Sprintf("comparison of %T", a)))
}
