package main

// The sym package (symbolic inputs, assertions) and stand-ins for library
// functions that are not executed from their source.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, fr *frame, args []Value) Value

const symPath = "github.com/zeldovich/go-rpcgen/zz_verif/sym"

func cstr(v Value) string {
	s := v.(Str)
	if s.sym {
		panic(unsupported("symbolic string where a name is needed"))
	}
	return s.c
}

func (x *Exec) cint(v Value) int {
	t := v.(*Term)
	return int(sx(x.concretize(t, 1000), t.W))
}

func (x *Exec) symVar(name string, w int) *Term {
	n := x.fresh(name)
	if w == 0 {
		return x.tt.Var(n, 0, 0, 1)
	}
	return x.tt.Var(n, w, 0, mask(w))
}

func (x *Exec) symRange(name string, lo, hi uint64) *Term {
	n := x.fresh(name)
	if lo == hi {
		return x.k64(lo)
	}
	return x.tt.Var(n, 64, lo, hi)
}

var intrinsics map[string]intrinsic

func init() {
	S := func(n string) string { return symPath + "." + n }
	intrinsics = map[string]intrinsic{
		S("U8"):   func(x *Exec, fr *frame, a []Value) Value { return x.symVar(cstr(a[0]), 8) },
		S("U32"):  func(x *Exec, fr *frame, a []Value) Value { return x.symVar(cstr(a[0]), 32) },
		S("U64"):  func(x *Exec, fr *frame, a []Value) Value { return x.symVar(cstr(a[0]), 64) },
		S("I32"):  func(x *Exec, fr *frame, a []Value) Value { return x.symVar(cstr(a[0]), 32) },
		S("I64"):  func(x *Exec, fr *frame, a []Value) Value { return x.symVar(cstr(a[0]), 64) },
		S("Bool"): func(x *Exec, fr *frame, a []Value) Value { return x.symVar(cstr(a[0]), 0) },
		S("Int"): func(x *Exec, fr *frame, a []Value) Value {
			return x.symRange(cstr(a[0]), uint64(x.cint(a[1])), uint64(x.cint(a[2])))
		},
		S("Choose"): func(x *Exec, fr *frame, a []Value) Value {
			return x.k64(uint64(x.choose(cstr(a[0]), x.cint(a[1]))))
		},
		S("Bytes"): func(x *Exec, fr *frame, a []Value) Value {
			e, n := x.symBytes(cstr(a[0]), x.cint(a[1]), x.cint(a[2]))
			return Slice{arr: &ScalArr{w: 8, n: n, e: e}, off: x.k64(0), n: n, cap: n, elem: types.Typ[types.Uint8]}
		},
		S("String"): func(x *Exec, fr *frame, a []Value) Value {
			e, n := x.symBytes(cstr(a[0]), x.cint(a[1]), x.cint(a[2]))
			return x.mkStr(e, x.k64(0), n)
		},
		S("Assume"): func(x *Exec, fr *frame, a []Value) Value { x.assume(a[0].(*Term)); return nil },
		S("Assert"): func(x *Exec, fr *frame, a []Value) Value {
			x.assert(a[0].(*Term), cstr(a[1]), "")
			return nil
		},
		S("BytesEq"): func(x *Exec, fr *frame, a []Value) Value {
			s, t := a[0].(Slice), a[1].(Slice)
			l := cstr(a[2])
			x.assert(x.tt.Eq(s.n, t.n), l, "lengths differ")
			var se, te *AExpr
			if s.arr != nil {
				se = s.arr.e
			}
			if t.arr != nil {
				te = t.arr.e
			}
			x.assertSame(se, s.off, te, t.off, s.n, t.n, l)
			return nil
		},
		S("StringEq"): func(x *Exec, fr *frame, a []Value) Value {
			s, t := a[0].(Str), a[1].(Str)
			l := cstr(a[2])
			x.assert(x.tt.Eq(s.n, t.n), l, "lengths differ")
			se, so := x.sAExpr(s)
			te, to := x.sAExpr(t)
			x.assertSame(se, so, te, to, s.n, t.n, l)
			return nil
		},
		S("Cover"): func(x *Exec, fr *frame, a []Value) Value { x.covers[cstr(a[0])] = true; return nil },
		S("Yield"): func(x *Exec, fr *frame, a []Value) Value {
			x.schedOn = true
			x.yield("sym")
			x.order = append(x.order, fmt.Sprintf("%d %s", x.cur.id, cstr(a[0])))
			return nil
		},
		S("Step"): func(x *Exec, fr *frame, a []Value) Value {
			if f := cstr(a[2]); int(a[0].(*Term).V) <= x.grain && (x.only == "" || f == "" || f == x.only) {
				x.yield("step")
				x.order = append(x.order, fmt.Sprintf("%d %s", x.cur.id, cstr(a[1])))
			}
			return nil
		},
		S("Grain"):    func(x *Exec, fr *frame, a []Value) Value { x.grain = int(a[0].(*Term).V); return nil },
		S("Only"):     func(x *Exec, fr *frame, a []Value) Value { x.only = cstr(a[0]); return nil },
		S("Preempts"): func(x *Exec, fr *frame, a []Value) Value { x.maxPreempts = int(sx(a[0].(*Term).V, 64)); return nil },
		S("NewG"):     func(x *Exec, fr *frame, a []Value) Value { return x.k64(0) },
		S("EnterG"):   func(x *Exec, fr *frame, a []Value) Value { return nil },
		S("Join"): func(x *Exec, fr *frame, a []Value) Value {
			me := x.cur
			x.block(func() bool {
				for _, g := range x.gs {
					if g != me && !g.done {
						return false
					}
				}
				return true
			})
			return nil
		},
		S("Obs"): func(x *Exec, fr *frame, a []Value) Value {
			x.obs = append(x.obs, obs{label: cstr(a[0]), w: 64, t: a[1].(*Term)})
			return nil
		},
		S("ObsBytes"): func(x *Exec, fr *frame, a []Value) Value {
			s := a[1].(Slice)
			o := obs{label: cstr(a[0]), n: s.n, off: s.off}
			if s.arr != nil {
				o.arr = s.arr.e
			}
			x.obs = append(x.obs, o)
			return nil
		},
		S("AllocLimit"): func(x *Exec, fr *frame, a []Value) Value {
			x.alloc = x.k64(0)
			x.allocLimit = a[0].(*Term)
			x.allocLabel = cstr(a[1])
			return nil
		},
		S("AllocCheck"): func(x *Exec, fr *frame, a []Value) Value {
			if x.allocLimit != nil {
				x.assert(x.tt.Ule(x.alloc, x.allocLimit), x.allocLabel, "total allocation")
				x.allocLimit = nil
			}
			return nil
		},
		S("Tier"): func(x *Exec, fr *frame, a []Value) Value {
			if x.w.run.thorough {
				return a[1]
			}
			return a[0]
		},
		S("Roomy"): func(x *Exec, fr *frame, a []Value) Value { x.roomy = a[0].(*Term).V == 1; return nil },
		S("Native"): func(x *Exec, fr *frame, a []Value) Value { return x.tt.False },
		S("And"): func(x *Exec, fr *frame, a []Value) Value { return x.tt.BAnd(a[0].(*Term), a[1].(*Term)) },
		S("Or"):  func(x *Exec, fr *frame, a []Value) Value { return x.tt.BOr(a[0].(*Term), a[1].(*Term)) },
		S("Not"): func(x *Exec, fr *frame, a []Value) Value { return x.tt.Not(a[0].(*Term)) },
		S("Implies"): func(x *Exec, fr *frame, a []Value) Value {
			return x.tt.BOr(x.tt.Not(a[0].(*Term)), a[1].(*Term))
		},
		S("IteU64"): func(x *Exec, fr *frame, a []Value) Value {
			return x.tt.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		S("Conc"): func(x *Exec, fr *frame, a []Value) Value { // fork over a small value
			t := a[0].(*Term)
			return x.k64(x.concSmall(t, x.cint(a[1])))
		},
		S("Skip"): func(x *Exec, fr *frame, a []Value) Value { x.end(endInfeasible, "skip"); return nil },

		"internal/reflectlite.TypeOf": func(x *Exec, fr *frame, a []Value) Value { return Iface{rtErrorType, rtError{"type"}} },
		"reflect.TypeOf":              func(x *Exec, fr *frame, a []Value) Value { return Iface{rtErrorType, rtError{"type"}} },

		// errors, fmt
		"errors.Is":  ovErrorsIs,
		"fmt.Errorf": ovErrorf,
		"fmt.Sprintf": func(x *Exec, fr *frame, a []Value) Value {
			return x.sprintf(fr, a[0].(Str), a[1].(Slice))
		},
		"fmt.Sprint": func(x *Exec, fr *frame, a []Value) Value {
			return x.str(fmt.Sprint(x.natives(fr, a[0].(Slice))...))
		},
		"fmt.Sprintln": func(x *Exec, fr *frame, a []Value) Value {
			return x.str(fmt.Sprintln(x.natives(fr, a[0].(Slice))...))
		},
		// the same bytes, written out when they are known
		S("Flat"): func(x *Exec, fr *frame, a []Value) Value {
			s := a[0].(Slice)
			if s.arr == nil || !s.n.IsConst() || s.n.V > maxText {
				return s
			}
			t, ok := x.concreteText(s.arr.e, s.off, s.n)
			if !ok {
				return s
			}
			e, _ := x.sAExpr(x.str(t))
			return Slice{arr: &ScalArr{w: 8, n: s.n, e: e}, off: x.k64(0), n: s.n, cap: s.n, elem: s.elem}
		},

		"fmt.Fprintf": func(x *Exec, fr *frame, a []Value) Value {
			return x.fwrite(fr, a[0].(Iface), x.sprintf(fr, a[1].(Str), a[2].(Slice)))
		},
		"fmt.Fprint": func(x *Exec, fr *frame, a []Value) Value {
			return x.fwrite(fr, a[0].(Iface), x.str(fmt.Sprint(x.natives(fr, a[1].(Slice))...)))
		},
		"fmt.Fprintln": func(x *Exec, fr *frame, a []Value) Value {
			return x.fwrite(fr, a[0].(Iface), x.str(fmt.Sprintln(x.natives(fr, a[1].(Slice))...)))
		},
		"fmt.Printf":  ovPrint,
		"fmt.Println": ovPrint,
		"fmt.Print":   ovPrint,
		"log.Printf":  ovNop,
		"log.Println": ovNop,
		"log.Print":   ovNop,
		"(*log.Logger).Printf":  ovNop,
		"(*log.Logger).Println": ovNop,

		// sync
		"(*sync.Pool).Get":      ovPoolGet,
		"(*sync.Pool).Put":      ovPoolPut,
		"(*sync.Mutex).Lock":    ovLock,
		"(*sync.Mutex).Unlock":  ovUnlock,
		"(*sync.Mutex).TryLock": nil,
		"(*sync.RWMutex).Lock":  ovLock,
		"(*sync.RWMutex).Unlock": ovUnlock,
		"(*sync.RWMutex).RLock": func(x *Exec, fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			x.yield("rlock")
			x.block(func() bool { return x.locks[p.c] >= 0 })
			x.locks[p.c]++
			return nil
		},
		"(*sync.RWMutex).RUnlock": func(x *Exec, fr *frame, a []Value) Value {
			x.locks[a[0].(Ptr).c]--
			return nil
		},
		"(*sync.WaitGroup).Add": func(x *Exec, fr *frame, a []Value) Value {
			x.locks[a[0].(Ptr).c] += int(sx(a[1].(*Term).V, 64))
			return nil
		},
		"(*sync.WaitGroup).Done": func(x *Exec, fr *frame, a []Value) Value {
			x.locks[a[0].(Ptr).c]--
			x.yield("wgdone")
			return nil
		},
		"(*sync.WaitGroup).Wait": func(x *Exec, fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			x.block(func() bool { return x.locks[p.c] <= 0 })
			return nil
		},
		"(*sync.WaitGroup).Go": func(x *Exec, fr *frame, a []Value) Value {
			p, f := a[0].(Ptr), a[1].(*Func)
			x.locks[p.c]++
			x.spawn(func() { x.callFunc(nil, f, nil); x.locks[p.c]-- }, false)
			x.schedOn = true
			x.yield("go")
			return nil
		},
		"(*sync.Once).Do": func(x *Exec, fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			if x.locks[p.c] == 0 {
				x.locks[p.c] = 1
				x.callFunc(fr, a[1].(*Func), nil)
			}
			return nil
		},
		"runtime.Gosched":   func(x *Exec, fr *frame, a []Value) Value { x.yield("gosched"); return nil },
		"runtime.GC":        ovNop,
		"runtime.KeepAlive": ovNop,
		"internal/abi.NoEscape": func(x *Exec, fr *frame, a []Value) Value { return a[0] },
		"internal/race.Enabled": ovNop,
		"internal/bytealg.IndexByte": func(x *Exec, fr *frame, a []Value) Value {
			s := a[0].(Slice)
			n := x.concSmall(s.n, 64)
			for i := uint64(0); i < n; i++ {
				if x.decide(x.tt.Eq(x.aRead(s.arr.e, x.tt.AddK(s.off, int64(i))), a[1].(*Term))) {
					return x.k64(i)
				}
			}
			return x.tt.Const(64, ^uint64(0))
		},
		"internal/bytealg.IndexByteString": func(x *Exec, fr *frame, a []Value) Value {
			s := a[0].(Str)
			n := x.concSmall(s.n, 64)
			for i := uint64(0); i < n; i++ {
				if x.decide(x.tt.Eq(x.sAt(s, x.k64(i)), a[1].(*Term))) {
					return x.k64(i)
				}
			}
			return x.tt.Const(64, ^uint64(0))
		},
		"internal/bytealg.MakeNoZero": func(x *Exec, fr *frame, a []Value) Value {
			return x.makeSlice(types.NewSlice(types.Typ[types.Uint8]), a[0].(*Term), a[0].(*Term))
		},
		"bytes.Equal": func(x *Exec, fr *frame, a []Value) Value {
			s, t := a[0].(Slice), a[1].(Slice)
			return x.strEq(x.sliceStr(s), x.sliceStr(t))
		},

		// strings, on concrete arguments
		"strings.ToUpper":   str1(strings.ToUpper),
		"strings.ToLower":   str1(strings.ToLower),
		"strings.TrimSpace": str1(strings.TrimSpace),
		"strings.Title":     str1(strings.Title),
		"strings.HasPrefix": strB(strings.HasPrefix),
		"strings.HasSuffix": strB(strings.HasSuffix),
		"strings.Contains":  strB(strings.Contains),
		"strings.TrimSuffix": str2(strings.TrimSuffix),
		"strings.TrimPrefix": str2(strings.TrimPrefix),
		"strings.TrimRight": str2(strings.TrimRight),
		"strings.TrimLeft":  str2(strings.TrimLeft),
		"strings.Trim":      str2(strings.Trim),
		"strings.EqualFold": strB(strings.EqualFold),
		"strings.Repeat": func(x *Exec, fr *frame, a []Value) Value {
			if s, ok := conc(a[:1]); ok {
				return x.str(strings.Repeat(s[0], x.cint(a[1])))
			}
			return useBody{}
		},
		"strings.ReplaceAll": func(x *Exec, fr *frame, a []Value) Value {
			if s, ok := conc(a); ok {
				return x.str(strings.ReplaceAll(s[0], s[1], s[2]))
			}
			return useBody{}
		},
		"strings.Index": func(x *Exec, fr *frame, a []Value) Value {
			if s, ok := conc(a); ok {
				return x.k64(uint64(int64(strings.Index(s[0], s[1]))))
			}
			return useBody{}
		},
		"strings.Join": func(x *Exec, fr *frame, a []Value) Value {
			s := a[0].(Slice)
			sep := a[1].(Str)
			r := x.str("")
			n := x.concSmall(s.n, 64)
			o := x.concretize(s.off, 65)
			for i := uint64(0); i < n; i++ {
				if i > 0 {
					r = x.strConcat(r, sep)
				}
				r = x.strConcat(r, s.g.v[o+i].(Str))
			}
			return r
		},
		"strconv.Itoa": func(x *Exec, fr *frame, a []Value) Value {
			return x.str(fmt.Sprint(int64(x.concretize(a[0].(*Term), 65))))
		},
	}
	delete(intrinsics, "(*sync.Mutex).TryLock")
	registerOS()
	for _, f := range []string{"LoadInt32", "LoadInt64", "LoadUint32", "LoadUint64", "LoadPointer"} {
		intrinsics["sync/atomic."+f] = func(x *Exec, fr *frame, a []Value) Value { x.yield("atomic"); return x.load(a[0].(Ptr)) }
	}
	for _, f := range []string{"StoreInt32", "StoreInt64", "StoreUint32", "StoreUint64", "StorePointer"} {
		intrinsics["sync/atomic."+f] = func(x *Exec, fr *frame, a []Value) Value {
			x.yield("atomic")
			x.store(a[0].(Ptr), a[1])
			return nil
		}
	}
	for _, f := range []string{"AddInt32", "AddInt64", "AddUint32", "AddUint64"} {
		intrinsics["sync/atomic."+f] = func(x *Exec, fr *frame, a []Value) Value {
			x.yield("atomic")
			p := a[0].(Ptr)
			v := x.tt.Add(x.load(p).(*Term), a[1].(*Term))
			x.store(p, v)
			return v
		}
	}
	for _, f := range []string{"CompareAndSwapInt32", "CompareAndSwapInt64", "CompareAndSwapUint32", "CompareAndSwapUint64"} {
		intrinsics["sync/atomic."+f] = func(x *Exec, fr *frame, a []Value) Value {
			x.yield("atomic")
			p := a[0].(Ptr)
			if x.decide(x.tt.Eq(x.load(p).(*Term), a[1].(*Term))) {
				x.store(p, a[2])
				return x.tt.True
			}
			return x.tt.False
		}
	}
}

func ovNop(x *Exec, fr *frame, a []Value) Value { return nil }

func ovPrint(x *Exec, fr *frame, a []Value) Value {
	x.stdout++
	return Tuple{x.k64(0), Iface{}}
}

// conc: the string arguments, if all of them are concrete.
func conc(a []Value) (s []string, ok bool) {
	for _, v := range a {
		t, isStr := v.(Str)
		if !isStr || t.sym {
			return nil, false
		}
		s = append(s, t.c)
	}
	return s, true
}

func str1(f func(string) string) intrinsic {
	return func(x *Exec, fr *frame, a []Value) Value {
		if s, ok := conc(a); ok {
			return x.str(f(s[0]))
		}
		return useBody{}
	}
}
func str2(f func(a, b string) string) intrinsic {
	return func(x *Exec, fr *frame, a []Value) Value {
		if s, ok := conc(a); ok {
			return x.str(f(s[0], s[1]))
		}
		return useBody{}
	}
}
func strB(f func(a, b string) bool) intrinsic {
	return func(x *Exec, fr *frame, a []Value) Value {
		if s, ok := conc(a); ok {
			return x.tt.Bool(f(s[0], s[1]))
		}
		return useBody{}
	}
}

func (x *Exec) sliceStr(s Slice) Str {
	if s.arr == nil {
		return x.str("")
	}
	return x.mkStr(s.arr.e, s.off, s.n)
}

func (x *Exec) symBytes(name string, lo, hi int) (*AExpr, *Term) {
	n := x.symRange(name+".len", uint64(lo), uint64(hi))
	b := x.fresh(name)
	base := x.aBase(8, b)
	if n.IsConst() && n.V <= maxVec {
		return aVec(8, x.aFlat(base, x.k64(0), int(n.V))), n
	}
	return base, n
}

// ---------- errors and formatting

func (x *Exec) newError(msg Str) Value {
	p := x.ld.pkgs["errors"]
	return x.call(nil, p.Func("New"), []Value{msg}, nil)
}

func ovErrorf(x *Exec, fr *frame, a []Value) Value {
	f := a[0].(Str)
	s := x.sprintf(fr, f, a[1].(Slice))
	if !f.sym && strings.Contains(f.c, "%w") {
		for _, v := range x.elems(a[1].(Slice)) {
			if i, ok := v.(Iface); ok && i.t != nil && x.implements(i.t, x.ld.errorIface) {
				w := x.ld.pkgs["fmt"].Type("wrapError")
				c := new(Value)
				*c = Struct{s, i}
				return Iface{types.NewPointer(w.Type()), Ptr{c: c}}
			}
		}
	}
	return x.newError(s)
}

func ovErrorsIs(x *Exec, fr *frame, a []Value) Value {
	e, target := a[0].(Iface), a[1].(Iface)
	for i := 0; i < 20; i++ {
		if e.t == nil || target.t == nil {
			return x.tt.Bool(e.t == nil && target.t == nil)
		}
		if types.Identical(e.t, target.t) && types.Comparable(e.t) {
			if x.decide(x.eq(e, target)) {
				return x.tt.True
			}
		}
		fn := x.ld.methodByName(e.t, "Unwrap")
		if fn == nil || fn.Signature.Results().Len() != 1 {
			return x.tt.False
		}
		r, ok := x.call(fr, fn, []Value{e.v}, nil).(Iface)
		if !ok {
			return x.tt.False
		}
		e = r
	}
	return x.tt.False
}

func (x *Exec) elems(s Slice) []Value {
	if s.isNil() {
		return nil
	}
	n := x.concSmall(s.n, 64)
	o := x.concretize(s.off, 65)
	return s.g.v[o : o+n]
}

// nativeVal turns an interpreted value into a Go value for formatting.
func (x *Exec) nativeVal(fr *frame, v Value) interface{} {
	i, ok := v.(Iface)
	if !ok {
		return "?"
	}
	if i.t == nil {
		return nil
	}
	if x.implements(i.t, x.ld.errorIface) {
		var s Value
		if i.t == rtErrorType {
			s = x.str(i.v.(rtError).msg)
		} else if fn := x.ld.methodByName(i.t, "Error"); fn != nil {
			s = x.call(fr, fn, []Value{i.v}, nil)
		}
		if t, ok := s.(Str); ok {
			if t.sym {
				x.opaque = true
				return fmt.Errorf("?")
			}
			return fmt.Errorf("%s", t.c)
		}
	}
	if fn := x.ld.methodByName(i.t, "String"); fn != nil && fn.Signature.Params().Len() == 0 {
		if t, ok := x.call(fr, fn, []Value{i.v}, nil).(Str); ok && !t.sym {
			return t.c
		}
	}
	switch w := i.v.(type) {
	case *Term:
		if !w.IsConst() {
			x.opaque = true
			return 0
		}
		if w.W == 0 {
			return w.V == 1
		}
		_, signed, _ := isScalar(i.t)
		switch {
		case signed && w.W == 32:
			return int32(sx(w.V, 32))
		case signed:
			return sx(w.V, w.W)
		case w.W == 8:
			return uint8(w.V)
		}
		return w.V
	case Str:
		if w.sym {
			x.opaque = true
			return "?"
		}
		return w.c
	case Float:
		return float64(w)
	case Slice:
		if w.arr != nil && w.arr.w == 8 {
			s := x.sliceStr(w)
			if !s.sym {
				return []byte(s.c)
			}
		}
		if w.g != nil {
			var r []string
			for _, e := range x.elems(w) {
				if t, ok := e.(Str); ok && !t.sym {
					r = append(r, t.c)
				} else {
					x.opaque = true
				}
			}
			return r
		}
	}
	x.opaque = true
	return "?"
}

func (x *Exec) natives(fr *frame, s Slice) []interface{} {
	var r []interface{}
	for _, e := range x.elems(s) {
		r = append(r, x.nativeVal(fr, e))
	}
	return r
}

func (x *Exec) sprintf(fr *frame, f Str, args Slice) Str {
	if f.sym {
		x.opaque = true
		return x.str("?")
	}
	// %s and %d of symbolic strings keep their contents when only %s is used
	vals := x.elems(args)
	symbolic := false
	for _, v := range vals {
		if i, ok := v.(Iface); ok {
			if s, ok := i.v.(Str); ok && s.sym {
				symbolic = true
			}
		}
	}
	if symbolic {
		if r, ok := x.symSprintf(fr, f.c, vals); ok {
			return r
		}
	}
	return x.str(fmt.Sprintf(strings.ReplaceAll(f.c, "%w", "%v"), x.natives(fr, args)...))
}

func (x *Exec) symSprintf(fr *frame, f string, vals []Value) (Str, bool) {
	r := x.str("")
	k := 0
	for {
		i := strings.IndexByte(f, '%')
		if i < 0 || i+1 >= len(f) {
			return x.strConcat(r, x.str(f)), true
		}
		r = x.strConcat(r, x.str(f[:i]))
		switch f[i+1] {
		case '%':
			r = x.strConcat(r, x.str("%"))
		case 's', 'v', 'd':
			if k >= len(vals) {
				return r, false
			}
			if s, ok := vals[k].(Iface).v.(Str); ok && f[i+1] != 'd' {
				r = x.strConcat(r, s)
			} else {
				r = x.strConcat(r, x.str(fmt.Sprintf(f[i:i+2], x.nativeVal(fr, vals[k]))))
			}
			k++
		default:
			return r, false
		}
		f = f[i+2:]
	}
}

// fwrite writes a formatted string to an io.Writer.
func (x *Exec) fwrite(fr *frame, w Iface, s Str) Value {
	if w.t == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := x.ld.methodByName(w.t, "Write")
	if fn == nil {
		panic(unsupported("Fprintf to " + w.t.String()))
	}
	e, off := x.sAExpr(s)
	a := &ScalArr{w: 8, n: x.tt.Add(off, s.n), e: e}
	return x.call(fr, fn, []Value{w.v, Slice{arr: a, off: off, n: s.n, cap: s.n, elem: types.Typ[types.Uint8]}}, nil)
}

// ---------- sync

// A pool hands out any item put into it before, or nothing.
func ovPoolGet(x *Exec, fr *frame, a []Value) Value {
	p := a[0].(Ptr)
	items := x.pools[p.c]
	k := x.choose("pool", len(items)+1)
	// value 0: the most recent item
	if k < len(items) {
		j := len(items) - 1 - k
		v := items[j]
		x.pools[p.c] = append(append([]Value(nil), items[:j]...), items[j+1:]...)
		return v
	}
	// New
	s := (*p.c).(Struct)
	pt := x.ld.pkgs["sync"].Type("Pool").Type().Underlying().(*types.Struct)
	for i := 0; i < pt.NumFields(); i++ {
		if pt.Field(i).Name() == "New" {
			if f, _ := s[i].(*Func); f != nil {
				return x.callFunc(fr, f, nil)
			}
		}
	}
	return Iface{}
}

func ovPoolPut(x *Exec, fr *frame, a []Value) Value {
	p := a[0].(Ptr)
	v := a[1].(Iface)
	if v.t == nil {
		return nil
	}
	x.pools[p.c] = append(append([]Value(nil), x.pools[p.c]...), v)
	return nil
}

func ovLock(x *Exec, fr *frame, a []Value) Value {
	p := a[0].(Ptr)
	x.yield("lock")
	x.block(func() bool { return x.locks[p.c] == 0 })
	x.locks[p.c] = -1
	return nil
}

func ovUnlock(x *Exec, fr *frame, a []Value) Value {
	p := a[0].(Ptr)
	if x.locks[p.c] != -1 {
		x.end(endUnsupported, "unlock of unlocked mutex")
	}
	x.locks[p.c] = 0
	return nil
}

var _ = ssa.NaiveForm
