package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime/debug"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func stack() string {
	s := string(debug.Stack())
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

type fnInfo struct {
	idx map[ssa.Value]int
	n   int
}

var fnInfos sync.Map

func infoOf(fn *ssa.Function) *fnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*fnInfo)
	}
	f := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		f.idx[v] = f.n
		f.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fnInfos.Store(fn, f)
	return f
}

type deferred struct {
	fn   *Func
	inv  Iface
	args []Value
	call *ssa.Defer
	next *deferred
}

type frame struct {
	x         *Exec
	caller    *frame
	fn        *ssa.Function
	info      *fnInfo
	regs      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    Value
	panicking bool
	panicV    *targetPanic
	visits    map[*ssa.BasicBlock]int
}

func (fr *frame) get(v ssa.Value) Value {
	x := fr.x
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return x.constValue(v)
	case *ssa.Global:
		return x.global(v)
	case *ssa.Function:
		return &Func{fn: v}
	case *ssa.Builtin:
		return &Func{b: v}
	}
	if i, ok := fr.info.idx[v]; ok {
		return fr.regs[i]
	}
	panic(unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)))
}

func (fr *frame) term(v ssa.Value) *Term { return fr.get(v).(*Term) }

func (fr *frame) set(v ssa.Value, val Value) { fr.regs[fr.info.idx[v]] = val }

func (x *Exec) constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	t := c.Type()
	if w, signed, ok := isScalar(t); ok {
		v := constant.ToInt(c.Value)
		if signed {
			i, ok := constant.Int64Val(v)
			if !ok {
				u, _ := constant.Uint64Val(v)
				return x.tt.Const(w, u)
			}
			return x.tt.Const(w, uint64(i))
		}
		u, ok := constant.Uint64Val(v)
		if !ok {
			i, _ := constant.Int64Val(v)
			u = uint64(i)
		}
		return x.tt.Const(w, u)
	}
	if isBool(t) {
		return x.tt.Bool(constant.BoolVal(c.Value))
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return x.str(constant.StringVal(c.Value))
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		f, _ := constant.Float64Val(c.Value)
		return Float(f)
	}
	panic(unsupported("constant " + c.String()))
}

func (x *Exec) global(g *ssa.Global) Value {
	if c, ok := x.globals[g]; ok {
		return Ptr{c: c}
	}
	x.initPkg(g.Pkg)
	if c, ok := x.globals[g]; ok {
		return Ptr{c: c}
	}
	c := new(Value)
	*c = x.zero(g.Type().(*types.Pointer).Elem())
	x.globals[g] = c
	return Ptr{c: c}
}

// packages whose initialisers are not run (their globals are zero or stubs)
var noInit = map[string]bool{
	"os": true, "syscall": true, "runtime": true, "sync": true, "time": true, "reflect": true,
	"unicode": true, "internal/godebug": true, "internal/poll": true, "fmt": true, "flag": true,
	"internal/cpu": true, "io/fs": true, "io/ioutil": true, "internal/bytealg": true, "math/bits": true,
	"sync/atomic": true, "unsafe": true, "internal/oserror": true, "log": true, "net": true,
	"go/format": true, "go/printer": true, "go/ast": true, "go/parser": true, "internal/testlog": true, "math/rand": true,
}

func (x *Exec) initPkg(p *ssa.Package) {
	if p == nil || x.inited[p] {
		return
	}
	x.inited[p] = true
	path := p.Pkg.Path()
	if noInit[path] || strings.HasPrefix(path, "internal/") {
		x.stubGlobals(p)
		return
	}
	if f := p.Func("init"); f != nil {
		save := x.curInstr
		x.call(nil, f, nil, nil)
		x.curInstr = save
	}
}

// useBody is returned by an intrinsic that leaves a call to the function's body.
type useBody struct{}

func (x *Exec) callFunc(fr *frame, f *Func, args []Value) Value {
	switch {
	case f == nil:
		x.rtPanic("invalid memory address or nil pointer dereference")
	case f.native != nil:
		return f.native(x, fr, args)
	case f.b != nil:
		panic(unsupported("builtin value " + f.b.Name()))
	}
	return x.call(fr, f.fn, args, f.bind)
}

func (x *Exec) call(caller *frame, fn *ssa.Function, args []Value, bind []Value) Value {
	if caller != nil || fn.Name() != "init" {
		if fn.Name() == "init" && fn.Synthetic == "package initializer" && caller != nil {
			p := fn.Pkg
			if !isRepoPath(p.Pkg.Path()) {
				return nil // lazily initialised
			}
			if x.inited[p] {
				return nil
			}
			x.inited[p] = true
		}
	}
	if ov := x.ld.override(fn); ov != nil {
		if v := ov(x, caller, args); v != Value(useBody{}) {
			return v
		}
	}
	if fn.Blocks == nil {
		if strings.HasPrefix(fn.String(), "internal/bytealg.") {
			if p := x.ld.pkgs[modPath+"/zz_verif/sym"]; p != nil && p.Func(fn.Name()) != nil {
				return x.call(caller, p.Func(fn.Name()), args, nil)
			}
		}
		panic(unsupported("no body: " + fn.String()))
	}
	if fn.Pkg != nil && !x.inited[fn.Pkg] {
		x.initPkg(fn.Pkg)
	}
	if x.depth > 3000 {
		x.end(endTruncated, "recursion depth in "+fn.String())
	}
	x.w.run.noteFn(x.w, fn)
	info := infoOf(fn)
	fr := &frame{x: x, caller: caller, fn: fn, info: info, regs: make([]Value, info.n), block: fn.Blocks[0]}
	n := copy(fr.regs, args)
	copy(fr.regs[n:], bind)
	d := x.depth
	x.depth++
	for fr.block != nil {
		x.runFrame(fr)
	}
	x.depth = d
	return fr.result
}

func (x *Exec) runFrame(fr *frame) {
	d := x.depth
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			if re, isRe := r.(error); isRe && r != nil {
				// an engine bug: report with place
				panic(unsupported(fmt.Sprintf("engine: %v at %s\n%s", re, x.where(), stack())))
			}
			panic(r)
		}
		x.depth = d
		fr.panicking = true
		fr.panicV = &tp
		x.runDefers(fr)
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = x.zeroResult(fr.fn)
		}
	}()
	for {
		blk := fr.block
		jumped := false
		for _, in := range blk.Instrs {
			x.steps++
			if x.steps > x.w.run.maxSteps {
				x.w.run.stepLimit(x)
				x.end(endTruncated, "step limit")
			}
			x.curInstr = in
			switch x.visit(fr, in) {
			case kReturn:
				fr.block = nil
				return
			case kJump:
				jumped = true
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic(unsupported("fell off block"))
		}
	}
}

func (x *Exec) zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return x.zero(rs.At(0).Type())
	}
	return x.zero(rs)
}

func (x *Exec) runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, isT := r.(targetPanic)
				if !isT {
					panic(r)
				}
				fr.panicking = true
				fr.panicV = &tp
			}()
			x.doCall(fr, &d.call.Call, d.fn, d.args)
			ok = true
		}()
	}
	if fr.panicking {
		panic(*fr.panicV)
	}
}

type kont int

const (
	kNext kont = iota
	kReturn
	kJump
)

func (x *Exec) goTo(fr *frame, i int) kont {
	fr.prev, fr.block = fr.block, fr.block.Succs[i]
	return kJump
}

func (x *Exec) visit(fr *frame, instr ssa.Instruction) kont {
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(in, x.unop(fr, in))
	case *ssa.BinOp:
		fr.set(in, x.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.Call:
		f, args := x.prepare(fr, &in.Call)
		r := x.doCall(fr, &in.Call, f, args)
		x.curInstr = in
		fr.set(in, r)
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, x.convert(in.X.Type(), in.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, x.convert(in.X.Type(), in.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !x.decide(x.tt.Ule(x.k64(uint64(n)), s.n)) {
			x.rtPanic("cannot convert slice to array pointer")
		}
		panic(unsupported("slice to array pointer"))
	case *ssa.MakeInterface:
		fr.set(in, Iface{in.X.Type(), fr.get(in.X)})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, x.slice(fr, in))
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = fr.get(in.Results[0])
		default:
			var t Tuple
			for _, r := range in.Results {
				t = append(t, fr.get(r))
			}
			fr.result = t
		}
		return kReturn
	case *ssa.RunDefers:
		x.runDefers(fr)
	case *ssa.Panic:
		panic(targetPanic{fr.get(in.X)})
	case *ssa.Send:
		c := fr.get(in.Chan).(*ChanV)
		v := fr.get(in.X)
		x.chanSend(c, v)
	case *ssa.Store:
		x.store(fr.get(in.Addr).(Ptr), fr.get(in.Val))
	case *ssa.If:
		t := fr.term(in.Cond)
		var b bool
		if t.IsConst() {
			b = t.V == 1
		} else {
			x.loopCheck(fr, in)
			b = x.decide(t)
		}
		if b {
			return x.goTo(fr, 0)
		}
		return x.goTo(fr, 1)
	case *ssa.Jump:
		return x.goTo(fr, 0)
	case *ssa.Defer:
		f, args := x.prepare(fr, &in.Call)
		fr.pushDefer(in, &deferred{fn: f, args: args, call: in})
	case *ssa.Go:
		f, args := x.prepare(fr, &in.Call)
		call := &in.Call
		x.spawn(func() { x.doCall(nil, call, f, args) }, false)
		x.schedOn = true
		x.yield("go")
	case *ssa.MakeChan:
		n := x.concretize(fr.term(in.Size), 16)
		fr.set(in, &ChanV{cap: int(n), et: in.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.Alloc:
		c := new(Value)
		et := in.Type().Underlying().(*types.Pointer).Elem()
		*c = x.zero(et)
		if in.Heap {
			x.addAlloc(x.k64(uint64(x.ld.sizes.Sizeof(et))))
		}
		fr.set(in, Ptr{c: c})
	case *ssa.MakeSlice:
		fr.set(in, x.makeSlice(in.Type(), x.toInt64(fr.get(in.Len), in.Len.Type()), x.toInt64(fr.get(in.Cap), in.Cap.Type())))
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		x.addAlloc(x.k64(48))
		fr.set(in, &MapV{kt: mt.Key(), vt: mt.Elem()})
	case *ssa.Range:
		switch v := fr.get(in.X).(type) {
		case *MapV:
			it := &mapIter{m: v}
			if v != nil {
				it.rest = append(it.rest, v.ents...)
			}
			fr.set(in, it)
		case Str:
			fr.set(in, &strIter{s: v})
		default:
			panic(unsupported("range"))
		}
	case *ssa.Next:
		fr.set(in, x.next(fr, in))
	case *ssa.FieldAddr:
		p := fr.get(in.X).(Ptr)
		if p.c == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		s := (*p.c).(Struct)
		fr.set(in, Ptr{c: &s[in.Field]})
	case *ssa.IndexAddr:
		fr.set(in, x.indexAddr(fr.get(in.X), x.toInt64(fr.get(in.Index), in.Index.Type())))
	case *ssa.Field:
		fr.set(in, clone(fr.get(in.X).(Struct)[in.Field]))
	case *ssa.Index:
		i := x.toInt64(fr.get(in.Index), in.Index.Type())
		switch v := fr.get(in.X).(type) {
		case Str:
			x.bounds(i, v.n)
			fr.set(in, x.sAt(v, i))
		case *ScalArr:
			x.bounds(i, v.n)
			fr.set(in, x.aRead(v.e, i))
		case *GArr:
			x.bounds(i, x.k64(uint64(len(v.v))))
			fr.set(in, clone(v.v[x.concretize(i, len(v.v)+1)]))
		default:
			panic(unsupported("index"))
		}
	case *ssa.Lookup:
		fr.set(in, x.lookup(fr, in))
	case *ssa.MapUpdate:
		m := fr.get(in.Map).(*MapV)
		x.mapSet(m, fr.get(in.Key), fr.get(in.Value))
	case *ssa.TypeAssert:
		fr.set(in, x.typeAssert(in, fr.get(in.X).(Iface)))
	case *ssa.MakeClosure:
		f := &Func{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, fr.get(b))
		}
		fr.set(in, f)
	case *ssa.Phi:
		for i, p := range in.Block().Preds {
			if p == fr.prev {
				// all phis of a block read the old values
				fr.set(in, fr.phiVal(in, i))
				break
			}
		}
	case *ssa.Select:
		fr.set(in, x.selectStmt(fr, in))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", instr)))
	}
	return kNext
}

// phiVal evaluates the phi's edge; a phi that refers to an earlier phi of the
// same block must see that phi's previous value.
func (fr *frame) phiVal(in *ssa.Phi, edge int) Value {
	blk := in.Block()
	if blk.Instrs[0] == ssa.Instruction(in) {
		// snapshot every phi edge on entry to the block
		var snap []Value
		for _, i2 := range blk.Instrs {
			p, ok := i2.(*ssa.Phi)
			if !ok {
				break
			}
			snap = append(snap, fr.get(p.Edges[edge]))
		}
		k := 0
		for _, i2 := range blk.Instrs {
			p, ok := i2.(*ssa.Phi)
			if !ok {
				break
			}
			fr.set(p, snap[k])
			k++
		}
	}
	return fr.regs[fr.info.idx[in]]
}

func (fr *frame) pushDefer(in *ssa.Defer, d *deferred) {
	d.next = fr.defers
	fr.defers = d
}

// loopCheck bounds how often one branch may be decided symbolically per path.
func (x *Exec) loopCheck(fr *frame, in *ssa.If) {
	x.siteHits[in]++
	if x.siteHits[in] > x.w.run.maxSite {
		x.end(endTruncated, "loop bound at "+x.where())
	}
}

func (x *Exec) toInt64(v Value, t types.Type) *Term {
	tm := v.(*Term)
	w, signed, _ := isScalar(t)
	if w == 64 || tm.W == 64 {
		return tm
	}
	if signed {
		return x.tt.Sext(tm, 64)
	}
	return x.tt.Zext(tm, 64)
}

func (x *Exec) bounds(i, n *Term) {
	if !x.decide(x.tt.Ult(i, n)) {
		x.rtPanic("index out of range")
	}
}

func (x *Exec) indexAddr(v Value, i *Term) Value {
	switch v := v.(type) {
	case Slice:
		x.bounds(i, v.n)
		if v.arr != nil {
			return Ptr{arr: v.arr, idx: x.tt.Add(v.off, i)}
		}
		k := x.concretize(x.tt.Add(v.off, i), 1<<16)
		return Ptr{c: &v.g.v[k]}
	case Ptr: // pointer to array
		if v.c == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		switch a := (*v.c).(type) {
		case *ScalArr:
			x.bounds(i, a.n)
			return Ptr{arr: a, idx: i}
		case *GArr:
			x.bounds(i, x.k64(uint64(len(a.v))))
			return Ptr{c: &a.v[x.concretize(i, len(a.v)+1)]}
		}
	}
	panic(unsupported(fmt.Sprintf("IndexAddr on %T", v)))
}

func (x *Exec) makeSlice(t types.Type, n, c *Term) Value {
	et := t.Underlying().(*types.Slice).Elem()
	sz := uint64(x.ld.sizes.Sizeof(et))
	lim := uint64(1) << 47
	if sz > 1 {
		lim = lim / sz
	}
	if !x.decide(x.tt.Ule(n, x.k64(lim))) {
		x.rtPanic("makeslice: len out of range")
	}
	if c != n && !x.decide(x.tt.BAnd(x.tt.Ule(c, x.k64(lim)), x.tt.Ule(n, c))) {
		x.rtPanic("makeslice: cap out of range")
	}
	x.addAlloc(x.tt.Mul(c, x.k64(sz)))
	if w, _, ok := isScalar(et); ok {
		return Slice{arr: x.newScal(w, c), off: x.k64(0), n: n, cap: c, elem: et}
	}
	k := x.concSmall(c, 24)
	if k > 1<<16 {
		x.end(endTruncated, "large non-scalar make")
	}
	nn := x.concSmall(n, 24)
	g := &GArr{make([]Value, k)}
	for i := range g.v {
		g.v[i] = x.zero(et)
	}
	return Slice{g: g, off: x.k64(0), n: x.k64(nn), cap: x.k64(k), elem: et}
}

func (x *Exec) slice(fr *frame, in *ssa.Slice) Value {
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.toInt64(fr.get(v), v.Type())
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = x.k64(0)
	}
	oob := func(c *Term) {
		if !x.decide(c) {
			x.rtPanic("slice bounds out of range")
		}
	}
	switch v := fr.get(in.X).(type) {
	case Str:
		if hi == nil {
			hi = v.n
		}
		oob(x.tt.Ule(hi, v.n))
		oob(x.tt.Ule(lo, hi))
		if !v.sym && lo.IsConst() && hi.IsConst() {
			return x.str(v.c[lo.V:hi.V])
		}
		e, off := x.sAExpr(v)
		return x.mkStr(e, x.tt.Add(off, lo), x.tt.Sub(hi, lo))
	case Slice:
		if hi == nil {
			hi = v.n
		}
		c := v.cap
		if mx != nil {
			oob(x.tt.Ule(mx, c))
			c = mx
		}
		oob(x.tt.Ule(hi, c))
		oob(x.tt.Ule(lo, hi))
		if v.isNil() {
			return v
		}
		return Slice{arr: v.arr, g: v.g, off: x.tt.Add(v.off, lo), n: x.tt.Sub(hi, lo), cap: x.tt.Sub(c, lo), elem: v.elem}
	case Ptr:
		if v.c == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		et := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
		var s Slice
		switch a := (*v.c).(type) {
		case *ScalArr:
			s = Slice{arr: a, cap: a.n}
		case *GArr:
			s = Slice{g: a, cap: x.k64(uint64(len(a.v)))}
		}
		c := s.cap
		if hi == nil {
			hi = c
		}
		if mx != nil {
			oob(x.tt.Ule(mx, c))
			c = mx
		}
		oob(x.tt.Ule(hi, c))
		oob(x.tt.Ule(lo, hi))
		s.off, s.n, s.cap, s.elem = lo, x.tt.Sub(hi, lo), x.tt.Sub(c, lo), et
		return s
	}
	panic(unsupported("slice operand"))
}

func (x *Exec) unop(fr *frame, in *ssa.UnOp) Value {
	v := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		return x.load(v.(Ptr))
	case token.SUB:
		if f, ok := v.(Float); ok {
			return -f
		}
		return x.tt.Neg(v.(*Term))
	case token.XOR:
		return x.tt.BVNot(v.(*Term))
	case token.NOT:
		return x.tt.Not(v.(*Term))
	case token.ARROW:
		c := v.(*ChanV)
		r, ok := x.chanRecv(c)
		if in.CommaOk {
			return Tuple{r, x.tt.Bool(ok)}
		}
		return r
	}
	panic(unsupported("unop " + in.Op.String()))
}

func (x *Exec) binop(op token.Token, t types.Type, a, b Value, bt types.Type) Value {
	switch op {
	case token.EQL:
		return x.eq(a, b)
	case token.NEQ:
		return x.tt.Not(x.eq(a, b))
	}
	if s, ok := a.(Str); ok {
		u := b.(Str)
		switch op {
		case token.ADD:
			x.addAlloc(x.tt.Add(s.n, u.n))
			return x.strConcat(s, u)
		case token.LSS:
			return x.strLess(s, u)
		case token.GTR:
			return x.strLess(u, s)
		case token.LEQ:
			return x.tt.Not(x.strLess(u, s))
		case token.GEQ:
			return x.tt.Not(x.strLess(s, u))
		}
	}
	if f, ok := a.(Float); ok {
		g := b.(Float)
		switch op {
		case token.ADD:
			return f + g
		case token.SUB:
			return f - g
		case token.MUL:
			return f * g
		case token.QUO:
			return f / g
		case token.LSS:
			return x.tt.Bool(f < g)
		case token.GTR:
			return x.tt.Bool(f > g)
		case token.LEQ:
			return x.tt.Bool(f <= g)
		case token.GEQ:
			return x.tt.Bool(f >= g)
		}
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T", op, a)))
	}
	_, signed, _ := isScalar(t)
	tt := x.tt
	switch op {
	case token.SHL, token.SHR:
		if _, bs, _ := isScalar(bt); bs {
			if x.decide(tt.Slt(q, tt.Const(q.W, 0))) {
				x.rtPanic("negative shift amount")
			}
		}
		w := p.W
		var over *Term = tt.False
		if q.W > w {
			over = tt.Not(tt.Ult(q, tt.Const(q.W, uint64(w))))
			q = tt.Extract(w-1, 0, q)
		} else if q.W < w {
			q = tt.Zext(q, w)
		}
		var r, o *Term
		switch {
		case op == token.SHL:
			r, o = tt.Shl(p, q), tt.Const(w, 0)
		case signed:
			r, o = tt.Ashr(p, q), tt.Ashr(p, tt.Const(w, uint64(w-1)))
		default:
			r, o = tt.Lshr(p, q), tt.Const(w, 0)
		}
		return tt.Ite(over, o, r)
	}
	if p.W == 0 {
		switch op {
		case token.AND, token.LAND:
			return tt.BAnd(p, q)
		case token.OR, token.LOR:
			return tt.BOr(p, q)
		}
		panic(unsupported("bool op " + op.String()))
	}
	switch op {
	case token.ADD:
		return tt.Add(p, q)
	case token.SUB:
		return tt.Sub(p, q)
	case token.MUL:
		return tt.Mul(p, q)
	case token.QUO, token.REM:
		if x.decide(tt.Eq(q, tt.Const(q.W, 0))) {
			x.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return tt.Sdiv(p, q)
		case op == token.QUO:
			return tt.Udiv(p, q)
		case signed:
			return tt.Srem(p, q)
		}
		return tt.Urem(p, q)
	case token.AND:
		return tt.And(p, q)
	case token.OR:
		return tt.Or(p, q)
	case token.XOR:
		return tt.Xor(p, q)
	case token.AND_NOT:
		return tt.And(p, tt.BVNot(q))
	}
	lt := tt.Ult
	if signed {
		lt = tt.Slt
	}
	switch op {
	case token.LSS:
		return lt(p, q)
	case token.GTR:
		return lt(q, p)
	case token.LEQ:
		return tt.Not(lt(q, p))
	case token.GEQ:
		return tt.Not(lt(p, q))
	}
	panic(unsupported("binop " + op.String()))
}

func (x *Exec) convert(from, to types.Type, v Value) Value {
	fw, fsigned, fint := isScalar(from)
	tw, _, tint := isScalar(to)
	switch {
	case fint && tint:
		t := v.(*Term)
		switch {
		case tw < fw:
			return x.tt.Extract(tw-1, 0, t)
		case tw > fw && fsigned:
			return x.tt.Sext(t, tw)
		case tw > fw:
			return x.tt.Zext(t, tw)
		}
		return t
	case isString(to):
		switch a := v.(type) {
		case Str:
			return a
		case Slice:
			et := from.Underlying().(*types.Slice).Elem()
			if w, _, _ := isScalar(et); w == 8 {
				if a.isNil() {
					return x.str("")
				}
				x.addAlloc(a.n)
				return x.mkStr(a.arr.e, a.off, a.n)
			}
			if a.isNil() {
				return x.str("")
			}
			var rs []rune
			n := x.concSmall(a.n, 64)
			for i := uint64(0); i < n; i++ {
				c := x.aRead(a.arr.e, x.tt.AddK(a.off, int64(i)))
				rs = append(rs, rune(int32(x.concretize(c, 65))))
			}
			return x.str(string(rs))
		case *Term:
			return x.str(string(rune(sx(x.concretize(a, 65), a.W))))
		}
	case isString(from):
		s := v.(Str)
		et := to.Underlying().(*types.Slice).Elem()
		if w, _, _ := isScalar(et); w == 8 {
			e, off := x.sAExpr(s)
			x.addAlloc(s.n)
			a := x.newScal(8, s.n)
			a.e = x.aCopy(a.e, s.n, x.k64(0), e, off, s.n)
			return Slice{arr: a, off: x.k64(0), n: s.n, cap: s.n, elem: et}
		}
		if s.sym {
			panic(unsupported("[]rune of symbolic string"))
		}
		rs := []rune(s.c)
		n := x.k64(uint64(len(rs)))
		a := x.newScal(32, n)
		vec := make([]*Term, len(rs))
		for i, r := range rs {
			vec[i] = x.tt.Const(32, uint64(uint32(r)))
		}
		a.e = aVec(32, vec)
		return Slice{arr: a, off: x.k64(0), n: n, cap: n, elem: et}
	}
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		if fb.Kind() == types.UnsafePointer && tb.Kind() == types.UnsafePointer {
			return v
		}
		ff := fb.Info()&types.IsFloat != 0
		tf := tb.Info()&types.IsFloat != 0
		switch {
		case ff && tf:
			return v
		case fint && tf:
			t := v.(*Term)
			c := x.concretize(t, 65)
			if fsigned {
				return Float(float64(sx(c, fw)))
			}
			return Float(float64(c))
		case ff && tint:
			return x.tt.Const(tw, uint64(int64(v.(Float))))
		}
	}
	// pointers through unsafe.Pointer keep their identity
	if p, ok := v.(Ptr); ok {
		return p
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %s to %s", from, to)))
}

// ---------- maps

func (x *Exec) mapFind(m *MapV, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	for _, e := range m.ents {
		if x.decide(x.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (x *Exec) mapSet(m *MapV, k, v Value) {
	if m == nil {
		panic(targetPanic{Iface{rtErrorType, rtError{"assignment to entry in nil map"}}})
	}
	if e := x.mapFind(m, k); e != nil {
		e.v = clone(v)
		return
	}
	x.addAlloc(x.k64(32))
	m.ents = append(m.ents, &mapEntry{clone(k), clone(v)})
}

func (x *Exec) mapDelete(m *MapV, k Value) {
	e := x.mapFind(m, k)
	if e == nil {
		return
	}
	var r []*mapEntry
	for _, f := range m.ents {
		if f != e {
			r = append(r, f)
		}
	}
	m.ents = r
}

func (x *Exec) lookup(fr *frame, in *ssa.Lookup) Value {
	if s, ok := fr.get(in.X).(Str); ok {
		i := x.toInt64(fr.get(in.Index), in.Index.Type())
		x.bounds(i, s.n)
		return x.sAt(s, i)
	}
	m := fr.get(in.X).(*MapV)
	e := x.mapFind(m, fr.get(in.Index))
	mt := in.X.Type().Underlying().(*types.Map)
	var v Value
	if e != nil {
		v = clone(e.v)
	} else {
		v = x.zero(mt.Elem())
	}
	if in.CommaOk {
		return Tuple{v, x.tt.Bool(e != nil)}
	}
	return v
}

func (x *Exec) next(fr *frame, in *ssa.Next) Value {
	switch it := fr.get(in.Iter).(type) {
	case *mapIter:
		// the order of iteration is unspecified: explore it
		var live []*mapEntry
		for _, e := range it.rest {
			for _, f := range it.m.ents {
				if e == f {
					live = append(live, e)
					break
				}
			}
		}
		if len(live) == 0 {
			tup := in.Type().(*types.Tuple)
			zv := func(t types.Type) Value {
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					return nil
				}
				return x.zero(t)
			}
			return Tuple{x.tt.False, zv(tup.At(1).Type()), zv(tup.At(2).Type())}
		}
		k := 0
		if len(live) > 1 && len(live) <= 3 && isRepoFn(fr.fn) {
			k = x.choose("maporder", len(live))
		} else if len(live) > 3 && isRepoFn(fr.fn) && x.wideMaps < 3 {
			// of a large map, the first or the last entry comes first
			x.wideMaps++
			if x.choose("maporder", 2) == 1 {
				k = len(live) - 1
			}
		}
		e := live[k]
		it.rest = append(append([]*mapEntry(nil), live[:k]...), live[k+1:]...)
		return Tuple{x.tt.True, clone(e.k), clone(e.v)}
	case *strIter:
		if it.s.sym {
			n := x.concretize(it.s.n, 257)
			if uint64(it.i) >= n {
				return Tuple{x.tt.False, x.k64(0), x.tt.Const(32, 0)}
			}
			c := x.sAt(it.s, x.k64(uint64(it.i)))
			if !x.decide(x.tt.Ult(c, x.tt.Const(8, 0x80))) {
				panic(unsupported("range over non-ASCII symbolic string"))
			}
			i := it.i
			it.i++
			return Tuple{x.tt.True, x.k64(uint64(i)), x.tt.Zext(c, 32)}
		}
		if it.i >= len(it.s.c) {
			return Tuple{x.tt.False, x.k64(0), x.tt.Const(32, 0)}
		}
		i := it.i
		for j, r := range it.s.c[i:] {
			if j > 0 {
				it.i = i + j
				break
			}
			_ = r
			it.i = len(it.s.c)
		}
		var r rune
		for _, q := range it.s.c[i:] {
			r = q
			break
		}
		return Tuple{x.tt.True, x.k64(uint64(i)), x.tt.Const(32, uint64(uint32(r)))}
	}
	panic(unsupported("next"))
}

func (x *Exec) typeAssert(in *ssa.TypeAssert, v Iface) Value {
	ok := false
	var r Value
	if v.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = x.implements(v.t, it)
			r = v
		} else if types.Identical(v.t, in.AssertedType) {
			ok = true
			r = clone(v.v)
		}
	}
	if !ok {
		r = x.zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{r, x.tt.Bool(ok)}
	}
	if !ok {
		x.rtPanic("interface conversion")
	}
	return r
}

func (x *Exec) implements(t types.Type, it *types.Interface) bool {
	if t == rtErrorType {
		return it.NumMethods() == 0 || (it.NumMethods() == 1 && it.Method(0).Name() == "Error") || it.NumMethods() == 2
	}
	m, _ := types.MissingMethod(t, it, true)
	return m == nil
}

// ---------- channels

func (x *Exec) chanSend(c *ChanV, v Value) {
	if c == nil {
		x.block(func() bool { return false })
	}
	if c.closed {
		panic(targetPanic{Iface{rtErrorType, rtError{"send on closed channel"}}})
	}
	x.yield("send")
	lim := c.cap
	if lim == 0 {
		lim = 1
	}
	x.block(func() bool { return len(c.buf) < lim || c.closed })
	c.buf = append(c.buf, clone(v))
	if c.cap == 0 {
		x.block(func() bool { return len(c.buf) == 0 })
	}
}

func (x *Exec) chanRecv(c *ChanV) (Value, bool) {
	if c == nil {
		x.block(func() bool { return false })
	}
	x.yield("recv")
	x.block(func() bool { return len(c.buf) > 0 || c.closed })
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	return x.zero(c.et), false
}

func (x *Exec) selectStmt(fr *frame, in *ssa.Select) Value {
	ready := func() []int {
		var r []int
		for i, st := range in.States {
			c := fr.get(st.Chan).(*ChanV)
			if c == nil {
				continue
			}
			if st.Dir == types.SendOnly {
				lim := c.cap
				if lim == 0 {
					lim = 1
				}
				if len(c.buf) < lim {
					r = append(r, i)
				}
			} else if len(c.buf) > 0 || c.closed {
				r = append(r, i)
			}
		}
		return r
	}
	x.yield("select")
	rs := ready()
	res := Tuple{x.tt.Const(64, ^uint64(0)), x.tt.False}
	var recv []Value
	for _, st := range in.States {
		if st.Dir == types.RecvOnly {
			recv = append(recv, x.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	if len(rs) == 0 {
		if !in.Blocking {
			return append(res, recv...)
		}
		x.block(func() bool { return len(ready()) > 0 })
		rs = ready()
	}
	k := rs[x.choose("select", len(rs))]
	res[0] = x.k64(uint64(k))
	st := in.States[k]
	c := fr.get(st.Chan).(*ChanV)
	if st.Dir == types.SendOnly {
		x.chanSend(c, fr.get(st.Send))
	} else {
		v, ok := x.chanRecv(c)
		res[1] = x.tt.Bool(ok)
		j := 0
		for i := 0; i < k; i++ {
			if in.States[i].Dir == types.RecvOnly {
				j++
			}
		}
		recv[j] = v
	}
	return append(res, recv...)
}

// ---------- calls

func (x *Exec) prepare(fr *frame, c *ssa.CallCommon) (*Func, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := fr.get(c.Value).(Iface)
		if recv.t == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		for _, a := range c.Args {
			args = append(args, clone(fr.get(a)))
		}
		if recv.t == rtErrorType {
			msg := recv.v.(rtError).msg
			return &Func{native: func(x *Exec, _ *frame, _ []Value) Value { return x.str(msg) }}, nil
		}
		fn := x.ld.method(recv.t, c.Method)
		if fn == nil {
			panic(unsupported("no method " + c.Method.Name() + " on " + recv.t.String()))
		}
		return &Func{fn: fn}, append([]Value{recv.v}, args...)
	}
	f, _ := fr.get(c.Value).(*Func)
	for _, a := range c.Args {
		args = append(args, clone(fr.get(a)))
	}
	return f, args
}

func (x *Exec) doCall(fr *frame, c *ssa.CallCommon, f *Func, args []Value) Value {
	if f != nil && f.b != nil {
		return x.builtin(fr, c, f.b.Name(), args)
	}
	if x.w.run.callYield && fr != nil && isRepoFn(fr.fn) {
		x.yield("call")
	}
	return x.callFunc(fr, f, args)
}

func (x *Exec) builtin(fr *frame, c *ssa.CallCommon, name string, args []Value) Value {
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case Str:
			return v.n
		case Slice:
			if name == "len" {
				return v.n
			}
			return v.cap
		case *ScalArr:
			return v.n
		case *GArr:
			return x.k64(uint64(len(v.v)))
		case *MapV:
			if v == nil {
				return x.k64(0)
			}
			return x.k64(uint64(len(v.ents)))
		case *ChanV:
			if v == nil {
				return x.k64(0)
			}
			if name == "len" {
				return x.k64(uint64(len(v.buf)))
			}
			return x.k64(uint64(v.cap))
		case Ptr:
			switch a := (*v.c).(type) {
			case *ScalArr:
				return a.n
			case *GArr:
				return x.k64(uint64(len(a.v)))
			}
		}
	case "append":
		s := args[0].(Slice)
		if s.elem == nil {
			s.elem = c.Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		if st, ok := args[1].(Str); ok {
			return x.appendTo(s, x.strSlice(st, s.elem))
		}
		return x.appendTo(s, args[1].(Slice))
	case "copy":
		d := args[0].(Slice)
		var s Slice
		if st, ok := args[1].(Str); ok {
			s = x.strSlice(st, d.elem)
		} else {
			s = args[1].(Slice)
		}
		return x.copySlice(d, s)
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			x.mapDelete(m, args[1])
		}
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// called by a deferred function: recovers the panic of its caller's frame
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			v := fr.caller.panicV.v
			if _, ok := v.(Iface); !ok {
				return Iface{}
			}
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "close":
		ch := args[0].(*ChanV)
		if ch.closed {
			panic(targetPanic{Iface{rtErrorType, rtError{"close of closed channel"}}})
		}
		ch.closed = true
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapV:
			if v != nil {
				v.ents = nil
			}
			return nil
		case Slice:
			if v.arr != nil {
				v.arr.e = x.aCopy(v.arr.e, v.arr.n, v.off, x.aConst(v.arr.w, x.tt.Const(v.arr.w, 0)), x.k64(0), v.n)
			} else if v.g != nil {
				n := x.concSmall(v.n, 64)
				o := x.concretize(v.off, 65)
				for i := uint64(0); i < n; i++ {
					assign(&v.g.v[o+i], x.zero(v.elem))
				}
			}
			return nil
		}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch p := r.(type) {
			case *Term:
				_, signed, _ := isScalar(c.Args[0].Type())
				q := a.(*Term)
				var lt *Term
				if signed {
					lt = x.tt.Slt(q, p)
				} else {
					lt = x.tt.Ult(q, p)
				}
				if name == "max" {
					if signed {
						lt = x.tt.Slt(p, q)
					} else {
						lt = x.tt.Ult(p, q)
					}
				}
				r = x.tt.Ite(lt, q, p)
			default:
				panic(unsupported("min/max"))
			}
		}
		return r
	case "ssa:wrapnilchk":
		p, ok := args[0].(Ptr)
		if ok && p.isNil() {
			x.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := x.toInt64(args[1], c.Args[1].Type())
		if p.arr == nil {
			return x.str("")
		}
		return x.mkStr(p.arr.e, p.idx, n)
	case "StringData":
		s := args[0].(Str)
		sl := x.strSlice(s, types.Typ[types.Uint8])
		return Ptr{arr: sl.arr, idx: x.k64(0)}
	case "SliceData":
		s := args[0].(Slice)
		if s.arr != nil {
			return Ptr{arr: s.arr, idx: s.off}
		}
		if s.g != nil && s.off.IsConst() && int(s.off.V) < len(s.g.v) {
			return Ptr{c: &s.g.v[s.off.V]}
		}
		return Ptr{}
	case "Slice": // unsafe.Slice
		p := args[0].(Ptr)
		n := x.toInt64(args[1], c.Args[1].Type())
		if p.arr != nil {
			et := c.Args[0].Type().Underlying().(*types.Pointer).Elem()
			return Slice{arr: p.arr, off: p.idx, n: n, cap: n, elem: et}
		}
	}
	panic(unsupported("builtin " + name))
}

func (x *Exec) strSlice(s Str, et types.Type) Slice {
	e, off := x.sAExpr(s)
	a := &ScalArr{w: 8, n: x.tt.Add(off, s.n), e: e}
	return Slice{arr: a, off: off, n: s.n, cap: s.n, elem: et}
}

func (x *Exec) copySlice(d, s Slice) Value {
	var n *Term
	if x.decide(x.tt.Ule(d.n, s.n)) {
		n = d.n
	} else {
		n = s.n
	}
	if n.IsConst() && n.V == 0 {
		return n
	}
	if d.arr != nil {
		if s.arr == nil {
			return x.k64(0)
		}
		d.arr.e = x.aCopy(d.arr.e, d.arr.n, d.off, s.arr.e, s.off, n)
		return n
	}
	k := x.concSmall(n, 64)
	do, so := x.concretize(d.off, 65), x.concretize(s.off, 65)
	tmp := make([]Value, k)
	for i := range tmp {
		tmp[i] = clone(s.g.v[so+uint64(i)])
	}
	for i := range tmp {
		assign(&d.g.v[do+uint64(i)], tmp[i])
	}
	return x.k64(k)
}

func (x *Exec) appendTo(s, t Slice) Value {
	if t.n.IsConst() && t.n.V == 0 {
		return s
	}
	if !t.n.IsConst() && s.arr == nil && t.arr != nil {
		// appending nothing to nil stays nil
		if s.isNil() && x.decide(x.tt.Eq(t.n, x.k64(0))) {
			return s
		}
	}
	nn := x.tt.Add(s.n, t.n)
	sz := uint64(x.ld.sizes.Sizeof(s.elem))
	w, _, scal := isScalar(s.elem)
	if !s.isNil() && x.decide(x.tt.Ule(nn, s.cap)) {
		// in place
		if scal {
			s.arr.e = x.aCopy(s.arr.e, s.arr.n, x.tt.Add(s.off, s.n), t.arr.e, t.off, t.n)
		} else {
			k := x.concSmall(t.n, 64)
			o := x.concretize(x.tt.Add(s.off, s.n), 65)
			to := x.concretize(t.off, 65)
			for i := uint64(0); i < k; i++ {
				assign(&s.g.v[o+i], clone(t.g.v[to+i]))
			}
		}
		s.n = nn
		return s
	}
	x.addAlloc(x.tt.Mul(t.n, x.k64(4*sz)))
	if sz > 0 && s.isNil() {
		x.addAlloc(x.k64(8))
	}
	c := nn
	if x.roomy {
		c = x.tt.Add(nn, x.tt.Var(x.fresh("slack"), 64, 0, 64))
	}
	if scal {
		a := x.newScal(w, c)
		switch {
		case s.isNil() || (s.n.IsConst() && s.n.V == 0):
		case s.off.IsConst() && s.off.V == 0 && (!c.IsConst() || c.V > maxVec && s.arr.e.kind != AVec):
			a.e = s.arr.e // elements beyond s.n are overwritten or unreachable
			if x.roomy {
				a.e = x.aCopy(x.aConst(w, x.tt.Const(w, 0)), c, x.k64(0), s.arr.e, s.off, s.n)
			}
		default:
			a.e = x.aCopy(a.e, c, x.k64(0), s.arr.e, s.off, s.n)
		}
		if a.e.kind == AVec && c.IsConst() && uint64(len(a.e.vec)) != c.V {
			panic("vec length")
		}
		a.e = x.aCopy(a.e, c, s.n, t.arr.e, t.off, t.n)
		return Slice{arr: a, off: x.k64(0), n: nn, cap: c, elem: s.elem}
	}
	k := x.concSmall(nn, 64)
	kc := k
	if x.roomy {
		kc = x.concretize(c, 4)
	}
	g := &GArr{make([]Value, kc)}
	i := uint64(0)
	if !s.isNil() {
		n := x.concSmall(s.n, 64)
		o := x.concretize(s.off, 65)
		for ; i < n; i++ {
			g.v[i] = clone(s.g.v[o+i])
		}
	}
	to := x.concretize(t.off, 65)
	for j := uint64(0); i < k; i, j = i+1, j+1 {
		g.v[i] = clone(t.g.v[to+j])
	}
	for ; i < kc; i++ {
		g.v[i] = x.zero(s.elem)
	}
	return Slice{g: g, off: x.k64(0), n: x.k64(k), cap: x.k64(kc), elem: s.elem}
}

func isRepoPath(p string) bool {
	return strings.HasPrefix(p, "github.com/zeldovich/go-rpcgen")
}

func isRepoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	return isRepoPath(p) && !strings.Contains(p, "zz_verif")
}
