package main

// Harnesses per procedure of the programs of a specification.

import (
	"fmt"
	"strings"
)

var procHarness = map[string]string{
	// the bound procedure runs once, with the caller's argument; its result is sent
	"C11": `
func H_@PROP@_@PKG@_@PROC@() {
	h := &@HS@{}
	vary := sym.Choose("vary", 2)
	@argdecl@
	@ndarg@
	@ndres@
	xid := sym.U32("xid")
	srv := rfc1057.MakeServer()
	srv.RegisterMany(@REGS@(h))
	cn := &conn{in: record(call_msg(xid, @PN@, @VN@, @N@, e.b))}
	srv.Run(cn)
	sym.Join()
	sym.Assert(h.n == 1 && h.last == @N@, "exactly the procedure of that number runs, once")
	@eqarg@
	@reres@
	sym.Assert(len(cn.out) == 1, "one reply")
	sym.BytesEq(cn.out[0], record(accepted(xid, 0, f.b)), "the reply carries the procedure's result")
	sym.Cover("served")
}
`,
	// arguments that do not decode never reach the procedure
	"C12": `
func H_@PROP@_@PKG@_@PROC@() {
	h := &@HS@{}
	buf := sym.Bytes("args", 0, 1<<16)
	r := &rdr{b: buf, max: @MAX@, focus: focus{all: sym.Tier(0, 1) == 1}}
	@argdecl0@
	@rdarg@
	xid, xid2 := sym.U32("xid"), sym.U32("xid2")
	sym.Assume(xid != xid2)
	srv := rfc1057.MakeServer()
	srv.RegisterMany(@REGS@(h))
	cn := &conn{in: record(call_msg(xid, @PN@, @VN@, @N@, buf)), queue: [][]byte{record(call_msg(xid2, @PN@, @VN@, 0, nil))}}
	srv.Run(cn)
	sym.Join()
	if r.unspec {
		sym.Cover("?no such arm")
		return
	}
	first, second := replies2(cn, xid, xid2)
	sym.BytesEq(second, record(accepted(xid2, 0, nil)), "the following call is served")
	sym.Assert(h.c[0] == 1, "the following call runs")
	if r.bad {
		sym.Assert(h.c[@N@] == 0, "a procedure never runs with arguments that do not decode")
		sym.BytesEq(first, record(accepted(xid, 4, nil)), "undecodable arguments are answered GARBAGE_ARGS")
		sym.Cover("garbage")
		return
	}
	sym.Assert(h.c[@N@] == 1, "the procedure runs once")
	@eqarg@
	sym.Assert(len(first) >= 28 && unbe(first[24:28]) == 0, "complete arguments are accepted")
	sym.Cover("accepted")
}
`,
	// any bytes where the result should be
	"C14": `
func H_@PROP@_@PKG@_@PROC@() {
	buf := sym.Bytes("results", 0, 1<<16)
	r := &rdr{b: buf, max: @RMAX@, focus: focus{all: sym.Tier(0, 1) == 1}}
	@resdecl@
	@rdres@
	cn := &conn{onWr: nil}
	cn.onWr = func(q []byte) {
		sym.Assert(len(q) >= 8, "the request is sent")
		cn.in = record(accepted(uint32(unbe(q[4:8])), 0, buf))
	}
	cl := rfc1057.MakeClient(cn, @PN@, @VN@)
	@gotdecl@
	err := cl.Call(@N@, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, &got)
	if r.unspec {
		sym.Cover("?no such arm")
		return
	}
	if r.bad {
		sym.Assert(err != nil, "a result that does not decode is an error")
		sym.Cover("error")
		return
	}
	sym.Assert(err == nil, "a decodable result is a success")
	@eqgot@
	sym.Cover("success")
}
`,
	// client and server back to back
	"C16": `
func H_@PROP@_@PKG@_@PROC@() {
	h := &@HS@{}
	vary := sym.Choose("vary", 2)
	@argdecl@
	@ndarg@
	@ndres@
	srv := rfc1057.MakeServer()
	srv.RegisterMany(@REGS@(h))
	cl := rfc1057.MakeClient(&link{srv: srv}, @PN@, @VN@)
	@gotdecl@
	err := cl.Call(@N@, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &a, &got)
	sym.Assert(err == nil, "the call succeeds")
	sym.Assert(h.n == 1 && h.last == @N@, "the procedure runs once")
	@eqarg@
	@eqres@
	sym.Cover("called")
}
`,
}

func (g *specGen) procs(prop, tmpl string) {
	for _, pr := range g.sp.progs {
		for _, ve := range pr.vers {
			pn, vn := upName(pr.name), upName(ve.name)
			hs := fmt.Sprintf("hs_%s_%s_%s", g.pkg, pn, vn)
			fmt.Fprintf(g.b, "\ntype %s struct {\n\tn, last int\n\tc [64]int\n", hs)
			for _, c := range ve.procs {
				if c.arg != nil {
					fmt.Fprintf(g.b, "\ta_%s %s\n", c.name, g.goType(c.arg))
				}
				if c.res != nil {
					fmt.Fprintf(g.b, "\tr_%s %s\n", c.name, g.goType(c.res))
				}
			}
			g.b.WriteString("}\n")
			for _, c := range ve.procs {
				arg, res, ret, keep := "", "", "", ""
				if c.arg != nil {
					arg = "a " + g.goType(c.arg)
					keep = fmt.Sprintf("\th.a_%s = a\n", c.name)
				}
				if c.res != nil {
					res = g.goType(c.res)
					ret = fmt.Sprintf("\treturn h.r_%s\n", c.name)
				}
				n := g.sp.value(c.num)
				fmt.Fprintf(g.b, "\nfunc (h *%s) %s(%s) %s {\n\th.n++\n\th.last = %d\n\th.c[%d]++\n%s%s}\n", hs, upName(c.name), arg, res, n, n, keep, ret)
			}
			for _, c := range ve.procs {
				if prop == "C12" && c.arg == nil || prop == "C14" && c.res == nil {
					continue
				}
				g.b.WriteString(g.procFn(prop, tmpl, pr, ve, c, hs))
			}
		}
	}
}

// capture returns what f emits.
func (g *specGen) capture(f func()) string {
	old, ind := g.b, g.ind
	g.b, g.ind = &strings.Builder{}, 1
	f()
	s := strings.TrimSpace(g.b.String())
	g.b, g.ind = old, ind
	return s
}

// primWire is the Xdrable type of a primitive.
func primWire(t *xtype) string {
	switch t.k {
	case xInt:
		return "xdr.Int32"
	case xUint:
		return "xdr.Uint32"
	case xHyper:
		return "xdr.Int64"
	case xUhyper:
		return "xdr.Uint64"
	case xBool:
		return "xdr.Bool"
	}
	return ""
}

func (g *specGen) procFn(prop, tmpl string, pr xprog, ve xvers, c xproc, hs string) string {
	argdecl, ndarg, eqarg, rdarg, argdecl0 := "a := xdr.Void{}\n\te := &enc{}\n\t_, _ = a, e", "", "", "", ""
	max := "0"
	nd := func(t *xtype, lv, nm, vary string) string {
		return fmt.Sprintf("{\n\tc := procNdc(%s)\n\t%s\n\t_ = c\n\t}", vary, g.capture(func() { g.ndType(t, lv, nm, "") }))
	}
	eq := func(t *xtype, a, b, l string) string {
		return fmt.Sprintf("{\n\tl := %q\n\t%s\n\t}", l, g.capture(func() { g.eqType(t, a, b, "") }))
	}
	if c.arg != nil {
		argdecl = fmt.Sprintf("var a %s\n\te := &enc{}\n\t_, _ = a, e", g.goType(c.arg))
		argdecl0 = fmt.Sprintf("var a %s", g.goType(c.arg))
		ndarg = nd(c.arg, "a", "arg", "vary == 0") + "\n\t" + g.capture(func() { g.reType(c.arg, "a") })
		eqarg = eq(c.arg, "a", "h.a_"+c.name, "argument ")
		rdarg = g.capture(func() { g.rdType(c.arg, "a", "") })
		if g.hasList(c.arg, map[string]bool{}) {
			max = "sym.Tier(2, 3)"
		}
	}
	ndres, reres, gotdecl, eqres := "", "f := &enc{}", "got := xdr.Void{}", ""
	resdecl, rdres, eqgot, rmax := "", "", "", "0"
	if c.res != nil {
		ndres = nd(c.res, "h.r_"+c.name, "res", "vary == 1")
		reres = fmt.Sprintf("f := &enc{}\n\t{\n\te := f\n\t%s\n\t}", g.capture(func() { g.reType(c.res, "h.r_"+c.name) }))
		gotdecl = fmt.Sprintf("var got %s", g.goType(c.res))
		resdecl = fmt.Sprintf("var want %s", g.goType(c.res))
		rdres = g.capture(func() { g.rdType(c.res, "want", "") })
		eqgot = eq(c.res, "want", "got", "result ")
		if g.hasList(c.res, map[string]bool{}) {
			rmax = "sym.Tier(2, 3)"
		}
		eqres = eq(c.res, "h.r_"+c.name, "got", "result ")
	}
	s := strings.NewReplacer("@PROP@", prop, "@PKG@", g.pkg, "@PROC@", pr.name+"_"+ve.name+"_"+c.name, "@HS@", hs,
		"@REGS@", fmt.Sprintf("%s.%s_%s_regs", g.pkg, upName(pr.name), upName(ve.name)),
		"@PN@", fmt.Sprint(g.sp.value(pr.num)), "@VN@", fmt.Sprint(g.sp.value(ve.num)), "@N@", fmt.Sprint(g.sp.value(c.num)),
		"@argdecl@", argdecl, "@argdecl0@", argdecl0, "@ndarg@", ndarg, "@eqarg@", eqarg, "@rdarg@", rdarg,
		"@ndres@", ndres, "@reres@", reres, "@gotdecl@", gotdecl, "@eqres@", eqres, "@MAX@", max, "@RMAX@", rmax, "@resdecl@", resdecl, "@rdres@", rdres, "@eqgot@", eqgot).Replace(tmpl)
	if !strings.Contains(s, "procNdc") {
		s = strings.Replace(s, "\tvary := sym.Choose(\"vary\", 2)\n", "", 1)
	}
	return s
}
