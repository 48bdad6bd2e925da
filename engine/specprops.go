package main

// Harness functions generated per declared type.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

var typeHarness = map[string]string{
	// encode, decode, compare; data that follows is still read correctly
	"C03": `
func H_@PROP@_@PKG@_@D@() {
	c := @CFG@
	var v, w @T@
	@nd@(&v, c)
	xs := xdr.MakeWriter(nil)
	v.Xdr(xs)
	sym.Assert(xs.Error() == nil, "encoding succeeds")
	buf := xs.WriteBuf()
	tail := sym.Bytes("tail", 4, 4)
	full := append(append([]byte(nil), buf...), tail...)
	rd := xdr.MakeReader(full)
	w.Xdr(rd)
	sym.Assert(rd.Error() == nil, "decoding succeeds")
	@eq@(&v, &w, "round trip ")
	var next uint32
	xdr.XdrU32(rd, &next)
	sym.Assert(rd.Error() == nil, "what follows is still there")
	sym.Assert(uint64(next) == unbe(tail), "what follows is read correctly")
	xdr.XdrU32(rd, &next)
	sym.Assert(rd.Error() != nil, "nothing else follows")
	sym.ObsBytes("wire", buf)
	sym.Cover("round trip")
}
`,
	// the bytes are those of the reference encoder
	"C04": `
func H_@PROP@_@PKG@_@D@() {
	c := @CFG@
	c.over = true
	var v @T@
	@nd@(&v, c)
	xs := xdr.MakeWriter(nil)
	v.Xdr(xs)
	e := &enc{}
	@re@(e, &v)
	if e.bad {
		sym.Assert(xs.Error() != nil, "a value beyond its limit is refused")
		return
	}
	sym.Assert(xs.Error() == nil, "encoding succeeds")
	sym.BytesEq(xs.WriteBuf(), e.b, "wire layout")
	sym.ObsBytes("wire", xs.WriteBuf())
	sym.Cover("encoded")
}
`,
	// any input: no panic, agrees with the reference decoder, re-encodes
	"C05": `
func H_@PROP@_@PKG@_@D@() {
	buf := sym.Bytes("in", 0, @INLEN@)
	r := &rdr{b: buf, max: @MAX@, focus: focus{all: sym.Tier(0, 1) == 1}}
	var w @T@
	@rd@(r, &w)
	var v @T@
	rd := xdr.MakeReader(buf)
	v.Xdr(rd)
	if r.unspec {
		sym.Cover("?no such arm")
		return
	}
	if r.bad {
		sym.Assert(rd.Error() != nil, "missing data or a broken limit is reported")
		sym.Cover("rejected")
		return
	}
	sym.Assert(rd.Error() == nil, "complete input decodes")
	@eq@(&w, &v, "decoded ")
	var next uint32
	xdr.XdrU32(rd, &next)
	rest := buf[r.pos:]
	if len(rest) >= 4 {
		sym.Assert(rd.Error() == nil, "reading on succeeds")
		sym.Assert(uint64(next) == unbe(rest[:4]), "reading continues after the message")
	} else {
		sym.Assert(rd.Error() != nil, "nothing follows")
	}
	wr := xdr.MakeWriter(nil)
	v.Xdr(wr)
	sym.Assert(wr.Error() == nil, "a decoded value encodes")
	sym.Assert(len(wr.WriteBuf()) == r.pos, "re-encoding gives as many bytes as were consumed")
	var u @T@
	rd = xdr.MakeReader(wr.WriteBuf())
	u.Xdr(rd)
	sym.Assert(rd.Error() == nil, "the re-encoded value decodes")
	@eq@(&v, &u, "decoded again ")
	sym.Obs("consumed", uint64(r.pos))
	sym.Cover("accepted")
}
`,
	// in the error state nothing happens
	"C06": `
func H_@PROP@_@PKG@_@D@() {
	c := @CFG@
	var v @T@
	@nd@(&v, c)
	before := &enc{}
	@re@(before, &v)
	enc0, xs := c_broken()
	w := v
	v.Xdr(xs)
	sym.Assert(xs.Error() != nil, "the error stays")
	sym.BytesEq(xs.WriteBuf(), enc0, "no output or consumption after an error")
	after := &enc{}
	@re@(after, &v)
	sym.BytesEq(after.b, before.b, "the value is left alone")
	@eq@(&w, &v, "unchanged ")
	sym.Cover("done")
}
`,
	// inputs are not disturbed, decoded slices have no room in the input
	"C07": `
func H_@PROP@_@PKG@_@D@() {
	if sym.Choose("direction", 2) == 0 {
		c := @CFG@
		var v @T@
		@nd@(&v, c)
		before := &enc{}
		@re@(before, &v)
		w := v
		xs := xdr.MakeWriter(nil)
		v.Xdr(xs)
		after := &enc{}
		@re@(after, &v)
		sym.BytesEq(after.b, before.b, "encoding leaves the value alone")
		@eq@(&w, &v, "encoding leaves alone ")
		sym.Cover("encoded")
		return
	}
	buf := sym.Bytes("in", 0, @INLEN@)
	orig := append([]byte(nil), buf...)
	r := &rdr{b: orig, max: @MAX@, focus: focus{all: sym.Tier(0, 1) == 1}}
	var w @T@
	@rd@(r, &w)
	if r.unspec || r.bad {
		return
	}
	var v @T@
	xdr.DecodeBuf(buf, &v)
	sym.BytesEq(buf, orig, "decoding leaves the input alone")
	@poke@(&v)
	sym.BytesEq(buf, orig, "growing decoded data leaves the input alone")
	@eq@(&w, &v, "growing decoded data leaves alone ")
	sym.Cover("decoded")
}
`,
	// memory used while decoding
	"C08": `
func H_@PROP@_@PKG@_@D@() {
	buf := sym.Bytes("in", 0, @INLEN@)
	r := &rdr{b: buf, max: @MAX@, focus: focus{all: sym.Tier(0, 1) == 1}}
	var w @T@
	@rd@(r, &w)
	sym.AllocLimit(uint64(len(buf))*128+16384, "memory is bounded by the input")
	var v @T@
	rd := xdr.MakeReader(buf)
	v.Xdr(rd)
	sym.AllocCheck()
	sym.Cover("decoded")
}
`,
	// two values at the same time
	"C23": `
func H_@PROP@_@PKG@_@D@() {
	sym.Preempts(1)
	c := &ndc{depth: 2, depth0: 2, counts: 2, plain: true, armIdx: -1, focus: focus{all: true}}
	var a, b, x, y @T@
	@nd@(&a, c)
	arm := c.armIdx
	c = &ndc{depth: 1, depth0: 1, counts: 1, plain: true, armIdx: arm, focus: focus{all: true}}
	if arm >= 0 {
		c.shift = sym.Choose("other arm", sym.Tier(2, 3))
	}
	@nd@(&b, c)
	ea, eb := &enc{}, &enc{}
	@re@(ea, &a)
	@re@(eb, &b)
	xa, xb := xdr.MakeWriter(nil), xdr.MakeWriter(nil)
	pa, pb := &a, &b
	da := sym.Choose("decode", 2) == 1
	db := da
	if sym.Tier(0, 1) == 1 {
		db = sym.Choose("decode", 2) == 1
	}
	if da {
		xa, pa = xdr.MakeReader(ea.b), &x
	}
	if db {
		xb, pb = xdr.MakeReader(eb.b), &y
	}
	sym.Grain(2)
	sym.Only("@U@")
	sym.Go(func() { pb.Xdr(xb) })
	pa.Xdr(xa)
	sym.Join()
	sym.Assert(sym.And(xa.Error() == nil, xb.Error() == nil), "both succeed")
	if da {
		@eq@(&a, &x, "first ")
		sym.Assert(len(xa.WriteBuf()) == 0, "the first input is consumed")
	} else {
		sym.BytesEq(xa.WriteBuf(), ea.b, "bytes of the first value")
	}
	if db {
		@eq@(&b, &y, "second ")
		sym.Assert(len(xb.WriteBuf()) == 0, "the second input is consumed")
	} else {
		sym.BytesEq(xb.WriteBuf(), eb.b, "bytes of the second value")
	}
	sym.Cover("both")
}
`,
	// decoding over an old value
	"C09": `
func H_@PROP@_@PKG@_@D@() {
	buf := sym.Bytes("in", 0, @INLEN@)
	r := &rdr{b: buf, max: @MAX@, focus: focus{all: sym.Tier(0, 1) == 1}}
	var w @T@
	@rd@(r, &w)
	if r.unspec || r.bad {
		return
	}
	c := &ndc{depth: 2, full: true, counts: sym.Choose("old count", 2) * 3}
	var u @T@
	@nd@(&u, c)
	var v @T@
	if xdr.DecodeBuf(buf, &v) != nil {
		return
	}
	err := xdr.DecodeBuf(buf, &u)
	sym.Assert(err == nil, "decoding into a used value succeeds too")
	@eq@(&v, &u, "same as fresh ")
	sym.Cover("decoded")
}
`,
}

func (g *specGen) harness(prop, tmpl string) {
	for _, d := range g.sp.defs {
		list := g.hasList(&xtype{k: xIdent, name: d.name}, map[string]bool{})
		max := "sym.Tier(2, 3)"
		if !list {
			max = "0"
		}
		s := strings.NewReplacer(
			"@PROP@", prop, "@PKG@", g.pkg, "@D@", d.name+g.suffix, "@T@", g.pkg+"."+upName(d.name), "@U@", upName(d.name),
			"@nd@", g.fn("nd", d.name), "@re@", g.fn("re", d.name), "@rd@", g.fn("rd", d.name),
			"@eq@", g.fn("eq", d.name), "@poke@", g.fn("poke", d.name),
			"@CFG@", "newNdc(sym.Tier(2, 3), sym.Tier(2, 3), sym.Tier(0, 1) == 1)",
			"@INLEN@", "1 << 16", "@MAX@", max,
		).Replace(tmpl)
		g.b.WriteString(s)
	}
}

// constants checks every constant of the specification.
func (g *specGen) constants(prop string) {
	g.p("func H_%s_%s_constants() {", prop, g.pkg)
	g.ind++
	n := 0
	one := func(name string, v int64) {
		name = upName(name)
		n++
		g.p("sym.Assert(int64(%s.%s) == %d, \"value of %s\")", g.pkg, name, v, name)
	}
	for _, c := range g.sp.consts {
		one(c.name, g.sp.value(c.val))
	}
	for _, d := range g.sp.defs {
		if d.d.form == fPlain && d.d.t.k == xEnum {
			for _, it := range d.d.t.items {
				one(it.name, g.sp.value(it.val))
			}
		}
	}
	for _, p := range g.sp.progs {
		one(p.name, g.sp.value(p.num))
		for _, v := range p.vers {
			one(v.name, g.sp.value(v.num))
			for _, c := range v.procs {
				one(c.name, g.sp.value(c.num))
			}
		}
	}
	g.p("sym.Obs(\"constants\", %d)", n)
	g.p("sym.Cover(\"constants\")")
	g.ind--
	g.p("}")
}

func newSpecGen(sp *xspec, pkg string, unsigned bool) *specGen {
	return &specGen{sp: sp, pkg: pkg, unsigned: unsigned, b: &strings.Builder{}}
}

// file wraps what has been generated into a source file of the harness package.
func (g *specGen) file(imp string) []byte {
	body := g.b.String()
	var h strings.Builder
	h.WriteString("package h\n\nimport (\n")
	if strings.Contains(body, "xdr.") {
		fmt.Fprintf(&h, "\t%q\n", modPath+"/xdr")
	}
	if strings.Contains(body, "sym.") {
		fmt.Fprintf(&h, "\t%q\n", modPath+"/zz_verif/sym")
	}
	if g.pkg != "rfc1057" && strings.Contains(body, "rfc1057.") {
		fmt.Fprintf(&h, "\t%q\n", modPath+"/rfc1057")
	}
	if strings.Contains(body, g.pkg+".") {
		fmt.Fprintf(&h, "\t%s %q\n", g.pkg, imp)
	}
	h.WriteString(")\n\n")
	return []byte(h.String() + body)
}

func (c *ctx) readSpec(name string) (*xspec, error) {
	b, err := os.ReadFile(filepath.Join(c.verif, "specs", name))
	if err != nil {
		return nil, err
	}
	sp, err := parseSpec(string(b))
	if err != nil {
		return nil, fmt.Errorf("specs/%s: %v", name, err)
	}
	return sp, nil
}

// rfcHarnesses adds the generated codecs of the shipped packages, and the
// per-type harnesses of the property if it has any.
func (c *ctx) rfcHarnesses() error {
	for _, p := range []string{"rfc1057", "rfc1813"} {
		sp, err := c.readSpec(p + ".x")
		if err != nil {
			return err
		}
		g := newSpecGen(sp, p, true)
		g.helpers()
		if t := typeHarness[c.prop]; t != "" {
			g.harness(c.prop, t)
		}
		if t := procHarness[c.prop]; t != "" {
			g.procs(c.prop, t)
		}
		if c.prop == "C04" {
			g.constants(c.prop)
		}
		c.overlay[filepath.Join(c.repo, "zz_verif/h/zz_"+p+".go")] = g.file(modPath + "/" + p)
	}
	return nil
}
