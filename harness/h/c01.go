package h

import (
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// The scalar codecs, reached through every exported entry point.  get/put give
// the value as 64 bits; size is the wire size.
type scalar struct {
	size int
	enc  func(xs *xdr.XdrState, v uint64) uint64 // encodes v, returns the variable afterwards
	dec  func(xs *xdr.XdrState, v uint64) uint64 // decodes into a variable that held v
	wire func(v uint64) uint64                   // the integer on the wire for v
	val  func(w uint64) uint64                   // the value for an integer on the wire
}

func b64(b bool) uint64 {
	return sym.IteU64(b, 1, 0)
}

func nz(v uint64) uint64 { return sym.IteU64(v == 0, 0, 1) }

func scalars() []scalar {
	u32 := func(v uint64) uint64 { return uint64(uint32(v)) }
	i32 := func(v uint64) uint64 { return uint64(uint32(v)) }
	u64 := func(v uint64) uint64 { return v }
	return []scalar{
		{4, func(xs *xdr.XdrState, v uint64) uint64 { b := v != 0; xdr.XdrBool(xs, &b); return b64(b) },
			func(xs *xdr.XdrState, v uint64) uint64 { b := v != 0; xdr.XdrBool(xs, &b); return b64(b) }, nz, nz},
		{4, func(xs *xdr.XdrState, v uint64) uint64 { x := uint32(v); xdr.XdrU32(xs, &x); return uint64(x) },
			func(xs *xdr.XdrState, v uint64) uint64 { x := uint32(v); xdr.XdrU32(xs, &x); return uint64(x) }, u32, u32},
		{4, func(xs *xdr.XdrState, v uint64) uint64 { x := int32(v); xdr.XdrS32(xs, &x); return uint64(uint32(x)) },
			func(xs *xdr.XdrState, v uint64) uint64 { x := int32(v); xdr.XdrS32(xs, &x); return uint64(uint32(x)) }, i32, i32},
		{8, func(xs *xdr.XdrState, v uint64) uint64 { x := v; xdr.XdrU64(xs, &x); return x },
			func(xs *xdr.XdrState, v uint64) uint64 { x := v; xdr.XdrU64(xs, &x); return x }, u64, u64},
		{8, func(xs *xdr.XdrState, v uint64) uint64 { x := int64(v); xdr.XdrS64(xs, &x); return uint64(x) },
			func(xs *xdr.XdrState, v uint64) uint64 { x := int64(v); xdr.XdrS64(xs, &x); return uint64(x) }, u64, u64},
		// the named types of the xdr package
		{4, func(xs *xdr.XdrState, v uint64) uint64 { b := xdr.Bool(v != 0); b.Xdr(xs); return b64(bool(b)) },
			func(xs *xdr.XdrState, v uint64) uint64 { b := xdr.Bool(v != 0); b.Xdr(xs); return b64(bool(b)) }, nz, nz},
		{4, func(xs *xdr.XdrState, v uint64) uint64 { x := xdr.Uint32(v); x.Xdr(xs); return uint64(x) },
			func(xs *xdr.XdrState, v uint64) uint64 { x := xdr.Uint32(v); x.Xdr(xs); return uint64(x) }, u32, u32},
		{4, func(xs *xdr.XdrState, v uint64) uint64 { x := xdr.Int32(v); x.Xdr(xs); return uint64(uint32(x)) },
			func(xs *xdr.XdrState, v uint64) uint64 { x := xdr.Int32(v); x.Xdr(xs); return uint64(uint32(x)) }, i32, i32},
		{8, func(xs *xdr.XdrState, v uint64) uint64 { x := xdr.Uint64(v); x.Xdr(xs); return uint64(x) },
			func(xs *xdr.XdrState, v uint64) uint64 { x := xdr.Uint64(v); x.Xdr(xs); return uint64(x) }, u64, u64},
		{8, func(xs *xdr.XdrState, v uint64) uint64 { x := xdr.Int64(v); x.Xdr(xs); return uint64(x) },
			func(xs *xdr.XdrState, v uint64) uint64 { x := xdr.Int64(v); x.Xdr(xs); return uint64(x) }, u64, u64},
	}
}

// be appends the size-byte big-endian form of v: the oracle.
func be(b []byte, v uint64, size int) []byte {
	for i := size - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}

func unbe(b []byte) uint64 {
	var v uint64
	for _, c := range b {
		v = v<<8 | uint64(c)
	}
	return v
}

func pick() scalar {
	ss := scalars()
	return ss[sym.Choose("kind", len(ss))]
}

// Encoding after any earlier output.
func H_C01_encode() {
	s := pick()
	v := sym.U64("v")
	spare := sym.Choose("spare", 2) * 16
	pre := sym.Bytes("pre", 0, 1<<20)
	buf := pre
	if spare > 0 { // the caller's buffer may have room to grow in place
		buf = append(make([]byte, 0, len(pre)+spare), pre...)
	}
	xs := xdr.MakeWriter(buf)
	after := s.enc(xs, v)
	sym.Assert(xs.Error() == nil, "encoding a scalar succeeds")
	want := append([]byte(nil), pre...)
	want = be(want, s.wire(v), s.size)
	sym.BytesEq(xs.WriteBuf(), want, "wire form after earlier bytes")
	sym.Assert(after == s.val(s.wire(v)), "encoding leaves the value alone")
	sym.Obs("value", after)
	sym.Cover("encoded")
}

// Two values in a row: the second follows the first.
func H_C01_encode2() {
	s, t := pick(), pick()
	v, w := sym.U64("v"), sym.U64("w")
	xs := xdr.MakeWriter(nil)
	s.enc(xs, v)
	t.enc(xs, w)
	sym.Assert(xs.Error() == nil, "encoding scalars succeeds")
	want := be(be(nil, s.wire(v), s.size), t.wire(w), t.size)
	sym.BytesEq(xs.WriteBuf(), want, "wire form of two scalars")
	sym.ObsBytes("out", xs.WriteBuf())
}

// Decoding any input, twice, into destinations that held something else.
func H_C01_decode() {
	s, t := pick(), pick()
	buf := sym.Bytes("in", 0, sym.Tier(40, 4096))
	old1, old2 := s.val(sym.U64("old1")), t.val(sym.U64("old2"))
	xs := xdr.MakeReader(buf)
	got := s.dec(xs, old1)
	if len(buf) < s.size {
		sym.Assert(xs.Error() != nil, "short input is an error")
		sym.Assert(got == old1, "a failed decode leaves the destination alone")
		sym.Cover("short")
		return
	}
	sym.Assert(xs.Error() == nil, "decoding a complete scalar succeeds")
	sym.Assert(got == s.val(unbe(buf[:s.size])), "decoded value")
	got2 := t.dec(xs, old2)
	rest := buf[s.size:]
	if len(rest) < t.size {
		sym.Assert(xs.Error() != nil, "short rest is an error")
		sym.Assert(got2 == old2, "a failed decode leaves the second destination alone")
		sym.Cover("short2")
		return
	}
	sym.Assert(xs.Error() == nil, "decoding a second scalar succeeds")
	sym.Assert(got2 == t.val(unbe(rest[:t.size])), "decoding continues right after the first value")
	sym.Obs("first", got)
	sym.Obs("second", got2)
	sym.Cover("both")
}

// Through EncodeBuf and DecodeBuf.
func H_C01_helpers() {
	v := sym.U64("v")
	a := xdr.Uint64(v)
	b, err := xdr.EncodeBuf(&a)
	sym.Assert(err == nil, "EncodeBuf succeeds")
	sym.BytesEq(b, be(nil, v, 8), "EncodeBuf wire form")
	var c xdr.Uint64
	err = xdr.DecodeBuf(b, &c)
	sym.Assert(err == nil, "DecodeBuf succeeds")
	sym.Assert(uint64(c) == v, "DecodeBuf gives the value back")
	n := sym.Int("cut", 0, 7)
	d := xdr.Uint64(v)
	err = xdr.DecodeBuf(b[:n], &d)
	sym.Assert(err != nil, "DecodeBuf of a truncated value fails")
	sym.Assert(uint64(d) == v, "DecodeBuf of a truncated value leaves it alone")
	var vo xdr.Void
	e, err := xdr.EncodeBuf(&vo)
	sym.Assert(err == nil && len(e) == 0, "void is empty")
	sym.Assert(xdr.DecodeBuf(b, &vo) == nil, "void decodes from anything")
	sym.Assert(bool(xdr.TRUE) && !bool(xdr.FALSE), "TRUE and FALSE")
}
