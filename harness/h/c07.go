package h

import (
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// Encoding part of a larger buffer leaves all of it alone, also what lies
// behind the part, and the output shares nothing with it.
func H_C07_encode() {
	all := sym.Bytes("all", 0, 1<<20)
	n := sym.Int("n", 0, 1<<20)
	sym.Assume(n <= len(all))
	part := all[:n]
	keep := append([]byte(nil), all...)
	var xs *xdr.XdrState
	pre := sym.Bytes("pre", 0, 64)
	if sym.Choose("start", 2) == 0 {
		xs = xdr.MakeWriter(pre)
	} else {
		xs = xdr.MakeWriter(nil)
		pre = nil
	}
	s := string(part)
	kind := sym.Choose("kind", 3)
	switch kind {
	case 0:
		xdr.XdrVarArray(xs, -1, &part)
	case 1:
		xdr.XdrArray(xs, part)
	case 2:
		xdr.XdrString(xs, -1, &s)
	}
	sym.Assert(xs.Error() == nil, "encoding succeeds")
	sym.BytesEq(all, keep, "encoding leaves the data and what follows it alone")
	sym.Assert(len(part) == n, "encoding leaves the length alone")
	sym.StringEq(s, string(keep[:n]), "encoding leaves the string alone")
	out := append([]byte(nil), xs.WriteBuf()...)
	if n > 0 {
		i := sym.Int("i", 0, 1<<20)
		sym.Assume(i < n)
		all[i] ^= 0x5a
		sym.BytesEq(xs.WriteBuf(), out, "the output does not follow later changes of the data")
		sym.Cover("changed")
	}
}

// Decoding leaves the input alone, and growing what was decoded changes
// neither the input nor anything else decoded.
func H_C07_decode() {
	in := sym.Bytes("in", 0, 1<<16)
	keep := append([]byte(nil), in...)
	xs := xdr.MakeReader(in)
	var a, b []byte
	var s string
	fixed := make([]byte, 5)
	xdr.XdrVarArray(xs, -1, &a)
	xdr.XdrArray(xs, fixed)
	xdr.XdrString(xs, -1, &s)
	xdr.XdrVarArray(xs, 1000, &b)
	sym.BytesEq(in, keep, "decoding leaves the input alone")
	if xs.Error() != nil {
		return
	}
	a0, b0 := append([]byte(nil), a...), append([]byte(nil), b...)
	f0, s0 := append([]byte(nil), fixed...), s
	sym.Assert(cap(a) == len(a) && cap(b) == len(b), "no room to grow")
	_ = append(a, 1, 2, 3, 4, 5)
	_ = append(b, 6)
	sym.BytesEq(in, keep, "growing decoded data leaves the input alone")
	fixed[sym.Choose("at", 5)] ^= 0xff
	sym.BytesEq(in, keep, "changing fixed data leaves the input alone")
	sym.BytesEq(a, a0, "the first slice keeps its value")
	sym.BytesEq(b, b0, "the second slice keeps its value")
	sym.Assert(len(f0) == len(fixed), "fixed data keeps its length")
	sym.StringEq(s, s0, "the string keeps its value")
	if len(in) > 0 {
		i := sym.Int("i", 0, 1<<16)
		sym.Assume(i < len(in))
		in[i] ^= 0x33
		sym.StringEq(s, s0, "a decoded string does not follow the input")
	}
	sym.Cover("grown")
}
