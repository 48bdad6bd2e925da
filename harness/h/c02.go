package h

import (
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

var zeros = []byte{0, 0, 0}

// ref_opaque appends the RFC 4506 form of opaque data (without the length).
func ref_fixed(b, data []byte) []byte {
	b = append(b, data...)
	return append(b, zeros[:(4-len(data)%4)%4]...)
}

func ref_var(b, data []byte) []byte {
	return ref_fixed(be(b, uint64(len(data)), 4), data)
}

const bigLen = 1 << 33 // lengths up to 8 GiB: beyond what a length word can hold

// Variable-length opaque data and strings, any length, any limit.
func H_C02_encodeVar() {
	isStr := sym.Choose("string", 2) == 1
	data := sym.Bytes("data", 0, bigLen)
	pre := sym.Bytes("pre", 0, 64)
	limited := sym.Choose("limited", 2) == 1
	max := -1
	if limited {
		max = sym.Int("max", 0, 1<<32-1)
	}
	xs := xdr.MakeWriter(pre)
	if isStr {
		s := string(data)
		xdr.XdrString(xs, max, &s)
		sym.StringEq(s, string(data), "encoding leaves the string alone")
	} else {
		d := data
		xdr.XdrVarArray(xs, max, &d)
		sym.BytesEq(d, data, "encoding leaves the data alone")
	}
	fits := sym.Or(!limited, len(data) <= max)
	fits = sym.And(fits, len(data) <= 1<<32-1)
	if fits {
		sym.Assert(xs.Error() == nil, "data within the limit is encoded")
		sym.BytesEq(xs.WriteBuf(), ref_var(append([]byte(nil), pre...), data), "length, content and padding")
		sym.Cover("fits")
	} else {
		sym.Assert(xs.Error() != nil, "data above the limit is refused")
		sym.Cover("too long")
	}
}

func H_C02_decodeVar() {
	isStr := sym.Choose("string", 2) == 1
	buf := sym.Bytes("in", 0, 1<<20)
	limited := sym.Choose("limited", 2) == 1
	max := -1
	if limited {
		max = sym.Int("max", 0, 1<<32-1)
	}
	var got []byte
	xs := xdr.MakeReader(buf)
	if isStr {
		s := "old"
		xdr.XdrString(xs, max, &s)
		got = []byte(s)
	} else {
		got = []byte{1, 2, 3}
		xdr.XdrVarArray(xs, max, &got)
	}
	if len(buf) < 4 {
		sym.Assert(xs.Error() != nil, "missing length word is an error")
		sym.Cover("no length")
		return
	}
	n := int(unbe(buf[:4]))
	if sym.And(limited, n > max) {
		sym.Assert(xs.Error() != nil, "length above the limit is rejected")
		sym.Cover("above limit")
		return
	}
	if 4+n > len(buf) {
		sym.Assert(xs.Error() != nil, "incomplete content is an error")
		sym.Cover("short content")
		return
	}
	pad := (4 - n%4) % 4
	if 4+n+pad > len(buf) {
		sym.Assert(xs.Error() != nil, "incomplete padding is an error")
		sym.Cover("short padding")
		return
	}
	sym.Assert(xs.Error() == nil, "complete data within the limit decodes")
	sym.BytesEq(got, buf[4:4+n], "decoded content")
	// whatever follows is read from after the padding
	var next uint32
	xdr.XdrU32(xs, &next)
	rest := buf[4+n+pad:]
	if len(rest) >= 4 {
		sym.Assert(xs.Error() == nil, "reading on succeeds")
		sym.Assert(uint64(next) == unbe(rest[:4]), "reading continues after the padding")
		sym.Cover("read on")
	} else {
		sym.Assert(xs.Error() != nil, "nothing follows")
	}
	sym.Obs("n", uint64(n))
}

func H_C02_encodeFixed() {
	data := sym.Bytes("data", 0, 1<<33)
	pre := sym.Bytes("pre", 0, 64)
	xs := xdr.MakeWriter(pre)
	xdr.XdrArray(xs, data)
	sym.Assert(xs.Error() == nil, "fixed opaque data is encoded")
	sym.BytesEq(xs.WriteBuf(), ref_fixed(append([]byte(nil), pre...), data), "content and padding")
	sym.Obs("n", uint64(len(data)))
}

func H_C02_decodeFixed() {
	buf := sym.Bytes("in", 0, 1<<20)
	n := sym.Int("n", 0, 1<<20)
	dst := make([]byte, n)
	xs := xdr.MakeReader(buf)
	xdr.XdrArray(xs, dst)
	pad := (4 - n%4) % 4
	if n+pad > len(buf) {
		sym.Assert(xs.Error() != nil, "incomplete fixed data is an error")
		sym.Cover("short")
		return
	}
	sym.Assert(xs.Error() == nil, "complete fixed data decodes")
	sym.BytesEq(dst, buf[:n], "decoded content")
	var next uint64
	xdr.XdrU64(xs, &next)
	rest := buf[n+pad:]
	if len(rest) >= 8 {
		sym.Assert(xs.Error() == nil, "reading on succeeds")
		sym.Assert(next == unbe(rest[:8]), "reading continues after the padding")
		sym.Cover("read on")
	} else {
		sym.Assert(xs.Error() != nil, "nothing follows")
	}
}
