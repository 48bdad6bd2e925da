package h

import (
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// c_broken makes an encoder or decoder that has reported an error.
func c_broken() ([]byte, *xdr.XdrState) {
	var xs *xdr.XdrState
	b := sym.Bytes("held", 0, 64)
	switch sym.Choose("broken", 6) {
	case 0: // a writer told of an error
		xs = xdr.MakeWriter(b)
		xs.SetError("first")
	case 1: // a writer given too much
		xs = xdr.MakeWriter(b)
		d := []byte{1, 2, 3}
		xdr.XdrVarArray(xs, 2, &d)
	case 2: // a reader told of an error
		xs = xdr.MakeReader(b)
		xs.SetError("first")
	case 3: // a reader that found a length above its limit
		xs = xdr.MakeReader(append([]byte{0, 0, 0, 9}, b...))
		s := "x"
		xdr.XdrString(xs, 8, &s)
	case 4: // a reader that found a length above what is there
		xs = xdr.MakeReader(append([]byte{0, 0, 0, 66}, b...))
		d := []byte{1}
		xdr.XdrVarArray(xs, 100, &d)
	case 5: // a reader that ran out of input
		sym.Assume(len(b) < 8)
		xs = xdr.MakeReader(b)
		v := uint64(1)
		xdr.XdrU64(xs, &v)
	}
	sym.Assert(xs.Error() != nil, "the first error is reported")
	return append([]byte(nil), xs.WriteBuf()...), xs
}

// c_op does one operation of the library and tells whether what it was given
// is unchanged.
func c_op(xs *xdr.XdrState) bool {
	u := sym.U64("old")
	d := sym.Bytes("data", 0, 64)
	max := sym.Int("max", 0, 100) - 1
	keep := append([]byte(nil), d...)
	switch sym.Choose("op", 15) {
	case 0:
		v := u&1 == 1
		xdr.XdrBool(xs, &v)
		return v == (u&1 == 1)
	case 1:
		v := int32(u)
		xdr.XdrS32(xs, &v)
		return v == int32(u)
	case 2:
		v := uint32(u)
		xdr.XdrU32(xs, &v)
		return v == uint32(u)
	case 3:
		v := int64(u)
		xdr.XdrS64(xs, &v)
		return v == int64(u)
	case 4:
		v := u
		xdr.XdrU64(xs, &v)
		return v == u
	case 5:
		v := d
		xdr.XdrVarArray(xs, max, &v)
		sym.BytesEq(v, keep, "opaque data is left alone after an error")
	case 6:
		xdr.XdrArray(xs, d)
		sym.BytesEq(d, keep, "fixed opaque data is left alone after an error")
	case 7:
		s := string(d)
		xdr.XdrString(xs, max, &s)
		sym.StringEq(s, string(keep), "a string is left alone after an error")
	case 8:
		n := uint32(u)
		xs.EncodingSetSize(&n, len(d))
		return n == uint32(u)
	case 9:
		xs.SetError("another")
	case 10:
		v := xdr.Bool(u&1 == 1)
		v.Xdr(xs)
		return bool(v) == (u&1 == 1)
	case 11:
		v := xdr.Uint32(u)
		v.Xdr(xs)
		return uint32(v) == uint32(u)
	case 12:
		v := xdr.Int64(u)
		v.Xdr(xs)
		return int64(v) == int64(u)
	case 13:
		var v xdr.Void
		v.Xdr(xs)
	case 14:
		sym.Assert(!xs.Encoding() && !xs.Decoding(), "neither encoding nor decoding after an error")
	}
	return true
}

// Any sequence of operations of the library after an error.
func H_C06_library() {
	held, xs := c_broken()
	for i := 0; i < sym.Tier(2, 3); i++ {
		same := c_op(xs)
		sym.Assert(xs.Error() != nil, "the error stays")
		sym.Assert(same, "the destination is left alone")
		sym.BytesEq(xs.WriteBuf(), held, "no output or consumption after an error")
	}
	sym.Cover("done")
}

// A failure in the middle is still reported at the end, and nothing after it
// is decoded.
func H_C06_middle() {
	b := sym.Bytes("in", 0, 20)
	xs := xdr.MakeReader(b)
	failed := false
	for i := 0; i < 3; i++ {
		same := true
		if !failed && sym.Choose("decode", 2) == 1 {
			var v uint32
			xdr.XdrU32(xs, &v)
		} else {
			if !failed {
				xs.SetError("refused")
			}
			failed = true
			left := append([]byte(nil), xs.WriteBuf()...)
			same = c_op(xs)
			sym.BytesEq(xs.WriteBuf(), left, "nothing is consumed after an error")
		}
		sym.Assert(same, "nothing is decoded after an error")
		if xs.Error() != nil {
			failed = true
		}
		if failed {
			sym.Assert(xs.Error() != nil, "a failed message stays failed")
		}
	}
	if failed {
		sym.Cover("failed")
	}
}

// grow appends to a decoded slice.
func grow(d []byte) { _ = append(d, 0xa5) }
