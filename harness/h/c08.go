package h

import (
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// The decoders of the library, whatever limit they are given.
func H_C08_library() {
	in := sym.Bytes("in", 0, 1<<20)
	xs := xdr.MakeReader(in)
	max := sym.Int("max", 0, 1<<32) - 1
	sym.AllocLimit(uint64(len(in))*4+16384, "memory is bounded by the input")
	for i := 0; i < 2; i++ {
		switch sym.Choose("op", 3) {
		case 0:
			var d []byte
			xdr.XdrVarArray(xs, max, &d)
		case 1:
			var s string
			xdr.XdrString(xs, max, &s)
		case 2:
			var u uint64
			var v int32
			var b bool
			xdr.XdrU64(xs, &u)
			xdr.XdrS32(xs, &v)
			xdr.XdrBool(xs, &b)
		}
	}
	sym.AllocCheck()
	sym.Cover("decoded")
}

func H_C08_helper() {
	in := sym.Bytes("in", 0, 1<<20)
	sym.AllocLimit(uint64(len(in))*4+16384, "memory is bounded by the input")
	var v xdr.Uint64
	xdr.DecodeBuf(in, &v)
	sym.AllocCheck()
}
