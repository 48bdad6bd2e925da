ID='hyper-low-half'; PROP='C01'
NEEDS='a signed 64-bit value whose bit 31 is set'
BREAKS='the two halves of a signed hyper are joined with sign extension, so values with bit 31 set decode wrongly'
EDITS=[('xdr/lib.go','*v = int64(binary.BigEndian.Uint64(buf[:]))','hi := int64(int32(binary.BigEndian.Uint32(buf[0:4])))\n		lo := int64(int32(binary.BigEndian.Uint32(buf[4:8])))\n		*v = hi<<32 | lo')]
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	for s := uint(0); s < 64; s++ {
		in := int64(1) << s
		w := xdr.MakeWriter(nil)
		xdr.XdrS64(w, &in)
		var out int64
		r := xdr.MakeReader(w.WriteBuf())
		xdr.XdrS64(r, &out)
		if r.Error() != nil || in != out {
			fmt.Println("hyper", in, "decodes to", out)
			os.Exit(1)
		}
	}
}
'''
