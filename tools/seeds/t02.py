ID='limit-zero-unlimited'; PROP='C02'
NEEDS='opaque data declared with a limit of zero'
BREAKS='a limit of zero bytes is taken for no limit when decoding opaque data'
MULTI=1
EDITS=[('xdr/lib.go','''		if (maxlen >= 0 && sz > maxlen) || sz < 0 {
			xs.SetError("var array too large")''','''		if (maxlen > 0 && sz > maxlen) || sz < 0 {
			xs.SetError("var array too large")''')]
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	for limit := 0; limit < 6; limit++ {
		for n := 0; n < 8; n++ {
			b := append([]byte{0, 0, 0, byte(n)}, make([]byte, 8)...)
			var v []byte
			r := xdr.MakeReader(b)
			xdr.XdrVarArray(r, limit, &v)
			if (r.Error() == nil) != (n <= limit) {
				fmt.Println("limit", limit, "length", n, r.Error())
				os.Exit(1)
			}
		}
	}
}
'''
