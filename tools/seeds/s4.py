ID='string-limit-rounded'; PROP='C02'
NEEDS='a string over its limit, where the limit is not a multiple of four and the excess fits in the padding'
BREAKS='decoding a string compares the padded size rounded down, so up to three bytes over the limit are accepted'
EDITS=[('xdr/lib.go','		if (maxlen >= 0 && sz > maxlen) || sz < 0 {\n			xs.SetError("string too large")','		if (maxlen >= 0 && sz/4 > maxlen/4) || sz < 0 {\n			xs.SetError("string too large")')]
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	for max := 0; max < 9; max++ {
		for n := 0; n < 12; n++ {
			b := append([]byte{0, 0, 0, byte(n)}, make([]byte, 12)...)
			r := xdr.MakeReader(b)
			var s string
			xdr.XdrString(r, max, &s)
			if (r.Error() == nil) != (n <= max) {
				fmt.Println("limit", max, "length", n, r.Error())
				os.Exit(1)
			}
		}
	}
}
'''
