ID='padding-truncated'; PROP='C05'
NEEDS='input that ends inside the padding of the last string'
BREAKS='missing padding after a string at the end of the input is not reported'
EDITS=[('xdr/lib.go','''		buf := xdrR(xs, sz)
		*v = string(buf)

		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))
''','''		buf := xdrR(xs, sz)
		*v = string(buf)

		pad := (4 - len(*v)%4) % 4
		if pad > len(xs.buf) {
			pad = len(xs.buf)
		}
		xdrRW(xs, make([]byte, pad))
''')]
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1813"
	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	var f rfc1813.Filename3
	if xdr.DecodeBuf([]byte{0, 0, 0, 1, 'x', 0, 0}, &f) == nil {
		fmt.Println("truncated padding accepted")
		os.Exit(1)
	}
}
'''
