ID='alias-capacity'; PROP='C07'
NEEDS='appending to a decoded byte slice that is followed by other data in the same buffer'
BREAKS='decoded byte slices keep the capacity of the input behind them'
EDITS=[('xdr/lib.go','	res := xs.buf[:n:n]\n	xs.buf = xs.buf[n:]\n	return res','	res := xs.buf\n	xs.buf = res[n:]\n	return res[:n]')]
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	in := []byte{0, 0, 0, 1, 0, 0, 0, 4, 1, 2, 3, 4, 0, 0, 0, 9}
	var a rfc1057.Opaque_auth
	if err := xdr.DecodeBuf(in, &a); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	_ = append(a.Body, 77)
	if in[12] != 0 {
		fmt.Println("append to a decoded slice changed the input")
		os.Exit(1)
	}
}
'''
