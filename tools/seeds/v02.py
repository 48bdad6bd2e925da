ID='string-nul-trimmed'; PROP='C03'
NEEDS='a string field whose last byte is NUL'
BREAKS='decoding drops NUL bytes at the end of a string'
EDITS=[('xdr/lib.go','		buf := xdrR(xs, sz)\n		*v = string(buf)\n\n		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))','		buf := xdrR(xs, sz)\n		xdrRW(xs, make([]byte, (4-len(buf)%4)%4))\n		for len(buf) > 0 && buf[len(buf)-1] == 0 {\n			buf = buf[:len(buf)-1]\n		}\n		*v = string(buf)')]
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1813"
	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	for _, s := range []string{"", "a", "a\\x00", "\\x00", "a\\x00\\x00b", "abc\\x00\\x00"} {
		in := rfc1813.Nfspath3(s)
		b, err := xdr.EncodeBuf(&in)
		var out rfc1813.Nfspath3
		if err == nil {
			err = xdr.DecodeBuf(b, &out)
		}
		if err != nil || in != out {
			fmt.Printf("%q comes back as %q, %v\\n", in, out, err)
			os.Exit(1)
		}
	}
}
'''
