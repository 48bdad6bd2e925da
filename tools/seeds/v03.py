ID='empty-string-kept'; PROP='C09'
NEEDS='decoding an empty string into a value that holds another one'
BREAKS='decoding an empty string leaves the old string in place'
EDITS=[('xdr/lib.go','		buf := xdrR(xs, sz)\n		*v = string(buf)\n\n		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))','		if sz > 0 {\n			*v = string(xdrR(xs, sz))\n			xdrRW(xs, make([]byte, (4-len(*v)%4)%4))\n		}')]
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1813"
	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	for _, s := range []string{"", "a", "abcd"} {
		in := rfc1813.Nfspath3(s)
		b, _ := xdr.EncodeBuf(&in)
		out := rfc1813.Nfspath3("before")
		if err := xdr.DecodeBuf(b, &out); err != nil || in != out {
			fmt.Printf("%q comes back as %q, %v\\n", in, out, err)
			os.Exit(1)
		}
	}
}
'''
