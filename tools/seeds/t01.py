ID='bool-only-one'; PROP='C01'
NEEDS='a bool word other than 0 and 1 on the wire'
BREAKS='a bool word larger than one decodes to false'
EDITS=[('xdr/lib.go','		if r == 0 {\n			*v = false\n		} else {\n			*v = true\n		}','		*v = r == 1')]
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	for _, w := range []byte{1, 2, 0x80, 255} {
		for at := 0; at < 4; at++ {
			b := make([]byte, 4)
			b[at] = w
			var v bool
			r := xdr.MakeReader(b)
			xdr.XdrBool(r, &v)
			if r.Error() != nil || !v {
				fmt.Println("non-zero bool word decodes to false:", b)
				os.Exit(1)
			}
		}
	}
}
'''
