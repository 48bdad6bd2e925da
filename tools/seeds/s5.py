ID='wcc-swapped'; PROP='C04'
NEEDS='a pre-operation attribute whose modification and change times differ'
BREAKS='mtime and ctime of wcc_attr are encoded and decoded in the wrong order; round trips still work'
EDITS=[('rfc1813/xdr.go','	(*Size3)(&((v).Size)).Xdr(xs)\n	(*Nfstime3)(&((v).Mtime)).Xdr(xs)\n	(*Nfstime3)(&((v).Ctime)).Xdr(xs)\n}\nfunc (v *Pre_op_attr)','	(*Size3)(&((v).Size)).Xdr(xs)\n	(*Nfstime3)(&((v).Ctime)).Xdr(xs)\n	(*Nfstime3)(&((v).Mtime)).Xdr(xs)\n}\nfunc (v *Pre_op_attr)')]
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1813"
	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	var a rfc1813.Wcc_attr
	a.Mtime.Seconds = 1
	a.Ctime.Seconds = 2
	b, err := xdr.EncodeBuf(&a)
	if err != nil || len(b) != 24 || b[11] != 1 || b[19] != 2 {
		fmt.Println("wrong layout", b, err)
		os.Exit(1)
	}
}
'''
