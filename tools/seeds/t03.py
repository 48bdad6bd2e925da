ID='pad-in-place'; PROP='C07'
NEEDS='encoding a byte slice of unaligned length that is part of a larger buffer'
BREAKS='encoding opaque data pads the slice in place and overwrites the bytes behind it in the caller\'s buffer'
EDITS=[('xdr/lib.go','''		xdrRW(xs, szbuf[:])
		xdrRW(xs, *v)
	} else {''','''		xdrRW(xs, szbuf[:])
		padded := *v
		for len(padded)%4 != 0 {
			padded = append(padded, 0)
		}
		xdrRW(xs, padded)
		return
	} else {''')]
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	buf := []byte("abcdefghijkl")
	part := buf[:5]
	w := xdr.MakeWriter(nil)
	xdr.XdrVarArray(w, -1, &part)
	if w.Error() != nil || string(buf) != "abcdefghijkl" {
		fmt.Printf("encoding changed its buffer to %q\\n", buf)
		os.Exit(1)
	}
}
'''
