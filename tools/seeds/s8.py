ID='sticky-vararray'; PROP='C06'
NEEDS='an encoder that has already failed and a later variable-length opaque field'
BREAKS='after an error a writer falls into the decoding branch of XdrVarArray and empties the caller\'s slice'
EDITS=[('xdr/lib.go','''func XdrVarArray(xs *XdrState, maxlen int, v *[]byte) {
	if xs.err != nil {
		return
	}

''','''func XdrVarArray(xs *XdrState, maxlen int, v *[]byte) {
''')]
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	w := xdr.MakeWriter(nil)
	s := "too long"
	xdr.XdrString(w, 1, &s)
	b := []byte{1, 2, 3}
	xdr.XdrVarArray(w, -1, &b)
	if w.Error() == nil || len(b) != 3 {
		fmt.Println("a failed encoder changed the value", b, w.Error())
		os.Exit(1)
	}
}
'''
