ID='short-reply-ok'; PROP='C15'
NEEDS='a connection that ends in the middle of a reply, within its result'
BREAKS='a reply that is cut short is padded with zero bytes and taken as complete'
EDITS=[('rfc1057/client.go','	_, err = io.ReadFull(c.rw, buf)\n	if err != nil {','	_, err = io.ReadFull(c.rw, buf)\n	if err != nil && err != io.ErrUnexpectedEOF {')]
MAIN='''package main

import (
	"bytes"
	"fmt"
	"io"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

type conn struct{ io.Reader }

func (conn) Write(p []byte) (int, error) { return len(p), nil }

func main() {
	full := make([]byte, 4+24+8)
	full[0], full[3] = 0x80, 32
	full[7] = 1  // xid
	full[11] = 1 // reply
	full[35] = 9
	for n := 0; n <= len(full); n++ {
		cl := rfc1057.MakeClient(conn{bytes.NewReader(full[:n])}, 1, 1)
		var a xdr.Void
		var r xdr.Uint64
		var none rfc1057.Opaque_auth
		err := cl.Call(1, none, none, &a, &r)
		if (err == nil) != (n == len(full)) {
			fmt.Println("reply cut after", n, "bytes gives", r, err)
			os.Exit(1)
		}
	}
}
'''
