ID='odd-reply-stat'; PROP='C14'
NEEDS='a reply whose reply status is neither accepted nor denied'
BREAKS='a reply with an undefined reply status is taken for a successful one'
EDITS=[('rfc1057/client.go','if res.Body.Rbody.Stat != MSG_ACCEPTED {','if res.Body.Rbody.Stat == MSG_DENIED {')]
MAIN='''package main

import (
	"bytes"
	"fmt"
	"io"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

type conn struct{ io.Reader }

func (conn) Write(p []byte) (int, error) { return len(p), nil }

func main() {
	for stat := 0; stat < 5; stat++ {
		for n := 8; n <= 40; n += 4 {
			rec := make([]byte, 4+4+n)
			rec[0], rec[3] = 0x80, byte(4+n)
			rec[7] = 1  // xid
			rec[11] = 1 // reply
			rec[15] = byte(stat)
			cl := rfc1057.MakeClient(conn{bytes.NewReader(rec)}, 1, 1)
			var a xdr.Void
			var r xdr.Uint32
			var none rfc1057.Opaque_auth
			err := cl.Call(1, none, none, &a, &r)
			if err == nil && stat != 0 {
				fmt.Println("call succeeds on reply status", stat)
				os.Exit(1)
			}
			if err != nil && stat == 0 && n >= 24 {
				fmt.Println("call fails on a good reply:", err)
				os.Exit(1)
			}
		}
	}
}
'''
