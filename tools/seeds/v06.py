ID='reply-in-request'; PROP='C13'
NEEDS='a procedure whose result refers to its argument bytes'
BREAKS='the reply is built in the buffer of the request, over the arguments that the result still refers to'
EDITS=[('rfc1057/server.go','''	// Reserve 4 bytes at the front for the length
	var reserveLen [4]byte

	wr := xdr.MakeWriter(reserveLen[:])
''','''	// Reserve 4 bytes at the front for the length
	wr := xdr.MakeWriter(buf[:4])
''')]
MAIN='''package main

import (
	"fmt"
	"net"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

type blob []byte

func (b *blob) Xdr(xs *xdr.XdrState) { xdr.XdrVarArray(xs, -1, (*[]byte)(b)) }

// tail answers with a number and then the argument.
type tail struct {
	n [6]xdr.Uint64
	b blob
}

func (t *tail) Xdr(xs *xdr.XdrState) {
	for i := range t.n {
		t.n[i].Xdr(xs)
	}
	t.b.Xdr(xs)
}

func main() {
	a, b := net.Pipe()
	s := rfc1057.MakeServer()
	s.Register(8, 1, 1, func(args *xdr.XdrState) (xdr.Xdrable, error) {
		var r tail
		r.b.Xdr(args)
		return &r, args.Error()
	})
	go s.Run(b)
	c := rfc1057.MakeClient(a, 8, 1)
	for n := 0; n < 100; n += 7 {
		in := make(blob, n)
		for i := range in {
			in[i] = byte(i + 1)
		}
		var out tail
		var none rfc1057.Opaque_auth
		if err := c.Call(1, none, none, &in, &out); err != nil || string(out.b) != string(in) {
			fmt.Printf("%x comes back as %x, %v\\n", in, out.b, err)
			os.Exit(1)
		}
	}
}
'''
