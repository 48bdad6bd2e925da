ID='null-answered'; PROP='C10'
NEEDS='a call of procedure 0 of a program version that has not registered it'
BREAKS='procedure 0 is answered with success even when it is not registered'
EDITS=[('rfc1057/server.go','		if !procok {\n','		if !procok && req.Body.Cbody.Proc == 0 {\n			res.Body.Rbody.Areply.Reply_data.Stat = SUCCESS\n			goto reply\n		} else if !procok {\n')]
MAIN='''package main

import (
	"fmt"
	"io"
	"os"
	"time"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

type conn struct {
	in  []byte
	out chan []byte
}

func (c *conn) Read(p []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *conn) Write(p []byte) (int, error) {
	c.out <- append([]byte(nil), p...)
	return len(p), nil
}

func main() {
	for proc := byte(0); proc < 3; proc++ {
		rec := append([]byte{0x80, 0, 0, 40}, make([]byte, 40)...)
		rec[15] = 2     // rpc version
		rec[19] = 8     // program
		rec[23] = 1     // version
		rec[27] = proc
		c := &conn{rec, make(chan []byte, 10)}
		s := rfc1057.MakeServer()
		s.Register(8, 1, 1, func(args *xdr.XdrState) (xdr.Xdrable, error) { return &xdr.Void{}, nil })
		s.Run(c)
		select {
		case o := <-c.out:
			want := byte(3)
			if proc == 1 {
				want = 0
			}
			if o[len(o)-1] != want {
				fmt.Printf("procedure %d answered with %x\\n", proc, o)
				os.Exit(1)
			}
		case <-time.After(5 * time.Second):
			fmt.Println("no reply")
			os.Exit(1)
		}
	}
}
'''
