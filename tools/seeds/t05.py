ID='odd-message-type'; PROP='C12'
NEEDS='a record whose message type is neither call nor reply'
BREAKS='records whose message type is not CALL (0) or REPLY (1) are taken for calls and answered'
EDITS=[('rfc1057/server.go','if req.Body.Mtype != CALL {','if req.Body.Mtype == REPLY {')]
MAIN='''package main

import (
	"fmt"
	"io"
	"os"
	"time"

	"github.com/zeldovich/go-rpcgen/rfc1057"
)

type conn struct {
	in  []byte
	out chan []byte
}

func (c *conn) Read(p []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *conn) Write(p []byte) (int, error) {
	c.out <- append([]byte(nil), p...)
	return len(p), nil
}

func main() {
	for _, m := range []byte{1, 2, 3, 77} {
		rec := append([]byte{0x80, 0, 0, 40, 0, 0, 0, 9, 0, 0, 0, m}, make([]byte, 32)...)
		c := &conn{rec, make(chan []byte, 10)}
		rfc1057.MakeServer().Run(c)
		select {
		case o := <-c.out:
			fmt.Printf("message of type %d answered with %x\\n", m, o)
			os.Exit(1)
		case <-time.After(300 * time.Millisecond):
		}
	}
}
'''
