ID='early-release'; PROP='C13'
NEEDS='two requests in flight, a procedure whose result refers to its argument bytes, and the second request read between the release of the first buffer and the encoding of its reply'
BREAKS='the request buffer goes back to the pool as soon as the procedure has returned, before the result that may point into it has been encoded'
EDITS=[('rfc1057/server.go','	defer putReqBuf(buf)\n\n	err := sc.handleReqErr(buf)','	err := sc.handleReqErr(buf)'),
('rfc1057/server.go','		resdata, err = h(rd)\n','		resdata, err = h(rd)\n		putReqBuf(buf)\n')]
MAIN='''package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"sync"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// Blob encodes its bytes; while the first one is encoded, other requests run.
type Blob struct {
	b    []byte
	hook func()
}

func (v *Blob) Xdr(xs *xdr.XdrState) {
	if v.hook != nil {
		v.hook()
	}
	xdr.XdrVarArray(xs, -1, &v.b)
}

type conn struct {
	r  *io.PipeReader
	mu sync.Mutex
	c  chan []byte
}

func (c *conn) Read(p []byte) (int, error) { return c.r.Read(p) }
func (c *conn) Write(p []byte) (int, error) {
	c.c <- append([]byte(nil), p...)
	return len(p), nil
}

func call(xid uint32, fill byte) []byte {
	var m rfc1057.Rpc_msg
	m.Xid = xid
	m.Body.Mtype = rfc1057.CALL
	m.Body.Cbody.Rpcvers = 2
	m.Body.Cbody.Prog = 1
	m.Body.Cbody.Vers = 1
	m.Body.Cbody.Proc = 1
	w := xdr.MakeWriter(make([]byte, 4))
	m.Xdr(w)
	b := Blob{b: make([]byte, 64)}
	for i := range b.b {
		b.b[i] = fill
	}
	b.Xdr(w)
	buf := w.WriteBuf()
	binary.BigEndian.PutUint32(buf, 1<<31|uint32(len(buf)-4))
	return buf
}

func main() {
	for round := 0; round < 20; round++ {
		s := rfc1057.MakeServer()
		pr, pw := io.Pipe()
		c := &conn{r: pr, c: make(chan []byte, 4)}
		started := make(chan bool)
		resume := make(chan bool)
		n := 0
		var mu sync.Mutex
		s.Register(1, 1, 1, func(x *xdr.XdrState) (xdr.Xdrable, error) {
			var b Blob
			b.Xdr(x)
			mu.Lock()
			n++
			first := n == 1
			mu.Unlock()
			if first {
				b.hook = func() { started <- true; <-resume }
			}
			return &b, x.Error()
		})
		go s.Run(c)
		pw.Write(call(1, 'a'))
		<-started
		for i := 0; i < 4; i++ {
			pw.Write(call(2, 'b'))
			<-c.c
		}
		resume <- true
		rep := <-c.c
		for _, x := range rep[len(rep)-64:] {
			if x != 'a' {
				fmt.Println("reply of the first request carries bytes of another")
				os.Exit(1)
			}
		}
		pw.Close()
	}
}
'''
