ID='header-24-bits'; PROP='C17'
NEEDS='a record of 16 MiB or more'
BREAKS='only the low 24 bits of a record length are used, so large records are split'
EDITS=[('rfc1057/server.go','buflen := int(hlen & 0x7fffffff)','buflen := int(hlen & 0xffffff)')]
MAIN='''package main

import (
	"fmt"
	"io"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1057"
)

type conn struct{ in, max int }

func (c *conn) Read(p []byte) (int, error) {
	if len(p) > c.max {
		c.max = len(p)
	}
	if c.in == 0 && len(p) == 4 {
		c.in++
		copy(p, []byte{0x81, 0, 0, 0x10})
		return 4, nil
	}
	return 0, io.EOF
}

func (c *conn) Write(p []byte) (int, error) { return len(p), nil }

func main() {
	c := &conn{}
	rfc1057.MakeServer().Run(c)
	if c.max != 0x1000010 {
		fmt.Println("a record of", 0x1000010, "bytes is read as", c.max)
		os.Exit(1)
	}
}
'''
