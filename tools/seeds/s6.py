ID='empty-record'; PROP='C17'
NEEDS='a record of length zero between two calls'
BREAKS='an empty record makes the server stop reading the connection'
EDITS=[('rfc1057/server.go','		buflen := int(hlen & 0x7fffffff)\n		buf := getReqBuf(buflen)\n','		buflen := int(hlen & 0x7fffffff)\n		if buflen == 0 {\n			return io.ErrUnexpectedEOF\n		}\n		buf := getReqBuf(buflen)\n')]
MAIN='''package main

import (
	"bytes"
	"fmt"
	"io"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1057"
)

type rw struct{ io.Reader }

func (rw) Write(p []byte) (int, error) { return len(p), nil }

func main() {
	s := rfc1057.MakeServer()
	err := s.Run(rw{bytes.NewReader([]byte{0x80, 0, 0, 0, 0x80, 0, 0, 0})})
	if err != io.EOF {
		fmt.Println("the server gave up on an empty record:", err)
		os.Exit(1)
	}
}
'''
