ID='stale-reply'; PROP='C15'
NEEDS='a call whose exchange fails (timeout, cut connection) followed by another call on the same client, with the late reply of the first arriving'
BREAKS='the transaction id only advances when a call succeeds, so a retry reuses the id of the failed call'
EDITS=[('rfc1057/client.go','	c.xid++\n\n	var req Rpc_msg\n	req.Xid = c.xid\n','	var req Rpc_msg\n	req.Xid = c.xid + 1\n'),
('rfc1057/client.go','	resp.Xdr(rd)\n	err = rd.Error()\n	if err != nil {\n		return err\n	}\n\n	return nil','	resp.Xdr(rd)\n	err = rd.Error()\n	if err != nil {\n		return err\n	}\n\n	c.xid = req.Xid\n	return nil')]
MAIN='''package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

type dead struct{ sent [][]byte }

func (d *dead) Read(p []byte) (int, error) { return 0, errors.New("timeout") }
func (d *dead) Write(p []byte) (int, error) {
	d.sent = append(d.sent, append([]byte(nil), p...))
	return len(p), nil
}

func main() {
	d := &dead{}
	c := rfc1057.MakeClient(d, 1, 1)
	var none rfc1057.Opaque_auth
	for i := 0; i < 2; i++ {
		var a, r xdr.Uint32
		if c.Call(1, none, none, &a, &r) == nil {
			fmt.Println("call without reply succeeded")
			os.Exit(1)
		}
	}
	if string(d.sent[0][4:8]) == string(d.sent[1][4:8]) {
		fmt.Println("two calls with the same transaction id")
		os.Exit(1)
	}
}
'''
