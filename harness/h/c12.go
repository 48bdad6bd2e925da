package h

import (
	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// Records of arbitrary bytes, then a call: at most one reply each, and the
// call is served.
func H_C12_bytes() {
	n := sym.Choose("records", sym.Tier(1, 2)) + 1
	ran := make([]int, n+1)
	cur := 0
	cn := &conn{}
	srv := rfc1057.MakeServer()
	prog, vers, proc := sym.U32("prog"), sym.U32("vers"), sym.U32("proc")
	kind := sym.Choose("result", 3)
	srv.Register(prog, vers, proc, func(args *xdr.XdrState) (xdr.Xdrable, error) {
		ran[cur]++
		switch kind {
		case 1:
			return nil, errRefused
		case 2:
			return &raw{bad: true}, nil
		}
		return &raw{b: []byte{1, 2, 3, 4}}, nil
	})
	srv.Register(100000, 2, 0, func(args *xdr.XdrState) (xdr.Xdrable, error) {
		ran[cur]++
		return &xdr.Void{}, nil
	})
	same := sym.And(prog == 100000, sym.And(vers == 2, proc == 0))
	sym.Assume(!same)
	for i := 0; i < n; i++ {
		body := sym.Bytes("body", 0, 1<<16)
		var m rfc1057.Rpc_msg
		r := &rdr{b: body, focus: focus{all: true}}
		rd_rfc1057_rpc_msg(r, &m)
		cn.in, cn.pos = record(body), 0
		cur = i
		before := len(cn.out)
		srv.Run(cn)
		sym.Join()
		k := len(cn.out) - before
		if r.bad || r.unspec || m.Body.Mtype != rfc1057.CALL {
			sym.Assert(k == 0, "what is not a call is not answered")
			sym.Assert(ran[i] == 0, "what is not a call runs nothing")
			sym.Cover("not a call")
			continue
		}
		sym.Assert(k <= 1, "at most one reply")
		sym.Assert(ran[i] <= 1, "at most one procedure runs")
		if kind != 2 || ran[i] == 0 {
			sym.Assert(k == 1, "a call is answered")
		}
		sym.Cover("call")
	}
	xid := sym.U32("xid")
	cn.in, cn.pos = record(call_msg(xid, 100000, 2, 0, nil)), 0
	cur = n
	before := len(cn.out)
	srv.Run(cn)
	sym.Join()
	sym.Assert(len(cn.out) == before+1 && ran[n] == 1, "the following call is served")
	sym.BytesEq(cn.out[before], record(accepted(xid, 0, nil)), "reply of the following call")
}

// The same on one connection: the bad record and the call arrive together.
func H_C12_stream() {
	body := sym.Bytes("body", 0, 1<<16)
	var m rfc1057.Rpc_msg
	r := &rdr{b: body, focus: focus{all: true}}
	rd_rfc1057_rpc_msg(r, &m)
	if !(r.bad || r.unspec || m.Body.Mtype != rfc1057.CALL) {
		sym.Skip()
	}
	ran := 0
	srv := rfc1057.MakeServer()
	srv.Register(100000, 2, 0, func(args *xdr.XdrState) (xdr.Xdrable, error) {
		ran++
		return &xdr.Void{}, nil
	})
	xid := sym.U32("xid")
	cn := &conn{in: record(body), queue: [][]byte{record(call_msg(xid, 100000, 2, 0, nil))}, splits: sym.Tier(1, 2)}
	srv.Run(cn)
	sym.Join()
	sym.Assert(ran == 1 && len(cn.out) == 1, "the following call is served")
	sym.BytesEq(cn.out[0], record(accepted(xid, 0, nil)), "reply of the following call")
	sym.Cover("served")
}
