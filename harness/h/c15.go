package h

import (
	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

func someAuth(n string, max int) rfc1057.Opaque_auth {
	return rfc1057.Opaque_auth{Flavor: rfc1057.Auth_flavor(sym.I32(n + ".flavor")), Body: sym.Bytes(n, 0, max)}
}

func partAuth(n string, vary bool) rfc1057.Opaque_auth {
	if vary {
		return someAuth(n, 410)
	}
	return rfc1057.Opaque_auth{Flavor: rfc1057.Auth_flavor(sym.I32(n + ".flavor")), Body: sym.Bytes(n, 5, 5)}
}

// Calls with any numbers, credentials and arguments: what is sent.
func H_C15_request() {
	prog, vers := sym.U32("prog"), sym.U32("vers")
	cn := &conn{}
	cl := rfc1057.MakeClient(cn, prog, vers)
	n := sym.Choose("calls", sym.Tier(2, 3)) + 1
	var xids []uint32
	for i := 0; i < n; i++ {
		proc := sym.U32("proc")
		// the length of one part varies, or of all parts of a single call
		f := -1
		if n > 1 {
			f = sym.Choose("focus", 3)
		}
		cred, verf := partAuth("cred", f < 0 || f == 0), partAuth("verf", f < 0 || f == 1)
		args := &raw{}
		bad := false
		k := 3
		if f == 0 || f == 1 {
			k = 1
		}
		switch sym.Choose("args", k) {
		case 0:
			args.b = sym.Bytes("args", 0, 1<<16)
		case 1:
			args.b = sym.Bytes("args", 0, 1<<33)
		case 2:
			args.b = sym.Bytes("args", 0, 1<<16)
			args.bad = true
			bad = true
		}
		if sym.Or(len(cred.Body) > 400, len(verf.Body) > 400) {
			bad = true
		}
		if i > 0 && sym.Choose("write", 2) == 1 {
			cn.werr = errBroken
		}
		before := len(cn.tried)
		cn.in, cn.pos = nil, 0
		err := cl.Call(proc, cred, verf, args, &xdr.Void{})
		sym.Assert(err != nil, "a call that is not answered is an error")
		sent := cn.tried[before:]
		want := call_head(0, prog, vers, proc)
		want = ref_var(be(want, uint64(uint32(cred.Flavor)), 4), cred.Body)
		want = ref_var(be(want, uint64(uint32(verf.Flavor)), 4), verf.Body)
		want = append(want, ref_fixed(nil, args.b)...)
		if !bad && len(want) >= 1<<31 {
			bad = true
			sym.Cover("too long")
		}
		if bad {
			sym.Assert(len(sent) == 0, "nothing is sent of a request that cannot be encoded")
			sym.Cover("unsent")
			continue
		}
		sym.Assert(len(sent) == 1, "a request is a single write")
		q := sent[0]
		sym.Assert(len(q) >= 8, "a request has a header")
		xid := uint32(unbe(q[4:8]))
		for _, x := range xids {
			sym.Assert(x != xid, "transaction ids differ")
		}
		xids = append(xids, xid)
		copy(want, q[4:8])
		sym.BytesEq(q, record(want), "request record")
		sym.Cover("sent")
		cn.werr = nil
	}
}

// Failures of the connection.
func H_C15_io() {
	cn := &conn{}
	cl := rfc1057.MakeClient(cn, 7, 1)
	earlier(cl, cn, sym.Choose("calls before", 2))
	cn.in, cn.pos = nil, 0
	cn.end = nil
	if sym.Choose("end", 2) == 1 {
		cn.end = errBroken
	}
	body := sym.Bytes("result", 0, 1<<16)
	cut := sym.Int("cut", 0, 1<<17)
	cn.splits = sym.Tier(2, 4)
	full := false
	cn.onWr = func(q []byte) {
		cn.in = record(accepted(uint32(unbe(q[4:8])), 0, body))
		full = cut >= len(cn.in)
		if !full {
			if sym.Choose("resumes", 2) == 1 {
				cn.after = sym.Bytes("after", 0, 1<<16)
			}
			cn.in = cn.in[:cut]
		}
	}
	if sym.Choose("write", 2) == 1 {
		cn.werr = errBroken
	}
	err := cl.Call(1, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, &rest{})
	if cn.werr != nil {
		sym.Assert(err != nil, "a failed write is an error")
		sym.Cover("write failed")
		return
	}
	if !full {
		sym.Assert(err != nil, "a connection that fails before the reply arrived is an error")
		sym.Cover("read failed")
		return
	}
	sym.Assert(err == nil, "the reply arrived")
	sym.Cover("replied")
}

// Many calls, concretely: all transaction ids differ.
func H_C15_many() {
	cn := &conn{}
	cl := rfc1057.MakeClient(cn, 7, 1)
	ids := map[uint32]bool{}
	for i := 0; i < sym.Tier(300, 600); i++ {
		cn.out, cn.tried = nil, nil
		cl.Call(1, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, &xdr.Void{})
		sym.Assert(len(cn.out) == 1, "a request is sent")
		id := uint32(unbe(cn.out[0][4:8]))
		sym.Assert(!ids[id], "transaction ids differ")
		ids[id] = true
	}
	sym.Cover("sent")
}
