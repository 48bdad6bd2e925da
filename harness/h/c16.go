package h

import (
	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// Any call to a server with any registrations.
func H_C16_any() {
	srv := rfc1057.MakeServer()
	n := sym.Choose("registered", sym.Tier(2, 3)) + 1
	var rs []reg
	var calls []int
	kind := sym.Choose("kind", 4)
	res := sym.Bytes("res", 0, 1<<16)
	var seen []byte
	for i := 0; i < n; i++ {
		i := i
		g := reg{sym.U32("prog"), sym.U32("vers"), sym.U32("proc")}
		rs = append(rs, g)
		srv.Register(g.prog, g.vers, g.proc, func(args *xdr.XdrState) (xdr.Xdrable, error) {
			calls = append(calls, i)
			seen = append([]byte(nil), args.WriteBuf()...)
			var m rfc1057.Mapping
			switch kind {
			case 1:
				return nil, errRefused
			case 2:
				m.Xdr(args)
				return &raw{b: res}, args.Error()
			case 3:
				return &raw{b: res, bad: true}, nil
			}
			return &raw{b: res}, nil
		})
	}
	g := reg{sym.U32("prog"), sym.U32("vers"), sym.U32("proc")}
	lk := &link{srv: srv}
	cl := rfc1057.MakeClient(lk, g.prog, g.vers)
	calln := sym.Choose("calls before", 2)
	for i := 0; i < calln; i++ {
		cl.Call(g.proc, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, &rest{})
		lk.back = nil
		calls = nil
	}
	args := sym.Bytes("args", 0, 1<<16)
	var got rest
	var gotm rfc1057.Mapping
	var into xdr.Xdrable = &got
	form := sym.Choose("form", 3)
	cred, verf := partAuth("cred", form == 0), partAuth("verf", form == 0)
	if form == 1 {
		into = &gotm
	}
	err := cl.Call(g.proc, cred, verf, &raw{b: args, bad: form == 2}, into)
	want := -1
	for i, r := range rs {
		if r == g {
			want = i
		}
	}
	if sym.Or(len(cred.Body) > 400, len(verf.Body) > 400) {
		sym.Assert(err != nil, "credentials beyond the limit are an error")
		sym.Assert(len(calls) == 0, "credentials beyond the limit call nothing")
		sym.Cover("credentials")
		return
	}
	if form == 2 {
		sym.Assert(err != nil, "arguments that cannot be encoded are an error")
		sym.Assert(len(calls) == 0, "arguments that cannot be encoded call nothing")
		sym.Cover("unencodable")
		return
	}
	if want < 0 {
		sym.Assert(err != nil, "what is not registered is an error")
		sym.Assert(len(calls) == 0, "what is not registered is not called")
		sym.Cover("unregistered")
		return
	}
	padded := ref_fixed(nil, args)
	sym.Assert(len(calls) == 1 && calls[0] == want, "the procedure is called once")
	sym.BytesEq(seen, padded, "arguments")
	if kind == 1 || kind == 3 || kind == 2 && len(padded) < 16 {
		sym.Assert(err != nil, "undecodable arguments, or no result, are an error")
		sym.Cover("refused")
		return
	}
	if form == 1 {
		p := ref_fixed(nil, res)
		if len(p) < 16 {
			sym.Assert(err != nil, "a result that does not decode is an error")
			sym.Cover("short")
			return
		}
		sym.Assert(err == nil, "the call succeeds")
		sym.Assert(uint64(gotm.Prog) == unbe(p[:4]) && uint64(gotm.Port) == unbe(p[12:16]), "result")
		return
	}
	sym.Assert(err == nil, "the call succeeds")
	sym.BytesEq(got.b, ref_fixed(nil, res), "result")
	sym.Cover("called")
}
