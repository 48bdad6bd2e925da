package h

import (
	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// reply is what an arbitrary record means to the call with the given
// transaction id: whether it is its successful reply, and where results start.
func successful(in []byte, xid uint32) (body []byte, pos int, ok bool) {
	if len(in) < 4 {
		return nil, 0, false
	}
	h := unbe(in[:4])
	if h < 1<<31 {
		return nil, 0, false
	}
	n := int(h - 1<<31)
	if len(in)-4 < n {
		return nil, 0, false
	}
	body = in[4 : 4+n]
	var m rfc1057.Rpc_msg
	r := &rdr{b: body, focus: focus{all: true}}
	rd_rfc1057_rpc_msg(r, &m)
	if r.bad || r.unspec {
		return nil, 0, false
	}
	if m.Body.Mtype != rfc1057.REPLY || m.Xid != xid {
		return nil, 0, false
	}
	if m.Body.Rbody.Stat != rfc1057.MSG_ACCEPTED || m.Body.Rbody.Areply.Reply_data.Stat != rfc1057.SUCCESS {
		return nil, 0, false
	}
	return body, r.pos, true
}

// word is a result of one word.
type word struct{ v uint32 }

func (w *word) Xdr(xs *xdr.XdrState) { xdr.XdrU32(xs, &w.v) }

// sentXid is the transaction id of the last request on c.
func sentXid(c *conn) uint32 {
	sym.Assert(len(c.out) > 0, "the request is sent")
	q := c.out[len(c.out)-1]
	sym.Assert(len(q) >= 8, "the request is sent")
	return uint32(unbe(q[4:8]))
}

// earlier makes calls that fail, or succeed.
func earlier(cl *rfc1057.Client, cn *conn, n int) {
	for i := 0; i < n; i++ {
		cn.in, cn.pos, cn.werr = nil, 0, nil
		switch sym.Choose("earlier", 3) {
		case 0: // no reply
		case 1: // not written
			cn.werr = errBroken
		case 2: // another reply
			cn.in = record(accepted(sym.U32("other"), 0, nil))
		}
		cl.Call(1, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, &xdr.Void{})
		cn.werr = nil
	}
}

// Any bytes as the reply of a call without result, or with one of a word.
func H_C14_reply() {
	in := sym.Bytes("in", 0, 1<<16)
	cn := &conn{}
	cl := rfc1057.MakeClient(cn, sym.U32("prog"), sym.U32("vers"))
	earlier(cl, cn, sym.Choose("calls before", sym.Tier(2, 3)))
	cn.in, cn.pos, cn.splits = in, 0, sym.Tier(0, 2)
	var w word
	var res xdr.Xdrable = &w
	void := sym.Choose("result", 2) == 0
	if void {
		res = &xdr.Void{}
	}
	err := cl.Call(sym.U32("proc"), rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, res)
	body, pos, ok := successful(in, sentXid(cn))
	if ok && !void && len(body)-pos < 4 {
		ok = false
		sym.Cover("short result")
	}
	if !ok {
		sym.Assert(err != nil, "anything but the call's own successful reply is an error")
		sym.Cover("error")
		return
	}
	sym.Assert(err == nil, "the call's own successful reply is a success")
	sym.Cover("success")
	if !void {
		sym.Assert(uint64(w.v) == unbe(body[pos:pos+4]), "the result is what the reply says")
		sym.Assert(cn.pos == 4+len(body), "the reply's record is read, and no more")
	}
}

// Replies that are delivered in pieces, or not to their end.
func H_C14_pieces() {
	cn := &conn{}
	cl := rfc1057.MakeClient(cn, 7, 1)
	long := sym.Choose("long", 2) == 1
	size := 1 << 16
	cn.splits = sym.Tier(2, 4)
	if long { // any length that a header can express
		size = 1<<31 - 25
		cn.splits = 0
	}
	data := sym.Bytes("data", 0, size)
	cut := sym.Int("cut", 0, 1<<32)
	if sym.Choose("end", 2) == 1 {
		cn.end = errBroken
	}
	full := false
	cn.onWr = func(q []byte) {
		cn.in = record(accepted(uint32(unbe(q[4:8])), 0, data))
		full = cut >= len(cn.in)
		if !full {
			cn.in = cn.in[:cut]
		}
	}
	var got rest
	err := cl.Call(1, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, &got)
	if !full {
		sym.Assert(err != nil, "a reply that does not arrive in full is an error")
		sym.Cover("cut")
		return
	}
	sym.Assert(err == nil, "a reply that arrives in pieces is a success")
	sym.BytesEq(got.b, data, "the result is what the reply says")
	sym.Cover("full")
}

// rest is a result that takes what is left.
type rest struct{ b []byte }

func (r *rest) Xdr(xs *xdr.XdrState) {
	r.b = append([]byte(nil), xs.WriteBuf()...)
}
