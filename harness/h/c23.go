package h

import (
	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// mix encodes one value of each kind.
type mix struct {
	flag bool
	i    int32
	u    uint32
	l    int64
	m    uint64
	v    []byte
	f    [3]byte
	s    string
}

func newMix(n string) *mix {
	m := &mix{flag: sym.Bool(n), i: sym.I32(n), u: sym.U32(n), l: sym.I64(n), m: sym.U64(n), v: sym.Bytes(n, 0, 40), s: sym.String(n, 0, 40)}
	copy(m.f[:], sym.Bytes(n, 3, 3))
	return m
}

func (m *mix) Xdr(xs *xdr.XdrState) { m.part(xs, 0); m.part(xs, 1); m.part(xs, 2) }

func (m *mix) part(xs *xdr.XdrState, k int) {
	switch k {
	case 0:
		xdr.XdrBool(xs, &m.flag)
		xdr.XdrS32(xs, &m.i)
		xdr.XdrU32(xs, &m.u)
	case 1:
		xdr.XdrS64(xs, &m.l)
		xdr.XdrU64(xs, &m.m)
		xdr.XdrArray(xs, m.f[:])
	case 2:
		xdr.XdrVarArray(xs, 64, &m.v)
		xdr.XdrString(xs, 64, &m.s)
	}
}

func (m *mix) ref(k int) []byte {
	var b []byte
	switch k {
	case 0:
		x := uint64(0)
		x = sym.IteU64(m.flag, 1, 0)
		b = be(b, x, 4)
		b = be(b, uint64(uint32(m.i)), 4)
		b = be(b, uint64(m.u), 4)
	case 1:
		b = be(b, uint64(m.l), 8)
		b = be(b, m.m, 8)
		b = append(b, m.f[0], m.f[1], m.f[2], 0)
	case 2:
		b = ref_var(b, m.v)
		b = ref_var(b, []byte(m.s))
	}
	return b
}

func (m *mix) same(o *mix, k int) {
	switch k {
	case 0:
		sym.Assert(sym.And(m.flag == o.flag, sym.And(m.i == o.i, m.u == o.u)), "decoded words are those of the own input")
	case 1:
		sym.Assert(sym.And(m.l == o.l, m.m == o.m), "decoded hypers are those of the own input")
		sym.BytesEq(m.f[:], o.f[:], "a decoded array is that of the own input")
	case 2:
		sym.BytesEq(m.v, o.v, "decoded opaque data is that of the own input")
		sym.StringEq(m.s, o.s, "a decoded string is that of the own input")
	}
}

// side is what one of two goroutines does with a codec of its own.
func (m *mix) side(k int, dec bool) func() {
	if !dec {
		xs := xdr.MakeWriter(nil)
		return func() {
			m.part(xs, k)
			sym.Assert(xs.Error() == nil, "encoding succeeds")
			sym.BytesEq(xs.WriteBuf(), m.ref(k), "encoded bytes are those of the own value")
		}
	}
	b := m.ref(k)
	return func() {
		var o mix
		rd := xdr.MakeReader(b)
		o.part(rd, k)
		sym.Assert(rd.Error() == nil, "decoding succeeds")
		m.same(&o, k)
		sym.Assert(len(rd.WriteBuf()) == 0, "the own input is consumed")
	}
}

// Two codecs, interleaved between any two statements.
func H_C23_codecs() {
	sym.Preempts(sym.Tier(1, 2))
	a, b := newMix("a"), newMix("b")
	ka := sym.Choose("values", 3)
	kb := ka
	if sym.Tier(0, 1) == 1 {
		kb = sym.Choose("other values", 3)
	}
	fa := a.side(ka, sym.Choose("decode", 2) == 1)
	fb := b.side(kb, sym.Choose("decode", 2) == 1)
	sym.Grain(3)
	sym.Go(fb)
	fa()
	sym.Join()
	sym.Cover("both")
}

// caller is a client with a connection of its own.
type caller struct {
	cn   *conn
	cl   *rfc1057.Client
	proc uint32
	args []byte
	res  []byte
	done bool
}

func newCaller(n string, prog, vers uint32, min, max int) *caller {
	c := &caller{cn: &conn{sched: n}, proc: sym.U32("proc"), args: sym.Bytes("args", min, max), res: sym.Bytes("res", min, max)}
	c.cl = rfc1057.MakeClient(c.cn, prog, vers)
	c.cn.onWr = func(q []byte) {
		sym.Assert(len(q) >= 8, "a request has a header")
		want := append(call_head(0, prog, vers, c.proc), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
		want = append(want, ref_fixed(nil, c.args)...)
		copy(want, q[4:8])
		sym.BytesEq(q, record(want), "a request is that of its own client")
		c.cn.in, c.cn.pos = record(accepted(uint32(unbe(q[4:8])), 0, c.res)), 0
	}
	return c
}

func (c *caller) call() {
	var got rest
	err := c.cl.Call(c.proc, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &raw{b: c.args}, &got)
	sym.Assert(err == nil, "the call succeeds")
	sym.BytesEq(got.b, c.res, "the result is that of the own call")
	sym.Assert(len(c.cn.out) == 1, "each client sends its own request once")
	c.done = true
}

func callers(grain, min, max int) {
	a, b := newCaller("a", sym.U32("prog"), 1, min, max), newCaller("b", sym.U32("prog"), 2, min, max)
	sym.Grain(grain)
	sym.Go(b.call)
	a.call()
	sym.Join()
	sym.Assert(a.done && b.done, "both calls end")
	sym.Cover("both")
}

// Two clients, interleaved between any two statements of the client, or of
// client and codecs.
func H_C23_clients() {
	sym.Preempts(sym.Tier(1, 2))
	callers(1, 0, 64)
}

func H_C23_clientcodecs() {
	sym.Preempts(1)
	callers(3, 8, 8)
}

// host is a server of its own, with a procedure that answers n followed by its
// arguments.
type host struct {
	n    uint32
	cn   *conn
	xid  uint32
	args []byte
	runs int
}

func newHost(name string, n uint32) *host {
	h := &host{n: n, xid: sym.U32("xid"), args: sym.Bytes("args", 8, 8)}
	h.cn = &conn{sched: name, in: record(call_msg(h.xid, 7, 1, 2, h.args))}
	return h
}

func (h *host) serve() {
	srv := rfc1057.MakeServer()
	srv.Register(7, 1, 2, func(args *xdr.XdrState) (xdr.Xdrable, error) {
		h.runs++
		sym.BytesEq(args.WriteBuf(), h.args, "a procedure gets the arguments its server got")
		return &echoed{h.n, h.args}, nil
	})
	srv.Run(h.cn)
}

func (h *host) check() {
	sym.Assert(h.runs == 1, "the procedure of each server runs once")
	sym.Assert(len(h.cn.out) == 1, "each server answers once")
	sym.BytesEq(h.cn.out[0], record(accepted(h.xid, 0, ref_var(be(nil, uint64(h.n), 4), h.args))), "each server answers on its own")
}

// Two servers with the same numbers and different procedures, interleaved
// between any two statements from their creation on.
func H_C23_servers() {
	sym.Preempts(sym.Tier(1, 2))
	a, b := newHost("a", 1), newHost("b", 2)
	sym.Grain(1)
	sym.Go(b.serve)
	a.serve()
	sym.Join()
	a.check()
	b.check()
	sym.Cover("both")
}
