package h

import (
	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// flight is requests in flight: request i calls procedure i, which returns its
// own arguments, still in the request's buffer.
type flight struct {
	srv  *rfc1057.Server
	xid  []uint32
	args [][]byte
	seen [][]byte
	runs []int
}

type echoed struct {
	i uint32
	p []byte
}

func (r *echoed) Xdr(xs *xdr.XdrState) {
	sym.Yield("result")
	xdr.XdrU32(xs, &r.i)
	xdr.XdrVarArray(xs, -1, &r.p)
	sym.Yield("resulted")
}

func newFlight(n, max int) *flight {
	f := &flight{srv: rfc1057.MakeServer(), seen: make([][]byte, n), runs: make([]int, n)}
	for i := 0; i < n; i++ {
		i := i
		f.xid = append(f.xid, sym.U32("xid"))
		f.args = append(f.args, sym.Bytes("args", 0, max))
		f.srv.Register(7, uint32(i), uint32(i), func(args *xdr.XdrState) (xdr.Xdrable, error) {
			f.runs[i]++
			f.seen[i] = args.WriteBuf()
			sym.BytesEq(f.seen[i], f.args[i], "arguments when the procedure starts")
			sym.Yield("working")
			sym.BytesEq(f.seen[i], f.args[i], "arguments while the procedure runs")
			return &echoed{uint32(i), f.seen[i]}, nil
		})
	}
	return f
}

func (f *flight) record(i int) []byte {
	return record(call_msg(f.xid[i], 7, uint32(i), uint32(i), f.args[i]))
}

// check is called with what is written, and tells whose reply it is.
func (f *flight) check(p []byte) int {
	sym.Assert(len(p) >= 32, "a reply is a whole record in a single write")
	i := int(unbe(p[28:32]))
	sym.Assert(i < len(f.xid), "a reply carries a result of one of the procedures")
	sym.BytesEq(f.seen[i], f.args[i], "arguments when the reply is written")
	b := be(nil, uint64(i), 4)
	sym.BytesEq(p, record(accepted(f.xid[i], 0, ref_var(b, f.args[i]))), "a reply carries its request's transaction id and result")
	return i
}

func (f *flight) conn(name string, is []int) *conn {
	cn := &conn{sched: name}
	for _, i := range is {
		cn.queue = append(cn.queue, f.record(i))
	}
	got := make([]int, len(f.xid))
	cn.onWr = func(p []byte) {
		i := f.check(p)
		got[i]++
		mine := false
		for _, j := range is {
			if i == j {
				mine = true
			}
		}
		sym.Assert(mine, "a reply goes to the connection of its request")
		sym.Assert(got[i] == 1, "a request is answered once")
	}
	return cn
}

func (f *flight) done(n int, cs ...*conn) {
	k := 0
	for _, c := range cs {
		k += len(c.out)
	}
	sym.Assert(k == n, "every request is answered")
	for _, r := range f.runs {
		sym.Assert(r == 1, "every procedure runs once")
	}
}

// Requests on one connection; they are interleaved where they read, write and
// run their procedures.
func H_C13_one() {
	n := 2
	if sym.Choose("requests", 2) == 1 {
		n = sym.Tier(3, 4)
		sym.Preempts(sym.Tier(1, 2))
	}
	f := newFlight(n, 64)
	is := make([]int, n)
	for i := range is {
		is[i] = i
	}
	c := f.conn("c", is)
	f.srv.Run(c)
	sym.Join()
	f.done(n, c)
	sym.Cover("answered")
}

// Requests on two connections.
func H_C13_two() {
	n := 2
	is, js := []int{0}, []int{1}
	if sym.Tier(0, 1) == 1 {
		n, is = 3, []int{0, 2}
	}
	f := newFlight(n, 64)
	c, d := f.conn("c", is), f.conn("d", js)
	sym.Go(func() { f.srv.Run(c) })
	f.srv.Run(d)
	sym.Join()
	f.done(n, c, d)
	sym.Cover("answered")
}

// The same, interleaved between any two statements of the server.
func H_C13_steps() {
	sym.Preempts(sym.Tier(1, 2))
	f := newFlight(2, 8)
	sym.Grain(1)
	var c, d *conn
	if sym.Choose("connections", 2) == 0 {
		c, d = f.conn("c", []int{0, 1}), &conn{}
		f.srv.Run(c)
	} else {
		c, d = f.conn("c", []int{0}), f.conn("d", []int{1})
		sym.Go(func() { f.srv.Run(c) })
		f.srv.Run(d)
	}
	sym.Join()
	f.done(2, c, d)
	sym.Cover("answered")
}

// The same, between any two statements of the server and of the codecs.
func H_C13_codec() {
	sym.Preempts(1)
	f := newFlight(2, 8)
	c := f.conn("c", []int{0, 1})
	sym.Grain(3)
	f.srv.Run(c)
	sym.Join()
	f.done(2, c)
	sym.Cover("answered")
}
