package h

import (
	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// A stream of records, cut anywhere and read in any pieces.
func H_C17_stream() {
	n := sym.Choose("records", sym.Tier(4, 5))
	cn := &conn{splits: sym.Tier(1, 2)}
	if n < 3 {
		cn.splits++
	} else {
		sym.Preempts(-1) // procedures run in order
	}
	total := 0
	ends := []int{}
	args := [][]byte{}
	kinds := []int{}
	odd := sym.Choose("odd", n+1) - 1 // the record that is not a call
	bad := n                          // first record with a header that is not a last fragment
	for i := 0; i < n; i++ {
		k := 0
		if i == odd {
			k = sym.Choose("kind", 2) + 1
		}
		var rec []byte
		switch k {
		case 0: // a call
			args = append(args, sym.Bytes("args", 0, 1<<16))
			rec = record(call_msg(uint32(i), 7, 1, uint32(i), args[i]))
		case 1: // something that is not a call
			args = append(args, sym.Bytes("junk", 0, 3))
			rec = record(args[i])
		case 2: // no last fragment
			args = append(args, nil)
			if bad == n {
				bad = i
			}
			b := call_msg(uint32(i), 7, 1, uint32(i), nil)
			rec = append(be(nil, uint64(len(b)), 4), b...)
		}
		kinds = append(kinds, k)
		cn.queue = append(cn.queue, rec)
		total += len(rec)
		ends = append(ends, total)
	}
	cut, broken := 0, false
	if sym.Choose("cut", 2) == 1 {
		cut = sym.Int("cut", 0, 1<<19)
		sym.Assume(cut < total)
		broken = true
		cn.cut, cn.limit = true, cut
		cn.resumes = n < sym.Tier(3, 5) && sym.Choose("resumes", 2) == 1
	}
	srv := rfc1057.MakeServer()
	seen := make([][][]byte, n)
	for i := 0; i < n; i++ {
		i := i
		srv.Register(7, 1, uint32(i), func(a *xdr.XdrState) (xdr.Xdrable, error) {
			seen[i] = append(seen[i], append([]byte(nil), a.WriteBuf()...))
			return &xdr.Void{}, nil
		})
	}
	if sym.Choose("end", 2) == 1 {
		cn.end = errBroken
	}
	err := srv.Run(cn)
	sym.Join()
	sym.Assert(err != nil, "the end of the connection is an error")
	calls := 0
	for i := 0; i < n; i++ {
		if i >= bad || kinds[i] != 0 || broken && ends[i] > cut {
			sym.Assert(len(seen[i]) == 0, "nothing is made of an incomplete record or what follows it")
			continue
		}
		sym.Assert(len(seen[i]) == 1, "a complete record is handled once")
		sym.BytesEq(seen[i][0], args[i], "with its bytes")
		calls++
		sym.Cover("handled")
	}
	sym.Assert(len(cn.out) == calls, "one reply for each call")
}

// Any bytes as a header.
func H_C17_header() {
	h := sym.U32("header")
	body := sym.Bytes("body", 0, 12)
	srv := rfc1057.MakeServer()
	ran := 0
	srv.Register(7, 1, 0, func(a *xdr.XdrState) (xdr.Xdrable, error) {
		ran++
		return &xdr.Void{}, nil
	})
	call := record(call_msg(1, 7, 1, 0, nil))
	cn := &conn{in: call, queue: [][]byte{append(be(nil, uint64(h), 4), body...), call, call}}
	last := h >= 1<<31
	if last {
		sym.Assume(int(h&(1<<31-1)) == len(body))
	}
	err := srv.Run(cn)
	sym.Join()
	sym.Assert(err != nil, "the end of the connection is an error")
	if !last {
		sym.Assert(ran == 1 && len(cn.out) == 1, "no record is handled after a header without the last fragment bit")
		sym.Cover("no last fragment")
		return
	}
	sym.Assert(ran == 3 && len(cn.out) == 3, "records are handled after one that means nothing")
	sym.Cover("next")
}

// Records of any length that a header can express.
func H_C17_long() {
	a := sym.Bytes("args", 0, 1<<31-41)
	srv := rfc1057.MakeServer()
	ran := 0
	srv.Register(7, 1, 0, func(x *xdr.XdrState) (xdr.Xdrable, error) {
		ran++
		sym.BytesEq(x.WriteBuf(), a, "with its bytes")
		return &xdr.Void{}, nil
	})
	next := 0
	srv.Register(7, 1, 1, func(x *xdr.XdrState) (xdr.Xdrable, error) {
		next++
		sym.Assert(len(x.WriteBuf()) == 0, "with its bytes")
		return &xdr.Void{}, nil
	})
	cn := &conn{in: record(call_msg(1, 7, 1, 0, a)), queue: [][]byte{record(call_msg(2, 7, 1, 1, nil))}}
	srv.Run(cn)
	sym.Join()
	sym.Assert(ran == 1 && next == 1, "a complete record is handled once")
	sym.Cover("long")
}
