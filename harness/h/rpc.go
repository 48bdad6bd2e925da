package h

import (
	"errors"
	"io"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

var errBroken = errors.New("connection broken")
var errRefused = errors.New("refused")

// conn is a connection: Read delivers in, in pieces of any size as long as
// splits lasts, and then the end; Write records.
type conn struct {
	in      []byte
	queue   [][]byte // follows in
	pos     int
	splits  int
	cut     bool // the connection ends after limit bytes
	limit   int
	resumes bool   // with the rest, after the failure
	after   []byte // delivered after the end has been reported once
	end     error
	out     [][]byte
	tried   [][]byte // given to Write, with or without success
	werr    error
	sched   string // scheduling points, if not empty
	onWr    func(p []byte)
}

func (c *conn) Read(p []byte) (int, error) {
	if c.sched != "" {
		sym.Yield(c.sched + ".read")
	}
	n := len(p)
	if n == 0 {
		return 0, nil
	}
	end := c.end
	if end == nil {
		end = io.EOF
	}
	left := len(c.in) - c.pos
	for left <= 0 && len(c.queue) > 0 {
		c.in, c.queue, c.pos = c.queue[0], c.queue[1:], 0
		left = len(c.in)
	}
	if left <= 0 {
		if c.after != nil {
			c.in, c.pos, c.after = c.after, 0, nil
		}
		return 0, end
	}
	if left < n {
		n = left
	}
	if c.cut {
		if c.limit <= 0 {
			if c.resumes {
				c.cut = false
			}
			return 0, end
		}
		if c.limit < n {
			n = c.limit
		}
	}
	if c.splits > 0 {
		switch sym.Choose("read", 4) {
		case 1: // a part
			c.splits--
			k := sym.Int("part", 1, 1<<17)
			sym.Assume(k <= n)
			n = k
		case 2: // nothing for now
			c.splits--
			return 0, nil
		case 3: // the last bytes together with the end
			c.splits = 0
			sym.Assume(n == left)
			if len(c.queue) > 0 || c.cut {
				sym.Skip()
			}
			copy(p, c.in[c.pos:c.pos+n])
			c.pos += n
			return n, end
		}
	}
	copy(p, c.in[c.pos:c.pos+n])
	c.pos += n
	c.limit -= n
	return n, nil
}

func (c *conn) Write(p []byte) (int, error) {
	if c.sched != "" {
		sym.Yield(c.sched + ".write")
	}
	if c.onWr != nil {
		c.onWr(p)
	}
	c.tried = append(c.tried, append([]byte(nil), p...))
	if c.werr != nil {
		return 0, c.werr
	}
	c.out = append(c.out, c.tried[len(c.tried)-1])
	return len(p), nil
}

// record is body as a single last fragment.
func record(body []byte) []byte {
	return append(be(nil, 1<<31|uint64(len(body)), 4), body...)
}

// call_head is the start of a call message.
func call_head(xid, prog, vers, proc uint32) []byte {
	b := be(nil, uint64(xid), 4)
	b = be(b, 0, 4)
	b = be(b, 2, 4)
	b = be(b, uint64(prog), 4)
	b = be(b, uint64(vers), 4)
	return be(b, uint64(proc), 4)
}

// call_msg is a call without credentials.
func call_msg(xid, prog, vers, proc uint32, args []byte) []byte {
	b := call_head(xid, prog, vers, proc)
	b = append(b, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	return append(b, args...)
}

// accepted is an accepted reply with the given status and what follows it.
func accepted(xid, stat uint32, rest []byte) []byte {
	b := be(nil, uint64(xid), 4)
	b = append(b, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	return append(be(b, uint64(stat), 4), rest...)
}

func denied_version(xid uint32) []byte {
	b := be(nil, uint64(xid), 4)
	return append(b, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 2)
}

// raw is a result of any length, or one that cannot be encoded.
type raw struct {
	b   []byte
	bad bool
}

func (r *raw) Xdr(xs *xdr.XdrState) {
	xdr.XdrArray(xs, r.b)
	if r.bad {
		xs.SetError("no such value")
	}
}

// reg is a registration, and what its procedure does.
type reg struct {
	prog, vers, proc uint32
}

// servedCall is what happened when one decodable call was served.
type servedCall struct {
	m       rfc1057.Rpc_msg
	args    []byte // what follows the call header
	rs      []reg
	want    int    // registration to be invoked, or -1
	reply   []byte // expected, without record header
	calls   []int
	seen    [][]byte
	kind    int
	c       *conn
	tooLong bool
}

// serve registers a few procedures with arbitrary numbers and serves one
// arbitrary decodable call.
func serve(maxRegs int, big int) *servedCall {
	sc := &servedCall{want: -1}
	body := sym.Bytes("call", 0, 1<<16)
	r := &rdr{b: body, focus: focus{all: true}}
	rd_rfc1057_rpc_msg(r, &sc.m)
	if r.bad || r.unspec || sc.m.Body.Mtype != rfc1057.CALL {
		sym.Skip()
	}
	sc.args = body[r.pos:]
	srv := rfc1057.MakeServer()
	n := sym.Choose("registered", maxRegs+1)
	many := sym.Choose("many", 2) == 1
	sc.kind = sym.Choose("result", 5)
	result := &raw{b: sym.Bytes("result", 0, big), bad: sc.kind == 4}
	var prs []xdr.ProcRegistration
	for i := 0; i < n; i++ {
		i := i
		g := reg{sym.U32("prog"), sym.U32("vers"), sym.U32("proc")}
		sc.rs = append(sc.rs, g)
		h := func(args *xdr.XdrState) (xdr.Xdrable, error) {
			sc.calls = append(sc.calls, i)
			sc.seen = append(sc.seen, append([]byte(nil), args.WriteBuf()...))
			switch sc.kind {
			case 1:
				return nil, errRefused
			case 2:
				return result, errRefused
			case 3:
				return nil, nil
			}
			return result, nil
		}
		if many {
			prs = append(prs, xdr.ProcRegistration{Prog: g.prog, Vers: g.vers, Proc: g.proc, Handler: h})
		} else {
			srv.Register(g.prog, g.vers, g.proc, h)
		}
	}
	if many {
		srv.RegisterMany(prs)
	}
	sc.c = &conn{in: record(body)}
	err := srv.Run(sc.c)
	sym.Join()
	sym.Assert(err != nil, "the end of the connection is reported")

	cb := &sc.m.Body.Cbody
	xid := sc.m.Xid
	if cb.Rpcvers != 2 {
		sc.reply = denied_version(xid)
		sym.Cover("denied")
		return sc
	}
	hasProg, hasVers := false, false
	var lo, hi uint32
	for i, g := range sc.rs {
		if g.prog == cb.Prog {
			if !hasProg || g.vers < lo {
				lo = g.vers
			}
			if !hasProg || g.vers > hi {
				hi = g.vers
			}
			hasProg = true
			if g.vers == cb.Vers {
				hasVers = true
				if g.proc == cb.Proc {
					sc.want = i
				}
			}
		}
	}
	switch {
	case !hasProg:
		sc.reply = accepted(xid, 1, nil)
		sym.Cover("no program")
	case !hasVers:
		sc.reply = accepted(xid, 2, be(be(nil, uint64(lo), 4), uint64(hi), 4))
		sym.Cover("no version")
	case sc.want < 0:
		sc.reply = accepted(xid, 3, nil)
		sym.Cover("no procedure")
	case sc.kind == 1 || sc.kind == 2:
		sc.reply = accepted(xid, 4, nil)
		sym.Cover("garbage")
	case sc.kind == 3:
		sc.reply = accepted(xid, 0, nil)
	case sc.kind == 0:
		sc.reply = accepted(xid, 0, ref_fixed(nil, result.b))
		sc.tooLong = len(sc.reply) > 1<<31-1
		sym.Cover("success")
	default: // no reply can be made
		sc.tooLong = true
		sym.Cover("unencodable")
	}
	return sc
}

// procNdc makes arguments and results; only one of them varies in shape.
func procNdc(vary bool) *ndc {
	c := newNdc(1, 1, false)
	if sym.Tier(0, 1) == 1 {
		c = newNdc(2, 2, false)
	}
	if !vary {
		c.thin = 1
	}
	return c
}

// replies2 are the two replies on c, by transaction id.
func replies2(c *conn, xid, xid2 uint32) ([]byte, []byte) {
	sym.Assert(len(c.out) == 2, "each of the two calls is answered once")
	a, b := c.out[0], c.out[1]
	sym.Assert(len(a) >= 8 && len(b) >= 8, "replies are not empty")
	if uint32(unbe(a[4:8])) == xid {
		return a, b
	}
	return b, a
}

// link connects a client to a server: each write is served at once.
type link struct {
	srv  *rfc1057.Server
	back []byte
	sent int
}

func (l *link) Write(p []byte) (int, error) {
	l.sent++
	c := &conn{in: append([]byte(nil), p...)}
	l.srv.Run(c)
	sym.Join()
	for _, o := range c.out {
		l.back = append(l.back, o...)
	}
	return len(p), nil
}

func (l *link) Read(p []byte) (int, error) {
	if len(l.back) == 0 {
		return 0, io.EOF
	}
	n := copy(p, l.back)
	l.back = l.back[n:]
	return n, nil
}
