package h

import "github.com/zeldovich/go-rpcgen/zz_verif/sym"

// One arbitrary call against arbitrary registrations: the reply.
func H_C10_reply() {
	sc := serve(sym.Tier(2, 3), 1<<33)
	if sc.tooLong {
		sym.Assert(len(sc.c.out) == 0, "a result that cannot be sent is not sent")
		return
	}
	sym.Assert(len(sc.c.out) == 1, "exactly one reply, in one write")
	sym.BytesEq(sc.c.out[0], record(sc.reply), "reply record")
	sym.Obs("stat", uint64(len(sc.reply)))
}
