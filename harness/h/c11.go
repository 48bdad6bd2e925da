package h

import "github.com/zeldovich/go-rpcgen/zz_verif/sym"

// One arbitrary call against arbitrary registrations: what runs.
func H_C11_dispatch() {
	sc := serve(sym.Tier(2, 3), 1<<10)
	if sc.want < 0 {
		sym.Assert(len(sc.calls) == 0, "nothing runs for a call that is not served")
		return
	}
	sym.Assert(len(sc.calls) == 1, "exactly one procedure runs, once")
	sym.Assert(sc.calls[0] == sc.want, "the procedure registered last for the call's numbers runs")
	sym.BytesEq(sc.seen[0], sc.args, "it is given what follows the call header")
	if sc.kind == 0 {
		sym.Assert(len(sc.c.out) == 1, "one reply")
		sym.BytesEq(sc.c.out[0], record(sc.reply), "the reply carries the procedure's result")
		sym.Cover("result")
	}
}
