package main

import (
	"github.com/zeldovich/go-rpcgen/zz_verif/f/ffs"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// zzAgain: whatever is in the files before, and in whatever order maps are
// walked and whatever the clock and the environment say, the output is the same.
func zzAgain(c *zzCase) {
	ffs.Lookup("out.go").Output = true
	if sym.Choose("old", 2) == 1 {
		ffs.Put("out.go", sym.Bytes("old", 0, 1<<16))
		if c.types {
			ffs.Put("types.go", sym.Bytes("oldtypes", 0, 1<<16))
		}
	}
	ffs.Vary = true
	how := zzRun(zzJoin(c.toks), c)
	sym.Assert((how == "return") == c.ok, "the same text is accepted or refused the same way")
	if how == "return" && c.ok {
		sym.StringEq(string(ffs.Lookup("out.go").Data), c.out, "the same text gives the same code")
		if c.types {
			sym.StringEq(string(ffs.Lookup("types.go").Data), c.tou, "the same text gives the same types")
		}
		sym.Cover("accepted")
	}
}
