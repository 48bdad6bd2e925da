package main

import (
	"github.com/zeldovich/go-rpcgen/zz_verif/f/ffs"
	fmt_ "github.com/zeldovich/go-rpcgen/zz_verif/f/format"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// zzWatch asserts what may happen to files while the generator runs on a
// specification whose complete text is known.
func zzWatch(c *zzCase) {
	// outputs of an earlier run
	ffs.Lookup("out.go").Output = true
	if sym.Choose("old", 2) == 1 {
		ffs.Put("out.go", sym.Bytes("old", 1, 64))
		if c.types {
			ffs.Put("types.go", sym.Bytes("oldtypes", 1, 64))
		}
	}
	if c.types {
		ffs.Lookup("types.go").Output = true
	}
	doneOut, doneTypes := false, !c.types
	fmt_.OnDone = func(src []byte) {
		s := fmt_.Mark + string(src)
		if c.ok && s == c.out {
			doneOut = true
		}
		if c.ok && c.types && s == c.tou {
			doneTypes = true
		}
	}
	ffs.OnChange = func(n *ffs.Node) {
		if n.Output {
			sym.Assert(c.ok, "no output is made from a specification that is refused")
			sym.Assert(doneOut && doneTypes, "outputs are changed only after the complete text was found well-formed")
			return
		}
		sym.Assert(!n.Exists || n.Mine, "only files of this run are changed")
	}
}

// zzPrefix: got is the beginning of want.
func zzPrefix(got []byte, want string, label string) {
	sym.Assert(len(got) <= len(want), label)
	if len(got) > len(want) {
		return
	}
	sym.StringEq(string(got), want[:len(got)], label)
}

func zzAfter(c *zzCase, how string) {
	for _, n := range ffs.Nodes {
		if n.Mine && n.Exists && !n.Output {
			sym.Assert(ffs.RemoveFailed, "no temporary file is left")
		}
	}
	o, t := ffs.Lookup("out.go"), ffs.Lookup("types.go")
	if how == "return" {
		sym.Cover("success")
		sym.Assert(c.ok, "a specification that is refused is reported")
		sym.Assert(o.Exists && (!c.types || t.Exists), "a run that succeeds makes its outputs")
		sym.StringEq(string(o.Data), c.out, "a run that succeeds writes the complete text")
		if c.types {
			sym.StringEq(string(t.Data), c.tou, "a run that succeeds writes the complete types")
		}
		return
	}
	sym.Cover("failure")
}

// zzFaults: every outcome of every file operation and of the format step.
func zzFaults(c *zzCase, faults int) {
	changed := map[string]bool{}
	zzWatch(c)
	w := ffs.OnChange
	ffs.OnChange = func(n *ffs.Node) {
		w(n)
		if n.Output {
			changed[n.Name] = true
		}
	}
	ffs.Faults = faults
	ffs.Strangers = true
	fmt_.MayReject = true
	how := zzRun([]byte(c.text(" ")), c)
	ffs.OnChange = nil
	if changed["out.go"] {
		zzPrefix(ffs.Lookup("out.go").Data, c.out, "an output is written from the complete text")
	}
	if changed["types.go"] {
		zzPrefix(ffs.Lookup("types.go").Data, c.tou, "an output is written from the complete text")
	}
	zzAfter(c, how)
}

func H_C19_faults() {
	c := &zzCases[sym.Choose("case", zzFaultCases)]
	zzFaults(c, sym.Tier(1, 2))
}

// H_C19_damaged: a specification cut anywhere, or with one byte changed.
func H_C19_damaged() {
	c := zzCases[sym.Choose("case", 2)]
	src := []byte(c.text(" "))
	at := sym.Choose("at", len(src))
	if sym.Choose("how", 2) == 0 {
		src = src[:at]
	} else {
		b := sym.U8("byte")
		sym.Assume(b < 128 && !(b >= '0' && b <= '9') && !(b >= 'a' && b <= 'z') && !(b >= 'A' && b <= 'Z') && b != '_')
		src[at] = b
	}
	touched := false
	ffs.Lookup("out.go").Output = true
	ffs.Lookup("types.go").Output = c.types
	ffs.Put("out.go", []byte("old"))
	ffs.Put("types.go", []byte("old"))
	ffs.OnChange = func(n *ffs.Node) {
		if n.Output {
			touched = true
			return
		}
		sym.Assert(!n.Exists || n.Mine, "only files of this run are changed")
	}
	how := zzRun(src, &c)
	for _, n := range ffs.Nodes {
		sym.Assert(!n.Exists || !n.Mine || n.Output, "no temporary file is left")
	}
	sym.Assert(how == "return" || !touched, "a specification that is refused leaves the outputs alone")
	if how == "return" {
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}
