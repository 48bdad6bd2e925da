package main

import (
	"github.com/zeldovich/go-rpcgen/zz_verif/f/ffs"
	fmt_ "github.com/zeldovich/go-rpcgen/zz_verif/f/format"
	os_ "github.com/zeldovich/go-rpcgen/zz_verif/f/os"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// zzCase is a run of the generator on a specification given as tokens.
type zzCase struct {
	name  string
	toks  []string
	flags []string
	types bool
	bad   bool // a specification that must be refused

	// the reference: what a plainly laid out specification gives when nothing fails
	ok       bool
	out, tou string
}

func (c *zzCase) text(sep string) string {
	s := ""
	for _, t := range c.toks {
		s += t + sep
	}
	return s
}

// zzRun runs the generator and says how it ended.
func zzRun(src []byte, c *zzCase) (how string) {
	ffs.Put("in.x", src).Input = true
	os_.Args = append(append([]string{"go-rpcgen"}, c.flags...), "-i", "in.x", "-o", "out.go")
	if c.types {
		os_.Args = append(os_.Args, "-t", "types.go")
	}
	defer func() {
		if r := recover(); r != nil {
			how = "panic"
			if e, ok := r.(ffs.ExitPanic); ok {
				how = "exit"
				if e.Code == 0 {
					how = "return"
				}
			}
		}
	}()
	zzMain()
	return "return"
}

// zzRef runs a case with no faults; it is called natively.
func zzRef(k int, sep string) (ok bool, out, tou string) {
	c := &zzCases[k]
	ok = zzRun([]byte(c.text(sep)), c) == "return"
	return ok, string(ffs.Lookup("out.go").Data), string(ffs.Lookup("types.go").Data)
}

const zzMark = fmt_.Mark

var _ = sym.Assert
