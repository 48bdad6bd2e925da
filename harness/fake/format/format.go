// Package format stands in for go/format: it marks the text as formatted, or
// finds it malformed.
package format

import (
	"errors"

	"github.com/zeldovich/go-rpcgen/zz_verif/f/ffs"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

const Mark = "//formatted\n"

// OnDone is told every text that was found well-formed.
var OnDone func(src []byte)

// MayReject allows a text to be found malformed.
var MayReject bool

var Rejected bool

func Source(src []byte) ([]byte, error) {
	if MayReject && !ffs.Frozen && sym.Choose("malformed", 2) == 1 {
		Rejected = true
		return nil, errors.New("malformed")
	}
	if OnDone != nil {
		OnDone(src)
	}
	return append([]byte(Mark), src...), nil
}
