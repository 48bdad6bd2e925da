ID='register-many-runs'; PROP='C11'
NEEDS='RegisterMany with registrations of one program whose versions alternate'
BREAKS='RegisterMany files a registration under the version of the one before it when the program is the same and the version goes down'
EDITS=[('rfc1057/server.go','''	for _, r := range regs {
		s.Register(r.Prog, r.Vers, r.Proc, r.Handler)
	}''','''	var prog, vers uint32
	for i, r := range regs {
		if i == 0 || r.Prog != prog || r.Vers > vers {
			prog, vers = r.Prog, r.Vers
		}
		s.Register(prog, vers, r.Proc, r.Handler)
	}''')]
MAIN='''package main

import (
	"fmt"
	"net"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	h := func(n uint32) func(*xdr.XdrState) (xdr.Xdrable, error) {
		return func(*xdr.XdrState) (xdr.Xdrable, error) {
			r := xdr.Uint32(n)
			return &r, nil
		}
	}
	s := rfc1057.MakeServer()
	s.RegisterMany([]xdr.ProcRegistration{
		{Prog: 7, Vers: 2, Proc: 1, Handler: h(2)},
		{Prog: 7, Vers: 1, Proc: 1, Handler: h(1)},
	})
	a, b := net.Pipe()
	go s.Run(a)
	var none rfc1057.Opaque_auth
	for v := uint32(1); v <= 2; v++ {
		c := rfc1057.MakeClient(b, 7, v)
		var r xdr.Uint32
		if err := c.Call(1, none, none, &xdr.Void{}, &r); err != nil || uint32(r) != v {
			fmt.Println("version", v, "answered", r, err)
			os.Exit(1)
		}
	}
}
'''
