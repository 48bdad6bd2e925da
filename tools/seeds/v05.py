ID='unset-sets'; PROP='C16'
NEEDS='a call of the portmapper\'s UNSET procedure'
BREAKS='a remote UNSET runs the SET procedure of the handler'
EDITS=[('rfc1057/xdr.go','	out = w.h.PMAPPROC_UNSET(in)','	out = w.h.PMAPPROC_SET(in)')]
MAIN='''package main

import (
	"fmt"
	"net"
	"os"

	"github.com/zeldovich/go-rpcgen/rfc1057"
)

type pmap struct{ last string }

func (p *pmap) PMAPPROC_NULL()                                              {}
func (p *pmap) PMAPPROC_SET(rfc1057.Mapping) rfc1057.Xbool                  { p.last = "set"; return true }
func (p *pmap) PMAPPROC_UNSET(rfc1057.Mapping) rfc1057.Xbool                { p.last = "unset"; return true }
func (p *pmap) PMAPPROC_GETPORT(rfc1057.Mapping) rfc1057.Uint32             { p.last = "getport"; return 1 }
func (p *pmap) PMAPPROC_DUMP() (r rfc1057.Pmaplist)                         { return }
func (p *pmap) PMAPPROC_CALLIT(rfc1057.Call_args) (r rfc1057.Call_result)   { return }

func main() {
	a, b := net.Pipe()
	s := rfc1057.MakeServer()
	p := &pmap{}
	s.RegisterMany(rfc1057.PMAP_PROG_PMAP_VERS_regs(p))
	go s.Run(b)
	c := rfc1057.MakeClient(a, rfc1057.PMAP_PROG, rfc1057.PMAP_VERS)
	for proc, want := range map[uint32]string{1: "set", 2: "unset", 3: "getport"} {
		var m rfc1057.Mapping
		var r rfc1057.Uint32
		var none rfc1057.Opaque_auth
		if err := c.Call(proc, none, none, &m, &r); err != nil || p.last != want {
			fmt.Println("procedure", proc, "ran", p.last, err)
			os.Exit(1)
		}
	}
}
'''
