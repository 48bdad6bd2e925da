ID='varbytes-prealloc'; PROP='C08'
NEEDS='input that claims a large opaque length without carrying it'
BREAKS='decoding opaque data allocates the claimed length before looking at the input'
EDITS=[('xdr/lib.go','''		*v = xdrR(xs, sz)
	}

	if len(*v)%4''','''		if maxlen >= 0 {
			*v = xdrR(xs, sz)
		} else {
			data := make([]byte, sz)
			xdrRW(xs, data)
			*v = data
		}
	}

	if len(*v)%4''')]
MAIN='''package main

import (
	"fmt"
	"os"
	"runtime"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	r := xdr.MakeReader([]byte{0x08, 0, 0, 0})
	var v []byte
	xdr.XdrVarArray(r, -1, &v)
	runtime.ReadMemStats(&b)
	if r.Error() == nil || b.TotalAlloc-a.TotalAlloc > 1<<24 {
		fmt.Println("allocated", b.TotalAlloc-a.TotalAlloc, "for 4 bytes of input")
		os.Exit(1)
	}
}
'''
