ID='case-value-first'; PROP='C18'
NEEDS='a union arm shared by three or more case labels'
BREAKS='of an arm shared by several labels only the first and the last select it; the ones between select nothing'
EDITS=[('out.go','			if idx != len(c.cases)-1 {\n				res += "fallthrough\\n"','			if idx == len(c.cases)-2 || idx == 0 && len(c.cases) < 3 {\n				res += "fallthrough\\n"')]
DEMO={'demo.sh':GEN+'''
cat >s.x <<'X'
union u switch (int d) { case 1: case 2: case 3: int a; default: void; };
X
./gen -i s.x -o out.go || exit 3
mkdir -p d
cp out.go d/out.go
cp "$here/main.go.txt" d/main.go
cat >o.json <<X
{"Replace": {"$repo/zz_demo/out.go": "$t/d/out.go", "$repo/zz_demo/main.go": "$t/d/main.go"}}
X
cd "$repo" && timeout 200 go run -overlay "$t/o.json" ./zz_demo || exit 1
'''}
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	for d := int32(0); d < 5; d++ {
		v := U{D: d, A: 7}
		b, err := xdr.EncodeBuf(&v)
		n := 4
		if d >= 1 && d <= 3 {
			n = 8
		}
		if err != nil || len(b) != n {
			fmt.Println("discriminant", d, "gives", len(b), "bytes", err)
			os.Exit(1)
		}
	}
}
'''
