ID='list-limit-exclusive'; PROP='C18'
NEEDS='a list with a limit that holds exactly as many entries as the limit allows'
BREAKS='emitted code refuses lists of exactly the declared maximum length'
EDITS=[('out.go','if uint64(__arraysz) > uint64(%s)','if uint64(__arraysz) >= uint64(%s)')]
DEMO={'demo.sh':GEN+'''
cat >s.x <<'X'
typedef int ints<3>;
struct holder { hyper h<1>; };
X
./gen -i s.x -o out.go || exit 3
mkdir -p d
cp out.go d/out.go
cp "$here/main.go.txt" d/main.go
cat >o.json <<X
{"Replace": {"$repo/zz_demo/out.go": "$t/d/out.go", "$repo/zz_demo/main.go": "$t/d/main.go"}}
X
cd "$repo" && timeout 200 go run -overlay "$t/o.json" ./zz_demo || exit 1
'''}
MAIN='''package main

import (
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	for n := 0; n <= 5; n++ {
		v := make(Ints, n)
		b, err := xdr.EncodeBuf(&v)
		if (err == nil) != (n <= 3) {
			fmt.Println("encoding", n, "of 3:", err)
			os.Exit(1)
		}
		if err == nil {
			var w Ints
			if err := xdr.DecodeBuf(b, &w); err != nil || len(w) != n {
				fmt.Println("decoding", n, "of 3:", err)
				os.Exit(1)
			}
		}
	}
	h := Holder{[]int64{5}}
	if _, err := xdr.EncodeBuf(&h); err != nil {
		fmt.Println("encoding 1 of 1:", err)
		os.Exit(1)
	}
}
'''
