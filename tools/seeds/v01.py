ID='percent-lines'; PROP='C20'
NEEDS='a block comment that ends on a line starting with a percent sign'
BREAKS='lines that start with % are dropped before scanning, also inside comments, so a comment can lose its end'
EDITS=[('main.go','	f := fset.AddFile(*inputFile, -1, len(src))','''	lines := strings.Split(string(src), "\\n")
	kept := lines[:0]
	for _, l := range lines {
		if !strings.HasPrefix(l, "%") {
			kept = append(kept, l)
		}
	}
	src = []byte(strings.Join(kept, "\\n"))
	f := fset.AddFile(*inputFile, fset.Base(), len(src))'''),('main.go','	"os"\n)','	"os"\n	"strings"\n)')]
DEMO={'demo.sh':GEN+'''
printf 'const A = 1; const B = 2;\\n' >plain.x
printf 'const A = 1; /* note\\n%% done */ const B = 2;\\n' >laid.x
printf 'const A = 1; /*\\n%%%% x\\n */ const B = 2;\\n' >laid2.x
./gen -i plain.x -o plain.go || exit 3
for f in laid laid2; do
	./gen -i $f.x -o $f.go >/dev/null 2>&1 || { echo "a comment is refused"; exit 1; }
	cmp -s plain.go $f.go || { echo "a comment changes the output"; exit 1; }
done
exit 0
'''}
