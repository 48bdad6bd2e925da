ID='types-written-early'; PROP='C19'
NEEDS='a run with separate types whose main output cannot be formatted or read back'
BREAKS='the types file is replaced before the other output is known to be complete'
EDITS=[('main.go','''	buf := refmt(outTmp)

	if *typesFile != "" {
		toutf.Close()
		writeOut(*typesFile, refmt(toutTmp))
	}

	writeOut(*outputFile, buf)
''','''	if *typesFile != "" {
		toutf.Close()
		writeOut(*typesFile, refmt(toutTmp))
	}

	writeOut(*outputFile, refmt(outTmp))
''')]
DEMO={'demo.sh':GEN+'''
cat >good.x <<'X'
const N = 3;
struct s { int a<N>; };
X
cat >bad.x <<'X'
const N = 4;
struct s { int a<08>; };
X
# the formatter refuses 08, which is only in the main output
./gen -i good.x -o out.go -t types.go || exit 3
cp types.go types.old
cp out.go out.old
for f in bad.x; do
	./gen -i $f -o out.go -t types.go >/dev/null 2>&1 || cmp -s types.go types.old || { echo "failed run on $f changed the types"; exit 1; }
	cp types.old types.go; cp out.old out.go
done
exit 0
'''}
