ID='temp-left'; PROP='C19'
NEEDS='a run with separate types that fails after the temporary files were created'
BREAKS='the temporary file of the types is only removed when the run succeeds'
EDITS=[('main.go','		defer os.Remove(toutTmp)\n',''),
('main.go','	writeOut(*outputFile, buf)\n}','	writeOut(*outputFile, buf)\n	if toutTmp != "" {\n		os.Remove(toutTmp)\n	}\n}')]
DEMO={'demo.sh':GEN+'''
echo 'struct s { int a' >bad.x
echo 'struct s { int a; };' >good.x
./gen -i bad.x -o out.go -t types.go >/dev/null 2>&1 && exit 3
if ls | grep -q tmp; then echo "left behind: $(ls | grep tmp)"; exit 1; fi
./gen -i good.x -o out.go -t types.go || { echo "next run fails"; exit 1; }
if ls | grep -q tmp; then echo "left behind: $(ls | grep tmp)"; exit 1; fi
exit 0
'''}
