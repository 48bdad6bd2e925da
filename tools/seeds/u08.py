ID='arms-by-map'; PROP='C22'
NEEDS='a structure with two or more fields, and an unlucky iteration order'
BREAKS='the registrations of a program are collected in a map by procedure number, so their order varies from run to run'
EDITS=[('out.go','''		for _, c := range v.calls {
			fmt.Fprintf(out, "xdr.ProcRegistration{\\n")''','''		byId := map[string]progCall{}
		for _, c := range v.calls {
			byId[c.name] = c
		}
		for _, c := range byId {
			fmt.Fprintf(out, "xdr.ProcRegistration{\\n")''')]
NEEDS='a program version with two or more procedures, and an unlucky map order'
DEMO={'demo.sh':GEN+'''
cat >s.x <<'X'
program P { version V { void A(void) = 0; void B(void) = 1; void C(void) = 2; void D(void) = 3; } = 1; } = 7;
X
./gen -i s.x -o first.go || exit 3
for k in $(seq 40); do
	./gen -i s.x -o again.go || exit 3
	cmp -s first.go again.go || { echo "two runs differ"; exit 1; }
done
exit 0
'''}
