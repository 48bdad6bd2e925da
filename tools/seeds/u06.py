ID='trailing-comma'; PROP='C21'
NEEDS='an enum body that ends in a comma'
BREAKS='an enumeration may end in a comma, which RFC 4506 does not allow'
EDITS=[('xdr.y',"enumbody: '{' enumitems '}'\n  { $$ = $2 }\n","enumbody: '{' enumitems '}'\n  { $$ = $2 }\n| '{' enumitems ',' '}'\n  { $$ = $2 }\n")]
DEMO={'demo.sh':GEN+'''
echo 'enum e { A = 1, B = 2 };' >good.x
./gen -i good.x -o good.go || exit 3
for b in 'enum e { A = 1, B = 2, };' 'enum e { A = 1, };' 'enum e { , A = 1 };' 'enum e { A = 1 B = 2 };'; do
	echo "$b" >bad.x
	if ./gen -i bad.x -o out.go >/dev/null 2>&1; then echo "accepted: $b"; exit 1; fi
done
exit 0
'''}
