ID='semicolon-at-end'; PROP='C21'
NEEDS='an identifier with a letter outside ASCII or a stray character in front of a definition'
BREAKS='a text whose last definition is not closed is accepted: the end of the file counts as a semicolon after a typedef'
EDITS=[('scan.go','''	if tok == token.EOF {
		return eof
	}
''','''	if tok == token.EOF {
		if !l.ended {
			l.ended = true
			if l.last == '}' {
				return ';'
			}
		}
		return eof
	}
'''),('scan.go','''	case token.RBRACE:
		return '}'
''','''	case token.RBRACE:
		l.last = '}'
		return '}'
'''),('scan.go','''	case token.SEMICOLON:
		return ';'
''','''	case token.SEMICOLON:
		l.last = ';'
		return ';'
'''),('scan.go','''type lexer struct {
	s scanner.Scanner
''','''type lexer struct {
	s     scanner.Scanner
	last  int
	ended bool
''')]
NEEDS='a specification whose last structure, union or enumeration lacks its semicolon'
DEMO={'demo.sh':GEN+'''
echo 'struct s { int a; }; enum e { A = 1 };' >good.x
./gen -i good.x -o good.go || exit 3
for b in 'struct s { int a; }' 'struct s { int a; }; enum e { A = 1 }' 'union u switch (int d) { case 1: void; }' 'const A = 1' 'struct s { int a; '; do
	echo "$b" >bad.x
	if ./gen -i bad.x -o out.go >/dev/null 2>&1; then echo "accepted: $b"; exit 1; fi
done
exit 0
'''}
