package main

import (
	"github.com/zeldovich/go-rpcgen/zz_verif/f/ffs"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

func zzSpace(name string) byte {
	b := sym.U8(name)
	sym.Assume(sym.Or(sym.Or(b == ' ', b == '\t'), sym.Or(b == '\n', b == '\r')))
	return b
}

func zzWord(t string, last bool) bool {
	b := t[0]
	if last {
		b = t[len(t)-1]
	}
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// zzSep is a separator.
// At boundaries that are not deep, quick leaves out the longest ones.
func zzSep(kind int, touch, last, deep bool) []byte {
	less := 1
	if deep || sym.Tier(0, 1) == 1 {
		less = 0
	}
	var s []byte
	switch kind {
	case 0: // white space
		n := 1 + sym.Choose("spaces", sym.Tier(2, 3)-less)
		for i := 0; i < n; i++ {
			s = append(s, zzSpace("space"))
		}
	case 1: // nothing
		if !touch {
			sym.Skip()
		}
	case 2: // a block comment, with nothing or white space around it
		n := sym.Choose("comment", sym.Tier(3, 5)-less)
		k := 0
		if n == 0 || sym.Tier(0, 1) == 1 {
			k = sym.Choose("around", 3)
		}
		if k == 1 {
			s = append(s, zzSpace("space"))
		}
		s = append(s, "/*"...)
		var p byte
		for i := 0; i < n; i++ {
			b := sym.U8("text")
			sym.Assume(sym.Not(sym.And(p == '*', b == '/')))
			s = append(s, b)
			p = b
		}
		s = append(s, "*/"...)
		if k == 2 {
			s = append(s, zzSpace("space"))
		}
	case 3: // a line comment
		n := sym.Choose("comment", sym.Tier(3, 4)-less)
		k := 0
		if n == 0 || sym.Tier(0, 1) == 1 {
			k = sym.Choose("around", 3)
		}
		if k == 1 {
			s = append(s, zzSpace("space"))
		}
		s = append(s, "//"...)
		for i := 0; i < n; i++ {
			b := sym.U8("text")
			sym.Assume(b != '\n')
			s = append(s, b)
		}
		if last && sym.Choose("end", 2) == 1 {
			return s
		}
		s = append(s, '\n')
		if k == 2 {
			s = append(s, zzSpace("space"))
		}
	case 4: // comments that mean something to the Go scanner
		if sym.Choose("line", 2) == 0 {
			s = append(s, "\n//line x.go:7\n"...)
		} else {
			s = append(s, "/*line x.go:7:3*/"...)
		}
	}
	return s
}

// zzLayout lays the specification out with any separator at one or two
// boundaries and a plain one at the others.
func zzLayout(c *zzCase, n int) {
	at := sym.Choose("at", len(c.toks)+1)
	kind := sym.Choose("kind", 5)
	if sym.Tier(0, 1) == 0 {
		if c.types && kind != at%5 || kind == 2+at%2 {
			sym.Skip()
		}
	}
	// the other boundaries; quick does not combine every base with every kind
	bases := []string{" ", "\n", "", "\r\n"}
	base := bases[(at+at/5+kind)%3]
	if sym.Tier(0, 1) == 1 {
		base = bases[sym.Choose("base", 4)]
	}
	at2 := -1
	if n == 2 {
		at2 = at + 1
		if at2 > len(c.toks) {
			sym.Skip()
		}
	}
	var src []byte
	for i := 0; i <= len(c.toks); i++ {
		touch := i == 0 || i == len(c.toks) || !zzWord(c.toks[i-1], true) || !zzWord(c.toks[i], false)
		switch {
		case i == at:
			src = append(src, zzSep(kind, touch, i == len(c.toks), at%12 == 0 || kind == 2 && at%12 == 7)...)
		case i == at2:
			src = append(src, zzSep(sym.Choose("kind", 5), touch, i == len(c.toks), at%12 < 1)...)
		case base == "" && !touch:
			src = append(src, ' ')
		default:
			src = append(src, base...)
		}
		if i < len(c.toks) {
			src = append(src, c.toks[i]...)
		}
	}
	how := zzRun(src, c)
	sym.Assert((how == "return") == c.ok, "the layout does not decide whether a specification is accepted")
	if how == "return" && c.ok {
		sym.StringEq(string(ffs.Lookup("out.go").Data), c.out, "the layout does not change what is emitted")
		if c.types {
			sym.StringEq(string(ffs.Lookup("types.go").Data), c.tou, "the layout does not change the types emitted")
		}
		sym.Cover("accepted")
	}
}
