package main

import (
	"github.com/zeldovich/go-rpcgen/zz_verif/f/ffs"
	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

// zzG recognises the specification language of RFC 4506 and RFC 5531 over
// tokens. loose is set by constructs on which the generator may decide either
// way: empty bodies, void where RFC 4506 has no use for it, types that are not
// supported, names that are used out of place.
type zzG struct {
	t     []string
	i     int
	bad   bool
	loose bool
}

func (g *zzG) peek() string {
	if g.i < len(g.t) {
		return g.t[g.i]
	}
	return ""
}

func (g *zzG) want(s string) {
	if !g.bad && g.peek() == s {
		g.i++
		return
	}
	g.bad = true
}

func zzKeyword(s string) bool {
	switch s {
	case "const", "typedef", "enum", "struct", "union", "switch", "case", "default", "void", "opaque", "string",
		"unsigned", "int", "hyper", "float", "double", "quadruple", "bool", "program", "version":
		return true
	}
	return false
}

func zzNatural(s string) bool { return s != "" && s[0] >= '0' && s[0] <= '9' }

func zzNumber(s string) bool { return zzNatural(s) || s != "" && s[0] == '-' && zzNatural(s[1:]) }

func zzIdent(s string) bool {
	return s != "" && (s[0] >= 'a' && s[0] <= 'z' || s[0] >= 'A' && s[0] <= 'Z') && !zzKeyword(s)
}

func (g *zzG) ident() {
	if !g.bad && zzIdent(g.peek()) {
		g.i++
		return
	}
	g.bad = true
}

func (g *zzG) number() {
	if !g.bad && zzNumber(g.peek()) {
		g.i++
		return
	}
	g.bad = true
}

// natural is the number of a program, version or procedure.
func (g *zzG) natural() {
	if !g.bad && zzNatural(g.peek()) {
		g.i++
		return
	}
	g.bad = true
}

// size is the size of an array or a limit.
func (g *zzG) size() {
	if p := g.peek(); p != "" && p[0] == '-' {
		g.loose = true
	}
	g.value()
}

func (g *zzG) value() {
	if !g.bad && (zzNumber(g.peek()) || zzIdent(g.peek())) {
		g.i++
		return
	}
	g.bad = true
}

func (g *zzG) spec() {
	for g.i < len(g.t) && !g.bad {
		switch g.peek() {
		case "const":
			g.i++
			g.ident()
			g.want("=")
			g.number()
		case "typedef":
			g.i++
			if g.decl() {
				g.loose = true
			}
		case "enum":
			g.i++
			g.ident()
			g.enumBody()
		case "struct":
			g.i++
			g.ident()
			g.structBody()
		case "union":
			g.i++
			g.ident()
			g.unionBody()
		case "program":
			g.i++
			g.ident()
			g.want("{")
			if g.peek() == "}" {
				g.loose = true
			}
			for !g.bad && g.peek() != "}" {
				g.want("version")
				g.ident()
				g.want("{")
				if g.peek() == "}" {
					g.loose = true
				}
				for !g.bad && g.peek() != "}" {
					g.voidOrType()
					g.ident()
					g.want("(")
					g.voidOrType()
					g.want(")")
					g.want("=")
					g.natural()
					g.want(";")
				}
				g.want("}")
				g.want("=")
				g.natural()
				g.want(";")
			}
			g.want("}")
			g.want("=")
			g.natural()
		default:
			g.bad = true
		}
		g.want(";")
	}
}

func (g *zzG) voidOrType() {
	if g.peek() == "void" {
		g.i++
		return
	}
	g.typespec()
}

func (g *zzG) enumBody() {
	g.want("{")
	for !g.bad {
		g.ident()
		g.want("=")
		g.value()
		if g.peek() != "," {
			break
		}
		g.i++
	}
	g.want("}")
}

func (g *zzG) structBody() {
	g.want("{")
	if g.peek() == "}" {
		g.loose = true
	}
	for !g.bad && g.peek() != "}" {
		if g.decl() {
			g.loose = true
		}
		g.want(";")
	}
	g.want("}")
}

func (g *zzG) unionBody() {
	g.want("switch")
	g.want("(")
	if g.decl() {
		g.loose = true
	}
	g.want(")")
	g.want("{")
	if g.peek() != "case" {
		g.loose = true
	}
	for !g.bad && g.peek() == "case" {
		for !g.bad && g.peek() == "case" {
			g.i++
			g.value()
			g.want(":")
		}
		g.decl()
		g.want(";")
	}
	if g.peek() == "default" {
		g.i++
		g.want(":")
		g.decl()
		g.want(";")
	}
	g.want("}")
}

func (g *zzG) typespec() {
	switch s := g.peek(); s {
	case "unsigned":
		g.i++
		switch g.peek() {
		case "int", "hyper":
			g.i++
		default:
			g.loose = true // RFC 4506 has no plain unsigned, many compilers do
			if g.i >= len(g.t) || !zzIdent(g.peek()) {
				g.bad = true
			}
		}
	case "int", "hyper", "bool":
		g.i++
	case "float", "double", "quadruple":
		g.i++
		g.loose = true
	case "struct":
		g.i++
		if zzIdent(g.peek()) { // "struct name", an older form
			g.loose = true
			g.i++
			return
		}
		g.structBody()
	case "union":
		g.i++
		g.unionBody()
	case "enum":
		g.i++
		g.loose = true
		if zzIdent(g.peek()) {
			g.i++
			return
		}
		g.enumBody()
	default:
		g.ident()
	}
}

// decl reports a void declaration.
func (g *zzG) decl() bool {
	switch k := g.peek(); k {
	case "void":
		g.i++
		return true
	case "opaque", "string":
		g.i++
		g.ident()
		if k == "opaque" && g.peek() == "[" {
			g.i++
			g.size()
			g.want("]")
			return false
		}
		if g.peek() != "<" {
			g.bad = true
		}
		g.bound()
		return false
	}
	g.typespec()
	if g.peek() == "*" {
		g.i++
		g.ident()
		return false
	}
	g.ident()
	switch g.peek() {
	case "[":
		g.i++
		g.size()
		g.want("]")
	case "<":
		g.bound()
	}
	return false
}

func (g *zzG) bound() {
	g.want("<")
	if g.peek() != ">" {
		g.size()
	}
	g.want(">")
}

var zzTokens = []string{"const", "typedef", "enum", "struct", "union", "switch", "case", "default", "void", "opaque",
	"string", "unsigned", "int", "hyper", "bool", "program", "version", "float", "7", "-7", "extra", "range",
	"=", ";", "<", ">", "[", "]", "{", "}", "(", ")", ",", ":", "*"}

func zzJoin(ts []string) []byte {
	var b []byte
	for _, t := range ts {
		b = append(b, t...)
		b = append(b, ' ')
	}
	return b
}

// zzToken picks a token; the quick tier takes a third of the keywords at a
// place.
func zzToken(at int) int {
	k := sym.Choose("token", len(zzTokens))
	if sym.Tier(0, 1) == 0 && zzKeyword(zzTokens[k]) && (k+at)%3 != 0 {
		sym.Skip()
	}
	return k
}

// zzSyntax: a token deleted, put in, replaced, exchanged with the next, or
// everything after it missing.
func zzSyntax(c *zzCase) {
	n := len(c.toks)
	at := sym.Choose("at", n+1)
	var ts []string
	ts = append(ts, c.toks[:at]...)
	switch sym.Choose("edit", 5) {
	case 0:
		if at == n {
			sym.Skip()
		}
		ts = append(ts, c.toks[at+1:]...)
	case 1:
		ts = append(ts, zzTokens[zzToken(at)])
		ts = append(ts, c.toks[at:]...)
	case 2:
		if at == n {
			sym.Skip()
		}
		t := zzTokens[zzToken(at)]
		if t == c.toks[at] {
			sym.Skip()
		}
		ts = append(ts, t)
		ts = append(ts, c.toks[at+1:]...)
	case 3:
		if at+1 >= n {
			sym.Skip()
		}
		ts = append(ts, c.toks[at+1], c.toks[at])
		ts = append(ts, c.toks[at+2:]...)
	case 4:
		if at == n {
			sym.Skip()
		}
	}
	g := &zzG{t: ts}
	g.spec()
	if !g.bad && sym.Tier(0, 1) == 0 && at%4 != 0 {
		// runs that succeed tell little here; the quick tier has fewer of them
		sym.Skip()
	}
	zzJudge(zzJoin(ts), g)
}

// zzJudge runs the generator and compares with the recogniser.
func zzJudge(src []byte, g *zzG) {
	ffs.Put("out.go", []byte("old"))
	ffs.Lookup("out.go").Output = true
	how := zzRun(src, &zzCase{})
	if g.bad {
		sym.Assert(how != "return", "a text outside the language is refused")
		sym.Assert(string(ffs.Lookup("out.go").Data) == "old", "no code is made for a text outside the language")
		sym.Cover("refused")
		return
	}
	sym.Assert(how == "return" || g.loose, "a text of the language is accepted")
	if how == "return" {
		sym.Cover("accepted")
	}
}

// zzTypes: any plain type in place of any other leaves the text acceptable.
func zzTypeNames(c *zzCase) {
	at := sym.Choose("at", len(c.toks))
	switch c.toks[at] {
	case "int", "hyper":
	default:
		sym.Skip()
	}
	ts := append([]string(nil), c.toks[:at]...)
	if c.toks[at-1] != "unsigned" {
		ts = append(ts, [][]string{{"int"}, {"hyper"}, {"bool"}, {"unsigned", "int"}, {"unsigned", "hyper"}, {"Word"}}[sym.Choose("type", 6)]...)
	} else {
		ts = append(ts, []string{"int", "hyper"}[sym.Choose("type", 2)])
	}
	ts = append(ts, c.toks[at+1:]...)
	g := &zzG{t: ts}
	g.spec()
	sym.Assert(!g.bad && !g.loose, "reference")
	how := zzRun(zzJoin(ts), &zzCase{})
	sym.Assert(how == "return", "a specification in the language is accepted")
}

// zzBytes: any byte that is neither space nor part of a token, between two
// tokens.
func zzBytes(c *zzCase) {
	at := sym.Choose("at", len(c.toks)+1)
	b := sym.U8("byte")
	ok := true
	for _, k := range "\t\n\r ={}[]<>(),;:*_" {
		ok = sym.And(ok, b != byte(k))
	}
	for _, r := range []string{"az", "AZ", "09"} {
		ok = sym.And(ok, sym.Or(b < r[0], b > r[1]))
	}
	if at < len(c.toks) && zzNatural(c.toks[at]) {
		ok = sym.And(ok, b != '-')
	}
	sym.Assume(ok)
	src := zzJoin(c.toks[:at])
	src = append(src, b, ' ')
	src = append(src, zzJoin(c.toks[at:])...)
	zzJudge(src, &zzG{bad: true})
}

// zzOpen: a comment that does not end.
func zzOpen(c *zzCase) {
	at := sym.Choose("at", len(c.toks)+1)
	src := zzJoin(c.toks[:at])
	src = append(src, "/*"...)
	n := sym.Choose("comment", sym.Tier(2, 5))
	var p byte
	for i := 0; i < n; i++ {
		b := sym.U8("text")
		sym.Assume(!(p == '*' && b == '/'))
		src = append(src, b)
		p = b
	}
	src = append(src, ' ')
	src = append(src, zzJoin(c.toks[at:])...)
	zzJudge(src, &zzG{bad: true})
}
