package main

// An independent parser for the XDR/RPC specification language (RFC 4506,
// RFC 5531), used to derive the reference codecs.

import (
	"fmt"
	"strconv"
	"strings"
)

type xtok struct {
	s    string
	line int
}

func xlex(src string) ([]xtok, error) {
	var r []xtok
	line := 1
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			line += strings.Count(src[i:i+j+4], "\n")
			i += j + 4
		case strings.HasPrefix(src[i:], "//") || c == '%':
			j := strings.IndexByte(src[i:], '\n')
			if j < 0 {
				j = len(src) - i
			}
			i += j
		case strings.IndexByte("{}[]<>()=;:,*", c) >= 0:
			r = append(r, xtok{src[i : i+1], line})
			i++
		default:
			j := i
			for j < len(src) && (src[j] == '_' || src[j] == '-' || src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z') {
				j++
			}
			if j == i {
				return nil, fmt.Errorf("line %d: character %q", line, c)
			}
			r = append(r, xtok{src[i:j], line})
			i = j
		}
	}
	return r, nil
}

type xkind int

const (
	xInt xkind = iota
	xUint
	xHyper
	xUhyper
	xBool
	xIdent
	xStruct
	xUnion
	xEnum
)

// xtype is a type specifier.
type xtype struct {
	k      xkind
	name   string // xIdent
	fields []xdecl
	disc   *xdecl
	arms   []xarm
	def    *xdecl // nil: no default arm
	items  []xconst
}

type xform int

const (
	fPlain xform = iota
	fArray
	fVar
	fOpaque
	fOpaqueVar
	fString
	fPtr
	fVoid
)

// xdecl is a declaration: a form applied to a type specifier.
type xdecl struct {
	form xform
	t    *xtype
	name string
	size string // "" for unlimited
}

type xarm struct {
	labels []string
	d      xdecl
}

type xconst struct {
	name string
	val  string
}

type xdef struct {
	name string
	d    xdecl
}

type xproc struct {
	name     string
	arg, res *xtype // nil: void
	num      string
}

type xvers struct {
	name  string
	num   string
	procs []xproc
}

type xprog struct {
	name string
	num  string
	vers []xvers
}

type xspec struct {
	consts []xconst
	defs   []xdef
	byName map[string]*xdef
	vals   map[string]int64
	progs  []xprog
}

type xparser struct {
	t   []xtok
	pos int
}

type xerr string

func (p *xparser) peek() string {
	if p.pos < len(p.t) {
		return p.t[p.pos].s
	}
	return ""
}

func (p *xparser) next() string {
	s := p.peek()
	p.pos++
	return s
}

func (p *xparser) expect(s string) {
	if g := p.next(); g != s {
		l := 0
		if p.pos-1 < len(p.t) {
			l = p.t[p.pos-1].line
		}
		panic(xerr(fmt.Sprintf("line %d: expected %q, got %q", l, s, g)))
	}
}

func (p *xparser) ident() string {
	s := p.next()
	if s == "" || strings.Contains("{}[]<>()=;:,*", s) {
		panic(xerr("identifier expected, got " + s))
	}
	return s
}

func parseSpec(src string) (sp *xspec, err error) {
	t, err := xlex(src)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(xerr)
			if !ok {
				panic(r)
			}
			sp, err = nil, fmt.Errorf("%s", string(e))
		}
	}()
	p := &xparser{t: t}
	sp = &xspec{byName: map[string]*xdef{}, vals: map[string]int64{"TRUE": 1, "FALSE": 0}}
	for p.pos < len(p.t) {
		p.def(sp)
	}
	for i := range sp.defs {
		sp.byName[sp.defs[i].name] = &sp.defs[i]
	}
	return sp, nil
}

func (sp *xspec) value(s string) int64 {
	if v, ok := sp.vals[s]; ok {
		return v
	}
	v, err := strconv.ParseInt(s, 0, 64)
	if err != nil {
		panic(xerr("no value for " + s))
	}
	return v
}

func (p *xparser) def(sp *xspec) {
	switch p.next() {
	case "const":
		n := p.ident()
		p.expect("=")
		v := p.ident()
		p.expect(";")
		sp.consts = append(sp.consts, xconst{n, v})
		sp.vals[n] = sp.value(v)
	case "typedef":
		d := p.decl(sp)
		p.expect(";")
		sp.defs = append(sp.defs, xdef{d.name, d})
	case "enum":
		n := p.ident()
		t := p.enumBody(sp)
		p.expect(";")
		sp.defs = append(sp.defs, xdef{n, xdecl{t: t, name: n}})
	case "struct":
		n := p.ident()
		t := p.structBody(sp)
		p.expect(";")
		sp.defs = append(sp.defs, xdef{n, xdecl{t: t, name: n}})
	case "union":
		n := p.ident()
		t := p.unionBody(sp)
		p.expect(";")
		sp.defs = append(sp.defs, xdef{n, xdecl{t: t, name: n}})
	case "program":
		pr := xprog{name: p.ident()}
		p.expect("{")
		for p.peek() != "}" {
			p.expect("version")
			v := xvers{name: p.ident()}
			p.expect("{")
			for p.peek() != "}" {
				var c xproc
				c.res = p.maybeVoid(sp)
				c.name = p.ident()
				p.expect("(")
				c.arg = p.maybeVoid(sp)
				p.expect(")")
				p.expect("=")
				c.num = p.ident()
				p.expect(";")
				v.procs = append(v.procs, c)
			}
			p.expect("}")
			p.expect("=")
			v.num = p.ident()
			p.expect(";")
			pr.vers = append(pr.vers, v)
		}
		p.expect("}")
		p.expect("=")
		pr.num = p.ident()
		p.expect(";")
		sp.progs = append(sp.progs, pr)
	default:
		panic(xerr("definition expected"))
	}
}

func (p *xparser) maybeVoid(sp *xspec) *xtype {
	if p.peek() == "void" {
		p.next()
		return nil
	}
	return p.typespec(sp)
}

func (p *xparser) enumBody(sp *xspec) *xtype {
	t := &xtype{k: xEnum}
	p.expect("{")
	for {
		n := p.ident()
		p.expect("=")
		v := p.ident()
		t.items = append(t.items, xconst{n, v})
		sp.vals[n] = sp.value(v)
		if p.peek() != "," {
			break
		}
		p.next()
	}
	p.expect("}")
	return t
}

func (p *xparser) structBody(sp *xspec) *xtype {
	t := &xtype{k: xStruct}
	p.expect("{")
	for p.peek() != "}" {
		t.fields = append(t.fields, p.decl(sp))
		p.expect(";")
	}
	p.expect("}")
	return t
}

func (p *xparser) unionBody(sp *xspec) *xtype {
	t := &xtype{k: xUnion}
	p.expect("switch")
	p.expect("(")
	d := p.decl(sp)
	t.disc = &d
	p.expect(")")
	p.expect("{")
	for p.peek() != "}" {
		if p.peek() == "default" {
			p.next()
			p.expect(":")
			d := p.decl(sp)
			p.expect(";")
			t.def = &d
			continue
		}
		var a xarm
		for p.peek() == "case" {
			p.next()
			a.labels = append(a.labels, p.ident())
			p.expect(":")
		}
		if a.labels == nil {
			panic(xerr("case expected"))
		}
		a.d = p.decl(sp)
		p.expect(";")
		t.arms = append(t.arms, a)
	}
	p.expect("}")
	return t
}

func (p *xparser) typespec(sp *xspec) *xtype {
	switch s := p.next(); s {
	case "unsigned":
		switch p.peek() {
		case "int":
			p.next()
			return &xtype{k: xUint}
		case "hyper":
			p.next()
			return &xtype{k: xUhyper}
		}
		return &xtype{k: xUint}
	case "int":
		return &xtype{k: xInt}
	case "hyper":
		return &xtype{k: xHyper}
	case "bool":
		return &xtype{k: xBool}
	case "struct":
		return p.structBody(sp)
	case "union":
		return p.unionBody(sp)
	case "enum":
		return p.enumBody(sp)
	case "float", "double", "quadruple", "":
		panic(xerr("type " + s))
	default:
		return &xtype{k: xIdent, name: s}
	}
}

func (p *xparser) decl(sp *xspec) xdecl {
	switch p.peek() {
	case "void":
		p.next()
		return xdecl{form: fVoid}
	case "opaque", "string":
		k := p.next()
		d := xdecl{name: p.ident()}
		switch p.next() {
		case "[":
			d.form = fOpaque
			d.size = p.ident()
			p.expect("]")
		case "<":
			d.form = fOpaqueVar
			if k == "string" {
				d.form = fString
			}
			if p.peek() != ">" {
				d.size = p.ident()
			}
			p.expect(">")
		default:
			panic(xerr("opaque declaration"))
		}
		return d
	}
	d := xdecl{t: p.typespec(sp)}
	if p.peek() == "*" {
		p.next()
		d.form = fPtr
		d.name = p.ident()
		return d
	}
	d.name = p.ident()
	switch p.peek() {
	case "[":
		p.next()
		d.form = fArray
		d.size = p.ident()
		p.expect("]")
	case "<":
		p.next()
		d.form = fVar
		if p.peek() != ">" {
			d.size = p.ident()
		}
		p.expect(">")
	}
	return d
}
