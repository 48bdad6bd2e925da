package main

// Harness code derived from a specification: for every declared type an
// arbitrary value, the reference encoder, the reference decoder, equality and
// the per-property harness functions.

import (
	"fmt"
	"strings"
)

type specGen struct {
	sp       *xspec
	pkg      string // package name and helper prefix
	unsigned bool   // enums are uint32
	b        *strings.Builder
	tmp      int
	ind      int
	suffix   string // of harness names
}

func upName(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

func (g *specGen) p(f string, a ...interface{}) {
	fmt.Fprintf(g.b, "%s%s\n", strings.Repeat("\t", g.ind), fmt.Sprintf(f, a...))
}

func (g *specGen) newTmp(s string) string {
	g.tmp++
	return fmt.Sprintf("%s%d", s, g.tmp)
}

func (g *specGen) fn(kind, n string) string { return kind + "_" + g.pkg + "_" + n }

func (g *specGen) limit(s string) string {
	if s == "" {
		return "-1"
	}
	return fmt.Sprint(g.sp.value(s))
}

// resolve follows plain typedefs.
func (g *specGen) resolve(t *xtype) *xtype {
	for t.k == xIdent {
		d := g.sp.byName[t.name]
		if d == nil {
			panic(xerr("undefined type " + t.name))
		}
		if d.d.form != fPlain {
			return t
		}
		t = d.d.t
	}
	return t
}

func (g *specGen) goType(t *xtype) string {
	switch t.k {
	case xInt:
		return "int32"
	case xUint:
		return "uint32"
	case xHyper:
		return "int64"
	case xUhyper:
		return "uint64"
	case xBool:
		return "bool"
	case xIdent:
		return g.pkg + "." + upName(t.name)
	case xStruct, xUnion:
		var b strings.Builder
		b.WriteString("struct { ")
		f := func(d xdecl) {
			if d.form != fVoid {
				fmt.Fprintf(&b, "%s %s; ", upName(d.name), g.goDecl(d))
			}
		}
		for _, d := range t.fields {
			f(d)
		}
		if t.k == xUnion {
			f(*t.disc)
			for _, a := range t.arms {
				f(a.d)
			}
			if t.def != nil {
				f(*t.def)
			}
		}
		b.WriteString("}")
		return b.String()
	}
	panic(xerr("inline enum"))
}

func (g *specGen) goDecl(d xdecl) string {
	switch d.form {
	case fPlain:
		return g.goType(d.t)
	case fArray:
		return fmt.Sprintf("[%d]%s", g.sp.value(d.size), g.goType(d.t))
	case fVar:
		return "[]" + g.goType(d.t)
	case fOpaque:
		return fmt.Sprintf("[%d]byte", g.sp.value(d.size))
	case fOpaqueVar:
		return "[]byte"
	case fString:
		return "string"
	case fPtr:
		return "*" + g.goType(d.t)
	}
	panic("void")
}

// minSize is the least number of bytes a value takes on the wire.
func (g *specGen) minSize(d xdecl, seen map[string]bool) int {
	pad := func(n int) int { return (n + 3) &^ 3 }
	switch d.form {
	case fVoid:
		return 0
	case fArray:
		return int(g.sp.value(d.size)) * g.minType(d.t, seen)
	case fVar, fOpaqueVar, fString, fPtr:
		return 4
	case fOpaque:
		return pad(int(g.sp.value(d.size)))
	}
	return g.minType(d.t, seen)
}

func (g *specGen) minType(t *xtype, seen map[string]bool) int {
	switch t.k {
	case xHyper, xUhyper:
		return 8
	case xStruct:
		n := 0
		for _, f := range t.fields {
			n += g.minSize(f, seen)
		}
		return n
	case xUnion:
		m := -1
		up := func(n int) {
			if m < 0 || n < m {
				m = n
			}
		}
		for _, a := range t.arms {
			up(g.minSize(a.d, seen))
		}
		if t.def != nil {
			up(g.minSize(*t.def, seen))
		}
		if m < 0 || t.def == nil {
			m = 0 // an unlisted discriminant has no arm
		}
		return g.minSize(*t.disc, seen) + m
	case xIdent:
		if seen[t.name] {
			return 0
		}
		seen[t.name] = true
		n := g.minSize(g.sp.byName[t.name].d, seen)
		delete(seen, t.name)
		return n
	}
	return 4
}

// discLit is the Go literal of a case label.
func (g *specGen) discLit(u *xtype, label string) string {
	v := g.sp.value(label)
	if g.resolve(u.disc.t).k == xBool {
		return fmt.Sprint(v != 0)
	}
	if g.unsigned && g.resolve(u.disc.t).k == xEnum || g.resolve(u.disc.t).k == xUint {
		return fmt.Sprint(uint32(v))
	}
	return fmt.Sprint(v)
}

// ---------- arbitrary values

func (g *specGen) nd(d xdecl, lv, nm, conv string) {
	switch d.form {
	case fVoid:
	case fPlain:
		g.ndType(d.t, lv, nm, conv)
	case fArray:
		i := g.newTmp("i")
		g.p("for %s := range %s {", i, lv)
		g.ind++
		g.ndType(d.t, lv+"["+i+"]", nm, "")
		g.ind--
		g.p("}")
	case fVar:
		n, i := g.newTmp("n"), g.newTmp("i")
		g.p("%s := c.count(%q, %s)", n, nm, g.limit(d.size))
		rec := g.recursive(d.t)
		if rec {
			g.p("%s = c.nested(%s)", n, n)
		}
		g.p("%s = make([]%s, %s)", lv, g.goType(d.t), n)
		g.p("for %s := range %s {", i, lv)
		g.ind++
		g.ndType(d.t, lv+"["+i+"]", nm, "")
		g.ind--
		g.p("}")
	case fOpaque:
		n := g.sp.value(d.size)
		g.p("copy(%s[:], sym.Bytes(%q, %d, %d))", lv, nm, n, n)
	case fOpaqueVar:
		g.p("%s = c.bytes(%q, %s)", lv, nm, g.limit(d.size))
	case fString:
		if conv == "" {
			conv = "string"
		}
		g.p("%s = %s(c.bytes(%q, %s))", lv, conv, nm, g.limit(d.size))
	case fPtr:
		g.p("if c.more(%q) {", nm)
		g.ind++
		g.p("c.depth--")
		g.p("%s = new(%s)", lv, g.goType(d.t))
		g.ndType(d.t, "(*"+lv+")", nm, "")
		g.p("c.depth++")
		g.ind--
		g.p("} else {")
		g.p("\t%s = nil", lv)
		g.p("}")
	}
}

func (g *specGen) ndType(t *xtype, lv, nm, conv string) {
	basic := func(gt, f string) {
		if conv != "" {
			gt = conv
		}
		g.p("%s = %s(sym.%s(%q))", lv, gt, f, nm)
	}
	switch t.k {
	case xInt:
		basic("int32", "I32")
	case xUint:
		basic("uint32", "U32")
	case xHyper:
		basic("int64", "I64")
	case xUhyper:
		basic("uint64", "U64")
	case xBool:
		if conv == "" {
			conv = "bool"
		}
		g.p("%s = %s(c.truth(%q))", lv, conv, nm)
	case xEnum:
		if g.unsigned {
			basic("uint32", "U32")
		} else {
			basic("int32", "I32")
		}
	case xIdent:
		g.p("%s((*%s)(&%s), c)", g.fn("nd", t.name), g.goType(t), lv)
	case xStruct:
		g.focused(t, "c", func(f xdecl) { g.nd(f, lv+"."+upName(f.name), nm+"."+f.name, "") })
	case xUnion:
		dl := lv + "." + upName(t.disc.name)
		seenArm := map[string]bool{}
		g.p("if c.full {")
		g.ind++
		g.nd(*t.disc, dl, nm+"."+t.disc.name, "")
		for _, a := range t.arms {
			if a.d.form != fVoid && !seenArm[a.d.name] {
				seenArm[a.d.name] = true
				g.nd(a.d, lv+"."+upName(a.d.name), nm+"."+a.d.name, "")
			}
		}
		if t.def != nil && t.def.form != fVoid && !seenArm[t.def.name] {
			g.nd(*t.def, lv+"."+upName(t.def.name), nm+"."+t.def.name, "")
		}
		g.ind--
		g.p("} else {")
		g.ind++
		k := 0
		labels := []string{}
		isBool := g.resolve(t.disc.t).k == xBool
		vals := map[int64]bool{}
		for _, a := range t.arms {
			k += len(a.labels)
			for _, l := range a.labels {
				labels = append(labels, g.discLit(t, l))
				vals[g.sp.value(l)] = true
			}
		}
		def := t.def != nil && !(isBool && len(vals) > 1)
		if def {
			k++
		}
		g.p("switch c.arm(%q, %d) {", nm, k)
		k = 0
		for _, a := range t.arms {
			for _, l := range a.labels {
				g.p("case %d:", k)
				k++
				g.ind++
				g.p("%s = %s", dl, g.discLit(t, l))
				if a.d.form != fVoid {
					g.nd(a.d, lv+"."+upName(a.d.name), nm+"."+a.d.name, "")
				}
				g.ind--
			}
		}
		if def {
			g.p("case %d:", k)
			g.ind++
			g.nd(*t.disc, dl, nm+"."+t.disc.name, "")
			for _, l := range labels {
				g.p("sym.Assume(%s != %s)", dl, l)
			}
			if t.def.form != fVoid {
				g.nd(*t.def, lv+"."+upName(t.def.name), nm+"."+t.def.name, "")
			}
			g.ind--
		}
		g.p("}")
		g.ind--
		g.p("}")
	}
}

// ---------- reference encoder

func (g *specGen) re(d xdecl, lv string) {
	switch d.form {
	case fVoid:
	case fPlain:
		g.reType(d.t, lv)
	case fArray, fVar:
		i := g.newTmp("i")
		if d.form == fVar {
			g.p("e.count(len(%s), %s)", lv, g.limit(d.size))
		}
		g.p("for %s := range %s {", i, lv)
		g.ind++
		g.reType(d.t, lv+"["+i+"]")
		g.ind--
		g.p("}")
	case fOpaque:
		g.p("e.fixed(%s[:])", lv)
	case fOpaqueVar, fString:
		g.p("e.opaque([]byte(%s), %s)", lv, g.limit(d.size))
	case fPtr:
		g.p("if %s != nil {", lv)
		g.ind++
		g.p("e.u32(1)")
		g.reType(d.t, "(*"+lv+")")
		g.ind--
		g.p("} else {")
		g.p("\te.u32(0)")
		g.p("}")
	}
}

func (g *specGen) reType(t *xtype, lv string) {
	switch t.k {
	case xInt, xUint, xEnum:
		g.p("e.u32(uint32(%s))", lv)
	case xHyper, xUhyper:
		g.p("e.u64(uint64(%s))", lv)
	case xBool:
		g.p("e.boolean(bool(%s))", lv)
	case xIdent:
		g.p("%s(e, (*%s)(&%s))", g.fn("re", t.name), g.goType(t), lv)
	case xStruct:
		for _, f := range t.fields {
			g.re(f, lv+"."+upName(f.name))
		}
	case xUnion:
		dl := lv + "." + upName(t.disc.name)
		g.re(*t.disc, dl)
		g.arms(t, dl, func(d xdecl) { g.re(d, lv+"."+upName(d.name)) }, "e.unspec = true")
	}
}

// arms switches over the discriminant.
func (g *specGen) arms(t *xtype, dl string, body func(d xdecl), none string) {
	g.p("switch %s {", dl)
	vals := map[int64]bool{}
	for _, a := range t.arms {
		var ls []string
		for _, l := range a.labels {
			ls = append(ls, g.discLit(t, l))
			vals[g.sp.value(l)] = true
		}
		g.p("case %s:", strings.Join(ls, ", "))
		g.ind++
		if a.d.form != fVoid {
			body(a.d)
		}
		g.ind--
	}
	g.p("default:")
	g.ind++
	if t.def != nil {
		if t.def.form != fVoid {
			body(*t.def)
		}
	} else if none != "" {
		g.p("%s", none)
	}
	g.ind--
	g.p("}")
}

// ---------- reference decoder

func (g *specGen) rd(d xdecl, lv, conv string) {
	switch d.form {
	case fVoid:
	case fPlain:
		g.rdType(d.t, lv, conv)
	case fArray:
		i := g.newTmp("i")
		g.p("for %s := range %s {", i, lv)
		g.ind++
		g.rdType(d.t, lv+"["+i+"]", "")
		g.ind--
		g.p("}")
	case fVar:
		n, i := g.newTmp("n"), g.newTmp("i")
		g.p("%s := r.count(%s, %d)", n, g.limit(d.size), g.minType(d.t, map[string]bool{}))
		if g.recursive(d.t) {
			g.p("if %s > 0 {", n)
			g.p("\tr.enter()")
			g.p("}")
		}
		g.p("%s = make([]%s, %s)", lv, g.goType(d.t), n)
		g.p("for %s := range %s {", i, lv)
		g.ind++
		g.rdType(d.t, lv+"["+i+"]", "")
		g.ind--
		g.p("}")
	case fOpaque:
		g.p("copy(%s[:], r.fixed(%d))", lv, g.sp.value(d.size))
	case fOpaqueVar:
		g.p("%s = r.opaque(%s)", lv, g.limit(d.size))
	case fString:
		if conv == "" {
			conv = "string"
		}
		g.p("%s = %s(r.opaque(%s))", lv, conv, g.limit(d.size))
	case fPtr:
		g.p("if r.more() {")
		g.ind++
		g.p("r.enter()")
		g.p("%s = new(%s)", lv, g.goType(d.t))
		g.rdType(d.t, "(*"+lv+")", "")
		g.ind--
		g.p("} else {")
		g.p("\t%s = nil", lv)
		g.p("}")
	}
}

func (g *specGen) rdType(t *xtype, lv, conv string) {
	basic := func(gt, f string) {
		if conv != "" {
			gt = conv
		}
		g.p("%s = %s(r.%s())", lv, gt, f)
	}
	switch t.k {
	case xInt:
		basic("int32", "u32")
	case xUint:
		basic("uint32", "u32")
	case xHyper:
		basic("int64", "u64")
	case xUhyper:
		basic("uint64", "u64")
	case xBool:
		basic("bool", "boolean")
	case xEnum:
		if g.unsigned {
			basic("uint32", "u32")
		} else {
			basic("int32", "u32")
		}
	case xIdent:
		g.p("%s(r, (*%s)(&%s))", g.fn("rd", t.name), g.goType(t), lv)
	case xStruct:
		g.focused(t, "r", func(f xdecl) { g.rd(f, lv+"."+upName(f.name), "") })
	case xUnion:
		dl := lv + "." + upName(t.disc.name)
		g.rd(*t.disc, dl, "")
		g.p("if !r.bad {")
		g.ind++
		if len(t.arms) > 0 {
			g.p("if r.thin > 0 {")
			g.p("\tsym.Assume(%s == %s)", dl, g.discLit(t, t.arms[0].labels[0]))
			g.p("}")
		}
		g.arms(t, dl, func(d xdecl) { g.rd(d, lv+"."+upName(d.name), "") }, "r.unspec = true")
		g.ind--
		g.p("}")
	}
}

// ---------- equality of the selected parts

// focused treats the fields of a structure; unless everything is to be
// combined, only one of those with choices of their own gets to make them.
func (g *specGen) focused(t *xtype, ctx string, f func(d xdecl)) {
	n := 0
	for _, d := range t.fields {
		if g.choosy(d, map[string]bool{}) {
			n++
		}
	}
	if n < 2 {
		for _, d := range t.fields {
			f(d)
		}
		return
	}
	k := g.newTmp("f")
	g.p("%s := %s.pick(%d)", k, ctx, n)
	n = 0
	for _, d := range t.fields {
		if !g.choosy(d, map[string]bool{}) {
			f(d)
			continue
		}
		g.p("%s.on(%s, %d)", ctx, k, n)
		f(d)
		g.p("%s.off(%s, %d)", ctx, k, n)
		n++
	}
}

func (g *specGen) choosy(d xdecl, seen map[string]bool) bool {
	switch d.form {
	case fPlain, fArray:
		t := d.t
		switch t.k {
		case xUnion:
			return true
		case xStruct:
			for _, f := range t.fields {
				if g.choosy(f, seen) {
					return true
				}
			}
		case xIdent:
			if seen[t.name] {
				return false
			}
			seen[t.name] = true
			return g.sp.byName[t.name] != nil && g.choosy(g.sp.byName[t.name].d, seen)
		}
		return false
	case fVar, fOpaqueVar, fString, fPtr:
		return true
	}
	return false
}

func (g *specGen) eq(d xdecl, a, b, nm string) {
	lab := fmt.Sprintf("l+%q", nm)
	switch d.form {
	case fVoid:
	case fPlain:
		g.eqType(d.t, a, b, nm)
	case fArray, fVar:
		i := g.newTmp("i")
		if d.form == fVar {
			g.p("sym.Assert(len(%s) == len(%s), %s+\" length\")", a, b, lab)
		}
		g.p("for %s := range %s {", i, a)
		g.ind++
		g.eqType(d.t, a+"["+i+"]", b+"["+i+"]", nm)
		g.ind--
		g.p("}")
	case fOpaque:
		g.p("sym.BytesEq(%s[:], %s[:], %s)", a, b, lab)
	case fOpaqueVar:
		g.p("sym.BytesEq([]byte(%s), []byte(%s), %s)", a, b, lab)
	case fString:
		g.p("sym.StringEq(string(%s), string(%s), %s)", a, b, lab)
	case fPtr:
		g.p("sym.Assert((%s == nil) == (%s == nil), %s+\" presence\")", a, b, lab)
		g.p("if %s != nil {", a)
		g.ind++
		g.eqType(d.t, "(*"+a+")", "(*"+b+")", nm)
		g.ind--
		g.p("}")
	}
}

func (g *specGen) eqType(t *xtype, a, b, nm string) {
	switch t.k {
	case xInt, xUint, xEnum, xHyper, xUhyper, xBool:
		g.p("sym.Assert(%s == %s, l+%q)", a, b, nm)
	case xIdent:
		g.p("%s((*%s)(&%s), (*%s)(&%s), l+%q)", g.fn("eq", t.name), g.goType(t), a, g.goType(t), b, nm)
	case xStruct:
		for _, f := range t.fields {
			g.eq(f, a+"."+upName(f.name), b+"."+upName(f.name), nm+"."+f.name)
		}
	case xUnion:
		da, db := a+"."+upName(t.disc.name), b+"."+upName(t.disc.name)
		g.eq(*t.disc, da, db, nm+"."+t.disc.name)
		g.arms(t, da, func(d xdecl) { g.eq(d, a+"."+upName(d.name), b+"."+upName(d.name), nm+"."+d.name) }, "")
	}
}

// ---------- growing every decoded byte slice

func (g *specGen) poke(d xdecl, lv string) {
	switch d.form {
	case fPlain:
		g.pokeType(d.t, lv)
	case fArray, fVar:
		i := g.newTmp("i")
		n := g.b.Len()
		g.p("for %s := range %s {", i, lv)
		m := g.b.Len()
		g.ind++
		g.pokeType(d.t, lv+"["+i+"]")
		g.ind--
		if g.b.Len() == m {
			s := g.b.String()[:n]
			g.b.Reset()
			g.b.WriteString(s)
			return
		}
		g.p("}")
	case fOpaqueVar:
		g.p("grow([]byte(%s))", lv)
	case fPtr:
		g.p("if %s != nil {", lv)
		g.ind++
		g.pokeType(d.t, "(*"+lv+")")
		g.ind--
		g.p("}")
	}
}

func (g *specGen) pokeType(t *xtype, lv string) {
	switch t.k {
	case xIdent:
		g.p("%s((*%s)(&%s))", g.fn("poke", t.name), g.goType(t), lv)
	case xStruct:
		for _, f := range t.fields {
			g.poke(f, lv+"."+upName(f.name))
		}
	case xUnion:
		dl := lv + "." + upName(t.disc.name)
		g.arms(t, dl, func(d xdecl) { g.poke(d, lv+"."+upName(d.name)) }, "")
	}
}

// recursive: can a value of the type contain another one?
func (g *specGen) recursive(t *xtype) bool {
	if t.k != xIdent {
		return false
	}
	return g.reaches(t, t.name, map[string]bool{})
}

func (g *specGen) reaches(t *xtype, goal string, seen map[string]bool) bool {
	one := func(d xdecl) bool { return d.t != nil && g.reaches(d.t, goal, seen) || d.t != nil && d.t.k == xIdent && d.t.name == goal }
	switch t.k {
	case xIdent:
		if seen[t.name] {
			return false
		}
		seen[t.name] = true
		return one(g.sp.byName[t.name].d)
	case xStruct:
		for _, f := range t.fields {
			if one(f) {
				return true
			}
		}
	case xUnion:
		for _, a := range t.arms {
			if one(a.d) {
				return true
			}
		}
		return t.def != nil && one(*t.def)
	}
	return false
}

// helpers emits the functions of every declared type.
func (g *specGen) helpers() {
	for _, d := range g.sp.defs {
		T := g.pkg + "." + upName(d.name)
		lv := "(*v)"
		a, b := "(*a)", "(*b)"
		conv := T
		if d.d.form == fPtr {
			lv, a, b = "v.P", "a.P", "b.P"
		}
		g.p("func %s(v *%s, c *ndc) {", g.fn("nd", d.name), T)
		g.ind++
		g.nd(d.d, lv, d.name, conv)
		g.ind--
		g.p("}\n\nfunc %s(e *enc, v *%s) {", g.fn("re", d.name), T)
		g.ind++
		g.re(d.d, lv)
		g.ind--
		g.p("}\n\nfunc %s(r *rdr, v *%s) {", g.fn("rd", d.name), T)
		g.ind++
		g.rd(d.d, lv, conv)
		g.ind--
		g.p("}\n\nfunc %s(a, b *%s, l string) {", g.fn("eq", d.name), T)
		g.ind++
		g.eq(d.d, a, b, "")
		g.ind--
		g.p("}\n\nfunc %s(v *%s) {", g.fn("poke", d.name), T)
		g.ind++
		g.poke(d.d, lv)
		g.ind--
		g.p("}\n")
	}
}

// hasList: does the type contain optional data or arrays of variable length?
func (g *specGen) hasList(t *xtype, seen map[string]bool) bool {
	one := func(d xdecl) bool {
		if d.form == fPtr || d.form == fVar {
			return true
		}
		return d.t != nil && g.hasList(d.t, seen)
	}
	switch t.k {
	case xIdent:
		if seen[t.name] {
			return true
		}
		seen[t.name] = true
		r := one(g.sp.byName[t.name].d)
		delete(seen, t.name)
		return r
	case xStruct:
		for _, f := range t.fields {
			if one(f) {
				return true
			}
		}
	case xUnion:
		for _, a := range t.arms {
			if one(a.d) {
				return true
			}
		}
		return t.def != nil && one(*t.def)
	}
	return false
}
