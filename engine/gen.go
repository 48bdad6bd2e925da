package main

// The generator itself as the program under execution: its sources with main
// renamed and its files, flags and formatter replaced by stand-ins.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

var standIns = map[string]string{
	"os": "os", "io/ioutil": "ioutil", "go/format": "format", "flag": "flag", "log": "log", "time": "time",
	"math/rand": "rand", "math/rand/v2": "rand",
}

type genCase struct {
	name   string
	toks   []string
	flags  []string
	types  bool
	ok     bool
	out    string
	tou    string
	layout bool // takes part in C20
	fault  bool // takes part in C19
}

func (c *ctx) genOverlay() error {
	hd := filepath.Join(c.verif, "harness")
	if err := overlayDir(c.overlay, filepath.Join(hd, "fake"), filepath.Join(c.repo, "zz_verif/f")); err != nil {
		return err
	}
	es, err := os.ReadDir(c.repo)
	if err != nil {
		return err
	}
	d := filepath.Join(c.tmp, "gensrc")
	os.MkdirAll(d, 0777)
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || n == "xdr.go" || strings.HasSuffix(n, "_test.go") || !(strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".y")) {
			continue
		}
		b, err := os.ReadFile(filepath.Join(c.repo, n))
		if err != nil {
			return err
		}
		os.WriteFile(filepath.Join(d, n), b, 0666)
	}
	if err := c.goyacc(d); err != nil {
		return err
	}
	es, _ = os.ReadDir(d)
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(d, e.Name()))
		if err != nil {
			return err
		}
		b, err = standIn(e.Name(), b)
		if err != nil {
			return err
		}
		c.overlay[filepath.Join(c.repo, e.Name())] = b
	}
	if err := c.genHarnessFiles(hd); err != nil {
		return err
	}
	cases, err := c.genCases()
	if err != nil {
		return err
	}
	c.genData(cases)
	if err := c.genRefs(cases); err != nil {
		return err
	}
	c.genData(cases)
	var good int
	for _, g := range cases {
		if g.ok {
			good++
		}
	}
	c.extra["specifications"] = len(cases)
	c.extra["specifications_accepted"] = good
	return nil
}

func (c *ctx) genHarnessFiles(hd string) error {
	es, err := os.ReadDir(filepath.Join(hd, "gen"))
	if err != nil {
		return err
	}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(hd, "gen", e.Name()))
		if err != nil {
			return err
		}
		c.overlay[filepath.Join(c.repo, "zz_verif_"+e.Name())] = b
	}
	return nil
}

// standIn renames main and redirects imports.
func standIn(name string, src []byte) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type edit struct {
		at, n int
		s     string
	}
	var eds []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n, ok := standIns[p]
		if !ok {
			continue
		}
		s := strconv.Quote(modPath + "/zz_verif/f/" + n)
		if im.Name == nil {
			s = n + " " + s
		}
		eds = append(eds, edit{fs.Position(im.Path.Pos()).Offset, len(im.Path.Value), s})
	}
	for _, dc := range f.Decls {
		if fd, ok := dc.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
			eds = append(eds, edit{fs.Position(fd.Name.Pos()).Offset, 4, "zzMain"})
		}
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].at > eds[j].at })
	for _, e := range eds {
		src = append(append(append([]byte(nil), src[:e.at]...), e.s...), src[e.at+e.n:]...)
	}
	return src, nil
}

func (c *ctx) genCases() ([]*genCase, error) {
	read := func(n string) ([]string, error) {
		b, err := os.ReadFile(filepath.Join(c.verif, "specs/gen", n))
		if err != nil {
			return nil, err
		}
		ts, err := xlex(string(b))
		if err != nil {
			return nil, err
		}
		var r []string
		for _, t := range ts {
			if t.s != "" {
				r = append(r, t.s)
			}
		}
		return r, nil
	}
	types, err := read("types.x")
	if err != nil {
		return nil, err
	}
	prog, err := read("prog.x")
	if err != nil {
		return nil, err
	}
	f := strings.Fields
	ed := func(t []string, i int, with ...string) []string {
		r := append([]string(nil), t[:i]...)
		r = append(r, with...)
		return append(r, t[i+1:]...)
	}
	small := f("const N = 3 ; struct s { int a < N > ; } ; program P { version V { s F ( s ) = 1 ; } = 1 ; } = 9 ;")
	var cs []*genCase
	fault := func(name string, toks []string, types bool, flags ...string) {
		cs = append(cs, &genCase{name: name, toks: toks, types: types, flags: flags, fault: true})
	}
	fault("small", small, false)
	fault("smallTypes", small, true)
	fault("types", types, true, "-p", "other")
	fault("prog", prog, false)
	fault("noSemicolon", small[:len(small)-1], false)
	fault("noSemicolonTypes", small[:len(small)-1], true)
	fault("badToken", ed(small, len(small)-1, ";", "\"x\""), true)
	fault("badFirst", ed(small, 0, "%"), true)
	fault("unsupported", append(f("struct q { quadruple x ; } ;"), small...), false)
	fault("unsupportedTypes", append(append([]string(nil), small...), f("struct q { quadruple x ; } ;")...), true)
	fault("empty", nil, true)
	fault("badFlag", small, false, "-nosuchflag")
	cs = append(cs,
		&genCase{name: "types", toks: types, layout: true},
		&genCase{name: "typesSeparate", toks: types, types: true, flags: []string{"-unsigned-enum", "-const-type", "uint32"}, layout: true},
		&genCase{name: "prog", toks: prog, layout: true},
	)
	return cs, nil
}

// genData is what the harnesses know about the cases.
func (c *ctx) genData(cs []*genCase) {
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\tos_ \"os\"\n\t\"strconv\"\n\n\t\"" + modPath + "/zz_verif/sym\"\n)\n\n")
	b.WriteString("var zzCases = []zzCase{\n")
	nf := 0
	var hs bytes.Buffer
	for i, g := range cs {
		fmt.Fprintf(&b, "\t{name: %q, toks: %#v, flags: %#v, types: %v, ok: %v,\n\t\tout: %q,\n\t\ttou: %q},\n", g.name, g.toks, g.flags, g.types, g.ok, g.out, g.tou)
		if g.fault {
			nf++
		}
		if g.layout {
			fmt.Fprintf(&hs, "func H_C20_%s() { zzLayout(&zzCases[%d], 1) }\n", g.name, i)
			fmt.Fprintf(&hs, "func H_C20_%s_2() {\n\tif sym.Tier(0, 1) == 0 {\n\t\tsym.Skip()\n\t}\n\tzzLayout(&zzCases[%d], 2)\n}\n", g.name, i)
			fmt.Fprintf(&hs, "func H_C22_%s() { zzAgain(&zzCases[%d]) }\n", g.name, i)
			if !g.types {
				for _, k := range []string{"Syntax", "TypeNames", "Bytes", "Open"} {
					fmt.Fprintf(&hs, "func H_C21_%s_%s() { zz%s(&zzCases[%d]) }\n", g.name, k, k, i)
				}
			}
		}
	}
	fmt.Fprintf(&b, "}\n\nconst zzFaultCases = %d\n\n", nf)
	b.Write(hs.Bytes())
	c.overlay[filepath.Join(c.repo, "zz_verif_data.go")] = b.Bytes()
	// the native entry point
	var m bytes.Buffer
	m.WriteString("\nfunc main() {\n\tif k := os_.Getenv(\"VERIF_REF\"); k != \"\" {\n\t\ti, _ := strconv.Atoi(k)\n\t\tok, o, t := zzRef(i, \" \")\n\t\tj, _ := json.Marshal(struct{ OK bool; Out, Types string }{ok, o, t})\n\t\tfmt.Printf(\"\\nREF %s\\n\", j)\n\t\tos_.Exit(0)\n\t}\n\tsym.Main(map[string]func(){\n")
	names := harnessFuncs(c.overlay, c.repo)
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&m, "\t\t%q: %s,\n", n, n)
	}
	m.WriteString("\t})\n}\n")
	c.overlay[filepath.Join(c.repo, "zz_verif_data.go")] = append(b.Bytes(), m.Bytes()...)
}

// genRefs runs the cases natively, laid out plainly and without faults.
func (c *ctx) genRefs(cs []*genCase) error {
	bin, err := c.buildNativeAt(filepath.Join(c.tmp, "refbin"))
	if err != nil {
		return err
	}
	for i, g := range cs {
		cmd := exec.Command("timeout", "20", bin)
		cmd.Dir = c.tmp
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Env = append(os.Environ(), "VERIF_REF="+strconv.Itoa(i))
		o, err := cmd.CombinedOutput()
		j := bytes.LastIndex(o, []byte("\nREF "))
		if j < 0 {
			return fmt.Errorf("reference run of %s: %v %.300s", g.name, err, o)
		}
		var r struct {
			OK         bool
			Out, Types string
		}
		if err := json.Unmarshal(bytes.TrimSpace(o[j+5:]), &r); err != nil {
			return err
		}
		g.ok, g.out, g.tou = r.OK, r.Out, r.Types
	}
	return nil
}
