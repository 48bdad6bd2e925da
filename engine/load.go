package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loaded struct {
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	sizes      types.Sizes
	errorIface *types.Interface
	ovs        sync.Map
	meths      sync.Map
	nFuncs     int
}

func loadProgram(repo string, overlay map[string][]byte, patterns ...string) (*Loaded, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	prog.Build()
	l := &Loaded{prog: prog, pkgs: map[string]*ssa.Package{}, sizes: types.SizesFor("gc", "amd64")}
	for _, p := range prog.AllPackages() {
		l.pkgs[p.Pkg.Path()] = p
	}
	l.errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return l, nil
}

type ovEnt struct{ f intrinsic }

func (l *Loaded) override(fn *ssa.Function) intrinsic {
	if v, ok := l.ovs.Load(fn); ok {
		return v.(ovEnt).f
	}
	var f intrinsic
	if fn.Pkg != nil || fn.Signature.Recv() != nil {
		f = intrinsics[fn.String()]
	}
	l.ovs.Store(fn, ovEnt{f})
	return f
}

type methKey struct {
	t types.Type
	n string
}

func (l *Loaded) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if v, ok := l.meths.Load(k); ok {
		return v.(*ssa.Function)
	}
	f := l.prog.LookupMethod(t, m.Pkg(), m.Name())
	l.meths.Store(k, f)
	return f
}

func (l *Loaded) methodByName(t types.Type, name string) *ssa.Function {
	k := methKey{t, "~" + name}
	if v, ok := l.meths.Load(k); ok {
		return v.(*ssa.Function)
	}
	var f *ssa.Function
	if t != rtErrorType {
		ms := l.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name && ms.At(i).Obj().Exported() {
				f = l.prog.MethodValue(ms.At(i))
			}
		}
	}
	l.meths.Store(k, f)
	return f
}

// stubGlobals gives the globals of packages that are not initialised a value
// that can be told apart.
func (x *Exec) stubGlobals(p *ssa.Package) {
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		c := new(Value)
		et := g.Type().(*types.Pointer).Elem()
		*c = x.zero(et)
		if p.Pkg.Path() == "os" && (g.Name() == "Stderr" || g.Name() == "Stdout" || g.Name() == "Stdin") {
			f := new(Value)
			*f = x.zero(et.(*types.Pointer).Elem())
			*c = Ptr{c: f}
		}
		x.globals[g] = c
	}
}

func registerOS() {
	intrinsics["(*os.File).Write"] = func(x *Exec, fr *frame, a []Value) Value {
		x.stdout++
		return Tuple{a[1].(Slice).n, Iface{}}
	}
	intrinsics["(*os.File).WriteString"] = func(x *Exec, fr *frame, a []Value) Value {
		x.stdout++
		return Tuple{a[1].(Str).n, Iface{}}
	}
}

// overlayDir adds every .go file below src as a virtual file below dst.
func overlayDir(ov map[string][]byte, src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		ov[filepath.Join(dst, rel)] = b
		return nil
	})
}

// harnessFuncs lists the H_ functions declared in the overlay files of a directory.
func harnessFuncs(ov map[string][]byte, dir string) []string {
	var r []string
	for p, b := range ov {
		if filepath.Dir(p) != dir {
			continue
		}
		f, err := parser.ParseFile(fset0, p, b, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "H_") {
				r = append(r, fd.Name.Name)
			}
		}
	}
	return r
}
