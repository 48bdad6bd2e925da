package main

// The generator of the current tree, built and run on the corpus of
// specifications; its output joins the overlay as packages of its own.

import (
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// corpusPkg is a package the generator emitted.
type corpusPkg struct {
	name     string
	spec     string // what was given to the generator
	flags    string
	sp       *xspec // reference
	files    map[string][]byte
	shipped  bool
	same     bool // shipped, and identical to what is checked in
	unsigned bool
	err      string // why there are no files
}

// packages that differ from the others in names and numbers only
var namesOnly = regexp.MustCompile(`^(minus|gowords)[0-9]+$`)

var runRE = regexp.MustCompile(`(?m)^/\* run: *(.*?) *\*/$`)

// buildGenerator compiles the generator from the current sources.
func (c *ctx) buildGenerator() (string, error) {
	d := filepath.Join(c.tmp, "gen")
	if err := os.MkdirAll(d, 0777); err != nil {
		return "", err
	}
	es, err := ioutil.ReadDir(c.repo)
	if err != nil {
		return "", err
	}
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || n == "xdr.go" || strings.HasSuffix(n, "_test.go") || !(strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".y") || n == "go.mod" || n == "go.sum") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(c.repo, n))
		if err != nil {
			return "", err
		}
		os.WriteFile(filepath.Join(d, n), b, 0666)
	}
	if err := c.goyacc(d); err != nil {
		return "", err
	}
	bin := filepath.Join(c.tmp, "rpcgen")
	cmd := exec.Command("go", "build", "-o", bin, ".")
	cmd.Dir = d
	cmd.Env = c.goEnv()
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the generator: %v\n%s", err, o)
	}
	return bin, nil
}

// goyacc makes xdr.go from xdr.y in d.
func (c *ctx) goyacc(d string) error {
	var last error
	for _, y := range []string{filepath.Join(c.verif, "bin/goyacc"), "/opt/vp/gobin/goyacc", "goyacc"} {
		p, err := exec.LookPath(y)
		if err != nil {
			last = err
			continue
		}
		cmd := exec.Command(p, "-o", "xdr.go", "-p", "xdr", "xdr.y")
		cmd.Dir = d
		o, err := cmd.CombinedOutput()
		if err == nil {
			return nil
		}
		last = fmt.Errorf("goyacc: %v\n%s", err, o)
	}
	return last
}

// generate runs the generator on a specification.
func (c *ctx) generate(bin string, p *corpusPkg) {
	d, err := os.MkdirTemp(c.tmp, "out")
	if err != nil {
		p.err = err.Error()
		return
	}
	os.WriteFile(filepath.Join(d, "in.x"), []byte(p.spec), 0666)
	args := []string{"-i", "in.x", "-o", "xdr.go", "-p", p.name}
	for _, f := range strings.Fields(p.flags) {
		args = append(args, f)
		if f == "-t" {
			args = append(args, "types.go")
		}
	}
	cx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cx, bin, args...)
	cmd.Dir = d
	if o, err := cmd.CombinedOutput(); err != nil {
		s := string(o)
		if i := strings.Index(s, "\n\ngoroutine"); i >= 0 {
			s = s[:i]
		}
		p.err = fmt.Sprintf("generator: %v: %.400s", err, s)
		return
	}
	p.files = map[string][]byte{}
	es, _ := ioutil.ReadDir(d)
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") {
			b, _ := os.ReadFile(filepath.Join(d, e.Name()))
			p.files[e.Name()] = b
		}
	}
}

// corpus generates the packages: the shipped specifications with the flags of
// the Makefile, and those of specs/corpus in all their variants, or in one.
func (c *ctx) corpus(variants bool) ([]*corpusPkg, error) {
	bin, err := c.buildGenerator()
	if err != nil {
		return nil, err
	}
	var ps []*corpusPkg
	for _, n := range []string{"1057", "1813"} {
		b, err := os.ReadFile(filepath.Join(c.repo, "rfc"+n, "prot.x"))
		if err != nil {
			continue
		}
		sp, err := c.readSpec("rfc" + n + ".x")
		if err != nil {
			return nil, err
		}
		ps = append(ps, &corpusPkg{name: "gen" + n, spec: string(b), flags: "-t -unsigned-enum -const-type uint32", sp: sp, unsigned: true, shipped: true})
	}
	fs, _ := filepath.Glob(filepath.Join(c.verif, "specs/corpus/*.x"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for k, m := range runRE.FindAllStringSubmatch(string(b), -1) {
			if k > 0 && !variants {
				break
			}
			sp, err := parseSpec(string(b))
			if err != nil {
				return nil, fmt.Errorf("%s: %v", f, err)
			}
			ps = append(ps, &corpusPkg{name: fmt.Sprintf("%s%d", strings.TrimSuffix(filepath.Base(f), ".x"), k+1), spec: string(b), flags: m[1], sp: sp, unsigned: strings.Contains(m[1], "-unsigned-enum")})
		}
	}
	var wg sync.WaitGroup
	for _, p := range ps {
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.generate(bin, p)
		}()
	}
	wg.Wait()
	for _, p := range ps {
		if !p.shipped || p.err != "" {
			continue
		}
		p.same = true
		dir := filepath.Join(c.repo, "rfc"+strings.TrimPrefix(p.name, "gen"))
		for n, b := range p.files {
			o, _ := os.ReadFile(filepath.Join(dir, n))
			s := strings.Replace(string(b), "package "+p.name, "package "+filepath.Base(dir), 1)
			if s != string(o) {
				p.same = false
			}
		}
	}
	return ps, nil
}

// place adds a package and its reference to the overlay.
func (c *ctx) place(p *corpusPkg) string {
	d := filepath.Join(c.repo, "zz_verif/corpus", p.name)
	for n, b := range p.files {
		c.overlay[filepath.Join(d, n)] = b
	}
	return modPath + "/zz_verif/corpus/" + p.name
}

// instrumentPlaced adds scheduling points to the emitted code.
func (c *ctx) instrumentPlaced(p *corpusPkg) {
	d := filepath.Join(c.repo, "zz_verif/corpus", p.name)
	for n, b := range p.files {
		if r, err := instrumentFile(n, b, false); err == nil && r != nil {
			c.overlay[filepath.Join(d, n)] = r
		}
	}
}

func (c *ctx) unplace(p *corpusPkg) {
	d := filepath.Join(c.repo, "zz_verif/corpus", p.name)
	for n := range p.files {
		delete(c.overlay, filepath.Join(d, n))
	}
	delete(c.overlay, c.corpusFile(p))
}

func (c *ctx) corpusFile(p *corpusPkg) string {
	return filepath.Join(c.repo, "zz_verif/h/zz_"+p.name+".go")
}

// compiles builds every emitted package, and says what is wrong with each.
func (c *ctx) compiles(ps []*corpusPkg) {
	ov := map[string]map[string]string{"Replace": {}}
	i := 0
	var pats []string
	by := map[string]*corpusPkg{}
	for _, p := range ps {
		if p.err != "" {
			continue
		}
		for n, b := range p.files {
			f := filepath.Join(c.tmp, fmt.Sprintf("corp%d.go", i))
			i++
			os.WriteFile(f, b, 0666)
			ov["Replace"][filepath.Join(c.repo, "zz_verif/corpus", p.name, n)] = f
		}
		pats = append(pats, "./zz_verif/corpus/"+p.name)
		by[p.name] = p
	}
	if len(pats) == 0 {
		return
	}
	j, _ := json.Marshal(ov)
	ovf := filepath.Join(c.tmp, "corpus.json")
	os.WriteFile(ovf, j, 0666)
	cmd := exec.Command("go", append([]string{"build", "-overlay", ovf}, pats...)...)
	cmd.Dir = c.repo
	cmd.Env = c.goEnv()
	o, err := cmd.CombinedOutput()
	if err == nil {
		return
	}
	var cur *corpusPkg
	for _, l := range strings.Split(string(o), "\n") {
		if strings.HasPrefix(l, "# ") {
			cur = by[l[strings.LastIndex(l, "/")+1:]]
			if k := strings.IndexByte(l, ' '); k > 0 && cur == nil {
				cur = by[filepath.Base(strings.Fields(l[2:])[0])]
			}
			continue
		}
		if cur != nil && cur.err == "" && strings.TrimSpace(l) != "" {
			cur.err = "emitted code does not compile: " + l
		}
	}
}

// corpusHarnesses adds the emitted packages with the harnesses of the property.
func (c *ctx) corpusHarnesses() error {
	all := c.prop == "C18"
	ps, err := c.corpus(all)
	if err != nil {
		if all {
			return err
		}
		c.notes = append(c.notes, "corpus left out: "+err.Error())
		return nil
	}
	c.compiles(ps)
	n, skipped := 0, []string{}
	for _, p := range ps {
		if p.err != "" {
			if all {
				c.specFailure(p, p.err)
			} else {
				c.notes = append(c.notes, "corpus package "+p.name+" left out: "+p.err)
			}
			continue
		}
		if !all && p.shipped && p.same {
			skipped = append(skipped, p.name)
			continue
		}
		if namesOnly.MatchString(p.name) && !all && c.prop != "C03" && c.prop != "C04" {
			continue
		}
		imp := c.place(p)
		g := newSpecGen(p.sp, p.name, p.unsigned)
		g.helpers()
		if all {
			g.suffix = "_enc"
			g.harness(c.prop, typeHarness["C04"])
			g.suffix = "_dec"
			g.harness(c.prop, typeHarness["C05"])
			if !p.shipped {
				g.procs(c.prop, procHarness["C11"])
			}
			g.constants(c.prop)
		} else {
			if c.prop == "C23" {
				c.instrumentPlaced(p)
			}
			if t := typeHarness[c.prop]; t != "" {
				g.harness(c.prop, t)
			}
			if t := procHarness[c.prop]; t != "" {
				g.procs(c.prop, t)
			}
		}
		c.overlay[c.corpusFile(p)] = g.file(imp)
		c.corpusPkgs = append(c.corpusPkgs, p)
		n++
	}
	c.extra["emitted_packages_checked"] = n
	if len(skipped) > 0 {
		c.extra["emitted_packages_identical_to_committed"] = skipped
	}
	return nil
}

// specFailure is a violation found before anything can be encoded: a valid
// specification whose output does not exist or cannot be used.
func (c *ctx) specFailure(p *corpusPkg, why string) {
	for i, k := range c.known {
		if k.Property == c.prop && k.Harness == p.name && strings.Contains(why, k.Label) {
			c.knownHit[i] = true
			return
		}
	}
	c.specErrs = append(c.specErrs, fmt.Sprintf("specification %s (flags %q): %s", p.name, p.flags, why))
	if len(c.specErrs) > 1 {
		return
	}
	dir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(dir, 0777)
	c.replayPath = filepath.Join(dir, c.prop+".json")
	b, _ := json.MarshalIndent(map[string]string{"Property": c.prop, "Specification": p.spec, "Flags": p.flags, "Failure": why}, "", " ")
	os.WriteFile(c.replayPath, b, 0666)
}
