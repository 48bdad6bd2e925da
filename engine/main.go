package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var fset0 = token.NewFileSet()

const modPath = "github.com/zeldovich/go-rpcgen"

type propCfg struct {
	Program  string // "h" (library harnesses) or "gen" (the generator)
	Level    string
	Budget   [2]int // seconds, quick and thorough
	Preempts [2]int
	Steps    bool // scheduling points between the statements of the code
	Assume   []string
	Bounds   []string
	MaxSite  int
}

type ctx struct {
	verif, repo, tmp string
	prop             string
	tier             string
	seed             int64
	cfg              propCfg
	overlay          map[string][]byte
	ld               *Loaded
	run              *Run
	nativeOnce       sync.Once
	nativeBin        string
	nativeErr        error
	mu               sync.Mutex
	confirmed        []*violation
	unconfirmed      []string
	replayPath       string
	known            []knownFinding
	knownHit         map[int]bool
	notes            []string
	extra            map[string]interface{}
	only             string
	corpusPkgs       []*corpusPkg
	specErrs         []string
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 3 || os.Args[1] != "check" {
		if len(os.Args) >= 2 {
			if f, ok := extraCmds[os.Args[1]]; ok {
				f(os.Args[2:])
				return
			}
		}
		die("usage: symgo check PROPERTY [-only HARNESS] [-v]")
	}
	c := &ctx{prop: os.Args[2], tier: os.Getenv("VERIF_TIER"), overlay: map[string][]byte{}, knownHit: map[int]bool{}, extra: map[string]interface{}{}}
	if c.tier == "" {
		c.tier = "quick"
	}
	c.seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = s
	}
	c.verif = os.Getenv("VERIF_DIR")
	if c.verif == "" {
		c.verif = "/verif"
	}
	c.repo = os.Getenv("VERIF_REPO")
	if c.repo == "" {
		c.repo = "/repo"
	}
	verbose := false
	for i := 3; i < len(os.Args); i++ {
		switch os.Args[i] {
		case "-v":
			verbose = true
		case "-only":
			i++
			c.only = os.Args[i]
		}
	}
	cfg, ok := props[c.prop]
	if !ok {
		die("unknown property %s", c.prop)
	}
	c.cfg = cfg
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		die("%v", err)
	}
	c.tmp = tmp
	code := c.check(verbose)
	os.RemoveAll(tmp)
	os.Exit(code)
}

func (c *ctx) check(verbose bool) int {
	t0 := time.Now()
	c.loadKnown()
	if err := c.prepare(); err != nil {
		// the tree cannot be encoded: no verdict
		fmt.Printf("INCONCLUSIVE property=%s %v\n", c.prop, err)
		c.evidence(t0, "encoding failed: "+err.Error())
		return 0
	}
	tLoad := time.Since(t0)
	if len(c.specErrs) > 0 {
		c.evidence(t0, "")
		for _, e := range c.specErrs {
			fmt.Printf("violated: %.600s\n", e)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, c.replayPath)
		return 1
	}
	c.explore(verbose)
	validated, vfail := 0, 0
	if len(c.confirmed) == 0 {
		validated, vfail = c.validate()
	}
	c.extra["load_s"] = tLoad.Seconds()
	c.extra["traces_validated_against_impl"] = validated
	c.extra["traces_disagreeing"] = vfail
	c.evidence(t0, "")
	for i, k := range c.known {
		if c.knownHit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.What)
		}
	}
	c.report(t0)
	if len(c.confirmed) > 0 {
		v := c.confirmed[0]
		fmt.Printf("violated: harness %s, assertion %q %s\n", v.harness, v.label, v.detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, c.replayPath)
		return 1
	}
	return 0
}

func (c *ctx) prepare() error {
	if err := c.buildOverlay(); err != nil {
		return err
	}
	pats := []string{"./zz_verif/h"}
	if c.cfg.Program == "gen" {
		pats = []string{"."}
	}
	if len(c.specErrs) > 0 {
		return nil
	}
	ld, err := loadProgram(c.repo, c.overlay, pats...)
	if err != nil {
		ld, err = c.withoutCorpus(err, pats)
	}
	if err != nil {
		return err
	}
	c.ld = ld
	return nil
}

// withoutCorpus loads again without the emitted packages that the references
// do not fit.
func (c *ctx) withoutCorpus(err error, pats []string) (*Loaded, error) {
	bad := false
	for _, p := range c.corpusPkgs {
		for _, l := range strings.Split(err.Error(), "\n") {
			if strings.Contains(l, "/zz_"+p.name+".go:") {
				bad = true
				if c.prop == "C18" {
					c.specFailure(p, "emitted declarations do not match the specification: "+l[strings.Index(l, "/zz_"):])
				}
				break
			}
		}
	}
	if !bad || c.prop == "C18" {
		if len(c.specErrs) > 0 {
			return nil, nil
		}
		return nil, err
	}
	c.notes = append(c.notes, "corpus left out: "+err.Error())
	for _, p := range c.corpusPkgs {
		c.unplace(p)
	}
	c.extra["emitted_packages_checked"] = 0
	return loadProgram(c.repo, c.overlay, pats...)
}

func (c *ctx) hdir() string {
	if c.cfg.Program == "gen" {
		return c.repo
	}
	return filepath.Join(c.repo, "zz_verif/h")
}

func (c *ctx) explore(verbose bool) {
	r := NewRun(c.ld)
	c.run = r
	r.thorough = c.tier == "thorough"
	r.seed = c.seed
	r.verbose = verbose
	ti := 0
	if r.thorough {
		ti = 1
		r.maxSamples = 12
		r.maxConfirm = 1 << 30
	}
	if b := c.cfg.Budget[ti]; b > 0 {
		r.deadline = time.Now().Add(time.Duration(b) * time.Second)
	}
	r.maxPreempts = c.cfg.Preempts[ti]
	if c.cfg.MaxSite > 0 {
		r.maxSite = c.cfg.MaxSite
	}
	pkg := c.ld.pkgs[modPath+"/zz_verif/h"]
	if c.cfg.Program == "gen" {
		pkg = c.ld.pkgs[modPath]
	}
	hs := harnessFuncs(c.overlay, c.hdir())
	sort.Strings(hs)
	for _, n := range hs {
		if !strings.HasPrefix(n, "H_"+c.prop+"_") || (c.only != "" && !strings.Contains(n, c.only)) {
			continue
		}
		fn := pkg.Func(n)
		if fn == nil {
			continue
		}
		h := &Harness{name: n, prop: c.prop, fn: fn, ends: map[endKind]int{}, endMsgs: map[string]int{}, covers: map[string]bool{}, asserts: map[string]int{}, confirmed: map[string]int{}}
		h.wantCovers = wantCovers(fn)
		r.harnesses = append(r.harnesses, h)
	}
	r.stopOnViolation = func(v *violation) bool { return c.confirm(v) }
	r.explore(runtime.NumCPU())
}

// confirm replays a counterexample against the real code.
func (c *ctx) confirm(v *violation) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.confirmed) > 0 {
		return true
	}
	for i, k := range c.known {
		if k.Status == "known" && k.Property == c.prop && k.Harness == v.harness && k.Label == v.label {
			c.knownHit[i] = true
			return false
		}
	}
	rp := c.replayOf(v.harness, v.model, v.ord)
	out, obs := c.native([]replayJSON{rp}, 60*time.Second)
	_ = obs
	res := "crash"
	if len(out) > 0 {
		res = out[0]
	}
	for i := 0; res == "ok" && i < 60 && dependsOnOrder(v.model); i++ {
		// the native map order cannot be imposed
		if out, _ := c.native([]replayJSON{rp}, 60*time.Second); len(out) > 0 {
			res = out[0]
		}
	}
	if strings.HasPrefix(res, "assert:") || strings.HasPrefix(res, "panic:") || strings.HasPrefix(res, "crash") || (res == "timeout") {
		v.detail += " [native: " + res + "]"
		c.confirmed = append(c.confirmed, v)
		dir := filepath.Join(c.verif, "evidence", "replay")
		os.MkdirAll(dir, 0777)
		c.replayPath = filepath.Join(dir, c.prop+".json")
		b, _ := json.MarshalIndent(struct {
			Property, Assertion, Detail string
			Replay                      []replayJSON
		}{c.prop, v.label, v.detail, []replayJSON{rp}}, "", " ")
		os.WriteFile(c.replayPath, b, 0666)
		return true
	}
	if debugUnconf {
		j, _ := json.Marshal(rp)
		fmt.Fprintf(os.Stderr, "unconfirmed %s %s\n encoding %v\n native %v\n%s\n", v.harness, v.label, v.obs, obs, j)
	}
	c.unconfirmed = append(c.unconfirmed, fmt.Sprintf("%s: %q %s: native outcome %q", v.harness, v.label, v.detail, res))
	return false
}

func dependsOnOrder(m *Model) bool {
	for k := range m.Vars {
		if strings.HasPrefix(k, "maporder#") {
			return true
		}
	}
	return false
}

type replayJSON struct {
	Harness string
	Vars    map[string]uint64
	Arrs    map[string]map[string]uint64
	Order   []string
	Tier    string
}

func (c *ctx) replayOf(h string, m *Model, ord []string) replayJSON {
	r := replayJSON{Harness: h, Vars: map[string]uint64{}, Arrs: map[string]map[string]uint64{}, Order: ord, Tier: c.tier}
	for k, v := range m.Vars {
		r.Vars[k] = v
	}
	for k, a := range m.Arrs {
		b := map[string]uint64{}
		for i, v := range a {
			b[strconv.FormatUint(i, 10)] = v
		}
		r.Arrs[k] = b
	}
	return r
}

func (c *ctx) goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0")
}

func (c *ctx) buildNative() {
	c.nativeBin, c.nativeErr = c.buildNativeAt(filepath.Join(c.tmp, "native"))
	if c.nativeErr != nil {
		fmt.Fprintln(os.Stderr, c.nativeErr)
	}
	if k := os.Getenv("SYMGO_KEEP"); k != "" && c.nativeBin != "" {
		exec.Command("cp", c.nativeBin, k).Run()
	}
}

func (c *ctx) buildNativeAt(bin string) (string, error) {
	ov := map[string]map[string]string{"Replace": {}}
	i := 0
	for p, b := range c.overlay {
		f := filepath.Join(c.tmp, fmt.Sprintf("ov%d.go", i))
		i++
		os.WriteFile(f, b, 0666)
		ov["Replace"][p] = f
	}
	pkg := "."
	if c.cfg.Program != "gen" {
		// the runner
		pkg = "./zz_verif/run"
		var b bytes.Buffer
		b.WriteString("package main\nimport (\n\"" + modPath + "/zz_verif/h\"\n\"" + modPath + "/zz_verif/sym\"\n)\nfunc main() { sym.Main(map[string]func(){\n")
		hs := harnessFuncs(c.overlay, c.hdir())
		sort.Strings(hs)
		for _, n := range hs {
			fmt.Fprintf(&b, "%q: h.%s,\n", n, n)
		}
		b.WriteString("}) }\n")
		f := filepath.Join(c.tmp, "runner.go")
		os.WriteFile(f, b.Bytes(), 0666)
		ov["Replace"][filepath.Join(c.repo, "zz_verif/run/main.go")] = f
	}
	j, _ := json.Marshal(ov)
	ovf := filepath.Join(c.tmp, "overlay.json")
	os.WriteFile(ovf, j, 0666)
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, pkg)
	cmd.Dir = c.repo
	cmd.Env = c.goEnv()
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, o)
	}
	return bin, nil
}

// native runs replays in one process; outcomes that are missing mean the
// process died.
func (c *ctx) native(rs []replayJSON, timeout time.Duration) ([]string, [][]string) {
	c.nativeOnce.Do(c.buildNative)
	if c.nativeBin == "" {
		return []string{"no native build"}, nil
	}
	if c.cfg.Program == "gen" && len(rs) > 1 {
		// the generator's globals live as long as the process
		var outs []string
		var obs [][]string
		for _, r := range rs {
			o, b := c.native([]replayJSON{r}, timeout)
			if len(o) == 0 {
				o = []string{"crash"}
			}
			if len(b) == 0 {
				b = [][]string{nil}
			}
			outs, obs = append(outs, o[0]), append(obs, b[0])
		}
		return outs, obs
	}
	b, _ := json.Marshal(rs)
	f, _ := os.CreateTemp(c.tmp, "replay")
	f.Write(b)
	f.Close()
	cx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(cx, "sh", "-c", "ulimit -v 25000000; exec "+c.nativeBin)
	wd := filepath.Join(c.tmp, "wd")
	os.MkdirAll(wd, 0777)
	cmd.Dir = wd
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f.Name(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	var so, se bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &se
	err := cmd.Run()
	var outs []string
	var obs [][]string
	sc := bufio.NewScanner(&so)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "RESULT ") {
			continue
		}
		var r struct {
			Outcome string
			Obs     []string
		}
		json.Unmarshal([]byte(l[7:]), &r)
		outs = append(outs, r.Outcome)
		obs = append(obs, r.Obs)
	}
	if len(outs) < len(rs) {
		if cx.Err() != nil {
			outs = append(outs, "timeout")
		} else if err != nil {
			es := se.String()
			if i := strings.Index(es, "\n\n"); i > 0 {
				es = es[:i]
			}
			if len(es) > 300 {
				es = es[:300]
			}
			if len(outs) == 0 || !strings.HasPrefix(outs[len(outs)-1], "assert:") {
				outs = append(outs, "crash: "+strings.TrimSpace(es))
			}
		}
	}
	return outs, obs
}

// validate replays sampled paths natively and compares outcome and
// observations with what the encoding predicts.
func (c *ctx) validate() (ok, bad int) {
	var rs []replayJSON
	var want []sample
	for _, h := range c.run.harnesses {
		for _, s := range h.samples {
			rs = append(rs, c.replayOf(h.name, s.Model, s.Order))
			want = append(want, s)
		}
	}
	for len(rs) > 0 {
		outs, obs := c.native(rs, 120*time.Second)
		n := 0
		for i := range outs {
			if i >= len(want) {
				break
			}
			n++
			var o []string
			if i < len(obs) {
				o = obs[i]
			}
			if outs[i] == want[i].Outcome && strings.Join(o, ";") == strings.Join(want[i].Obs, ";") {
				ok++
				continue
			}
			bad++
			m := fmt.Sprintf("%s: native %q %v, encoding %q %v", rs[i].Harness, outs[i], o, want[i].Outcome, want[i].Obs)
			if len(m) > 600 {
				m = m[:600]
			}
			c.notes = append(c.notes, "translator disagreement: "+m)
			if bad <= 2 && os.Getenv("SYMGO_DEBUG") != "" {
				j, _ := json.Marshal(rs[i])
				fmt.Fprintln(os.Stderr, string(j))
			}
		}
		if n == 0 {
			c.notes = append(c.notes, "native validation did not run")
			return ok, bad
		}
		rs, want = rs[n:], want[n:]
	}
	return ok, bad
}

func (c *ctx) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.json"))
	if err != nil {
		return
	}
	var all []knownFinding
	json.Unmarshal(b, &all)
	for _, k := range all {
		if k.Status == "known" { // a fixed finding suppresses nothing
			c.known = append(c.known, k)
		}
	}
}

type stats struct {
	paths, decs, queries, sat, unsat, unknown, cacheHits, crossOK, crossBad int
	solverTime, maxQuery                                                  time.Duration
	asserts, discharged, trivial                                          int
	truncated, unsupported                                                int
}

func (c *ctx) stats() stats {
	var s stats
	if c.run == nil {
		return s
	}
	s.paths, s.decs = c.run.totalPaths, c.run.totalDecs
	for _, w := range c.run.workers {
		st := w.sv.Stats
		s.queries += st.Queries
		s.sat += st.SatN
		s.unsat += st.UnsatN
		s.unknown += st.UnknownN
		s.cacheHits += st.CacheHits
		s.crossOK += st.CrossChecked
		s.crossBad += st.CrossDisagree
		s.solverTime += st.Time
		if st.MaxQuery > s.maxQuery {
			s.maxQuery = st.MaxQuery
		}
	}
	for _, h := range c.run.harnesses {
		for _, n := range h.asserts {
			s.asserts += n
		}
		s.discharged += h.discharged
		s.trivial += h.trivially
		s.truncated += h.ends[endTruncated]
		s.unsupported += h.ends[endUnsupported]
	}
	return s
}

func (c *ctx) report(t0 time.Time) {
	s := c.stats()
	fmt.Printf("%s tier=%s: %d harnesses, %d paths, %d assertions decided (%d by solver, %d by simplification), %d queries (sat %d, unsat %d, unknown %d, cached %d), solver %.1fs, wall %.1fs\n",
		c.prop, c.tier, len(c.run.harnesses), s.paths, s.discharged+s.trivial, s.discharged, s.trivial, s.queries, s.sat, s.unsat, s.unknown, s.cacheHits, s.solverTime.Seconds(), time.Since(t0).Seconds())
	for _, h := range c.run.harnesses {
		var miss []string
		for _, w := range h.wantCovers {
			if !h.covers[w] && w[0] != '?' {
				miss = append(miss, w)
			}
		}
		if len(miss) > 0 {
			fmt.Printf("  note: %s never reached %v\n", h.name, miss)
		}
		if h.ends[endTruncated]+h.ends[endUnsupported]+h.ends[endUnknown]+h.unknown > 0 {
			fmt.Printf("  reduced bound: %s: %d paths cut, %d not encodable, %d undecided %v\n", h.name, h.ends[endTruncated], h.ends[endUnsupported], h.unknown, topMsgs(h.endMsgs))
		}
	}
	if c.run.timedOut {
		fmt.Printf("  reduced bound: time budget reached, unexplored prefixes: %v\n", c.run.left)
	}
	for _, u := range c.unconfirmed {
		fmt.Printf("  inconclusive: counterexample not reproduced natively: %s\n", u)
	}
	for _, n := range c.notes {
		fmt.Printf("  note: %s\n", n)
	}
	if s.crossBad > 0 {
		fmt.Printf("  note: %d solver disagreements\n", s.crossBad)
	}
}

func topMsgs(m map[string]int) []string {
	var r []string
	for k, n := range m {
		if len(k) > 500 && os.Getenv("SYMGO_DEBUG") == "" {
			k = k[:500]
		}
		r = append(r, fmt.Sprintf("%dx %s", n, k))
	}
	sort.Strings(r)
	if len(r) > 6 {
		r = r[:6]
	}
	return r
}
