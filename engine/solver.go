package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int
	Time                            time.Duration
	MaxQuery                        time.Duration
	CacheHits                       int
	Integer                         int // queries decided as integer arithmetic
	CrossChecked, CrossDisagree     int
}

type Solver struct {
	tt     *Table
	bin    []string
	cmd    *exec.Cmd
	in     *bufio.Writer
	inPipe io.WriteCloser
	out    *bufio.Reader
	gen    int
	em     map[int]bool    // emitted term ids
	arrs   map[string]bool // declared arrays
	deps   map[int]*depset
	Stats  SolverStats
	Timeout int // ms
	cross   int // every n-th query is re-decided by a second solver (0: never)
	lastDefs []*Term
	noInt   bool
}

// free variables/arrays of a term, as a small sorted set of names
type depset struct{ names map[string]*Term }

func NewSolver(tt *Table) *Solver {
	s := &Solver{tt: tt, Timeout: 30000, deps: map[int]*depset{}}
	s.bin = []string{"z3-new", "-in", "-smt2"}
	if v := os.Getenv("SYMGO_SOLVER"); v != "" {
		s.bin = strings.Fields(v)
	} else if _, err := exec.LookPath("z3-new"); err != nil {
		s.bin = []string{"z3", "-in", "-smt2"}
	}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	ip, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	op, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = ip
	s.in = bufio.NewWriterSize(ip, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	s.em = map[int]bool{}
	s.arrs = map[string]bool{}
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-option :timeout %d)\n", s.Timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(w int, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func ref(t *Term) string {
	switch t.Op {
	case OConst:
		return constStr(t.W, t.V)
	case OVar:
		return "|" + t.Name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

// emit writes the definitions t needs.
func (s *Solver) emit(w io.Writer, t *Term, em map[int]bool, arrs map[string]bool) {
	if t.Op == OConst || em[t.id] {
		return
	}
	for _, a := range t.A {
		s.emit(w, a, em, arrs)
	}
	em[t.id] = true
	if t.Op == OVar {
		fmt.Fprintf(w, "(declare-fun %s () %s)\n", ref(t), sortOf(t.W))
		return
	}
	if t.Op == OSelect && !arrs[t.Name] {
		arrs[t.Name] = true
		fmt.Fprintf(w, "(declare-fun |arr:%s| ((_ BitVec %d)) %s)\n", t.Name, t.A[0].W, sortOf(t.W))
	}
	fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.W), body(t))
}

func body(t *Term) string {
	bin := func(op string) string { return "(" + op + " " + ref(t.A[0]) + " " + ref(t.A[1]) + ")" }
	switch t.Op {
	case OLin:
		var ps []string
		for i, a := range t.A {
			c := sx(t.C[i], t.W)
			switch {
			case c == 1:
				ps = append(ps, ref(a))
			case c == -1:
				ps = append(ps, "(bvneg "+ref(a)+")")
			default:
				ps = append(ps, "(bvmul "+constStr(t.W, t.C[i])+" "+ref(a)+")")
			}
		}
		if t.V != 0 {
			ps = append(ps, constStr(t.W, t.V))
		}
		if len(ps) == 1 {
			return ps[0]
		}
		r := ps[0]
		for _, p := range ps[1:] {
			r = "(bvadd " + r + " " + p + ")"
		}
		return r
	case OMul:
		return bin("bvmul")
	case OUdiv:
		return bin("bvudiv")
	case OUrem:
		return bin("bvurem")
	case OSdiv:
		return bin("bvsdiv")
	case OSrem:
		return bin("bvsrem")
	case OAnd:
		return bin("bvand")
	case OOr:
		return bin("bvor")
	case OXor:
		return bin("bvxor")
	case OShl:
		return bin("bvshl")
	case OLshr:
		return bin("bvlshr")
	case OAshr:
		return bin("bvashr")
	case OConcat:
		r := ref(t.A[len(t.A)-1])
		for i := len(t.A) - 2; i >= 0; i-- {
			r = "(concat " + ref(t.A[i]) + " " + r + ")"
		}
		return r
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.Hi, t.Lo, ref(t.A[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, ref(t.A[0]))
	case OEq:
		return bin("=")
	case OUlt:
		return bin("bvult")
	case OSlt:
		return bin("bvslt")
	case ONot:
		return "(not " + ref(t.A[0]) + ")"
	case OBAnd:
		var b strings.Builder
		b.WriteString("(and")
		for _, a := range t.A {
			b.WriteString(" " + ref(a))
		}
		return b.String() + ")"
	case OIte:
		return "(ite " + ref(t.A[0]) + " " + ref(t.A[1]) + " " + ref(t.A[2]) + ")"
	case OSelect:
		return "(|arr:" + t.Name + "| " + ref(t.A[0]) + ")"
	}
	panic("body")
}

func (s *Solver) depsOf(t *Term) *depset {
	if d, ok := s.deps[t.id]; ok {
		return d
	}
	d := &depset{map[string]*Term{}}
	switch t.Op {
	case OVar:
		d.names[t.Name] = t
	case OSelect:
		if t.A[0].IsConst() {
			d.names[fmt.Sprintf("arr:%s@%d", t.Name, t.A[0].V)] = t
		} else {
			d.names["arr:"+t.Name] = t
		}
	}
	if len(t.A) == 1 && len(d.names) == 0 {
		d = s.depsOf(t.A[0])
	} else {
		for _, a := range t.A {
			for n, v := range s.depsOf(a).names {
				d.names[n] = v
			}
		}
	}
	s.deps[t.id] = d
	return d
}

// slice returns the members of pc that can matter for goal.
func (s *Solver) slice(pc []*Term, goal *Term) []*Term {
	have := map[string]bool{}
	wholeArr := map[string]bool{} // array with a symbolic index in play
	partArr := map[string]bool{}  // array with constant-index reads in play
	add := func(n string) {
		have[n] = true
		if strings.HasPrefix(n, "arr:") {
			if i := strings.LastIndexByte(n, '@'); i >= 0 {
				partArr[n[:i]] = true
			} else {
				wholeArr[n] = true
			}
		}
	}
	hit := func(n string) bool {
		if have[n] {
			return true
		}
		if strings.HasPrefix(n, "arr:") {
			if i := strings.LastIndexByte(n, '@'); i >= 0 {
				return wholeArr[n[:i]]
			}
			return partArr[n]
		}
		return false
	}
	for n := range s.depsOf(goal).names {
		add(n)
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			d := s.depsOf(c)
			for n := range d.names {
				if hit(n) {
					used[i] = true
					changed = true
					for m := range d.names {
						add(m)
					}
					break
				}
			}
		}
	}
	var r []*Term
	for i, c := range pc {
		if used[i] {
			r = append(r, c)
		}
	}
	return r
}

func (s *Solver) varRanges(cs []*Term) []string {
	seen := map[string]bool{}
	var r []string
	for _, c := range cs {
		for n, v := range s.depsOf(c).names {
			if v.Op == OVar && v.W > 0 && !seen[n] {
				seen[n] = true
				if v.lo != 0 {
					r = append(r, fmt.Sprintf("(bvuge %s %s)", ref(v), constStr(v.W, v.lo)))
				}
				if v.hi != mask(v.W) {
					r = append(r, fmt.Sprintf("(bvule %s %s)", ref(v), constStr(v.W, v.hi)))
				}
			}
		}
	}
	return r
}

// Check decides pc /\ goal.  On Sat the model covers every variable and array
// read occurring in the checked slice; the rest of pc is independent of it.
func (s *Solver) Check(pc []*Term, goal *Term) (Result, *Model) {
	if goal.IsFalse() {
		return Unsat, nil
	}
	cs := append(s.slice(pc, goal), goal)
	return s.checkAll(cs)
}

func (s *Solver) checkAll(cs []*Term) (Result, *Model) {
	t0 := time.Now()
	s.Stats.Queries++
	defer func() {
		d := time.Since(t0)
		s.Stats.Time += d
		if d > s.Stats.MaxQuery {
			s.Stats.MaxQuery = d
		}
		if slowDir != "" && d > 200*time.Millisecond {
			f, _ := os.Create(fmt.Sprintf("%s/q%d-%d.smt2", slowDir, d.Milliseconds(), t0.UnixNano()))
			w := bufio.NewWriter(f)
			s.dump(w, cs)
			w.Flush()
			f.Close()
		}
	}()
	if s.cmd == nil || len(s.em) > 400000 {
		s.Close()
		s.start()
	}
	if r, m, ok := s.tryLIA(cs); ok && !s.noInt {
		s.Stats.Integer++
		if r == Sat {
			s.Stats.SatN++
			return r, m
		}
		s.Stats.UnsatN++
		if s.cross > 0 && s.Stats.UnsatN%s.cross == 0 {
			s.crossCheck(cs, Unsat)
		}
		return r, nil
	}
	if s.cmd == nil {
		s.start()
	}
	for _, c := range cs {
		s.emit(s.in, c, s.em, s.arrs)
	}
	fmt.Fprintln(s.in, "(push 1)")
	for _, c := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", ref(c))
	}
	for _, r := range s.varRanges(cs) {
		fmt.Fprintf(s.in, "(assert %s)\n", r)
	}
	fmt.Fprintln(s.in, "(check-sat)")
	s.in.Flush()
	line, err := s.readLine(timeoutOf(s))
	if err != nil {
		s.Close()
		s.Stats.UnknownN++
		return Unknown, nil
	}
	switch line {
	case "unsat":
		fmt.Fprintln(s.in, "(pop 1)")
		s.Stats.UnsatN++
		if s.cross > 0 && s.Stats.UnsatN%s.cross == 0 {
			s.crossCheck(cs, Unsat)
		}
		return Unsat, nil
	case "sat":
		m := s.model(cs)
		fmt.Fprintln(s.in, "(pop 1)")
		if m == nil {
			s.Close()
			s.Stats.UnknownN++
			return Unknown, nil
		}
		s.Stats.SatN++
		return Sat, m
	}
	if strings.HasPrefix(line, "(error") {
		fmt.Fprintln(os.Stderr, "solver:", line)
		s.Close()
	} else {
		fmt.Fprintln(s.in, "(pop 1)")
	}
	s.Stats.UnknownN++
	return Unknown, nil
}

func (s *Solver) readLine(d time.Duration) (string, error) {
	type res struct {
		l string
		e error
	}
	timer := time.AfterFunc(d, func() {
		if s.cmd != nil && s.cmd.Process != nil {
			s.cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth, inbar, started := 0, false, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(c)
		if inbar {
			if c == '|' {
				inbar = false
			}
			continue
		}
		switch c {
		case '|':
			inbar = true
		case '(':
			depth++
			started = true
		case ')':
			depth--
			if started && depth == 0 {
				return b.String(), nil
			}
		}
	}
}

func (s *Solver) model(cs []*Term) *Model {
	var vars []*Term
	seen := map[int]bool{}
	var sel []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == OVar {
			vars = append(vars, t)
		}
		if t.Op == OSelect {
			sel = append(sel, t)
		}
		for _, a := range t.A {
			walk(a)
		}
	}
	for _, c := range cs {
		walk(c)
	}
	m := NewModel()
	var qs []*Term
	qs = append(qs, vars...)
	for _, t := range sel {
		qs = append(qs, t.A[0], t)
	}
	if len(qs) == 0 {
		return m
	}
	fmt.Fprint(s.in, "(get-value (")
	for _, q := range qs {
		fmt.Fprint(s.in, ref(q), " ")
	}
	fmt.Fprintln(s.in, "))")
	s.in.Flush()
	sx, err := s.readSexp()
	if err != nil {
		return nil
	}
	vals := parseValues(sx)
	if len(vals) != len(qs) {
		fmt.Fprintln(os.Stderr, "solver: bad get-value reply", len(vals), len(qs), sx[:min(len(sx), 300)])
		return nil
	}
	for i, v := range vars {
		m.Vars[baseName(v.Name)] = vals[i]
	}
	for i, t := range sel {
		ix, v := vals[len(vars)+2*i], vals[len(vars)+2*i+1]
		a := m.Arrs[t.Name]
		if a == nil {
			a = map[uint64]uint64{}
			m.Arrs[t.Name] = a
		}
		a[ix] = v
	}
	return m
}

// parseValues reads "((ref val) (ref val) ...)"; ref may be a constant, a
// |quoted| or plain symbol, or (_ bvN w).
func parseValues(x string) []uint64 {
	i := 0
	n := len(x)
	ws := func() {
		for i < n && (x[i] == ' ' || x[i] == '\n' || x[i] == '\t' || x[i] == '\r') {
			i++
		}
	}
	var skip func()
	skip = func() {
		ws()
		if i >= n {
			return
		}
		switch x[i] {
		case '|':
			i++
			for i < n && x[i] != '|' {
				i++
			}
			i++
		case '(':
			d := 0
			for i < n {
				if x[i] == '|' {
					i++
					for i < n && x[i] != '|' {
						i++
					}
				} else if x[i] == '(' {
					d++
				} else if x[i] == ')' {
					d--
					if d == 0 {
						i++
						return
					}
				}
				i++
			}
		default:
			for i < n && x[i] != ' ' && x[i] != '\n' && x[i] != ')' && x[i] != '(' {
				i++
			}
		}
	}
	var r []uint64
	ws()
	i++ // outer (
	for {
		ws()
		if i >= n || x[i] == ')' {
			return r
		}
		i++ // (
		skip()
		ws()
		st := i
		skip()
		tok := x[st:i]
		var v uint64
		switch {
		case tok == "true":
			v = 1
		case tok == "false":
			v = 0
		case strings.HasPrefix(tok, "#x"):
			v, _ = strconv.ParseUint(tok[2:], 16, 64)
		case strings.HasPrefix(tok, "#b"):
			v, _ = strconv.ParseUint(tok[2:], 2, 64)
		case strings.HasPrefix(tok, "(_ bv"):
			f := strings.Fields(tok)
			v, _ = strconv.ParseUint(f[1][2:], 10, 64)
		default:
			return nil
		}
		r = append(r, v)
		ws()
		i++ // )
	}
}

// crossCheck re-decides a query with another solver (one-shot).
func (s *Solver) crossCheck(cs []*Term, want Result) {
	var b strings.Builder
	s.dump(&b, cs)
	cmd := exec.Command("cvc5", "--lang=smt2", "--tlimit=20000", "-")
	cmd.Stdin = strings.NewReader(b.String())
	o, _ := cmd.CombinedOutput()
	r := strings.TrimSpace(string(o))
	switch {
	case r == "unsat" && want == Unsat, r == "sat" && want == Sat:
		s.Stats.CrossChecked++
	case r == "sat" || r == "unsat":
		s.Stats.CrossDisagree++
		os.WriteFile("/tmp/symgo-disagree.smt2", []byte(b.String()), 0644)
	}
}

var slowDir = os.Getenv("SYMGO_SLOW")

// dump writes the query as a self-contained SMT-LIB script.
func (s *Solver) dump(b io.Writer, cs []*Term) {
	fmt.Fprintln(b, "(set-logic QF_UFBV)")
	em, ar := map[int]bool{}, map[string]bool{}
	for _, c := range cs {
		s.emit(b, c, em, ar)
	}
	for _, c := range cs {
		fmt.Fprintf(b, "(assert %s)\n", ref(c))
	}
	for _, r := range s.varRanges(cs) {
		fmt.Fprintf(b, "(assert %s)\n", r)
	}
	fmt.Fprintln(b, "(check-sat)")
}

func timeoutOf(s *Solver) time.Duration {
	return time.Duration(s.Timeout)*time.Millisecond + 20*time.Second
}
