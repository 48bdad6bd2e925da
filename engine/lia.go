package main

// Queries over lengths and positions are linear and do not wrap: those are
// handed to the solver as integer arithmetic.

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

type lia struct {
	b    strings.Builder
	vars map[*Term]bool
	memo map[*Term]string
}

func intStr(v int64) string {
	if v < 0 {
		return "(- " + strings.TrimPrefix(strconv.FormatInt(v, 10), "-") + ")"
	}
	return strconv.FormatInt(v, 10)
}

// atom is t as a nonnegative integer.
func (l *lia) atom(t *Term) (string, bool) {
	switch {
	case t.Op == OVar && t.W > 0 && t.hi <= 1<<62:
		n := "|i:" + t.Name + "|"
		if !l.vars[t] {
			l.vars[t] = true
			fmt.Fprintf(&l.b, "(declare-fun %s () Int)\n(assert (<= %d %s %d))\n", n, t.lo, n, t.hi)
		}
		return n, true
	case t.Op == OConcat && len(t.A) == 2 && t.A[0].IsConst() && t.A[0].V == 0:
		return l.num(t.A[1], false)
	case t.Op == OIte:
		c, ok := l.cond(t.A[0])
		x, ok1 := l.num(t.A[1], false)
		y, ok2 := l.num(t.A[2], false)
		return "(ite " + c + " " + x + " " + y + ")", ok && ok1 && ok2
	}
	return "", false
}

// num is t read as signed or unsigned, if its sum does not wrap that way.
func (l *lia) num(t *Term, signed bool) (string, bool) {
	if t.Op == OConst {
		if signed {
			return intStr(sx(t.V, t.W)), true
		}
		return strconv.FormatUint(t.V, 10), true
	}
	if t.Op != OLin {
		if signed && t.hi > mask(t.W)>>1 {
			return "", false
		}
		return l.atom(t)
	}
	lo, hi, ok := linRange(t.W, t.A, t.C, t.V)
	switch {
	case !ok:
		return "", false
	case signed && t.W < 64:
		if lo < -1<<uint(t.W-1) || hi >= 1<<uint(t.W-1) {
			return "", false
		}
	case !signed && t.W < 64 && (hi > int64(mask(t.W)) || lo < -int64(mask(t.W))):
		return "", false
	}
	r := "(+ " + intStr(sx(t.V, t.W))
	for i, a := range t.A {
		s, ok := l.atom(a)
		if !ok {
			return "", false
		}
		r += " (* " + intStr(sx(t.C[i], t.W)) + " " + s + ")"
	}
	r += ")"
	if !signed && lo < 0 { // wraps around at most once
		r = fmt.Sprintf("(let ((z %s)) (ite (< z 0) (+ z %s) z))", r, new(big.Int).Lsh(big.NewInt(1), uint(t.W)))
	}
	return r, true
}

func (l *lia) cond(t *Term) (string, bool) {
	if s, ok := l.memo[t]; ok {
		return s, s != ""
	}
	s, ok := l.cond1(t)
	if !ok {
		s = ""
	}
	l.memo[t] = s
	return s, ok
}

func (l *lia) cond1(t *Term) (string, bool) {
	switch t.Op {
	case OConst:
		return constStr(0, t.V), true
	case ONot:
		s, ok := l.cond(t.A[0])
		return "(not " + s + ")", ok
	case OBAnd, OBOr:
		r := "(and"
		if t.Op == OBOr {
			r = "(or"
		}
		for _, a := range t.A {
			s, ok := l.cond(a)
			if !ok {
				return "", false
			}
			r += " " + s
		}
		return r + ")", true
	case OEq, OUlt, OSlt:
		if t.A[0].W == 0 {
			return "", false
		}
		op, signed := "<", t.Op == OSlt
		if t.Op == OEq {
			op = "="
			// equal bit patterns are equal numbers in either reading
			x, ok1 := l.num(t.A[0], true)
			y, ok2 := l.num(t.A[1], true)
			if ok1 && ok2 {
				return "(= " + x + " " + y + ")", true
			}
		}
		x, ok1 := l.num(t.A[0], signed)
		y, ok2 := l.num(t.A[1], signed)
		return "(" + op + " " + x + " " + y + ")", ok1 && ok2
	}
	return "", false
}

// tryLIA decides cs as integer arithmetic, if it is that.
func (s *Solver) tryLIA(cs []*Term) (Result, *Model, bool) {
	l := &lia{vars: map[*Term]bool{}, memo: map[*Term]string{}}
	var as []string
	for _, c := range cs {
		a, ok := l.cond(c)
		if !ok || len(a) > 1<<16 {
			return 0, nil, false
		}
		as = append(as, a)
	}
	if len(l.vars) < 2 {
		return 0, nil, false
	}
	fmt.Fprintln(s.in, "(push 1)")
	s.in.WriteString(l.b.String())
	for _, a := range as {
		fmt.Fprintf(s.in, "(assert %s)\n", a)
	}
	fmt.Fprintln(s.in, "(check-sat)")
	s.in.Flush()
	line, err := s.readLine(timeoutOf(s))
	if err != nil || strings.HasPrefix(line, "(error") {
		s.Close()
		return 0, nil, false
	}
	switch line {
	case "unsat":
		fmt.Fprintln(s.in, "(pop 1)")
		return Unsat, nil, true
	case "sat":
		var vs []*Term
		q := "(get-value ("
		for v := range l.vars {
			vs = append(vs, v)
			q += " |i:" + v.Name + "|"
		}
		fmt.Fprintln(s.in, q+"))")
		s.in.Flush()
		x, err := s.readSexp()
		if err != nil {
			s.Close()
			return 0, nil, false
		}
		fmt.Fprintln(s.in, "(pop 1)")
		m := NewModel()
		for _, v := range vs {
			k := "(|i:" + v.Name + "| "
			i := strings.Index(x, k)
			if i < 0 {
				k = "(i:" + v.Name + " "
				i = strings.Index(x, k)
			}
			if i < 0 {
				return 0, nil, false
			}
			d := x[i+len(k):]
			n, err := strconv.ParseUint(d[:strings.IndexByte(d, ')')], 10, 64)
			if err != nil {
				return 0, nil, false
			}
			m.Vars[baseName(v.Name)] = n
		}
		return Sat, m, true
	}
	fmt.Fprintln(s.in, "(pop 1)")
	return 0, nil, false
}
