package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var extraCmds = map[string]func([]string){}

// wantCovers lists the sym.Cover labels in a harness and the harness functions
// it calls statically.
func wantCovers(fn *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.String() == symPath+".Cover" {
					if k, ok := call.Common().Args[0].(*ssa.Const); ok {
						labels[strings.Trim(k.Value.ExactString(), `"`)] = true
					}
					continue
				}
				if g.Pkg != nil && g.Pkg == fn.Pkg && strings.HasPrefix(g.Name(), "c_") {
					walk(g)
				}
			}
		}
	}
	walk(fn)
	return sortedKeys(labels)
}

func (c *ctx) evidence(t0 time.Time, failure string) {
	s := c.stats()
	cov := map[string]interface{}{}
	for k, v := range c.extra {
		cov[k] = v
	}
	var fns []string
	if c.run != nil {
		for f := range c.run.fns {
			if strings.Contains(f, "go-rpcgen") && !strings.Contains(f, "zz_verif") {
				fns = append(fns, strings.ReplaceAll(f, modPath+"/", ""))
			}
		}
	}
	sort.Strings(fns)
	cov["functions_encoded"] = fns
	cov["bounds"] = c.bounds()
	cov["states"] = s.paths
	cov["transitions"] = s.decs
	cov["state_meaning"] = "states: symbolic paths decided (each stands for all inputs satisfying its path condition); transitions: branch/size/schedule decisions taken on them"
	cov["assertions_decided"] = map[string]int{"by_solver": s.discharged, "by_simplification": s.trivial}
	cov["queries"] = map[string]interface{}{"total": s.queries, "sat": s.sat, "unsat": s.unsat, "unknown": s.unknown, "answered_from_cache": s.cacheHits,
		"rechecked_by_cvc5": s.crossOK, "solver_disagreements": s.crossBad, "solver_seconds": s.solverTime.Seconds(), "slowest_query_s": s.maxQuery.Seconds()}
	var samples []interface{}
	hs := map[string]interface{}{}
	nv := 0
	exhaustive := failure == "" && c.run != nil && !c.run.timedOut
	if c.run != nil {
		for _, h := range c.run.harnesses {
			var reached, missed []string
			for _, w := range h.wantCovers {
				if h.covers[w] {
					reached = append(reached, w)
				} else if w[0] != '?' {
					missed = append(missed, w)
				}
			}
			e := map[string]interface{}{"paths": h.paths, "completed": h.ends[endDone], "infeasible": h.ends[endInfeasible],
				"cut_at_bound": h.ends[endTruncated], "not_encodable": h.ends[endUnsupported], "undecided_queries": h.unknown,
				"assertions_reached": h.asserts, "witnesses_reached": reached}
			if len(missed) > 0 {
				e["witnesses_missed"] = missed
			}
			if len(h.endMsgs) > 0 {
				e["notes"] = topMsgs(h.endMsgs)
			}
			if c.run.left[h.name] > 0 {
				e["unexplored_prefixes"] = c.run.left[h.name]
			}
			hs[h.name] = e
			nv += len(h.violations)
			if h.ends[endTruncated]+h.ends[endUnsupported]+h.ends[endUnknown]+h.unknown > 0 {
				exhaustive = false
			}
			if len(h.samples) > 0 && len(samples) < 4 {
				sm := h.samples[0]
				samples = append(samples, map[string]interface{}{"harness": h.name, "model_of_one_path": compact(sm.Model), "observed": sm.Obs})
			}
		}
	}
	cov["harnesses"] = hs
	cov["samples"] = samples
	if len(samples) == 0 {
		cov["samples"] = []interface{}{"none"}
	}
	cov["exhaustive"] = exhaustive
	if failure != "" {
		cov["inconclusive"] = failure
	}
	if len(c.unconfirmed) > 0 {
		cov["counterexamples_not_reproduced"] = c.unconfirmed
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	if _, ok := cov["traces_validated_against_impl"]; !ok {
		cov["traces_validated_against_impl"] = 0
	}
	switch c.cfg.Level {
	case "translation_validation":
		if _, ok := cov["programs"]; !ok {
			cov["programs"] = len(hs)
		}
		cov["disagreements_checked"] = s.discharged + s.trivial
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": c.cfg.Level,
		"coverage": cov, "assumptions": c.assumptions(), "wall_s": time.Since(t0).Seconds(), "violations": len(c.confirmed),
	}
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0777)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	os.WriteFile(filepath.Join(dir, c.prop+".json"), b, 0666)
}

// bounds gives the bounds of the property as MANIFEST.json states them.
func (c *ctx) bounds() string {
	var m struct {
		Checks []struct {
			Property  string `json:"property"`
			LevelNote string `json:"level_note"`
		} `json:"checks"`
	}
	b, err := os.ReadFile(filepath.Join(c.verif, "MANIFEST.json"))
	if err == nil && json.Unmarshal(b, &m) == nil {
		for _, k := range m.Checks {
			if k.Property == c.prop && k.LevelNote != "" {
				return k.LevelNote
			}
		}
	}
	return "see DESIGN.md"
}

func (c *ctx) assumptions() []string {
	a := []string{
		"the go/ssa translation and the engine's semantics of its instructions (a sample of the paths of every run is replayed natively and compared)",
		"z3's unsat answers (a sample is checked again by cvc5)",
		"memory is never exhausted below the stated sizes",
	}
	if c.cfg.Program == "gen" {
		a = append(a, "os, io/ioutil, go/format, flag and log behave as harness/fake models them")
	} else {
		a = append(a, "net.Conn, sync.Pool and the scheduler behave as harness/sym models them")
	}
	return append(a, c.cfg.Assume...)
}

func compact(m *Model) map[string]interface{} {
	r := map[string]interface{}{}
	for k, v := range m.Vars {
		r[k] = v
	}
	for k, a := range m.Arrs {
		b := map[string]uint64{}
		for i, v := range a {
			if len(b) < 16 {
				b[fmt.Sprint(i)] = v
			}
		}
		r[k] = b
	}
	return r
}
