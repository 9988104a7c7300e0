package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type manifest struct {
	Checks []struct {
		Property string `json:"property"`
		Level    string `json:"level"`
	} `json:"checks"`
}

func report(o options, runs []*harnessRun, rep *repReport, known []Known, wall float64) int {
	var paths, steps, obl, dis, unk, aborted, q, sat, unsat, fb int64
	var solver float64
	funcs := map[string]bool{}
	bounds := map[string]string{}
	covers := map[string]int{}
	labels := map[string]int{}
	unsup := map[string]int{}
	var truncated []string
	var hs []map[string]interface{}
	for _, h := range runs {
		r := h.res
		paths += r.Paths
		aborted += r.Aborted
		steps += r.Steps
		obl += r.Obligations
		dis += r.Discharged
		unk += r.Unknown
		q += r.St.Queries
		sat += r.St.Sat
		unsat += r.St.Unsat
		fb += r.St.Fallback
		solver += float64(r.St.SolverNs) / 1e9
		for f := range r.Funcs {
			funcs[strings.ReplaceAll(f, modPrefix, "")] = true
		}
		for k, v := range r.Bounds {
			bounds[h.spec.Name+"."+k] = v
		}
		for k, v := range r.Covers {
			covers[k] += v
		}
		for k, v := range r.Labels {
			labels[k] += v
		}
		for k, v := range r.Unsupported {
			unsup[h.spec.Name+": "+k] += v
		}
		if r.Truncated != "" {
			truncated = append(truncated, h.spec.Name+": "+r.Truncated)
		}
		hs = append(hs, map[string]interface{}{"harness": h.spec.Name, "package": h.spec.Dir, "paths": r.Paths, "infeasible": r.Aborted,
			"obligations": r.Obligations, "discharged": r.Discharged, "unknown": r.Unknown, "queries": r.St.Queries, "repeated_queries": r.St.Hits,
			"solver_s": round2(float64(r.St.SolverNs) / 1e9), "instructions": r.Steps, "wall_s": round2(r.WallS), "exhausted": r.Truncated == "" && len(r.Unsupported) == 0 && r.Unknown == 0})
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	isKnown := map[string]*Known{}
	for i := range known {
		isKnown[known[i].Label] = &known[i]
	}
	code := 0
	var viols []map[string]interface{}
	seen := map[string]bool{}
	var lines []string
	hitKnown := map[string]bool{}
	for _, c := range rep.conf {
		if k := isKnown[c.v.Label]; k != nil {
			hitKnown[k.Label] = true
			continue
		}
		code = 1
		key := c.v.Harness + c.v.Label
		if seen[key] {
			continue
		}
		seen[key] = true
		path := filepath.Join(verifRoot, "evidence", "replay", fmt.Sprintf("%s-%s-%s.json", o.prop, c.v.Harness, sanitize(c.v.Label)))
		d, _ := json.MarshalIndent(map[string]interface{}{"property": o.prop, "harness": c.v.Harness, "package": c.spec.Dir, "label": c.v.Label,
			"kind": c.v.Kind, "detail": c.v.Detail, "tier": o.tier, "inputs": toCase("", "", c.v.Inputs, nil, "").Inputs, "schedule": c.v.Sched, "native_outcome": c.out}, "", "  ")
		writeFile(path, d)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", o.prop, path))
		fmt.Printf("%s: assertion %q fails on the real code %s\n", c.v.Harness, c.v.Label, c.v.Detail)
		viols = append(viols, map[string]interface{}{"label": c.v.Label, "harness": c.v.Harness, "replay": path, "detail": c.v.Detail})
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.What)
		if !hitKnown[k.Label] {
			rep.notes = append(rep.notes, "known finding not reached in this run: "+k.Label)
		}
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	for _, n := range rep.notes {
		fmt.Println("NOTE", n)
	}
	for _, n := range rep.mismatched {
		fmt.Println("MISMATCH", n)
	}
	level := "model_checking"
	if b, err := os.ReadFile(filepath.Join(verifRoot, "MANIFEST.json")); err == nil {
		var m manifest
		if json.Unmarshal(b, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == o.prop && c.Level != "" {
					level = c.Level
				}
			}
		}
	}
	fl := sortedKeys(funcs)
	samples := rep.samples
	if samples == nil {
		samples = []map[string]interface{}{}
	}
	cov := map[string]interface{}{
		"states": paths, "transitions": steps, "traces_validated_against_impl": rep.validated, "samples": samples,
		"infeasible_prefixes": aborted, "obligations": obl, "discharged": dis, "unknown": unk,
		"queries": q, "queries_sat": sat, "queries_unsat": unsat, "queries_fallback_solver": fb, "solver_s": round2(solver), "load_s": round2(rep.loadS),
		"functions_encoded": fl, "functions_encoded_count": len(fl), "bounds": bounds, "covered": covers, "assertions": labels, "harnesses": hs,
		"not_encoded": unsup, "truncated": truncated, "unconfirmed_counterexamples": rep.unconfirmed, "translation_mismatches": rep.mismatched, "notes": rep.notes,
		"exhausted_within_bounds": len(truncated) == 0 && len(unsup) == 0 && unk == 0 && len(rep.notes) == 0,
	}
	ev := map[string]interface{}{"property": o.prop, "tier": o.tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round2(wall),
		"assumptions": assumptions}
	if len(viols) > 0 {
		ev["violations"] = viols
	}
	d, _ := json.MarshalIndent(ev, "", " ")
	writeFile(filepath.Join(verifRoot, "evidence", o.prop+".json"), d)
	return code
}

var assumptions = []string{
	"hash functions are injective (collision free); ECDSA signatures are unforgeable and deterministic, no key or signature is guessed",
	"encoding/json is represented as a tree with the encoder's and decoder's rules; strings with symbolic bytes are ASCII",
	"logging, formatting and random number generation have no effect on the property",
	"sizes are as listed in bounds; inputs beyond them are not covered",
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

var _ = sort.Strings
