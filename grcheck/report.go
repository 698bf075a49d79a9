package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one construct that breaks the property.
type Finding struct {
	Where string `json:"where"`
	Path  string `json:"path,omitempty"`
	What  string `json:"what"`
}

// Report collects what one check looked at and what it found.
type Report struct {
	W        *World
	ID       string
	Findings []Finding
	Counts   map[string]int
	Facts    []string
	seen     map[string]bool
}

func (r *Report) count(k string, n int) { r.Counts[k] += n }

func (r *Report) fact(f string, args ...any) {
	r.Facts = append(r.Facts, fmt.Sprintf(f, args...))
}

func (r *Report) failAt(where, path, f string, args ...any) {
	x := Finding{Where: where, Path: path, What: fmt.Sprintf(f, args...)}
	k := x.Where + "|" + x.What
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Findings = append(r.Findings, x)
}

func (r *Report) fail(pos token.Pos, f string, args ...any) {
	r.failAt(r.W.P.pos(pos), "", f, args...)
}

// missing: something the rule is about cannot be found; the property cannot hold as stated.
func (r *Report) missing(f string, args ...any) {
	r.failAt("?", "", "cannot find "+f, args...)
}

type Check struct {
	ID   string
	Rule string
	Run  func(w *World, r *Report)
}

var checks []*Check

func register(id, rule string, run func(w *World, r *Report)) {
	checks = append(checks, &Check{id, rule, run})
}

func findCheck(id string) *Check {
	for _, c := range checks {
		if c.ID == id {
			return c
		}
	}
	return nil
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Where    string `json:"where,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(path string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var ks struct {
		Findings []knownFinding `json:"findings"`
	}
	return ks.Findings, json.Unmarshal(b, &ks)
}

func (c *Check) exec(w *World) (r *Report) {
	r = &Report{W: w, ID: c.ID, Counts: map[string]int{}, seen: map[string]bool{}}
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("GRCHECK_PANIC") != "" {
				panic(x)
			}
			r.failAt("?", "", "analysis stopped: %v", x)
		}
	}()
	c.Run(w, r)
	return r
}

// finish prints the verdict, writes the evidence and returns the exit code.
func finish(c *Check, r *Report, outDir, tier string, known []knownFinding, start time.Time) int {
	sort.SliceStable(r.Findings, func(i, j int) bool {
		if r.Findings[i].Where != r.Findings[j].Where {
			return r.Findings[i].Where < r.Findings[j].Where
		}
		return r.Findings[i].What < r.Findings[j].What
	})
	var bad []Finding
	for _, f := range r.Findings {
		k := false
		for _, kf := range known {
			if kf.Status == "known" && kf.Property == c.ID && kf.What == f.What && (kf.Where == "" || strings.HasPrefix(f.Where, kf.Where)) {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", c.ID, f.Where, f.What)
				k = true
				break
			}
		}
		if !k {
			bad = append(bad, f)
		}
	}
	cov := map[string]any{"explanation": c.Rule}
	var ks []string
	for k := range r.Counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	counts := map[string]int{}
	for _, k := range ks {
		counts[k] = r.Counts[k]
	}
	cov["counts"] = counts
	if w := r.W; w != nil {
		cov["program"] = map[string]int{
			"packages": len(w.P.Pkgs), "functions": len(w.P.Funcs), "contexts": len(w.A.Frames),
			"call_events": len(w.A.Events), "commands": len(w.Order), "provenance_terms": w.A.nterm,
		}
	}
	if len(r.Facts) > 0 {
		facts := r.Facts
		if len(facts) > 200 {
			facts = facts[:200]
		}
		cov["analysed"] = facts
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed(), "level": "other", "coverage": cov,
		"wall_s": time.Since(start).Seconds(),
		"assumptions": []string{
			"third-party libraries and the Go runtime behave as documented",
			"samber/lo collection helpers (Map, Filter, Uniq, GroupBy, ...) are modelled by their documentation",
		},
	}
	os.MkdirAll(outDir, 0o755)
	if len(bad) > 0 {
		var vs []string
		for _, f := range bad {
			vs = append(vs, f.Where+": "+f.What)
		}
		cov["violating_constructs"] = vs
	}
	ev["violations"] = len(bad)
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.WriteFile(filepath.Join(outDir, c.ID+".json"), append(b, '\n'), 0o644)
	for _, f := range bad {
		fmt.Printf("%s: %s\n", f.Where, f.What)
		if f.Path != "" {
			fmt.Printf("    via %s\n", f.Path)
		}
	}
	if len(bad) > 0 {
		rp := filepath.Join(outDir, c.ID+".violations.json")
		b, _ := json.MarshalIndent(bad, "", "  ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
		return 1
	}
	fmt.Printf("OK property=%s", c.ID)
	for _, k := range ks {
		fmt.Printf(" %s=%d", strings.ReplaceAll(k, " ", "_"), r.Counts[k])
	}
	fmt.Println()
	return 0
}
