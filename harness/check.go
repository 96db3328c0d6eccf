package main

// The frame of a check: tiers, evidence, known findings, reporting.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Ctx is one run of one property's check.
type Ctx struct {
	ID    string
	Tier  string
	Seed  uint64
	R     *Rng
	St    *Stats
	Rule  string
	Class map[string]int
	Extra map[string]any
	Notes []string
	// violations
	fails []*Failure
	viol  []*Replay
	t0    time.Time
}

// n scales a count by tier.
func (c *Ctx) n(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

func (c *Ctx) class(k string, n int) {
	c.St.mu.Lock()
	c.Class[k] += n
	c.St.mu.Unlock()
}

// report records a violation that is already minimal.
func (c *Ctx) report(rp *Replay) {
	c.St.mu.Lock()
	c.viol = append(c.viol, rp)
	c.St.mu.Unlock()
}

type checkFn func(c *Ctx)

var checks = map[string]checkFn{}

// runCheck runs a property's check and returns the exit code.
func runCheck(id, tier string, seed uint64) int {
	fn, ok := checks[id]
	if !ok {
		fmt.Println("no check for", id)
		return 3
	}
	c := &Ctx{ID: id, Tier: tier, Seed: seed, St: NewStats(), Class: map[string]int{}, Extra: map[string]any{}, t0: time.Now()}
	h := uint64(0)
	for _, b := range []byte(id) {
		h = h*131 + uint64(b)
	}
	c.R = NewRng(seed*1000003 + h)
	if tier == "thorough" {
		deadline = c.t0.Add(40 * time.Minute)
	} else {
		deadline = c.t0.Add(8 * time.Minute)
	}
	fn(c)
	kf := runKnown(c)
	c.shrinkAll(kf)
	c.writeEvidence()
	for _, rp := range c.viol {
		path := writeReplay(id, rp)
		fmt.Printf("%s\n", clip2(rp.Problem, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d schemas, %d violations, %.1fs\n", id, tier, seed, c.St.Generated, len(c.St.seen), c.St.Schemas, len(c.viol), time.Since(c.t0).Seconds())
	if len(c.viol) > 0 {
		return 1
	}
	return 0
}

// shrinkAll minimises a few failures of different kinds and turns them into violations.
func (c *Ctx) shrinkAll(known []*KnownFinding) {
	groups := map[string][]*Failure{}
	var ks []string
	for _, f := range c.fails {
		k := f.V.Target + "/" + f.Prob.Aspect
		if f.Build != nil {
			k = f.V.Target + "/build"
		}
		if groups[k] == nil {
			ks = append(ks, k)
		}
		groups[k] = append(groups[k], f)
	}
	sort.Slice(ks, func(i, j int) bool { return len(groups[ks[i]]) > len(groups[ks[j]]) })
	deadline = time.Time{}
	for i, k := range ks {
		fs := groups[k]
		sort.SliceStable(fs, func(i, j int) bool { return psize(fs[i].P) < psize(fs[j].P) })
		f := fs[0]
		if i >= 3 {
			fmt.Printf("also %s: %d failures, e.g. %s\n", k, len(fs), clip2(f.String(), 300))
			continue
		}
		if f.noShrink == nil {
			f = Shrink(f, func(a string) bool { return a == f.Prob.Aspect }, 25*time.Second)
		}
		rp := f.replay()
		rp.Problem = fmt.Sprintf("%s (%d failures of this kind)", rp.Problem, len(fs))
		c.viol = append(c.viol, rp)
	}
}

func (c *Ctx) writeEvidence() {
	st := c.St
	cov := map[string]any{
		"evaluations":         st.Generated,
		"distinct_nontrivial": len(st.seen),
		"rule":                c.Rule,
		"samples":             st.Samples,
		"schemas":             st.Schemas,
		"structs":             st.Structs,
		"by_kind":             st.ByKind,
		"by_variant":          st.ByVariant,
		"classes":             c.Class,
		"compiler_runs":       cliRuns.Load(),
		"generated_programs":  compiles.Load(),
		"target_runs":         tgtRuns.Load(),
	}
	if n := ktRan.Load() + ktSkipped.Load(); n > 0 {
		cov["kotlin_interpreted"] = map[string]int64{"commands_answered": ktRan.Load(), "left_out_as_outside_the_subset": ktSkipped.Load()}
	}
	for k, v := range c.Extra {
		cov[k] = v
	}
	if len(st.Samples) == 0 {
		cov["samples"] = []string{}
	}
	if len(st.ByVariant) > 60 { // many option combinations: keep counts per target
		m := map[string]int{}
		for k, n := range st.ByVariant {
			m[strings.Fields(k)[0]] += n
		}
		cov["by_variant"] = m
		cov["variants"] = len(st.ByVariant)
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(c.t0).Seconds(), "violations": len(c.viol),
	}
	if len(c.Notes) > 0 {
		ev["assumptions"] = c.Notes
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644)
}

// ---- known findings ----

// KnownFinding is one recorded, unrepaired defect: a line
// "known: property=<id> probe=<name> <what fails>" of known_findings.txt.
// The check repeats exactly that probe and prints a KNOWN-FINDING line.
type KnownFinding struct{ Property, Probe, What string }

func loadKnown() []*KnownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []*KnownFinding
	for _, l := range strings.Split(string(b), "\n") {
		fs := strings.Fields(l)
		if len(fs) < 4 || fs[0] != "known:" {
			continue
		}
		out = append(out, &KnownFinding{strings.TrimPrefix(fs[1], "property="), strings.TrimPrefix(fs[2], "probe="), strings.Join(fs[3:], " ")})
	}
	return out
}

// probes by name: true when the defect shows.
var probes = map[string]func() bool{}

func runKnown(c *Ctx) []*KnownFinding {
	var out []*KnownFinding
	for _, k := range loadKnown() {
		if k.Property != c.ID {
			continue
		}
		out = append(out, k)
		p := probes[k.Probe]
		if p == nil || p() {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
		} else {
			fmt.Printf("note: finding %s no longer shows\n", k.Probe)
		}
	}
	return out
}
