package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Failure is one undischarged obligation; Key identifies rule and construct.
type Failure struct {
	Key  string
	Text string
}

// known reads the known findings of one property: key -> description.
func known(prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C14 key=<harness/obligation> :: text
		if !strings.HasPrefix(l, "finding: property="+prop+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+prop+" key=")
		k, t, _ := strings.Cut(l, " :: ")
		m[strings.TrimSpace(k)] = t
	}
	return m
}

func report(prop, tier string, jobs []Job, rs []*Result, t0 time.Time) int {
	kn := known(prop)
	var bad []Failure
	seenKnown := map[string]bool{}
	seen := map[string]bool{}
	funcs := map[string]bool{}
	prims := map[string]int{}
	obl, ok, sites, steps := 0, 0, 0, 0
	var samples []any
	cfgs := map[string]bool{}
	units := []string{}
	skipped := map[string]bool{}
	for _, r := range rs {
		cfgs[r.Config] = true
		if r.Skipped != "" {
			skipped[r.Harness+": "+r.Skipped] = true
		}
		units = append(units, fmt.Sprintf("%s [%s] obligations=%d instructions=%d wall=%.1fs", r.Harness, r.Config, len(r.Obls), r.Steps, r.WallS))
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for k, v := range r.Prims {
			prims[k] += v
		}
		sites += r.CallSites
		steps += r.Steps
		for i, o := range r.Obls {
			obl++
			if o.OK {
				ok++
			}
			if i == 0 && len(samples) < 8 || !o.OK && len(samples) < 24 {
				samples = append(samples, o)
			}
		}
		for _, f := range r.failures() {
			if t, isK := kn[f.Key]; isK {
				if !seenKnown[f.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, t)
				}
				seenKnown[f.Key] = true
				continue
			}
			id := f.Key + "\x00" + f.Text
			if !seen[id] {
				seen[id] = true
				bad = append(bad, Failure{f.Key, "[" + r.Config + "] " + f.Text})
			}
		}
	}
	hit, all := map[string]bool{}, map[string]bool{}
	for _, r := range rs {
		for _, k := range r.Hit {
			hit[k] = true
		}
		for _, k := range r.Asserts {
			all[k] = true
		}
	}
	for _, k := range keys(all) {
		if !hit[k] && !strings.Contains(k, "zz_verif_common") {
			bad = append(bad, Failure{"unreached", "obligation at " + k + " is never reached"})
		}
	}
	if len(rs) == 0 {
		bad = append(bad, Failure{"no-analysis", "no analysis entry point for this property"})
	}
	if minO := minObligations[prop]; obl < minO && len(skipped) == 0 {
		bad = append(bad, Failure{"coverage", fmt.Sprintf("only %d obligations were generated, at least %d are expected", obl, minO)})
	}
	fl := keys(funcs)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"wall_s": time.Since(t0).Seconds(), "violations": len(bad),
		"assumptions": assumptions(prop),
		"coverage": map[string]any{
			"explanation":         explain[prop],
			"rule":                "every obligation below must hold for all inputs in the abstract domain; an undecided one counts as violated",
			"obligations":         obl,
			"discharged":          ok,
			"known_findings_hit":  keys(seenKnown),
			"configurations":      keys(cfgs),
			"units":               units,
			"not_analysed":        keys(skipped),
			"functions_analysed":  len(fl),
			"functions":           fl,
			"call_sites_resolved": sites,
			"abstract_steps":      steps,
			"summarised_calls":    prims,
			"samples":             samples,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d entry points, %d obligations, %d discharged, %d functions, %d call sites, %.1fs\n", prop, len(rs), obl, ok, len(fl), sites, time.Since(t0).Seconds())
	for i, k := range keys(skipped) {
		if i < 5 {
			fmt.Println("  not analysed:", k)
		}
	}
	rp := filepath.Join(verifDir, "evidence", "replay", prop+".txt")
	if len(bad) == 0 {
		os.Remove(rp)
		return 0
	}
	os.MkdirAll(filepath.Dir(rp), 0o755)
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "key: %s\n  %s\n", f.Key, f.Text)
	}
	fmt.Fprintf(&sb, "\nreproduce: cd /verif && ./check.sh %s\n", prop)
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, f := range bad {
		if i == 20 {
			fmt.Printf("  ... %d more in %s\n", len(bad)-i, rp)
			break
		}
		t := f.Text
		if len(t) > 600 {
			t = t[:600] + "…"
		}
		fmt.Printf("  %s\n    %s\n", f.Key, t)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

func keys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
