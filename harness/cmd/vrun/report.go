package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type known struct{ Key, What string }

// knownList reads known-findings.txt: lines "known: property=<id> key=<key> <what>".
// Lines starting with "fixed:" (repaired defects) suppress nothing.
func knownList(prop string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			r = append(r, known{strings.TrimPrefix(f[2], "key="), f[3]})
		}
	}
	return r
}

func knownKeys(prop string) []string {
	var r []string
	for _, k := range knownList(prop) {
		r = append(r, k.Key)
	}
	return r
}

func report(prop, tier string, seed int, start time.Time, built time.Duration, ls listing, rs []unitResult, viol []violation, notes []string, instNote string) int {
	sort.Slice(rs, func(i, j int) bool { return rs[i].Unit < rs[j].Unit })
	states, trans, execs, outcomes, conform, flaky := 0, 0, 0, 0, 0, 0
	exhaustive := len(viol) == 0
	var samples []string
	unitsDone := map[int]bool{}
	var incomplete []string
	knownHits := map[string]string{}
	fam := map[string][3]int{}
	byName := map[string]*unitResult{}
	for i := range rs {
		byName[rs[i].Name] = &rs[i]
	}
	for i := range rs {
		r := &rs[i]
		if t := byName[strings.TrimPrefix(r.Name, "native/")]; t != nil && t != r && r.Exhaustive && t.Exhaustive {
			if r.Digest == t.Digest {
				r.Conform += r.Execs
			} else {
				notes = append(notes, "the native twin of "+t.Name+" observed something else")
			}
		}
	}
	for _, r := range rs {
		states += r.States
		trans += r.Trans
		execs += r.Execs
		outcomes += r.Outcomes
		conform += r.Conform
		flaky += r.Flaky
		unitsDone[r.Unit] = true
		if !r.Exhaustive && r.Resume == nil {
			exhaustive = false
			incomplete = append(incomplete, r.Name+": "+r.Note)
		}
		for _, v := range r.Known {
			knownHits[v.Key] = firstLine(v.Msg)
		}
		if len(r.Samples) > 0 && len(samples) < 12 {
			f := strings.SplitN(r.Name, "/", 2)[0]
			if fam[f][2] < 3 {
				samples = append(samples, r.Name+": "+r.Samples[0])
				x := fam[f]
				x[2]++
				fam[f] = x
			}
		}
		f := strings.SplitN(r.Name, "/", 2)[0]
		x := fam[f]
		x[0]++
		x[1] += r.Execs
		fam[f] = x
	}
	if len(unitsDone) < len(ls.Units) {
		exhaustive = false
	}
	families := map[string]interface{}{}
	for f, x := range fam {
		families[f] = map[string]int{"units": x[0], "executions": x[1]}
	}
	if len(incomplete) > 20 {
		incomplete = append(incomplete[:20], fmt.Sprintf("... %d more", len(incomplete)-20))
	}
	if instNote != "" {
		notes = append(notes, instNote)
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": conform,
		"samples": samples, "exhaustive": exhaustive, "executions": execs, "distinct_outcomes": outcomes,
		"units": len(ls.Units), "units_completed": len(unitsDone), "families": families,
		"incomplete_units": incomplete, "notes": notes, "build_s": built.Seconds(),
		"explanation": "executions: complete runs of the real code of /repo under the controlled runtime; states: distinct canonical states (deep hash of the objects under test, or of the observable end state for schedule explorations) summed over units; transitions: operations or scheduling steps judged; traces_validated_against_impl: explored traces re-executed on the uninstrumented build (real sync, net, net/rpc where the trace uses them) with equal observations.",
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": ls.Note, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
	for _, k := range knownList(prop) {
		if m, ok := knownHits[k.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, k.What, m)
		} else {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	fmt.Printf("%s %s: %d units (%d completed), %d executions, %d states, %d transitions, %d outcomes, %d traces on the plain build, exhaustive=%v, %.1fs (build %.1fs)\n",
		prop, tier, len(ls.Units), len(unitsDone), execs, states, trans, outcomes, conform, exhaustive, time.Since(start).Seconds(), built.Seconds())
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if len(viol) > 0 {
		v := viol[0]
		rd := filepath.Join(dir, "replays")
		os.MkdirAll(rd, 0o755)
		f := filepath.Join(rd, prop+".json")
		vb, _ := json.MarshalIndent(map[string]interface{}{"Property": prop, "Tier": tier, "V": v}, "", " ")
		os.WriteFile(f, vb, 0o644)
		fmt.Printf("unit %s, choices %v\n[%s] %s\n", v.Unit, v.Choices, v.Key, v.Msg)
		for _, t := range v.Trace {
			fmt.Println("   ", t)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		return 1
	}
	return 0
}
