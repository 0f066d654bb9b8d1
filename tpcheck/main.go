// tpcheck decides structural properties of benoitkugler/textprocessing from its source.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A Finding is one violation. Key identifies it by rule and construct, never by line.
type Finding struct {
	Rule string
	Key  string // stable: rule-specific construct (function, call, field ...)
	Pos  string
	Msg  string
}

// Report is what one property check produces.
type Report struct {
	Findings    []Finding
	Counts      map[string]int
	Samples     []string
	Rules       []string
	Assumptions []string
}

func (r *Report) count(k string, n int) {
	if r.Counts == nil {
		r.Counts = map[string]int{}
	}
	r.Counts[k] += n
}

func (r *Report) sample(format string, args ...interface{}) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, args...))
	}
}

func (r *Report) find(rule, key, pos, format string, args ...interface{}) {
	r.Findings = append(r.Findings, Finding{rule, key, pos, fmt.Sprintf(format, args...)})
}

// need reports a vacuous or eroded rule: fewer instances than confirmed by hand.
func (r *Report) need(what string, got, min int) {
	if got < min {
		r.find("instances", "instances/"+what, "", "rule %s matched %d instances, fewer than the %d confirmed by hand: the rule no longer sees what it decides", what, got, min)
	}
}

func (r *Report) rule(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	for _, x := range r.Rules {
		if x == s {
			return
		}
	}
	r.Rules = append(r.Rules, s)
}

type check struct {
	id   string
	desc string
	run  func(p *Program, r *Report)
	// canary, when set, runs the rules on the embedded example package and must find something
	ssa bool
}

var checks []check

func register(id, desc string, run func(p *Program, r *Report)) {
	checks = append(checks, check{id: id, desc: desc, run: run})
}

type known struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(dir string) ([]known, error) {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var f struct {
		Known []known `json:"known"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	return f.Known, nil
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	dir := flag.String("verif", "/verif", "where evidence and known findings live")
	prop := flag.String("prop", "", "property to decide (comma separated, or all)")
	verbose := flag.Bool("v", false, "print every finding and count")
	dump := flag.String("dump", "", "debug dump")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	debug.SetGCPercent(400)

	var todo []check
	for _, c := range checks {
		for _, id := range strings.Split(*prop, ",") {
			if c.id == id || id == "all" {
				todo = append(todo, c)
			}
		}
	}
	sort.Slice(todo, func(i, j int) bool { return todo[i].id < todo[j].id })
	start := time.Now()
	p, err := load(*repo)
	if *dump != "" && err == nil {
		p.dump(*dump)
		return
	}
	if len(todo) == 0 {
		fmt.Println("no such property")
		os.Exit(1)
	}
	loadTime := time.Since(start)
	bad := false
	for _, c := range todo {
		r := &Report{}
		t := time.Now()
		if err != nil {
			r.find("load", "load", "", "the source does not load: %v", err)
		} else {
			func() {
				defer func() {
					if e := recover(); e != nil {
						r.find("undecided", "undecided", "", "the analysis could not decide this property: %v\n%s", e, debug.Stack())
					}
				}()
				c.run(p, r)
			}()
		}
		if conclude(c, r, p, *dir, tier, seed, loadTime+time.Since(t), *verbose) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

func conclude(c check, r *Report, p *Program, dir, tier string, seed int, wall time.Duration, verbose bool) bool {
	kn, err := loadKnown(dir)
	if err != nil {
		r.find("known-findings", "known-findings", "", "known-findings.json: %v", err)
	}
	var viol, listed []Finding
	seen := map[string]bool{}
	for _, f := range r.Findings {
		k := f.Rule + "|" + f.Key
		if seen[k] {
			continue
		}
		seen[k] = true
		isKnown := false
		for _, k := range kn {
			if k.Property == c.id && k.Rule == f.Rule && k.Key == f.Key {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.What)
			}
		}
		if isKnown {
			listed = append(listed, f)
		} else {
			viol = append(viol, f)
		}
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	cov := map[string]interface{}{}
	obl := 0
	keys := []string{}
	for k, v := range r.Counts {
		keys = append(keys, k)
		_ = v
	}
	sort.Strings(keys)
	counts := map[string]int{}
	for _, k := range keys {
		counts[k] = r.Counts[k]
		obl += r.Counts[k]
	}
	cov["explanation"] = c.desc + " Rules applied: " + strings.Join(r.Rules, " / ")
	cov["analysed"] = counts
	if p != nil {
		cov["packages"] = len(p.Repo)
		cov["functions"] = len(p.Funcs)
	}
	cov["instances_total"] = obl
	cov["samples"] = append([]string{}, r.Samples...)
	cov["known_findings"] = len(listed)
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": len(viol),
		"assumptions": append([]string{"static analysis of /repo's non-test source as type-checked by go/types for linux/amd64; reflection, unsafe, cgo and callers outside the module are not analysed"}, r.Assumptions...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if verbose {
		for _, k := range keys {
			fmt.Printf("  %s: %d\n", k, r.Counts[k])
		}
	}
	replay := filepath.Join("evidence", c.id+".replay.txt")
	os.Remove(filepath.Join(dir, replay))
	if len(viol) > 0 {
		var sb strings.Builder
		for _, f := range viol {
			fmt.Fprintf(&sb, "%s: [%s] %s\n    key: %s\n", f.Pos, f.Rule, f.Msg, f.Key)
		}
		os.WriteFile(filepath.Join(dir, replay), []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
		return true
	}
	fmt.Printf("OK property=%s instances=%d known=%d (%.1fs)\n", c.id, obl, len(listed), wall.Seconds())
	return false
}
