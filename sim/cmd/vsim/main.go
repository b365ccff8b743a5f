// Command vsim runs the deterministic simulation checks.
//
//	vsim check PROPERTY quick|thorough
//	vsim replay FILE
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"vsim/build"
	"vsim/codecworld"
	"vsim/genworld"
	"vsim/report"
)

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "vsim: error:", err)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vsim check PROPERTY [quick|thorough] | vsim replay FILE")
		os.Exit(2)
	}
	verif := filepath.Dir(build.Home)
	work := os.Getenv("VSIM_WORK")
	if work == "" {
		w, err := os.MkdirTemp("", "vsim")
		if err != nil {
			fatal(err)
		}
		work = w
	}
	if err := os.MkdirAll(work, 0o755); err != nil {
		fatal(err)
	}
	code := 0
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		code = check(verif, work, os.Args[2], tier)
	case "replay":
		code = replay(verif, work, os.Args[2])
	default:
		code = 2
	}
	os.Exit(code)
}

func seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func check(verif, work, prop, tier string) int {
	start := time.Now()
	ev := filepath.Join(verif, "evidence", prop+".json")
	os.Remove(ev)
	known, err := report.LoadKnown(filepath.Join(verif, "known-findings.jsonl"))
	if err != nil {
		fatal(err)
	}
	thorough := tier == "thorough"
	var res *report.Result
	if strings.HasPrefix(prop, "G") {
		res, err = genworld.Search(work, prop, seed(), thorough, genworld.Budgets(prop, thorough), known)
	} else if strings.HasPrefix(prop, "C") {
		res, err = codecworld.Search(work, prop, seed(), thorough, codecworld.Budgets(prop, thorough), known)
	} else {
		err = fmt.Errorf("no check for %s", prop)
	}
	if err != nil {
		fatal(err)
	}
	var vs []string
	for i := range res.Findings {
		f := &res.Findings[i]
		p, err := report.Save(filepath.Join(verif, "replays"), f)
		if err != nil {
			fatal(err)
		}
		fmt.Printf("%s %s: %s\n", f.Property, f.Rule, f.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, p)
		vs = append(vs, f.Rule+": "+f.Detail)
	}
	for _, k := range res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	if err := report.Evidence(ev, prop, tier, "exploration", seed(), res, vs, start); err != nil {
		fatal(err)
	}
	fmt.Printf("%s %s: %d scenarios, %d distinct, %.0f s, %d violations\n", prop, tier, res.Evaluations, res.Nontrivial, time.Since(start).Seconds(), len(vs))
	if len(vs) > 0 {
		return 1
	}
	return 0
}

func replay(verif, work, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(err)
	}
	var f report.Finding
	if err := json.Unmarshal(b, &f); err != nil {
		fatal(err)
	}
	var rule, detail string
	found := false
	if f.World == "generator" {
		var v *genworld.Violation
		if v, err = genworld.Replay(work, &f); v != nil {
			found, rule, detail = true, v.Rule, v.Detail
		}
	} else if f.World == "codec" {
		var v *codecworld.Violation
		if v, err = codecworld.Replay(work, &f); v != nil {
			found, rule, detail = true, v.Rule, v.Detail
			for _, t := range v.Trace {
				fmt.Println("  ", t)
			}
		}
	} else {
		err = fmt.Errorf("unknown world %q", f.World)
	}
	if err != nil {
		fatal(err)
	}
	if !found {
		fmt.Printf("%s: not reproduced\n", f.Property)
		return 0
	}
	fmt.Printf("%s %s: %s\n", f.Property, rule, detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
	return 1
}
