package genworld

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sync"
	"time"

	"vsim/report"
)

// Budget of a search.
type Budget struct {
	Random int           // random scenarios
	Wall   time.Duration // no new scenario is started after this
}

var rules = map[string]string{
	"G01": "scenarios: generator processes that differ in hash seed, file enumeration and argument order, clock, goroutine switches, output location or prior output are compared with the reference run; non-trivial: the journal of system calls of the run is one not seen before",
	"G02": "scenarios: one generator process with injected file system faults; non-trivial: at least one fault fired and the journal is one not seen before",
	"G03": "scenarios: one generator process with injected file system faults; non-trivial: at least one fault fired and the journal is one not seen before",
	"G04": "scenarios: one to four interrupted generator processes with loss of unsynchronised data, then an undisturbed one; non-trivial: the journal of a run is one not seen before",
	"G05": "scenarios: a generator process on a disk with unrelated files, symbolic links and faults; non-trivial: the journal is one not seen before",
	"G06": "scenarios: a generator process whose schema input is torn, missing or unreadable; non-trivial: the journal is one not seen before",
	"G07": "scenarios: generator processes on schema sets with colliding and shortened names; non-trivial: the journal is one not seen before",
	"G08": "scenarios: generator processes with a path limit; non-trivial: the journal is one not seen before",
	"G09": "scenarios: two or three generator processes that take turns on one disk, on the same or on different schema sets and output directories, some of them with a fault or killed; non-trivial: the journal of system calls of a process, with the changes by the others in between, is one not seen before",
}

// Search explores a property.
func Search(work, prop string, seed uint64, thorough bool, b Budget, known []report.Known) (*report.Result, error) {
	start := time.Now()
	r, err := NewRunner(work)
	if err != nil {
		return nil, err
	}
	buildTime := time.Since(start)
	src, err := newSource(r, prop, seed, thorough)
	if err != nil {
		return nil, err
	}
	src.n = b.Random
	total := len(src.fixed) + src.n
	type hit struct {
		sc  *Scenario
		vio *Violation
	}
	var mu sync.Mutex
	next, evals, skipped := 0, 0, 0
	var best *hit
	bestIdx := total
	knownHits := map[string]string{}
	var firstErr error
	var samples []any
	repeat := 0
	deadline := start.Add(b.Wall)
	var wg sync.WaitGroup
	for w := 0; w < max(2, runtime.NumCPU()); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				if i >= total || i > bestIdx || firstErr != nil || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				next++
				mu.Unlock()
				var sc *Scenario
				var err error
				if i < len(src.fixed) {
					sc = src.fixed[i]
				} else {
					sc, err = src.random(i - len(src.fixed))
				}
				var vio *Violation
				if err == nil && sc != nil {
					vio, err = Check(r, sc)
				}
				// Every 200th scenario is repeated: the same decisions must
				// give the same journal.
				if err == nil && sc != nil && i%200 == 0 && len(sc.Procs) > 0 && len(sc.Turns) == 0 && vio == nil {
					p := &sc.Procs[0]
					var a, b *Out
					if a, err = r.Do(sc, p, nil); err == nil {
						b, err = r.Do(sc, p, nil)
					}
					if err == nil && (a.Trace != b.Trace || a.Exit != b.Exit) {
						if prop == "G01" {
							vio = v("not-repeatable", "two runs with the same decisions differ (%s)", describe(p))
						} else {
							err = fmt.Errorf("%w: a run is not repeatable (scenario %d)", ErrHarness, i)
						}
					}
					mu.Lock()
					repeat++
					mu.Unlock()
				}
				mu.Lock()
				if err != nil {
					if firstErr == nil {
						firstErr = err
					}
				} else if sc == nil {
					skipped++
				} else {
					evals++
					if len(samples) < 6 && (i < 2 || i%97 == 3) {
						s := map[string]any{"index": i, "case": sc.Case.Name, "files": len(sc.Case.Files)}
						if len(sc.Turns) > 0 {
							s["turns"] = describeTurns(sc)
						}
						if len(sc.Procs) > 0 {
							s["first_process"] = describe(&sc.Procs[0])
						}
						samples = append(samples, s)
					}
					if vio != nil && i < bestIdx {
						f := finding(sc, vio)
						if k := report.Match(known, f); k != nil {
							knownHits[k.ID] = k.What
						} else {
							best, bestIdx = &hit{sc, vio}, i
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if firstErr != nil && best == nil {
		return nil, firstErr
	}
	searched := time.Since(start) - buildTime
	res := &report.Result{
		Evaluations: evals, Nontrivial: len(r.Traces), Rule: rules[prop], Samples: samples,
		Extra: map[string]any{
			"simulated_processes":     r.Runs.Load(),
			"systematic_scenarios":    len(src.fixed),
			"random_scenarios":        max(0, next-len(src.fixed)-skipped),
			"skipped_invalid_schemas": skipped,
			"seeds_per_hour":          int(float64(evals) / searched.Hours()),
			"runs_per_hour":           int(float64(r.Runs.Load()) / searched.Hours()),
			"simulated_system_calls":  r.Calls,
			"simulated_seconds":       float64(r.SimMs) / 1000,
			"faults_fired":            r.Faults,
			"distinct_disk_states":    len(r.Disks),
			"repeatability_checks":    repeat,
			"real_components":         []string{"cmd/go-zserio with all of internal/ (parser, model, generator, templates) built from the current tree", "Go standard library above the system-call wrappers (os, path/filepath, io)"},
			"stub_components":         []string{"system calls on files and standard output (in-memory disk with fault injection)", "wall clock", "run-time hash and map randomness (seeded)", "goroutine switches (seeded, at system calls)"},
		},
		Assumptions: []string{
			"the simulated disk has POSIX semantics; system calls below the typed wrappers of package syscall are not reached",
			"the search samples schedules, faults and schemas; it is not exhaustive",
		},
	}
	for id, what := range knownHits {
		res.Known = append(res.Known, id+": "+what)
	}
	if best != nil {
		sc, vio := Minimize(r, best.sc, best.vio, 60*time.Second)
		sc.Rule = vio.Rule
		f := finding(sc, vio)
		if k := report.Match(known, f); k != nil {
			res.Known = append(res.Known, k.ID+": "+k.What)
		} else {
			res.Findings = append(res.Findings, *f)
		}
	}
	return res, nil
}

func finding(sc *Scenario, vio *Violation) *report.Finding {
	b, _ := json.Marshal(sc)
	return &report.Finding{Property: sc.Property, Rule: vio.Rule, Detail: vio.Detail, Seed: sc.Seed, World: "generator", Key: key(sc, vio), Scenario: b}
}

// key identifies a finding among the known ones.
func key(sc *Scenario, vio *Violation) string {
	return sc.Case.Name + ":" + vio.Detail
}

// Replay executes a stored scenario.
func Replay(work string, f *report.Finding) (*Violation, error) {
	r, err := NewRunner(work)
	if err != nil {
		return nil, err
	}
	var sc Scenario
	if err := json.Unmarshal(f.Scenario, &sc); err != nil {
		return nil, err
	}
	if f.Rule == "not-repeatable" {
		p := &sc.Procs[0]
		for k := 0; k < 20; k++ {
			a, err := r.Do(&sc, p, nil)
			if err != nil {
				return nil, err
			}
			b, err := r.Do(&sc, p, nil)
			if err != nil {
				return nil, err
			}
			if a.Trace != b.Trace {
				return v("not-repeatable", "two runs with the same decisions differ"), nil
			}
		}
		return nil, nil
	}
	return Check(r, &sc)
}

// Budgets are the sizes of the searches.
func Budgets(prop string, thorough bool) Budget {
	n := map[string]int{"G01": 1400, "G02": 1800, "G03": 2000, "G04": 2000, "G05": 2500, "G06": 2000, "G07": 2400, "G08": 2500, "G09": 1000}[prop]
	if thorough {
		return Budget{Random: n * 100, Wall: 780 * time.Second}
	}
	return Budget{Random: n, Wall: 300 * time.Second}
}
