// Package codecworld checks the properties of generated code and its run-time
// packages: it builds the instrumented system (package build), lets processes
// of it work through seeded scenarios, and makes what fails small.
package codecworld

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"vsim/build"
	"vsim/choice"
	"vsim/report"
)

// Violation is what a scenario ends with.
type Violation struct {
	Rule   string   `json:"rule"`
	Detail string   `json:"detail"`
	Key    string   `json:"key"`
	Trace  []string `json:"trace,omitempty"`
}

// line is one line a process of the system prints.
type line struct {
	Index   int              `json:"index"`
	Start   bool             `json:"start,omitempty"`
	Vio     *Violation       `json:"vio,omitempty"`
	Choices []uint64         `json:"choices,omitempty"`
	Done    bool             `json:"done,omitempty"`
	Runs    int              `json:"runs,omitempty"`
	Counts  map[string]int64 `json:"counts,omitempty"`
	Hashes  []uint64         `json:"hashes,omitempty"`
	Digests []string         `json:"digests,omitempty"`
	Sample  []string         `json:"sample,omitempty"`
}

// Scenario is a stored violation.
type Scenario struct {
	SchemaSeed    uint64   `json:"schema_seed"`
	RandomSchemas int      `json:"random_schemas"`
	Seed          uint64   `json:"seed"`
	Index         int      `json:"index"`
	Choices       []uint64 `json:"choices,omitempty"` // none: drawn from seed and index
	Trace         []string `json:"trace,omitempty"`
}

// Budget of a search.
type Budget struct {
	Rounds    int // each with its own random schemas
	Schemas   int // random schemas per round
	Scenarios int // per round
	Wall      time.Duration
}

// perProcess tells which properties need new processes for each scenario.
var perProcess = map[string]bool{"C07": true, "C08": true, "C15": true}

// options for the program of a property.
func options(prop string) build.Options {
	return build.Options{Race: prop == "C07" || prop == "C15", Enums: prop == "C15"}
}

var rules = map[string]string{
	"C01": "scenarios: messages sent over a simulated transport that splits, batches and delays; non-trivial: data crossed the transport in more than one piece; distinct: the sequence of all decisions",
	"C02": "scenarios: exchanges with a reference peer in both directions at seeded bit offsets; distinct: the sequence of all decisions",
	"C03": "scenarios: an encoding with an injected fault of the destination; non-trivial: the fault fired; distinct: the sequence of all decisions",
	"C04": "scenarios: a decoding with an injected fault of the source; non-trivial: the fault fired or the input was cut; distinct: the sequence of all decisions",
	"C05": "scenarios: decodings of damaged encodings; distinct: the sequence of all decisions",
	"C06": "scenarios: decodings of damaged encodings under an account of all memory asked for; distinct: the sequence of all decisions",
	"C07": "scenarios: two to four tasks in a process of its own, interleaved statement by statement under the race detector; non-trivial: the schedule switched tasks; distinct: decisions and switch points",
	"C08": "scenarios: an operation after a history, in one process, and alone in another; non-trivial: there was a history or a repetition; distinct: the sequence of all decisions",
	"C09": "scenarios: measuring and encoding at a seeded bit offset; distinct: the sequence of all decisions",
	"C10": "scenarios: packed arrays encoded, transferred and decoded; distinct: the sequence of all decisions",
	"C11": "scenarios: encodings of objects with a changed value; distinct: the sequence of all decisions",
	"C12": "scenarios: sequences of bit stream operations with transport faults; distinct: the sequence of all decisions",
	"C14": "scenarios: decodings of damaged encodings, compared with a reference peer; distinct: the sequence of all decisions",
	"C15": "scenarios: one to four tasks that use enums in a process of their own, interleaved statement by statement under the race detector; distinct: decisions and switch points",
	"C13": "scenarios: sequences of encodings, measurements and failures on one object; distinct: the sequence of all decisions",
}

// Budgets are the sizes of the searches.
func Budgets(prop string, thorough bool) Budget {
	n := map[string]int{
		"C01": 80000, "C02": 80000, "C03": 200000, "C04": 200000, "C05": 300000, "C06": 300000, "C07": 1200, "C08": 6000,
		"C09": 200000, "C10": 200000, "C11": 300000, "C12": 600000, "C13": 200000, "C14": 300000, "C15": 2000,
	}[prop]
	if thorough {
		return Budget{Rounds: 1000, Schemas: 24, Scenarios: 3 * n, Wall: 740 * time.Second}
	}
	return Budget{Rounds: 2, Schemas: 16, Scenarios: n, Wall: 240 * time.Second}
}

// search is a search in progress.
type search struct {
	prop    string
	c       *build.Codec
	seed    uint64
	workers int

	mu       sync.Mutex
	evals    int
	counts   map[string]int64
	hashes   map[uint64]bool
	samples  []any
	best     *hit
	trouble  error
	repeats  int
	mismatch int
	procs    int
}

type hit struct {
	index   int
	vio     *Violation
	choices []uint64
	codec   *build.Codec
	seed    uint64
}

const watchdog = 60 * time.Second

// Search explores a property.
func Search(work, prop string, seed uint64, thorough bool, b Budget, known []report.Known) (*report.Result, error) {
	begin := time.Now()
	s := &search{prop: prop, counts: map[string]int64{}, hashes: map[uint64]bool{}, workers: max(2, runtime.NumCPU())}
	var dropped []string
	var buildTime time.Duration
	rounds, types, files, schemas := 0, 0, 0, 0
	res := &report.Result{Rule: rules[prop]}
	knownHits := map[string]string{}
	for round := 0; round < b.Rounds && time.Since(begin) < b.Wall; round++ {
		t := time.Now()
		dir := filepath.Join(work, fmt.Sprintf("round%d", round))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return nil, err
		}
		schemaSeed := seed*1000 + uint64(round)
		c, err := build.BuildCodec(dir, b.Schemas, schemaSeed, options(prop))
		if err != nil {
			return nil, err
		}
		for _, d := range c.Dropped {
			dropped = append(dropped, fmt.Sprintf("seed %d, %.300s", schemaSeed, d))
		}
		buildTime += time.Since(t)
		rounds++
		types, files, schemas = types+c.Types, c.Files, schemas+1+len(c.Used)
		s.c, s.seed = c, schemaSeed
		left := b.Wall - time.Since(begin)
		if perProcess[prop] {
			s.single(b.Scenarios, left)
		} else {
			s.serve(b.Scenarios, left)
		}
		if s.best != nil {
			f := s.finding(s.best)
			if k := report.Match(known, f); k != nil {
				knownHits[k.ID] = k.What
				s.best = nil
			} else {
				break
			}
		}
		if s.trouble != nil {
			return nil, s.trouble
		}
		os.RemoveAll(dir)
	}
	searched := time.Since(begin) - buildTime
	faults, other := map[string]int64{}, map[string]int64{}
	for k, n := range s.counts {
		if f, ok := strings.CutPrefix(k, "fault "); ok {
			faults[f] = n
		} else if strings.HasPrefix(k, "damage ") || strings.HasPrefix(k, "change ") {
			faults[k] = n
		} else {
			other[k] = n
		}
	}
	if len(dropped) > 20 {
		dropped = dropped[:20]
	}
	res.Evaluations, res.Nontrivial, res.Samples = s.evals, len(s.hashes), s.samples
	res.Extra = map[string]any{
		"simulated_runs":       s.evals,
		"runs_per_hour":        int(float64(s.evals) / searched.Hours()),
		"seeds_per_hour":       int(float64(s.evals) / searched.Hours()),
		"faults_injected":      faults,
		"counts":               other,
		"simulated_steps":      s.counts["steps"],
		"simulated_time":       "the codec has no clock; time is counted in statements executed (simulated_steps)",
		"rounds":               rounds,
		"schemas":              schemas,
		"message_types":        types,
		"schemas_left_out":     dropped,
		"instrumented_files":   files,
		"processes":            s.procs,
		"repeatability_checks": s.repeats,
		"not_repeatable":       s.mismatch,
		"real_components":      []string{"code generated by the current cmd/go-zserio", "packages zserio, ztype and zstream of the current tree (copies with a yield after every statement and an account of allocations)", "github.com/icza/bitio"},
		"stub_components":      []string{"transports, sinks and sources of bytes", "the peer node (reference codec)", "goroutine scheduling (C07)"},
	}
	res.Assumptions = []string{
		"the reference codec and the schema generator know the part of the language described in DESIGN.md",
		"the search samples schedules, faults, schemas and messages; it is not exhaustive",
	}
	if s.best != nil {
		f := s.finding(s.minimize(s.best))
		if k := report.Match(known, f); k != nil {
			knownHits[k.ID] = k.What
		} else {
			res.Findings = append(res.Findings, *f)
		}
	}
	for id, what := range knownHits {
		res.Known = append(res.Known, id+": "+what)
	}
	sort.Strings(res.Known)
	return res, nil
}

func (s *search) finding(h *hit) *report.Finding {
	b, _ := json.Marshal(Scenario{SchemaSeed: h.codec.Seed, RandomSchemas: h.codec.Random, Seed: h.seed, Index: h.index, Choices: h.choices, Trace: h.vio.Trace})
	return &report.Finding{Property: s.prop, Rule: h.vio.Rule, Detail: h.vio.Detail, Key: h.vio.Key, Seed: h.seed, World: "codec", Scenario: b}
}

func (s *search) hit(i int, v *Violation, choices []uint64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.best == nil || i < s.best.index {
		s.best = &hit{i, v, choices, s.c, s.seed}
	}
}

// beyond tells if a scenario need not be looked at any more.
func (s *search) beyond(i int) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.trouble != nil || s.best != nil && i > s.best.index
}

func (s *search) fail(err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.trouble == nil {
		s.trouble = err
	}
}

func (s *search) add(l *line) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.evals += max(l.Runs, 0)
	for k, n := range l.Counts {
		s.counts[k] += n
	}
	for _, h := range l.Hashes {
		s.hashes[h] = true
	}
}

func (s *search) sample(i int, t []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.samples) < 4 && len(t) > 0 {
		if len(t) > 12 {
			t = t[:12]
		}
		s.samples = append(s.samples, map[string]any{"schema_seed": s.seed, "index": i, "trace": t})
	}
}

// serve has processes that work through many scenarios each.
func (s *search) serve(n int, left time.Duration) {
	var wg sync.WaitGroup
	for w := 0; w < s.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.server(w, n, int(left.Seconds()))
		}()
	}
	wg.Wait()
	// The same decisions have to give the same run.
	if s.best == nil && s.trouble == nil {
		for i := 0; i < 4; i++ {
			s.repeat(i)
		}
	}
}

func (s *search) server(from, n, secs int) {
	cmd := exec.Command(s.c.Bin, "serve", s.prop, fmt.Sprint(s.seed), fmt.Sprint(from), fmt.Sprint(n), fmt.Sprint(s.workers), fmt.Sprint(max(1, secs)))
	cmd.Env = build.Env()
	var stderr tail
	cmd.Stderr = &stderr
	out, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		s.fail(err)
		return
	}
	s.mu.Lock()
	s.procs++
	s.mu.Unlock()
	lines := make(chan *line, 64)
	go func() {
		defer close(lines)
		r := bufio.NewReaderSize(out, 1<<16)
		for {
			b, err := r.ReadBytes('\n')
			if err != nil {
				return
			}
			l := &line{}
			if json.Unmarshal(b, l) == nil {
				lines <- l
			}
		}
	}()
	last, done, killed := -1, false, false
	timer := time.NewTimer(watchdog)
	for open := true; open; {
		select {
		case l, ok := <-lines:
			if !ok {
				open = false
				break
			}
			timer.Reset(watchdog)
			switch {
			case l.Start:
				last = l.Index
				if s.beyond(last) {
					killed = true
					cmd.Process.Kill()
				}
			case l.Vio != nil:
				s.hit(l.Index, l.Vio, l.Choices)
			case l.Done:
				done = true
				s.add(l)
			case len(l.Sample) > 0:
				s.sample(l.Index, l.Sample)
			}
		case <-timer.C:
			cmd.Process.Kill()
			killed = true
			s.lost(last, "hang", "no end of a scenario within a minute")
		}
	}
	err = cmd.Wait()
	if done || killed {
		return
	}
	s.lost(last, "crash", fmt.Sprintf("%v: %s", err, stderr.summary()))
}

// lost looks at a scenario whose process did not survive it.
func (s *search) lost(i int, rule, detail string) {
	if i < 0 {
		s.fail(fmt.Errorf("process of the system does not start: %s", detail))
		return
	}
	l, stderr, err := s.one(0, i, nil)
	if err == nil && l != nil {
		if l.Vio != nil {
			s.hit(i, l.Vio, l.Choices)
			return
		}
		s.fail(fmt.Errorf("scenario %d of %s: %s: %s, but not when it is repeated", i, s.prop, rule, detail))
		return
	}
	if errors.Is(err, context.DeadlineExceeded) {
		s.hit(i, &Violation{Rule: "hang", Detail: "the process does not end: " + stderr}, nil)
		return
	}
	s.hit(i, &Violation{Rule: "crash", Detail: "the process dies: " + stderr}, nil)
}

// one runs one scenario in a process of its own.
func (s *search) one(phase, i int, choices []uint64) (*line, string, error) {
	return runOne(s.c, s.prop, phase, s.seed, i, choices)
}

func runOne(c *build.Codec, prop string, phase int, seed uint64, i int, choices []uint64) (*line, string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 2*watchdog)
	defer cancel()
	args := []string{"one", prop, fmt.Sprint(phase)}
	if choices == nil {
		args = append(args, fmt.Sprint(seed), fmt.Sprint(i))
	}
	cmd := exec.CommandContext(ctx, c.Bin, args...)
	cmd.Env = build.Env("GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0")
	if choices != nil {
		b, _ := json.Marshal(choices)
		cmd.Stdin = bytes.NewReader(b)
	}
	var stderr tail
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if ctx.Err() != nil {
		return nil, stderr.summary(), ctx.Err()
	}
	if err != nil {
		return nil, fmt.Sprintf("%v: %s", err, stderr.summary()), err
	}
	l := &line{}
	if err := json.Unmarshal(out, l); err != nil {
		return nil, stderr.summary(), err
	}
	l.Index = i
	if l.Vio != nil && l.Vio.Rule == "race" {
		l.Vio.Detail += ": " + stderr.race()
	}
	return l, "", nil
}

// verdict runs one scenario of a property completely.
func (s *search) verdict(i int, choices []uint64) (*line, *Violation) {
	l, stderr, err := s.one(0, i, choices)
	if errors.Is(err, context.DeadlineExceeded) {
		return &line{Index: i, Choices: choices}, &Violation{Rule: "hang", Detail: "the process does not end: " + stderr}
	}
	if err != nil {
		return &line{Index: i, Choices: choices}, &Violation{Rule: "crash", Detail: "the process dies: " + stderr}
	}
	if l.Vio != nil || s.prop != "C08" {
		return l, l.Vio
	}
	alone, stderr, err := s.one(1, i, choices)
	if err != nil {
		return l, &Violation{Rule: "crash", Detail: "alone: the process dies: " + stderr}
	}
	a, b := strings.Join(alone.Digests, "\n"), strings.Join(l.Digests, "\n")
	if a != b {
		return l, &Violation{Rule: "history", Detail: fmt.Sprintf("alone the outcome is %.400s, after other operations it is %.400s", a, b), Trace: l.Sample}
	}
	return l, nil
}

// single has processes for every scenario.
func (s *search) single(n int, left time.Duration) {
	end := time.Now().Add(left)
	var wg sync.WaitGroup
	next := 0
	for w := 0; w < s.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				s.mu.Lock()
				i := next
				next++
				s.mu.Unlock()
				if i >= n || time.Now().After(end) || s.beyond(i) {
					return
				}
				l, v := s.verdict(i, nil)
				l.Runs = 1
				s.add(l)
				s.mu.Lock()
				s.procs++
				if s.prop == "C08" {
					s.procs++
				}
				s.mu.Unlock()
				if v != nil {
					if v.Trace == nil {
						v.Trace = l.Sample
					}
					s.hit(i, v, l.Choices)
				} else if i < 2 {
					s.sample(i, l.Sample)
				}
			}
		}()
	}
	wg.Wait()
	if s.best == nil && s.trouble == nil {
		for i := 0; i < 4; i++ {
			s.repeat(i)
		}
	}
}

// repeat does a scenario twice and compares everything.
func (s *search) repeat(i int) {
	a, _, e1 := s.one(0, i, nil)
	if e1 != nil {
		return
	}
	b, _, e2 := s.one(0, i, a.Choices)
	s.repeats++
	if e2 != nil {
		s.mismatch++
		return
	}
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	if !bytes.Equal(x, y) {
		s.mismatch++
	}
}

// minimize makes a scenario smaller.
func (s *search) minimize(h *hit) *hit {
	s.c, s.seed = h.codec, h.seed
	if h.choices == nil {
		return h
	}
	out := *h
	if perProcess[s.prop] {
		end := time.Now().Add(60 * time.Second)
		best := choice.Shrink(h.choices, 3000, func(c []uint64) ([]uint64, bool) {
			if time.Now().After(end) {
				return c, false
			}
			l, v := s.verdict(h.index, c)
			return l.Choices, v != nil && v.Rule == h.vio.Rule
		})
		out.choices = best
	} else {
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, s.c.Bin, "shrink", s.prop)
		cmd.Env = build.Env()
		b, _ := json.Marshal(h.choices)
		cmd.Stdin = bytes.NewReader(b)
		if o, err := cmd.Output(); err == nil {
			l := &line{}
			if json.Unmarshal(o, l) == nil && l.Vio != nil {
				out.choices = l.Choices
			}
		}
	}
	// What is stored must fail again.
	if l, v := s.verdict(h.index, out.choices); v != nil && v.Rule == h.vio.Rule {
		out.vio = v
		if v.Trace == nil {
			v.Trace = l.Sample
		}
		return &out
	}
	return h
}

// Replay executes a stored scenario.
func Replay(work string, f *report.Finding) (*Violation, error) {
	var sc Scenario
	if err := json.Unmarshal(f.Scenario, &sc); err != nil {
		return nil, err
	}
	dir := filepath.Join(work, "replay")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	c, err := build.BuildCodec(dir, sc.RandomSchemas, sc.SchemaSeed, options(f.Property))
	if err != nil {
		return nil, err
	}
	s := &search{prop: f.Property, c: c, seed: sc.Seed, counts: map[string]int64{}, hashes: map[uint64]bool{}}
	_, v := s.verdict(sc.Index, sc.Choices)
	return v, nil
}

// tail keeps the start and the end of what is written.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 64<<10 {
		t.b = append(t.b[:16<<10], t.b[len(t.b)-32<<10:]...)
	}
	return len(p), nil
}

var _ io.Writer = (*tail)(nil)

func (t *tail) summary() string {
	var keep []string
	for _, l := range strings.Split(string(t.b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		keep = append(keep, l)
		if len(keep) == 6 {
			break
		}
	}
	return strings.Join(keep, " | ")
}

// race tells where the race detector saw a race.
func (t *tail) race() string {
	var keep []string
	for _, l := range strings.Split(string(t.b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Previous") {
			w := strings.Fields(l)
			keep = append(keep, strings.Join(w[:min(2, len(w))], " "))
		} else if strings.HasSuffix(l, "()") && len(keep) > 0 && !strings.Contains(keep[len(keep)-1], "()") {
			keep[len(keep)-1] += " in " + l
		}
		if len(keep) >= 4 {
			break
		}
	}
	return strings.Join(keep, ", ")
}
