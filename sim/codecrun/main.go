// Command vrun is the simulated system: generated code and the runtime (both
// instrumented copies of the current tree) under the simulator's control.
//
//	vrun serve PROP SEED FROM TO STEP SECONDS   many scenarios, JSON lines on stdout
//	vrun one PROP [PHASE] < choices             one scenario
//	vrun shrink PROP < choices                  make a failing scenario smaller
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"time"

	"vsim/choice"
	"vsim/rng"
	"vsim/simrt"
	"vsim/zmodel"
)

// Violation is what a scenario can end with.
type Violation struct {
	Rule   string   `json:"rule"`
	Detail string   `json:"detail"`
	Key    string   `json:"key"`
	Trace  []string `json:"trace,omitempty"`
}

// Line is one line of output.
type Line struct {
	Index   int              `json:"index"`
	Start   bool             `json:"start,omitempty"`
	Vio     *Violation       `json:"vio,omitempty"`
	Choices []uint64         `json:"choices,omitempty"`
	Done    bool             `json:"done,omitempty"`
	Runs    int              `json:"runs,omitempty"`
	Counts  map[string]int64 `json:"counts,omitempty"`
	Hashes  []uint64         `json:"hashes,omitempty"`
	Digests []string         `json:"digests,omitempty"`
	Sample  []string         `json:"sample,omitempty"`
}

// Run is one scenario in progress.
type Run struct {
	S       *choice.Src
	W       *World
	Counts  map[string]int64
	Nontriv bool
	Trace   []string
	tracing bool
	Phase   int
	Digests []string
	Extra   uint64 // goes into the measure of distinctness
}

func (r *Run) count(k string, n int64) { r.Counts[k] += n }

func (r *Run) trace(f string, a ...any) {
	if r.tracing {
		r.Trace = append(r.Trace, fmt.Sprintf(f, a...))
	}
}

// World is what all scenarios share.
type World struct {
	Schemas []*zmodel.Schema
	Roots   []*zmodel.Decl
	Packed  []*zmodel.Decl

	paramFields map[reflect.Type]map[string]bool
}

func world() *World {
	w := &World{Schemas: schemas()}
	for _, s := range w.Schemas {
		for _, d := range s.Roots {
			if registry[d.FullName()] == nil {
				panic("no type " + d.FullName())
			}
			w.Roots = append(w.Roots, d)
			if d.HasPacked() {
				w.Packed = append(w.Packed, d)
			}
		}
	}
	return w
}

func schemas() []*zmodel.Schema {
	out := []*zmodel.Schema{zmodel.Fixed()}
	for _, i := range randomSchemas {
		out = append(out, zmodel.Random(schemaSeed, i))
	}
	return out
}

var props = map[string]func(*Run) *Violation{
	"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08,
	"C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15,
}

func execute(w *World, prop string, src *choice.Src, tracing bool, phase int) (*Run, *Violation) {
	r := &Run{S: src, W: w, Counts: map[string]int64{}, tracing: tracing, Phase: phase}
	v := props[prop](r)
	r.count("steps", simrt.Total())
	if v != nil {
		v.Trace = r.Trace
	}
	return r, v
}

func hash(xs []uint64, extra uint64) uint64 {
	h := fnv.New64a()
	var b [8]byte
	for _, x := range append(xs, extra) {
		for i := range b {
			b[i] = byte(x >> (8 * i))
		}
		h.Write(b[:])
	}
	return h.Sum64()
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vrun serve|one|shrink PROP ...")
		os.Exit(2)
	}
	w := world()
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	num := func(i int) int64 {
		n, err := strconv.ParseInt(os.Args[i], 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return n
	}
	prop := os.Args[2]
	switch os.Args[1] {
	case "serve":
		seed, from, to, step, secs := uint64(num(3)), int(num(4)), int(num(5)), int(num(6)), num(7)
		end := time.Now().Add(time.Duration(secs) * time.Second)
		total := map[string]int64{}
		hs := map[uint64]bool{}
		runs := 0
		for i := from; i < to && time.Now().Before(end); i += step {
			enc.Encode(Line{Index: i, Start: true})
			out.Flush()
			r, v := execute(w, prop, choice.New(stream(seed, prop, i)), i == from, 0)
			runs++
			for k, n := range r.Counts {
				total[k] += n
			}
			if r.Nontriv {
				hs[hash(r.S.Rec, r.Extra)] = true
			}
			if v != nil {
				enc.Encode(Line{Index: i, Vio: v, Choices: r.S.Rec})
				out.Flush()
			}
			if i == from {
				enc.Encode(Line{Index: i, Sample: clip(r.Trace)})
			}
		}
		var hashes []uint64
		for h := range hs {
			hashes = append(hashes, h)
		}
		sort.Slice(hashes, func(i, j int) bool { return hashes[i] < hashes[j] })
		enc.Encode(Line{Done: true, Runs: runs, Counts: total, Hashes: hashes})
		out.Flush()
	case "one":
		phase := 0
		if len(os.Args) > 3 {
			phase = int(num(3))
		}
		var src *choice.Src
		if len(os.Args) > 5 {
			src = choice.New(stream(uint64(num(4)), prop, int(num(5))))
		} else {
			src = choice.Replay(read())
		}
		r, v := execute(w, prop, src, true, phase)
		l := Line{Vio: v, Choices: r.S.Rec, Digests: r.Digests, Counts: r.Counts, Sample: r.Trace, Done: true}
		if r.Nontriv {
			l.Hashes = []uint64{hash(r.S.Rec, r.Extra)}
		}
		enc.Encode(l)
		out.Flush()
	case "shrink":
		list := read()
		_, v0 := execute(w, prop, choice.Replay(list), false, 0)
		if v0 == nil {
			enc.Encode(Line{Done: true})
			out.Flush()
			return
		}
		end := time.Now().Add(20 * time.Second)
		best := choice.Shrink(list, 4000, func(c []uint64) ([]uint64, bool) {
			if time.Now().After(end) {
				return c, false
			}
			src := choice.Replay(c)
			_, v := execute(w, prop, src, false, 0)
			return src.Rec, v != nil && v.Rule == v0.Rule
		})
		_, v := execute(w, prop, choice.Replay(best), true, 0)
		enc.Encode(Line{Vio: v, Choices: best, Done: true})
		out.Flush()
	}
}

// stream is the source of randomness of a scenario.
func stream(seed uint64, prop string, i int) *rng.R {
	n, _ := strconv.Atoi(prop[1:])
	return rng.New(seed, uint64(n), uint64(i))
}

func clip(t []string) []string {
	if len(t) > 12 {
		t = t[:12]
	}
	for i := range t {
		if len(t[i]) > 300 {
			t[i] = t[i][:300] + "…"
		}
	}
	return t
}

func read() []uint64 {
	var list []uint64
	if err := json.NewDecoder(os.Stdin).Decode(&list); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return list
}
