package genworld

import (
	"encoding/json"
	"path"
	"time"

	"vsim/memfs"
)

func clone(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	var c Scenario
	json.Unmarshal(b, &c)
	return &c
}

// Minimize shrinks a violating scenario while it keeps violating the same rule.
func Minimize(r *Runner, sc *Scenario, vio *Violation, budget time.Duration) (*Scenario, *Violation) {
	end := time.Now().Add(budget)
	cur, curV := clone(sc), vio
	tries := 0
	try := func(c *Scenario) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		nv, err := Check(r, c)
		if err != nil || nv == nil || nv.Rule != vio.Rule {
			return false
		}
		cur, curV = c, nv
		return true
	}
	// move re-aims a single fault after the schema became smaller.
	move := func(c *Scenario) bool {
		if try(c) {
			return true
		}
		var at *int
		n := 0
		for i := range c.Procs {
			for k := range c.Procs[i].Plan.Faults {
				n++
				at = &c.Procs[i].Plan.Faults[k].At
			}
		}
		if n != 1 {
			return false
		}
		ref, err := r.Ref(&c.Case)
		if err != nil {
			return false
		}
		for k := min(*at, len(ref.Events)); k >= 0 && k > *at-200; k-- {
			d := clone(c)
			for i := range d.Procs {
				for j := range d.Procs[i].Plan.Faults {
					d.Procs[i].Plan.Faults[j].At = k
				}
			}
			if try(d) {
				return true
			}
		}
		return false
	}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for i := len(cur.Turns) - 1; i >= 0; i-- {
			if i >= len(cur.Turns) {
				continue
			}
			c := clone(cur)
			c.Turns = append(c.Turns[:i], c.Turns[i+1:]...)
			if changed = try(c) || changed; i > 0 && i < len(cur.Turns) && cur.Turns[i].P == cur.Turns[i-1].P {
				c := clone(cur)
				c.Turns[i-1].N += c.Turns[i].N
				c.Turns = append(c.Turns[:i], c.Turns[i+1:]...)
				changed = try(c) || changed
			}
		}
		for i := len(cur.Procs) - 1; i >= 0 && len(cur.Procs) > 1; i-- {
			c := clone(cur)
			c.Procs = append(c.Procs[:i], c.Procs[i+1:]...)
			var ts []Turn
			for _, t := range c.Turns {
				if t.P > i {
					t.P--
				} else if t.P == i {
					continue
				}
				ts = append(ts, t)
			}
			c.Turns = ts
			changed = try(c) || changed
		}
		for i := range cur.Procs {
			for k := len(cur.Procs[i].Plan.Faults) - 1; k >= 0; k-- {
				c := clone(cur)
				fs := c.Procs[i].Plan.Faults
				c.Procs[i].Plan.Faults = append(fs[:k:k], fs[k+1:]...)
				changed = try(c) || changed
			}
			for k := len(cur.Procs[i].Prior) - 1; k >= 0; k-- {
				c := clone(cur)
				ps := c.Procs[i].Prior
				c.Procs[i].Prior = append(ps[:k:k], ps[k+1:]...)
				changed = try(c) || changed
			}
			set := func(f func(p *Proc) bool) {
				c := clone(cur)
				if f(&c.Procs[i]) {
					changed = try(c) || changed
				}
			}
			set(func(p *Proc) bool { h := p.Plan.Hash != 0; p.Plan.Hash = 0; return h })
			set(func(p *Proc) bool { h := p.Plan.Dents != 0; p.Plan.Dents = 0; return h })
			set(func(p *Proc) bool { h := p.Plan.Clock != 0; p.Plan.Clock = 0; return h })
			set(func(p *Proc) bool { h := p.Plan.Sched != 0; p.Plan.Sched = 0; return h })
			set(func(p *Proc) bool { h := p.Plan.Env != 0; p.Plan.Env = 0; return h })
			set(func(p *Proc) bool { h := p.Out != ""; p.Out, p.Cwd = "", ""; return h })
			set(func(p *Proc) bool { h := p.Inputs != nil; p.Inputs = nil; return h })
			set(func(p *Proc) bool { h := p.Cap != nil; p.Cap = nil; return h })
			set(func(p *Proc) bool { h := p.Lose != nil; p.Lose = nil; return h })
			set(func(p *Proc) bool {
				h := false
				for k := range p.Plan.Faults {
					h = h || p.Plan.Faults[k].Stick
					p.Plan.Faults[k].Stick = false
				}
				return h
			})
		}
		for k := len(cur.Case.Prior) - 1; k >= 0; k-- {
			c := clone(cur)
			c.Case.Prior = append(append([]memfs.Entry(nil), c.Case.Prior[:k]...), c.Case.Prior[k+1:]...)
			changed = try(c) || changed
		}
		if len(cur.Case.Opts) > 0 {
			c := clone(cur)
			c.Case.Opts = nil
			changed = try(c) || changed
		}
		hasTorn := false
		for i := range cur.Procs {
			hasTorn = hasTorn || cur.Procs[i].Torn != nil
		}
		for fi := len(cur.Case.Files) - 1; fi >= 0 && !hasTorn; fi-- {
			if len(cur.Case.Files) > 1 {
				c := clone(cur)
				gone := c.Case.Files[fi].Path
				c.Case.Files = append(c.Case.Files[:fi], c.Case.Files[fi+1:]...)
				c.Case.Inputs = without(c.Case.Inputs, gone)
				for i := range c.Procs {
					if c.Procs[i].Inputs != nil {
						c.Procs[i].Inputs = withoutPath(c.Procs[i].Inputs, gone, c.Procs[i].Cwd)
					}
				}
				if len(c.Case.Inputs) > 0 && move(c) {
					changed = true
					continue
				}
			}
			for d := len(cur.Case.Files[min(fi, len(cur.Case.Files)-1)].Decls) - 1; d >= 0 && fi < len(cur.Case.Files); d-- {
				c := clone(cur)
				ds := c.Case.Files[fi].Decls
				c.Case.Files[fi].Decls = append(ds[:d:d], ds[d+1:]...)
				changed = move(c) || changed
			}
		}
	}
	return cur, curV
}

func without(xs []string, x string) []string {
	out := []string{}
	for _, y := range xs {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

// withoutPath removes every spelling of a path.
func withoutPath(xs []string, x, cwd string) []string {
	out := []string{}
	for _, y := range xs {
		abs := y
		if !path.IsAbs(abs) {
			abs = path.Join("/", cwd, abs)
		}
		if path.Clean(abs) != x {
			out = append(out, y)
		}
	}
	return out
}
