package genworld

import (
	"fmt"
	"path"
	"strings"

	"vsim/memfs"
	"vsim/rng"
	"vsim/zsgen"
)

// Turn lets process P make N system calls before another one goes on.
type Turn struct {
	P int `json:"p"`
	N int `json:"n"`
}

// caseOf is the case of a process that runs beside others.
func (sc *Scenario) caseOf(p *Proc) *Case {
	if p.Of > 0 && p.Of <= len(sc.Peers) {
		return &sc.Peers[p.Of-1]
	}
	return &sc.Case
}

func (sc *Scenario) outOf(p *Proc) string {
	c := sc.caseOf(p)
	return (&Scenario{Case: *c}).outDir(p)
}

// shared is the disk of all processes before they start.
func (sc *Scenario) shared() *memfs.FS {
	fs := sc.Case.disk()
	for i := range sc.Peers {
		for _, e := range sc.Peers[i].disk().Dump() {
			if e.Kind == memfs.KDir && fs.Lookup(e.Path) != nil {
				continue
			}
			e.Time = 0
			fs.Put(e)
		}
	}
	for i := range sc.Procs {
		if c := sc.Procs[i].Cwd; c != "" {
			fs.Put(memfs.Entry{Path: c, Kind: memfs.KDir})
		}
	}
	fs.Cwd = "/"
	return fs
}

// Side is one of the processes that run at the same time.
type Side struct {
	Out   *Out // of the last step; final if Done
	Done  bool
	calls int // own system calls so far
	own   []memfs.Event
	intr  []memfs.Intrusion
	size  int // system calls when alone
}

var errDrift = fmt.Errorf("a repeated run took another course")

// Together runs the processes of a scenario at the same time on one disk: each
// turn runs one of them for a number of system calls. A process that goes on
// is run again from its start, with what the others did in between taking
// effect on its disk at the same calls as before.
func (r *Runner) Together(sc *Scenario) ([]*Side, *memfs.FS, error) {
	base := sc.shared()
	sides := make([]*Side, len(sc.Procs))
	for i := range sides {
		ref, err := r.Ref(sc.caseOf(&sc.Procs[i]))
		if err != nil {
			return nil, nil, err
		}
		sides[i] = &Side{size: len(ref.Events)}
	}
	disk := base
	left := len(sides)
	turn := func(p, n int) error {
		s := sides[p]
		if s.Done || n <= 0 {
			return nil
		}
		pr := &sc.Procs[p]
		img := base.Image()
		fs := memfs.New(img)
		fs.Cwd = "/"
		if pr.Cwd != "" {
			fs.Cwd = pr.Cwd
		}
		plan := pr.Plan
		plan.Pid = 100 + p
		plan.Peer = s.intr
		plan.Pause = s.calls + n
		o, err := r.Exec(fs, sc.caseOf(pr).args(pr), plan)
		if err != nil {
			return err
		}
		var own []memfs.Event
		for i := range o.Events {
			if !o.Events[i].Peer {
				own = append(own, o.Events[i])
			}
		}
		if len(own) < len(s.own) {
			return errDrift
		}
		for i := range s.own {
			if own[i].Key() != s.own[i].Key() {
				return errDrift
			}
		}
		news := own[len(s.own):]
		s.own, s.Out = own, o
		s.calls += n
		disk = o.FS
		if o.Exit != 138 {
			s.Done = true
			left--
		}
		for q, t := range sides {
			if q != p && !t.Done && len(news) > 0 {
				t.intr = append(t.intr, memfs.Intrusion{At: t.calls, Who: p, Ops: news})
			}
		}
		return nil
	}
	for _, t := range sc.Turns {
		if t.P < len(sides) {
			if err := turn(t.P, t.N); err != nil {
				return nil, nil, err
			}
		}
	}
	for round := 0; round < 8 && left > 0; round++ {
		for p, s := range sides {
			if err := turn(p, max(500, s.size)); err != nil {
				return nil, nil, err
			}
		}
	}
	disk.Cwd = "/"
	return sides, disk, nil
}

func describeTurns(sc *Scenario) string {
	var s []string
	for _, t := range sc.Turns {
		s = append(s, fmt.Sprintf("%d:%d", t.P, t.N))
	}
	return "turns " + strings.Join(s, " ")
}

// checkG09 decides a scenario of generators that run at the same time.
func checkG09(r *Runner, sc *Scenario) (*Violation, error) {
	sides, disk, err := r.Together(sc)
	if err == errDrift {
		r.count("not-repeatable")
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	expected := map[string]bool{} // paths that some process writes
	allOK := true
	where := func(i int) string {
		return fmt.Sprintf("process %d of %d, %s, %s", i, len(sides), describeTurns(sc), describe(&sc.Procs[i]))
	}
	for i, s := range sides {
		p := &sc.Procs[i]
		c := sc.caseOf(p)
		ref, err := r.Ref(c)
		if err != nil {
			return nil, err
		}
		if !s.Done || s.Out.Exit == 96 {
			return v("no-progress", "the process does not end while others run or after they have ended (%s)", where(i)), nil
		}
		o := s.Out
		quiet := faulted(o) == nil
		if o.Panicked() && !ref.Panicked() {
			return v("panic", "%s: %s", where(i), clip(o.Stderr)), nil
		}
		if quiet && (o.Exit == 0) != (ref.Exit == 0) {
			return v("exit-status", "exit status %d, alone %d (%s): %s", o.Exit, ref.Exit, where(i), clip(lastLine(o, ref))), nil
		}
		if o.Exit != 0 || ref.Exit != 0 {
			allOK = false
		}
		dir := sc.outOf(p)
		want := outFiles(ref.FS, c.Cwd, c.Out)
		if ref.Exit != 0 || c.Only != "" {
			want = nil
		}
		for n := range want {
			expected[path.Join(dir, n)] = true
		}
		if o.Exit != 0 || ref.Exit != 0 {
			continue
		}
		if c.Only != "" {
			if quiet && string(o.Stdout) != string(ref.Stdout) {
				return v("stdout-differs", "standard output differs from a run alone (%s): %s", where(i), firstDiff(string(ref.Stdout), string(o.Stdout))), nil
			}
			continue
		}
		for _, n := range sortedKeys(want) {
			nd := disk.LLookup(path.Join(dir, n))
			if nd == nil {
				return v("output-missing", "%s is missing though the process reported success (%s)", path.Join(dir, n), where(i)), nil
			}
			if nd.Kind != memfs.KFile || string(nd.Data) != want[n] {
				return v("output-differs", "%s differs from a run alone (%s): %s", path.Join(dir, n), where(i), firstDiff(want[n], string(nd.Data))), nil
			}
		}
	}
	before := map[string]string{}
	for _, e := range sc.shared().Dump() {
		if e.Kind != memfs.KDir {
			before[e.Path] = e.Kind + string(e.Data) + e.Link
		}
	}
	now := map[string]string{}
	for _, e := range disk.Dump() {
		if e.Kind != memfs.KDir {
			now[e.Path] = e.Kind + string(e.Data) + e.Link
		}
	}
	for _, p := range sortedKeys(before) {
		if n, ok := now[p]; !expected[p] && (!ok || n != before[p]) {
			return v("other-file", "%s, which is no output of any process, was changed or removed (%s)", p, describeTurns(sc)), nil
		}
	}
	if allOK {
		for _, p := range sortedKeys(now) {
			if _, ok := before[p]; !ok && !expected[p] {
				return v("leftover", "%s is left over though every process reported success (%s)", p, describeTurns(sc)), nil
			}
		}
	}
	return nil, nil
}

// moved is the same schema set below another directory.
func moved(c Case, to string) Case {
	c.Files = append([]zsgen.File(nil), c.Files...)
	for i := range c.Files {
		c.Files[i].Path = to + strings.TrimPrefix(c.Files[i].Path, "/s")
	}
	in := c.Inputs
	c.Inputs = nil
	for _, x := range in {
		c.Inputs = append(c.Inputs, to+strings.TrimPrefix(x, "/s"))
	}
	return c
}

// disjoint reports whether two sets of output files can share a directory.
func disjoint(a, b map[string]string) bool {
	for x := range a {
		for y := range b {
			lx, ly := strings.ToLower(x), strings.ToLower(y)
			if lx == ly || strings.HasPrefix(lx, ly+"/") || strings.HasPrefix(ly, lx+"/") {
				return false
			}
		}
	}
	return true
}

func (s *source) systematicPeers(thorough bool) error {
	add := func(c Case, peers []Case, turns []Turn, ps ...Proc) {
		s.fixed = append(s.fixed, &Scenario{Case: c, Peers: peers, Procs: ps, Turns: turns})
	}
	tiny := tinyCase()
	other := moved(tiny, "/t")
	for i := range other.Files {
		other.Files[i].Head = strings.ReplaceAll(other.Files[i].Head, "tiny.", "tiny.other.")
	}
	below := moved(tiny, "/t")
	for i := range below.Files {
		below.Files[i].Head = strings.NewReplacer("tiny.a", "tiny.a.sub", "tiny.b", "tiny.b.sub").Replace(below.Files[i].Head)
	}
	cs := []Case{tiny}
	if thorough {
		cs = s.byName("tiny", "templ", "refmods")
	}
	// one fails in a directory that the other one is about to use
	o, err := s.r.Ref(&tiny)
	if err != nil {
		return err
	}
	seen := map[string]bool{}
	for i := range o.Events {
		e := &o.Events[i]
		id := path.Dir(e.Real) + e.Op
		if e.Real == "" {
			id = path.Dir(e.Path) + e.Op
		}
		if i < writeStart(o) || seen[id] && !thorough || len(plausible[e.Op]) == 0 {
			continue
		}
		seen[id] = true
		f := plausible[e.Op][0]
		f.At = e.N
		bad := Proc{Plan: memfs.Plan{Faults: []memfs.Fault{f}}}
		for k := writeStart(o) - 3; k < len(o.Events); k++ {
			if k > writeStart(o)+12 && !thorough {
				break
			}
			for lag := 0; lag < 2; lag++ {
				add(tiny, []Case{below}, []Turn{{0, e.N - lag}, {1, k}, {0, 200}, {1, 200}}, bad, Proc{Of: 1})
				if thorough {
					other := Proc{Of: 1, Plan: bad.Plan}
					add(tiny, []Case{below}, []Turn{{1, e.N - lag}, {0, k}, {1, 200}, {0, 200}}, Proc{}, other)
				}
			}
		}
	}
	for _, c := range cs {
		o, err := s.r.Ref(&c)
		if err != nil {
			return err
		}
		whole := len(o.Events) + 50
		for k := 1; k <= len(o.Events); k++ {
			// one stands still at every call while the other one runs
			turns := []Turn{{0, k}, {1, whole}, {0, whole}}
			add(c, nil, turns, Proc{}, Proc{Plan: memfs.Plan{Hash: 7}})
			if k >= writeStart(o) && k%2 == 0 || thorough {
				add(c, nil, turns, Proc{Out: "/new/a"}, Proc{Out: "/new/b", Plan: memfs.Plan{Hash: 7}})
				add(c, []Case{other}, turns, Proc{}, Proc{Of: 1, Plan: memfs.Plan{Hash: 7}})
			}
		}
		// both in the writing part, in steps of one to a few calls
		for step := 1; step <= 6; step++ {
			for lag := 0; lag < 4; lag++ {
				turns := []Turn{{0, writeStart(o)}, {1, writeStart(o)}, {0, lag + 1}}
				for n := 0; n < (len(o.Events)-writeStart(o))/step+1 && n < 40; n++ {
					turns = append(turns, Turn{n % 2, step})
				}
				add(c, nil, turns, Proc{}, Proc{Plan: memfs.Plan{Hash: 7}})
			}
		}
		// one is killed at every call of its writing part
		for k := writeStart(o); k < len(o.Events); k++ {
			if !thorough && k%2 == 1 {
				continue
			}
			kill := Proc{Plan: memfs.Plan{Faults: []memfs.Fault{{At: k, Crash: true}}}}
			add(c, []Case{other}, []Turn{{1, writeStart(o)}, {0, whole}, {1, whole}}, kill, Proc{Of: 1})
			kill.Out = "/new/a"
			add(c, nil, []Turn{{0, whole}, {1, whole}}, kill, Proc{Out: "/new/b"})
		}
	}
	return nil
}

// randomPeers completes a random scenario of generators that run at the same
// time.
func (s *source) randomPeers(r *rng.R, sc *Scenario, ref *Out) error {
	plan := func() memfs.Plan {
		p := memfs.Plan{Hash: 1 + r.U64()%1e9, Clock: int64(r.N(2e9))}
		if r.P(50) {
			p.Dents = r.U64() % 100
		}
		if r.P(30) {
			p.Sched = 1 + r.U64()%1000
		}
		if r.P(20) {
			p.Env = 1 + r.U64()%50
		}
		return p
	}
	n := 2
	if r.P(20) {
		n = 3
	}
	apart := true
	switch k := r.N(10); {
	case k < 4: // the same schema and output directory
		apart = false
		for i := 0; i < n; i++ {
			sc.Procs = append(sc.Procs, Proc{Plan: plan()})
		}
		if r.P(30) && ref.Exit == 0 {
			sc.Case.Prior = append(sc.Case.Prior, priorOutputs(r, &sc.Case, ref, 50)...)
		}
	case k < 6: // the same schema, several output directories
		outs := [][]string{{"/new/a", "/new/b", "/new/c"}, {"/new", "/new/sub/x", "/new/sub/y"}, {"/out", "/out2", "/out3"}, {"/a/b/c/d", "/a/b/c/e", "/a/b"}}[r.N(4)]
		full := func(out string) map[string]string {
			m := map[string]string{}
			for k := range outFiles(ref.FS, sc.Case.Cwd, sc.Case.Out) {
				m[path.Join(out, k)] = ""
			}
			return m
		}
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				if !disjoint(full(outs[i]), full(outs[j])) {
					outs = []string{"/new/a", "/new/b", "/new/c"}
				}
			}
		}
		for i := 0; i < n; i++ {
			p := Proc{Out: outs[i], Plan: plan()}
			if r.P(20) {
				p.Out, p.Cwd = strings.TrimPrefix(p.Out, "/"), "/"
			}
			sc.Procs = append(sc.Procs, p)
		}
	default: // several schemas
		sc.Procs = append(sc.Procs, Proc{Plan: plan()})
		all := outFiles(ref.FS, sc.Case.Cwd, sc.Case.Out)
		for i := 1; i < n; i++ {
			var c Case
			if r.P(30) {
				c = s.cases[r.N(len(s.cases))]
			} else {
				c = randomCase(r, zsOpts(r))
			}
			c = moved(c, fmt.Sprintf("/t%d", i))
			o, err := s.r.Ref(&c)
			if err != nil {
				return err
			}
			mine := outFiles(o.FS, c.Cwd, c.Out)
			if disjoint(all, mine) && r.P(70) {
				for k, v := range mine {
					all[k] = v
				}
			} else {
				c.Out = fmt.Sprintf("/out%d", i)
			}
			if o.Exit == 0 && r.P(10) {
				c.Only = inspect(c.Files[r.N(len(c.Files))].Text()).pkg
			}
			sc.Peers = append(sc.Peers, c)
			sc.Procs = append(sc.Procs, Proc{Of: i, Plan: plan()})
		}
	}
	if apart && r.P(35) {
		p := &sc.Procs[r.N(n)]
		o, err := s.r.Ref(sc.caseOf(p))
		if err != nil {
			return err
		}
		if r.P(50) {
			p.Plan.Faults = []memfs.Fault{{At: writeStart(o) + r.N(len(o.Events)-writeStart(o)+1), Crash: true}}
		} else {
			p.Plan.Faults = []memfs.Fault{randomFault(r, o)}
		}
	}
	// the turns
	size, start := make([]int, n), make([]int, n)
	for i := range sc.Procs {
		o, err := s.r.Ref(sc.caseOf(&sc.Procs[i]))
		if err != nil {
			return err
		}
		size[i], start[i] = len(o.Events), writeStart(o)
	}
	near := r.P(70) // all of them come close to their first change before they mix
	if near {
		for i := range size {
			sc.Turns = append(sc.Turns, Turn{i, max(1, start[i]-r.N(8)+r.N(4))})
		}
		if r.P(50) { // somewhere in the middle of the files
			i := r.N(n)
			sc.Turns = append(sc.Turns, Turn{i, 1 + r.N(size[i]-start[i]+1)})
		}
	}
	for k := 1 + r.N(9); k > 0; k-- {
		i := r.N(n)
		t := Turn{i, 1 + r.N(6)}
		switch r.N(4) {
		case 0:
			t.N = 1 + r.N(size[i]/2+1)
		case 1:
			t.N = 1 + r.N(40)
		}
		sc.Turns = append(sc.Turns, t)
	}
	rng.Shuffle(r, sc.Turns[len(sc.Turns)/2:])
	return nil
}
