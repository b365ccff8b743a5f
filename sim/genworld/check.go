package genworld

import (
	"fmt"
	"go/parser"
	"go/token"
	"path"
	"regexp"
	"sort"
	"strings"

	"vsim/memfs"
	"vsim/rng"
)

func (sc *Scenario) outDir(p *Proc) string {
	out, cwd := sc.Case.Out, sc.Case.Cwd
	if p != nil && p.Out != "" {
		out = p.Out
	}
	if p != nil && p.Cwd != "" {
		cwd = p.Cwd
	}
	if !strings.HasPrefix(out, "/") {
		out = path.Join("/", cwd, out)
	}
	return path.Clean(out)
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

// diff compares what stands in the output directory with the reference.
// foreign is what stood there before.
func diff(ref, foreign, got map[string]string) string {
	var d []string
	for k, v := range ref {
		g, ok := got[k]
		switch {
		case !ok:
			d = append(d, "missing "+k)
		case g != v:
			d = append(d, fmt.Sprintf("%s differs (%d bytes, expected %d)", k, len(g), len(v)))
		}
	}
	for k, v := range got {
		if _, ok := ref[k]; ok {
			continue
		}
		f, ok := foreign[k]
		if !ok {
			d = append(d, "unexpected file "+k)
		} else if f != v {
			d = append(d, "unrelated file "+k+" changed")
		}
	}
	for k := range foreign {
		if _, ok := ref[k]; ok {
			continue
		}
		if _, ok := got[k]; !ok {
			d = append(d, "unrelated file "+k+" removed")
		}
	}
	sort.Strings(d)
	if len(d) > 4 {
		d = append(d[:4], fmt.Sprintf("and %d more", len(d)-4))
	}
	return strings.Join(d, "; ")
}

var stamp = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d(\.\d+)? `)

func lines(s string) map[string]bool {
	m := map[string]bool{}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(stamp.ReplaceAllString(l, ""))
		if l != "" {
			m[l] = true
		}
	}
	return m
}

// says reports whether o has told more on standard error than the reference.
func says(o, ref *Out) bool {
	have := lines(ref.Stderr)
	for l := range lines(o.Stderr) {
		if !have[l] {
			return true
		}
	}
	return false
}

func v(rule, f string, a ...any) *Violation { return &Violation{rule, fmt.Sprintf(f, a...)} }

func describe(p *Proc) string {
	s := fmt.Sprintf("hash %d", p.Plan.Hash)
	for _, f := range p.Plan.Faults {
		s += fmt.Sprintf(", fault at call %d: %s", f.At, f.Err)
		if f.Short > 0 {
			s += fmt.Sprintf(" short %d", f.Short)
		}
		if f.Crash {
			s += " crash"
		}
		if f.Lose > 0 {
			s += fmt.Sprintf(" lose(%d)", f.Lose)
		}
		if f.Stick {
			s += " permanent"
		}
	}
	if p.Plan.Env != 0 {
		s += fmt.Sprintf(", environment %d", p.Plan.Env)
	}
	if p.Cap != nil {
		s += fmt.Sprintf(", disk holds %d bytes more", *p.Cap)
	}
	if p.Torn != nil {
		s += fmt.Sprintf(", schema %d torn at %d %s", p.Torn.File, p.Torn.At, p.Torn.Mode)
	}
	if len(p.Remove) > 0 {
		s += fmt.Sprintf(", missing %v", p.Remove)
	}
	return s
}

func faulted(o *Out) (first *memfs.Event) {
	for i := range o.Events {
		if o.Events[i].Fault != "" {
			return &o.Events[i]
		}
	}
	return nil
}

func faultNote(o *Out) string {
	if e := faulted(o); e != nil {
		p := e.Path
		if p == "" {
			p = e.Real
		}
		return fmt.Sprintf("%s %s -> %s", e.Op, p, e.Fault)
	}
	return "no fault fired"
}

// Check decides one scenario.
func Check(r *Runner, sc *Scenario) (*Violation, error) {
	ref, err := r.Ref(&sc.Case)
	if err != nil {
		return nil, err
	}
	if ref.Exit == 96 {
		return v("no-termination", "a run without faults made more than %d system calls", memfs.MaxCalls), nil
	}
	switch sc.Property {
	case "G01":
		return checkG01(r, sc, ref)
	case "G02", "G03":
		return checkFaults(r, sc, ref)
	case "G04":
		return checkG04(r, sc, ref)
	case "G05":
		return checkG05(r, sc, ref)
	case "G06":
		return checkG06(r, sc, ref)
	case "G07":
		return checkG07(r, sc, ref)
	case "G08":
		return checkG08(r, sc, ref)
	case "G09":
		return checkG09(r, sc)
	}
	return nil, fmt.Errorf("no property %s", sc.Property)
}

func checkG01(r *Runner, sc *Scenario, ref *Out) (*Violation, error) {
	refFiles := outFiles(ref.FS, sc.Case.Cwd, sc.Case.Out)
	for i := range sc.Procs {
		p := &sc.Procs[i]
		fs := r.start(sc, p, nil)
		dir := sc.outDir(p)
		foreign := outFiles(fs, "/", dir)
		o, err := r.Exec(fs, sc.Case.args(p), p.Plan)
		if err != nil {
			return nil, err
		}
		if o.Exit != ref.Exit {
			return v("exit-status", "exit status %d, reference run %d (%s, enumeration %d, inputs %v): %s", o.Exit, ref.Exit, describe(p), p.Plan.Dents, p.Inputs, clip(lastLine(o, ref))), nil
		}
		if o.Exit != 0 {
			continue
		}
		if sc.Case.Only != "" {
			if string(o.Stdout) != string(ref.Stdout) {
				return v("stdout-differs", "standard output differs from the reference run (%s): %s", describe(p), firstDiff(string(ref.Stdout), string(o.Stdout))), nil
			}
			continue
		}
		got := outFiles(o.FS, "/", dir)
		if d := diff(refFiles, foreign, got); d != "" {
			for k := range refFiles {
				if g, ok := got[k]; ok && g != refFiles[k] {
					d += " | " + k + ": " + firstDiff(refFiles[k], g)
					break
				}
			}
			return v("output-differs", "output differs from the reference run (%s, out %s, inputs %v): %s", describe(p), dir, p.Inputs, d), nil
		}
	}
	return nil, nil
}

func lastLine(o, ref *Out) string {
	src := o
	if o.Exit == 0 {
		src = ref
	}
	for _, l := range strings.Split(src.Stderr, "\n") {
		if strings.HasPrefix(l, "Error:") || strings.HasPrefix(l, "panic:") {
			return l
		}
	}
	return ""
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) && i < len(lb); i++ {
		if la[i] != lb[i] {
			return clip(fmt.Sprintf("line %d: %q / %q", i+1, la[i], lb[i]))
		}
	}
	return fmt.Sprintf("%d / %d lines", len(la), len(lb))
}

func wholeGo(s string) bool {
	_, err := parser.ParseFile(token.NewFileSet(), "x.go", s, 0)
	return err == nil
}

// checkFaults decides G02 and G03: one process with faults.
func checkFaults(r *Runner, sc *Scenario, ref *Out) (*Violation, error) {
	refFiles := outFiles(ref.FS, sc.Case.Cwd, sc.Case.Out)
	for i := range sc.Procs {
		p := &sc.Procs[i]
		fs := r.start(sc, p, nil)
		dir := sc.outDir(p)
		before := outFiles(fs, "/", dir)
		o, err := r.Exec(fs, sc.Case.args(p), p.Plan)
		if err != nil {
			return nil, err
		}
		if o.Exit == 96 {
			return v("no-termination", "the run does not end (%s; %s)", describe(p), faultNote(o)), nil
		}
		got := outFiles(o.FS, "/", dir)
		if sc.Property == "G02" {
			if ref.Exit != 0 {
				continue
			}
			if o.Exit == 0 {
				if sc.Case.Only != "" {
					if string(o.Stdout) != string(ref.Stdout) {
						return v("success-with-incomplete-stdout", "exit status 0 but standard output has %d of %d bytes (%s; %s)", len(o.Stdout), len(ref.Stdout), describe(p), faultNote(o)), nil
					}
				} else if d := diff(refFiles, before, got); d != "" {
					return v("success-with-incomplete-output", "exit status 0 but %s (%s; %s)", d, describe(p), faultNote(o)), nil
				}
				continue
			}
			if o.Exit > 0 && !o.Crashed() && !says(o, ref) {
				return v("silent-failure", "exit status %d without a message (%s; %s)", o.Exit, describe(p), faultNote(o)), nil
			}
			continue
		}
		// G03
		if o.Exit == 0 || o.Crashed() || o.Exit < 0 {
			continue
		}
		cleanupFailed := false
		opened := map[string]bool{}
		for k := range o.Events {
			e := &o.Events[k]
			switch e.Op {
			case "unlink", "rmdir", "rename", "truncate":
				if e.Fault != "" {
					cleanupFailed = true
				}
			}
			if e.Mut {
				opened[e.Real] = true
				opened[e.Real2] = true
			}
		}
		for name, g := range got {
			if b, ok := before[name]; ok && b == g {
				continue
			}
			if c, ok := refFiles[name]; ok && ref.Exit == 0 && c == g {
				continue
			}
			if ref.Exit != 0 && g != "" && wholeGo(g) {
				continue
			}
			if cleanupFailed {
				continue
			}
			want := len(refFiles[name])
			return v("partial-file-left", "exit status %d leaves %s with %d bytes (complete: %d) (%s; %s)", o.Exit, name, len(g), want, describe(p), faultNote(o)), nil
		}
		for name := range before {
			if _, ok := got[name]; !ok {
				full := path.Join(dir, name)
				began := false
				for k := range o.Events {
					e := &o.Events[k]
					if e.Mut && e.Op != "unlink" && (e.Real == full || e.Real2 == full) {
						began = true
					}
				}
				if !began {
					return v("untouched-file-removed", "exit status %d: %s was removed although the run never wrote it (%s; %s)", o.Exit, name, describe(p), faultNote(o)), nil
				}
			}
		}
	}
	return nil, nil
}

// crashDisk is the disk after a crash: the first process's effects up to its
// end, less what was not synchronised.
func crashDisk(fs *memfs.FS, o *Out, l *Lose) error {
	evs := o.Events
	var mut []*memfs.Event
	for i := range evs {
		if evs[i].Mut {
			mut = append(mut, &evs[i])
		}
	}
	synced := map[string]int{}
	for i := range mut {
		_ = i
	}
	drop := 0
	if l != nil {
		drop = l.Ops
	}
	keep := max(0, len(mut)-drop)
	for _, e := range mut[:keep] {
		if err := fs.Apply(e); err != nil {
			return err
		}
	}
	_ = synced
	if l == nil || l.Mode == "" {
		return nil
	}
	// files synchronised after their last write keep their data
	dirty := map[string]bool{}
	n := 0
	for i := range evs {
		e := &evs[i]
		if e.Mut {
			n++
			if n > keep {
				break
			}
		}
		switch e.Op {
		case "open", "write", "pwrite", "truncate":
			if e.Mut {
				dirty[e.Real] = true
			}
		case "rename":
			if e.Mut && dirty[e.Real] {
				dirty[e.Real2] = true
				delete(dirty, e.Real)
			}
		case "fsync":
			if e.Err == "" {
				delete(dirty, e.Real)
			}
		}
	}
	var names []string
	for k := range dirty {
		names = append(names, k)
	}
	sort.Strings(names)
	rg := rng.New(l.Seed)
	for _, k := range names {
		nd := fs.LLookup(k)
		if nd == nil || nd.Kind != memfs.KFile || len(nd.Data) == 0 {
			continue
		}
		switch l.Mode {
		case "empty":
			nd.Data = nil
		case "torn":
			nd.Data = nd.Data[:rg.N(len(nd.Data)+1)]
		case "zero":
			at := rg.N(len(nd.Data))
			for i := at; i < len(nd.Data); i++ {
				nd.Data[i] = 0
			}
		case "garbage":
			at := rg.N(len(nd.Data))
			for i := at; i < len(nd.Data); i++ {
				nd.Data[i] = byte(rg.U64())
			}
		case "mixed":
			switch rg.N(4) {
			case 0:
				nd.Data = nil
			case 1:
				nd.Data = nd.Data[:rg.N(len(nd.Data)+1)]
			case 2:
				for i := rg.N(len(nd.Data)); i < len(nd.Data); i++ {
					nd.Data[i] = 0
				}
			}
		}
	}
	return nil
}

func checkG04(r *Runner, sc *Scenario, ref *Out) (*Violation, error) {
	if ref.Exit != 0 {
		return nil, nil
	}
	refFiles := outFiles(ref.FS, sc.Case.Cwd, sc.Case.Out)
	var disk *memfs.FS
	foreign := map[string]string{}
	hist := ""
	for i := range sc.Procs {
		p := &sc.Procs[i]
		dir := sc.outDir(p)
		fs := r.start(sc, p, disk)
		if disk == nil {
			for k, c := range outFiles(fs, "/", dir) {
				if _, own := refFiles[k]; !own {
					foreign[k] = c
				}
			}
		}
		base := memfs.New(fs.Image())
		base.Start = p.Plan.Clock
		o, err := r.Exec(fs, sc.Case.args(p), p.Plan)
		if err != nil {
			return nil, err
		}
		last := i == len(sc.Procs)-1
		if !last {
			if p.Lose != nil {
				r.count("machine-crash:" + p.Lose.Mode)
			} else if o.Crashed() {
				r.count("process-crash")
			}
			if err := crashDisk(base, o, p.Lose); err != nil {
				return nil, fmt.Errorf("%w: %v", ErrHarness, err)
			}
			disk = base
			hist += fmt.Sprintf("run %d stopped after %d calls; ", i+1, len(o.Events))
			continue
		}
		if o.Exit != 0 {
			return v("rerun-fails", "%sthe run afterwards fails with exit status %d: %s", hist, o.Exit, clip(lastLine(o, ref))), nil
		}
		if d := diff(refFiles, foreign, outFiles(o.FS, "/", dir)); d != "" {
			return v("rerun-not-clean", "%sthe run afterwards leaves: %s", hist, d), nil
		}
	}
	return nil, nil
}

func under(p, dir string) bool {
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

func checkG05(r *Runner, sc *Scenario, ref *Out) (*Violation, error) {
	refFiles := outFiles(ref.FS, sc.Case.Cwd, sc.Case.Out)
	for name := range outFiles(sc.Case.disk(), sc.Case.Cwd, sc.Case.Out) {
		delete(refFiles, name) // schemas and whatever else was there before
	}
	for i := range sc.Procs {
		p := &sc.Procs[i]
		fs := r.start(sc, p, nil)
		dir := sc.outDir(p)
		before := map[string]memfs.Entry{}
		for _, e := range fs.Dump() {
			before[e.Path] = e
		}
		own := func(full string) bool {
			if !under(full, dir) {
				return false
			}
			_, ok := refFiles[strings.TrimPrefix(strings.TrimPrefix(full, dir), "/")]
			return ok
		}
		protected := func(full string) bool {
			e, ok := before[full]
			return ok && !(own(full) && e.Kind != memfs.KDir)
		}
		for f := range refFiles {
			if path.Ext(f) != ".go" {
				return v("unexpected-file", "the run leaves %s, which is no generated source file", path.Join(dir, f)), nil
			}
		}
		// needed tells if a directory is one that the output files stand in.
		needed := func(full string) bool {
			for f := range refFiles {
				if under(path.Join(dir, f), full) {
					return true
				}
			}
			return ref.Exit != 0
		}
		o, err := r.Exec(fs, sc.Case.args(p), p.Plan)
		if err != nil {
			return nil, err
		}
		for k := range o.Events {
			e := &o.Events[k]
			attr := e.Err == "" && (e.Op == "chmod" || e.Op == "chown" || e.Op == "utime" || e.Op == "fchmod" || e.Op == "fchown")
			if !e.Mut && !attr {
				continue
			}
			for _, full := range []string{e.Real, e.Real2} {
				if full == "" || e.Op == "link" && full == e.Real2 {
					continue
				}
				if protected(full) {
					return v("foreign-file-changed", "%s of %s, which is not an output file of the run (exit %d; %s)", e.Op, full, o.Exit, describe(p)), nil
				}
				if e.Op == "mkdir" {
					if !under(full, dir) && !under(dir, full) {
						return v("outside-output-directory", "%s %s is outside the output directory %s", e.Op, full, dir), nil
					}
				} else if !under(full, dir) {
					return v("outside-output-directory", "%s %s is outside the output directory %s (exit %d)", e.Op, full, dir, o.Exit), nil
				}
			}
		}
		for _, e := range o.FS.Dump() {
			b, had := before[e.Path]
			if had {
				if protected(e.Path) && e.Kind != memfs.KDir && (string(b.Data) != string(e.Data) || b.Kind != e.Kind || b.Link != e.Link) {
					return v("foreign-file-changed", "%s was changed (exit %d; %s)", e.Path, o.Exit, describe(p)), nil
				}
				continue
			}
			if e.Kind == memfs.KDir {
				if under(e.Path, dir) && !needed(e.Path) {
					return v("unexpected-directory", "the run created %s, which no output file needs (exit %d)", e.Path, o.Exit), nil
				}
				continue
			}
			if ref.Exit == 0 && o.Exit == 0 && !own(e.Path) {
				return v("unexpected-file", "the run created %s, which is not an output file", e.Path), nil
			}
		}
		for k, b := range before {
			if protected(k) && b.Kind != memfs.KDir && o.FS.LLookup(k) == nil {
				return v("foreign-file-changed", "%s was removed (exit %d; %s)", k, o.Exit, describe(p)), nil
			}
		}
	}
	return nil, nil
}

func checkG06(r *Runner, sc *Scenario, ref *Out) (*Violation, error) {
	if ref.Exit != 0 {
		return nil, nil
	}
	refFiles := outFiles(ref.FS, sc.Case.Cwd, sc.Case.Out)
	for i := range sc.Procs {
		p := &sc.Procs[i]
		must := false // the run has to be refused
		what := ""
		if p.Torn != nil && p.Torn.File < len(sc.Case.Files) {
			f := sc.Case.Files[p.Torn.File]
			if cutInside(f.Text(), p.Torn.At) {
				must = true
				t := f.Text()
				at := min(p.Torn.At, len(t))
				what = fmt.Sprintf("%s is cut behind %q", f.Path, t[max(0, at-25):at])
			} else {
				continue
			}
		}
		if len(p.Remove) > 0 {
			gone := map[string]bool{}
			for _, x := range p.Remove {
				gone[x] = true
			}
			if packageImported(sc.Case.Files, gone) {
				must = true
				what += fmt.Sprintf("%v is missing", p.Remove)
			} else if p.Torn == nil {
				continue
			}
		}
		fs := r.start(sc, p, nil)
		dir := sc.outDir(p)
		before := outFiles(fs, "/", dir)
		o, err := r.Exec(fs, sc.Case.args(p), p.Plan)
		if err != nil {
			return nil, err
		}
		if what == "" {
			what = faultNote(o)
		}
		bad := faulted(o) != nil || p.Torn != nil || len(p.Remove) > 0 || hasUnreadable(p)
		if !bad {
			continue
		}
		if o.Exit == 96 {
			return v("no-termination", "the run does not end: %s", what), nil
		}
		if o.Panicked() {
			return v("panic", "the generator crashes: %s: %s", what, clip(lastLine(o, ref))), nil
		}
		if o.Exit == 0 {
			if must {
				return v("bad-schema-accepted", "exit status 0 although %s", what), nil
			}
			if sc.Case.Only == "" {
				if d := diff(refFiles, before, outFiles(o.FS, "/", dir)); d != "" {
					return v("bad-schema-accepted", "exit status 0 although %s, and %s", what, d), nil
				}
			}
			continue
		}
		if !says(o, ref) {
			return v("silent-failure", "exit status %d without a message: %s", o.Exit, what), nil
		}
		for k := range o.Events {
			if e := &o.Events[k]; e.Mut && e.Op != "mkdir" {
				return v("output-from-bad-schema", "%s %s although %s", e.Op, e.Real, what), nil
			}
		}
	}
	return nil, nil
}

func hasUnreadable(p *Proc) bool {
	for _, e := range p.Prior {
		if e.NoRd {
			return true
		}
	}
	return false
}

func checkG07(r *Runner, sc *Scenario, ref *Out) (*Violation, error) {
	outs := []*Out{ref}
	ps := []*Proc{nil}
	for i := range sc.Procs {
		o, err := r.Do(sc, &sc.Procs[i], nil)
		if err != nil {
			return nil, err
		}
		outs = append(outs, o)
		ps = append(ps, &sc.Procs[i])
	}
	for i, o := range outs {
		if o.Exit != 0 {
			continue
		}
		note := ""
		if ps[i] != nil {
			note = " (" + describe(ps[i]) + fmt.Sprint(ps[i].Opts) + ")"
		}
		written := map[string]int{}
		for k := range o.Events {
			e := &o.Events[k]
			if e.Err != "" {
				continue
			}
			if e.Op == "open" && e.Flags&3 != 0 {
				written[e.Real]++
			}
			if e.Op == "rename" {
				written[e.Real2] += written[e.Real]
				delete(written, e.Real)
			}
			if e.Op == "unlink" {
				delete(written, e.Real)
			}
		}
		for k, n := range written {
			if n > 1 {
				return v("file-written-twice", "%s is written %d times%s", k, n, note), nil
			}
		}
		files := outFiles(o.FS, "/", sc.outDir(ps[i]))
		decls := goScan(files)
		want := map[string]map[string]int{}
		named := map[string]bool{} // files of one package given more than once count once
		seen := map[string]bool{}
		for _, f := range sc.Case.Files {
			si := inspect(f.Text())
			if named[si.pkg] {
				continue
			}
			named[si.pkg] = true
			d := strings.ToLower(strings.ReplaceAll(si.pkg, ".", "/"))
			if want[d] == nil {
				want[d] = map[string]int{}
			}
			for _, t := range append(append([]string{}, si.types...), si.consts...) {
				if !seen[si.pkg+"."+t] {
					seen[si.pkg+"."+t] = true
					want[d][t]++
				}
			}
		}
		for _, d := range sortedKeys(want) {
			g := decls[d]
			if g == nil {
				return v("package-missing", "no output for package directory %s%s", d, note), nil
			}
			if g.bad != "" {
				return v("not-go", "%s%s", g.bad, note), nil
			}
			for _, t := range sortedKeys(want[d]) {
				n := g.defs[t]
				if l := strings.ToLower(t[:1]) + t[1:]; l != t {
					n += g.defs[l] // a name may keep its lower-case initial
				}
				if n > 1 && want[d][t] == n {
					return v("type-count", "%s is defined %d times in %s, which is one Go package%s", t, n, d, note), nil
				}
				if n != want[d][t] {
					return v("type-count", "%s is defined %d times in %s, expected %d%s", t, n, d, want[d][t], note), nil
				}
			}
			for t, n := range g.defs {
				if n > 1 && want[d][t] < n {
					return v("type-count", "%s is defined %d times in %s%s", t, n, d, note), nil
				}
			}
		}
		alias := map[string]string{} // package directories that share one import name
		shared := map[string]bool{}
		for _, d := range sortedKeys(want) {
			a := strings.ReplaceAll(d, "/", "_")
			if o, dup := alias[a]; dup {
				shared[d], shared[o] = true, true
			}
			alias[a] = d
		}
		bare, known := bareTemplates(sc.Case.Files), declared(sc.Case.Files)
		for _, d := range sortedKeys(decls) {
			for _, u := range sortedKeys(decls[d].uses) {
				in, name := d, u
				if k := strings.LastIndex(u, "."); k >= 0 {
					if !strings.HasPrefix(u, "example.com/gen/") {
						continue
					}
					in, name = strings.ToLower(strings.TrimPrefix(u[:k], "example.com/gen/")), u[k+1:]
				} else if universe[u] || decls[d].defs[u] > 0 {
					continue
				}
				if bare[name] || !known(name) || shared[in] {
					continue
				}
				if decls[in] == nil || decls[in].defs[name]+decls[in].defs[strings.ToLower(name[:1])+name[1:]] == 0 {
					if !strings.Contains(u, ".") && !upper(name) {
						continue
					}
					return v("undefined-type", "%s uses %s, which no output file of %s defines%s", d, name, in, note), nil
				}
			}
		}
	}
	return nil, nil
}

func upper(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

var universe = map[string]bool{}

func init() {
	for _, s := range strings.Fields("bool byte error int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64 complex64 complex128 string rune any true false nil iota len cap make new append copy delete panic print println recover min max clear comparable") {
		universe[s] = true
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func checkG08(r *Runner, sc *Scenario, ref *Out) (*Violation, error) {
	for i := range sc.Procs {
		p := &sc.Procs[i]
		limit := p.MaxPath
		q := *p
		q.MaxPath = 0
		if limit < 0 {
			limit = 260 // the limit that is given if none is named
		} else {
			q.Opts = append([]string{"--max-path-length", fmt.Sprint(limit)}, p.Opts...)
		}
		o, err := r.Do(sc, &q, nil)
		if err != nil {
			return nil, err
		}
		dir := sc.outDir(p)
		if limit == 0 {
			q.Opts = append([]string{"--max-path-length", "100000"}, p.Opts...)
			w, err := r.Do(sc, &q, nil)
			if err != nil {
				return nil, err
			}
			if w.Exit != o.Exit {
				return v("zero-limit", "with limit 0 the exit status is %d, with limit 100000 it is %d: %s", o.Exit, w.Exit, clip(lastLine(o, w))), nil
			}
			if d := diff(outFiles(w.FS, "/", dir), nil, outFiles(o.FS, "/", dir)); d != "" {
				return v("zero-limit", "with limit 0 the output differs from that with limit 100000: %s", d), nil
			}
			continue
		}
		for k := range o.Events {
			e := &o.Events[k]
			if e.Err != "" {
				continue
			}
			var made []string
			switch e.Op {
			case "open":
				if e.Flags&3 != 0 {
					made = []string{e.Path}
				}
			case "mkdir":
				made = []string{e.Path}
			case "rename", "link", "symlink":
				made = []string{e.Path2}
			}
			for _, m := range made {
				if len(m) > limit {
					return v("path-too-long", "%s of %q, %d characters, limit %d (exit %d)", e.Op, m, len(m), limit, o.Exit), nil
				}
			}
		}
		if o.Exit == 0 && ref.Exit == 0 {
			// the same files under possibly shorter names
			a, b := outFiles(ref.FS, sc.Case.Cwd, sc.Case.Out), outFiles(o.FS, "/", dir)
			if x, y := contents(a), contents(b); x != y {
				return v("content-lost", "with limit %d the output has %d files, without %d, or other contents", limit, len(b), len(a)), nil
			}
		}
	}
	return nil, nil
}

func contents(m map[string]string) string {
	var xs []string
	for k, v := range m {
		xs = append(xs, path.Dir(k)+"\x00"+v)
	}
	sort.Strings(xs)
	return strings.Join(xs, "\x01")
}
