// Package genworld simulates the generator process on a simulated disk and
// decides properties G01 to G09.
package genworld

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vsim/build"
	"vsim/memfs"
	"vsim/rng"
	"vsim/zsgen"
)

// Case is one input of the generator.
type Case struct {
	Name   string        `json:"name,omitempty"`
	Files  []zsgen.File  `json:"files"`
	Inputs []string      `json:"inputs"` // arguments naming schema files or a directory
	Opts   []string      `json:"opts,omitempty"`
	Only   string        `json:"only,omitempty"` // write this package to standard output
	Out    string        `json:"out"`
	Cwd    string        `json:"cwd,omitempty"`
	Prior  []memfs.Entry `json:"prior,omitempty"` // what is on the disk besides the schema files
}

// Lose describes what a machine crash does to data that was not synchronised.
type Lose struct {
	Ops  int    `json:"ops"`  // mutating operations at the end of the run whose effect is lost (0: none)
	Mode string `json:"mode"` // data of the files written: "", "empty", "torn", "zero", "garbage"
	Seed uint64 `json:"seed"`
}

// Proc is one run of the generator in a scenario.
type Proc struct {
	Plan    memfs.Plan    `json:"plan"`
	Inputs  []string      `json:"inputs,omitempty"` // instead of the case's
	Out     string        `json:"out,omitempty"`
	Cwd     string        `json:"cwd,omitempty"`
	Prior   []memfs.Entry `json:"prior,omitempty"` // besides the case's
	Remove  []string      `json:"remove,omitempty"`
	Cap     *int          `json:"cap,omitempty"`
	MaxPath int           `json:"maxpath,omitempty"`
	Opts    []string      `json:"opts,omitempty"` // besides the case's
	Lose    *Lose         `json:"lose,omitempty"`
	Keep    bool          `json:"keep,omitempty"` // continue on the disk of the run before
	Torn    *Torn         `json:"torn,omitempty"`
	Of      int           `json:"of,omitempty"` // case of a process that runs beside others: 0 the case, else one of the peers
}

// Torn cuts one schema file.
type Torn struct {
	File int    `json:"file"`
	At   int    `json:"at"`
	Mode string `json:"mode,omitempty"` // "" cut, "zero": rest of the file is NUL
}

// Scenario is everything that decides one check: it is what a replay file holds.
type Scenario struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Seed     uint64 `json:"seed"`
	Index    int    `json:"index"`
	Case     Case   `json:"case"`
	Procs    []Proc `json:"procs"`
	Peers    []Case `json:"peers,omitempty"` // other cases on the same disk
	Turns    []Turn `json:"turns,omitempty"` // of processes that run at the same time
}

// Violation is a broken property.
type Violation struct {
	Rule   string `json:"rule"`
	Detail string `json:"detail"`
}

// Out is the outcome of one simulated process.
type Out struct {
	Exit   int // -1: killed by a signal
	Events []memfs.Event
	FS     *memfs.FS
	Stdout []byte
	Stderr string
	Trace  string // hash of the journal
}

// Panicked reports a Go panic or fatal run-time error.
func (o *Out) Panicked() bool {
	return strings.Contains(o.Stderr, "goroutine ") && (strings.Contains(o.Stderr, "panic: ") || strings.Contains(o.Stderr, "fatal error: "))
}

// Crashed is true if the process stopped at a planned crash point.
func (o *Out) Crashed() bool { return o.Exit == 137 }

// Runner executes simulated processes.
type Runner struct {
	Bin  string
	Dir  string // scratch directory
	seq  atomic.Int64
	Runs atomic.Int64
	mu   sync.Mutex
	refs map[string]*refEntry

	statMu sync.Mutex
	Faults map[string]int
	Traces map[string]bool
	Disks  map[string]bool
	SimMs  int64
	Calls  int64
}

type refEntry struct {
	once sync.Once
	out  *Out
	err  error
}

// NewRunner builds the simulated generator from the tree under test.
func NewRunner(work string) (*Runner, error) {
	bin, err := build.GenSim(work)
	if err != nil {
		return nil, err
	}
	return &Runner{Bin: bin, Dir: work, refs: map[string]*refEntry{}, Faults: map[string]int{}, Traces: map[string]bool{}, Disks: map[string]bool{}}, nil
}

// ErrHarness marks trouble that says nothing about the property.
var ErrHarness = errors.New("harness")

// environment is the environment of a process, apart from what belongs to the
// simulator.
func environment(seed uint64) []string {
	if seed == 0 {
		return []string{"TZ=UTC", "HOME=/nonexistent"}
	}
	r := rng.New(seed, 99)
	env := []string{"TZ=" + rng.Pick(r, "UTC", "Asia/Tokyo", "EST5EDT", ""), "HOME=" + rng.Pick(r, "/nonexistent", "/home/other", "/")}
	for _, kv := range []string{"USER=someone", "LOGNAME=someone", "HOSTNAME=elsewhere", "LANG=tr_TR.UTF-8", "LC_ALL=de_DE.ISO-8859-1", "TMPDIR=/elsewhere/tmp", "TERM=dumb", "NO_COLOR=1", "COLUMNS=20", "PWD=/elsewhere", "GOFLAGS=-mod=vendor", "GOPATH=/elsewhere/go", "GOPACKAGE=other", "GOFILE=other.go", "CI=true", "DEBUG=1", "VERBOSE=1", "SOURCE_DATE_EPOCH=86400"} {
		if r.P(40) {
			env = append(env, kv)
		}
	}
	return env
}

// Exec runs one process.
func (r *Runner) Exec(fs *memfs.FS, args []string, plan memfs.Plan) (*Out, error) {
	id := r.seq.Add(1)
	r.Runs.Add(1)
	fs.Start = plan.Clock
	img := fs.Image()
	img.Cap = nil
	if fs.Cap >= 0 {
		c := fs.Cap
		img.Cap = &c
	}
	ib, _ := json.Marshal(img)
	imgFile := filepath.Join(r.Dir, fmt.Sprintf("img%d.json", id))
	if err := os.WriteFile(imgFile, ib, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(imgFile)
	pb, _ := json.Marshal(plan)
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	defer pr.Close()
	cmd := exec.Command(r.Bin, args...)
	cmd.Dir = "/"
	ps := string(pb)
	if len(pb) > 60000 { // too long for the environment
		planFile := filepath.Join(r.Dir, fmt.Sprintf("plan%d.json", id))
		if err := os.WriteFile(planFile, pb, 0o644); err != nil {
			return nil, err
		}
		defer os.Remove(planFile)
		ps, pb = "@"+planFile, pb[:1000]
	}
	cmd.Env = append(environment(plan.Env), "VSIM_HASH="+fmt.Sprint(plan.Hash), "VSIM_IMG="+imgFile, "VSIM_PLAN="+ps, "PATH=/nonexistent")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		pw.Close()
		return nil, err
	}
	pw.Close()
	timer := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	out := &Out{FS: fs}
	h := sha256.New()
	br := bufio.NewReaderSize(pr, 1<<16)
	var jerr error
	for {
		line, err := br.ReadBytes('\n')
		if len(line) > 0 {
			h.Write(line)
			var e memfs.Event
			if je := json.Unmarshal(line, &e); je != nil && jerr == nil {
				jerr = je
			}
			out.Events = append(out.Events, e)
			if e.Op == "stdout" && e.Err == "" {
				out.Stdout = append(out.Stdout, e.Data...)
			}
			if ae := fs.Apply(&out.Events[len(out.Events)-1]); ae != nil && jerr == nil {
				jerr = ae
			}
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			jerr = err
			break
		}
	}
	err = cmd.Wait()
	if !timer.Stop() {
		return nil, fmt.Errorf("%w: process did not end within 120 s (plan %s)", ErrHarness, pb)
	}
	out.Exit = 0
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			return nil, err
		}
		out.Exit = ee.ExitCode()
	}
	out.Stderr = stderr.String()
	if jerr != nil {
		return nil, fmt.Errorf("%w: journal: %v", ErrHarness, jerr)
	}
	if out.Exit >= 97 && out.Exit <= 99 {
		return nil, fmt.Errorf("%w: exit %d: %s", ErrHarness, out.Exit, out.Stderr)
	}
	fmt.Fprintf(h, "exit %d", out.Exit)
	out.Trace = hex.EncodeToString(h.Sum(nil)[:10])
	r.note(out)
	return out, nil
}

func (r *Runner) note(o *Out) {
	r.statMu.Lock()
	defer r.statMu.Unlock()
	key := sha256.New()
	for i := range o.Events {
		e := &o.Events[i]
		fmt.Fprintf(key, "%s|%s|%s|%s\n", e.Op, e.Real, e.Err, e.Fault)
		if e.Fault != "" {
			r.Faults[e.Op+":"+e.Fault]++
		}
		if e.Op == "lost" {
			r.Faults["close:lost-data"]++
		}
	}
	r.Traces[hex.EncodeToString(key.Sum(nil)[:10])] = true
	r.Calls += int64(len(o.Events))
	r.SimMs += int64(len(o.Events))
	d := sha256.New()
	for _, e := range o.FS.Dump() {
		fmt.Fprintf(d, "%s %s %d %s\n", e.Path, e.Kind, len(e.Data), e.Link)
		d.Write(e.Data)
	}
	r.Disks[hex.EncodeToString(d.Sum(nil)[:10])] = true
}

func (r *Runner) count(kind string) {
	r.statMu.Lock()
	r.Faults[kind]++
	r.statMu.Unlock()
}

// disk makes the disk of a case.
func (c *Case) disk() *memfs.FS {
	fs := memfs.New(nil)
	fs.Cwd = "/"
	fs.Put(memfs.Entry{Path: "/tmp", Kind: memfs.KDir})
	fs.Put(memfs.Entry{Path: "/elsewhere/tmp", Kind: memfs.KDir})
	if c.Cwd != "" {
		fs.Put(memfs.Entry{Path: c.Cwd, Kind: memfs.KDir})
		fs.Cwd = c.Cwd
	}
	for _, f := range c.Files {
		fs.Put(memfs.Entry{Path: f.Path, Kind: memfs.KFile, Data: []byte(f.Text())})
	}
	for _, e := range c.Prior {
		fs.Put(e)
	}
	return fs
}

func (c *Case) args(p *Proc) []string {
	out, in := c.Out, c.Inputs
	var extra []string
	if p != nil {
		if p.Out != "" {
			out = p.Out
		}
		if p.Inputs != nil {
			in = p.Inputs
		}
		extra = p.Opts
	}
	a := []string{"generate", "--rootpackage", "example.com/gen"}
	if c.Only != "" {
		a = append(a, "--out", "-", "--only", c.Only)
	} else {
		a = append(a, "--out", out)
	}
	a = append(a, c.Opts...)
	a = append(a, extra...)
	return append(a, in...)
}

// Ref is the undisturbed run of the case on a disk without prior output.
func (r *Runner) Ref(c *Case) (*Out, error) {
	cc := *c
	cc.Prior = nil
	cc.Name = ""
	kb, _ := json.Marshal(cc)
	k := string(kb)
	r.mu.Lock()
	e := r.refs[k]
	if e == nil {
		if len(r.refs) > 3000 {
			r.refs = map[string]*refEntry{}
		}
		e = &refEntry{}
		r.refs[k] = e
	}
	r.mu.Unlock()
	e.once.Do(func() { e.out, e.err = r.Exec(cc.disk(), cc.args(nil), memfs.Plan{}) })
	return e.out, e.err
}

// start prepares the disk for one process of a scenario.
func (r *Runner) start(sc *Scenario, p *Proc, prev *memfs.FS) *memfs.FS {
	fs := prev
	if fs == nil || !p.Keep {
		fs = sc.Case.disk()
	}
	if p.Torn != nil && p.Torn.File < len(sc.Case.Files) {
		f := sc.Case.Files[p.Torn.File]
		b := []byte(f.Text())
		at := min(p.Torn.At, len(b))
		nb := append([]byte(nil), b[:at]...)
		if p.Torn.Mode == "zero" {
			nb = append(nb, make([]byte, len(b)-at)...)
		}
		fs.Put(memfs.Entry{Path: f.Path, Kind: memfs.KFile, Data: nb})
		r.count("schema:torn")
	}
	for _, rm := range p.Remove {
		fs.Unlink(rm, false)
		r.count("schema:missing")
	}
	if p.Cwd != "" {
		fs.Put(memfs.Entry{Path: p.Cwd, Kind: memfs.KDir})
		fs.Cwd = p.Cwd
	}
	for _, e := range p.Prior {
		fs.Put(e)
	}
	fs.Cap, fs.MaxPath = -1, p.MaxPath
	if p.Cap != nil {
		fs.Cap = *p.Cap
	}
	return fs
}

// Do runs one process of a scenario.
func (r *Runner) Do(sc *Scenario, p *Proc, prev *memfs.FS) (*Out, error) {
	return r.Exec(r.start(sc, p, prev), sc.Case.args(p), p.Plan)
}

// outFiles lists what stands below dir: relative path to content.
func outFiles(fs *memfs.FS, cwd, dir string) map[string]string {
	if !strings.HasPrefix(dir, "/") {
		dir = path.Join("/", cwd, dir)
	}
	dir = path.Clean(dir)
	m := map[string]string{}
	n := fs.Lookup(dir)
	if n == nil {
		return m
	}
	var rec func(p string, n *memfs.Node)
	rec = func(p string, n *memfs.Node) {
		switch n.Kind {
		case memfs.KDir:
			for k, c := range n.Ent {
				if p == "" {
					rec(k, c)
				} else {
					rec(p+"/"+k, c)
				}
			}
		case memfs.KLink:
			m[p] = "-> " + n.Link
		default:
			m[p] = string(n.Data)
		}
	}
	rec("", n)
	return m
}
