package genworld

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"vsim/build"
	"vsim/memfs"
	"vsim/rng"
	"vsim/zsgen"
)

// chop splits a schema text into its head and its top-level declarations.
func chop(p, s string) zsgen.File {
	f := zsgen.File{Path: p}
	ds := split(s)
	last := 0
	for _, d := range ds {
		c := s[last:d.end]
		last = d.end
		switch d.toks[0].s {
		case "package", "import":
			f.Head += c
		default:
			f.Decls = append(f.Decls, c)
		}
	}
	if n := len(f.Decls); n > 0 {
		f.Decls[n-1] += s[last:]
	} else {
		f.Head += s[last:]
	}
	return f
}

// corpus reads a fixed schema set.
func corpus(name string) (Case, error) {
	c := Case{Name: name, Inputs: []string{"/s"}, Out: "/out"}
	root := filepath.Join(build.Home, "corpus", name)
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		c.Files = append(c.Files, chop("/s/"+rel, string(b)))
		return nil
	})
	sort.Slice(c.Files, func(i, j int) bool { return c.Files[i].Path < c.Files[j].Path })
	return c, err
}

// Corpora are the fixed schema sets.
var Corpora = []string{"scope", "templ", "names", "refmods", "longn", "casepk", "expr", "misc"}

func randomCase(r *rng.R, o zsgen.Options) Case {
	c := Case{Name: "random", Inputs: []string{"/s"}, Out: "/out"}
	c.Files = zsgen.Random(r, "/s", o)
	if len(c.Files) > 1 && r.P(40) {
		c.Inputs = nil
		for _, f := range c.Files {
			c.Inputs = append(c.Inputs, f.Path)
		}
	}
	if r.P(15) {
		c.Opts = append(c.Opts, "--sql")
	}
	return c
}

func zsOpts(r *rng.R) zsgen.Options {
	return zsgen.Options{Collide: r.P(40), Long: r.P(25), MaxPkgs: 1 + r.N(5), MaxTypes: 2 + r.N(10), Templates: r.P(70), Bulk: r.P(6)}
}

// Faults that are plausible for a kind of system call.
var plausible = map[string][]memfs.Fault{
	"open":     {{Err: "EIO"}, {Err: "EACCES"}, {Err: "EMFILE"}, {Err: "ENOSPC"}, {Err: "EROFS"}, {Err: "ENOENT"}, {Err: "EINTR"}},
	"read":     {{Err: "EIO"}, {Short: 1}, {Short: 40}, {Short: 7, Err: "EIO"}},
	"pread":    {{Err: "EIO"}},
	"write":    {{Err: "ENOSPC"}, {Err: "EIO"}, {Err: "EDQUOT"}, {Err: "EFBIG"}, {Short: 1}, {Short: 100, Err: "ENOSPC"}, {Short: 1, Err: "EIO"}, {Err: "EINTR"}},
	"pwrite":   {{Err: "ENOSPC"}, {Err: "EIO"}, {Short: 1, Err: "EIO"}},
	"stdout":   {{Err: "EIO"}, {Err: "ENOSPC"}, {Err: "EPIPE"}, {Short: 50}, {Short: 50, Err: "ENOSPC"}, {Short: 1, Err: "EPIPE"}, {Err: "EBADF"}},
	"close":    {{Err: "EIO"}, {Err: "EIO", Lose: 1}, {Err: "ENOSPC", Lose: 50}, {Err: "EDQUOT", Lose: 91}},
	"fsync":    {{Err: "EIO"}},
	"mkdir":    {{Err: "EACCES"}, {Err: "ENOSPC"}, {Err: "EROFS"}, {Err: "EIO"}},
	"stat":     {{Err: "EIO"}, {Err: "EACCES"}},
	"lstat":    {{Err: "EIO"}, {Err: "EACCES"}},
	"fstat":    {{Err: "EIO"}},
	"getdents": {{Err: "EIO"}, {Err: "EACCES"}, {Short: 1}},
	"unlink":   {{Err: "EIO"}, {Err: "EACCES"}},
	"rename":   {{Err: "EIO"}, {Err: "ENOSPC"}, {Err: "EACCES"}},
	"truncate": {{Err: "EIO"}},
	"chmod":    {{Err: "EPERM"}},
	"fchmod":   {{Err: "EPERM"}},
}

// faultsOf lists every single fault for the calls of a run.
func faultsOf(o *Out) []memfs.Fault {
	var fs []memfs.Fault
	for i := range o.Events {
		e := &o.Events[i]
		if e.Op == "lost" {
			continue
		}
		for _, f := range plausible[e.Op] {
			f.At = e.N
			fs = append(fs, f)
			if f.Err != "" && f.Err != "EINTR" && f.Lose == 0 && f.Short == 0 && (e.Op == "write" || e.Op == "open" || e.Op == "close") {
				f.Stick = true
				fs = append(fs, f)
			}
		}
	}
	return fs
}

// shortReads lists reads of schema files that deliver a part that is a complete
// schema in itself.
func shortReads(c *Case, o *Out) []memfs.Fault {
	var fs []memfs.Fault
	seen := map[string]bool{}
	for i := range o.Events {
		e := &o.Events[i]
		if e.Op != "read" || seen[e.Real] {
			continue
		}
		seen[e.Real] = true
		for _, f := range c.Files {
			if f.Path == e.Real {
				for _, d := range split(f.Text()) {
					fs = append(fs, memfs.Fault{At: e.N, Short: d.end})
				}
			}
		}
	}
	return fs
}

func randomFault(r *rng.R, o *Out) memfs.Fault {
	for k := 0; k < 50 && len(o.Events) > 0; k++ {
		e := &o.Events[r.N(len(o.Events))]
		ps := plausible[e.Op]
		if len(ps) == 0 {
			continue
		}
		f := ps[r.N(len(ps))]
		f.At = e.N
		if f.Err != "" && f.Err != "EINTR" && r.P(20) {
			f.Stick = true
		}
		if f.Lose > 0 {
			f.Lose = 1 + r.N(100)
		}
		if f.Short > 0 {
			f.Short = 1 + r.N(300)
		}
		return f
	}
	return memfs.Fault{At: r.N(100), Err: "EIO"}
}

func totalSize(o *Out) int {
	n := 0
	for i := range o.Events {
		if o.Events[i].Mut {
			n += len(o.Events[i].Data)
		}
	}
	return n
}

// stale turns an output file into what an earlier, longer, shorter, damaged or
// interrupted run may have left.
func stale(r *rng.R, s string) []byte {
	b := []byte(s)
	switch r.N(7) {
	case 0:
		return nil
	case 1:
		return append(b, []byte("\n// from an older version\nfunc Older() {}\n")...)
	case 2:
		return b[:r.N(len(b)+1)]
	case 3:
		if len(b) > 0 {
			b[r.N(len(b))] ^= 1 << r.N(8)
		}
		return b
	case 4:
		return make([]byte, len(b))
	case 5:
		return append(append([]byte("// older\n"), b...), b...)
	}
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

func refNames(c *Case, ref *Out) []string {
	return sortedKeys(outFiles(ref.FS, c.Cwd, c.Out))
}

func priorOutputs(r *rng.R, c *Case, ref *Out, pct int) []memfs.Entry {
	var es []memfs.Entry
	m := outFiles(ref.FS, c.Cwd, c.Out)
	for _, n := range sortedKeys(m) {
		if r.P(pct) {
			es = append(es, memfs.Entry{Path: path.Join(c.Out, n), Kind: memfs.KFile, Data: stale(r, m[n])})
		}
	}
	return es
}

const keepMark = "\n// keep "

// foreignFiles are files that are not the generator's.
func foreignFiles(r *rng.R, c *Case, ref *Out, out string) []memfs.Entry {
	var es []memfs.Entry
	names := refNames(c, ref)
	for k := r.N(6); k > 0; k-- {
		dir := out
		if len(names) > 0 && r.P(60) {
			dir = path.Join(out, path.Dir(rng.Pick(r, names...)))
		}
		n := rng.Pick(r, "README.md", "extra.go", "doc.go", "notes.txt", ".hidden", "x_test.go", "pkg_test.go", "old.go", "go.mod", "BUILD.bazel", "pkg.go.bak", "pkg.go.orig", "zz_generated.go", "tmp", ".pkg.go.tmp", "pkg.go~", "pkg.go.tmp")
		data := "package keep // " + n + "\n"
		if len(names) > 0 && r.P(40) {
			// a file of the same package from another schema set or another version
			base := strings.TrimSuffix(path.Base(rng.Pick(r, names...)), ".go")
			n = rng.Pick(r, "former_type.go", base+"_1.go", base+"_2.go", base+"_test.go", base+".go.tmp", base+".tmp", "."+base+".go", base+".go.1", base)
			data = "// Code generated by go-zserio. DO NOT EDIT.\n\npackage " + path.Base(dir) + "\n" + keepMark + n + "\n"
			if r.P(30) {
				n = "former/" + n
			}
		}
		es = append(es, memfs.Entry{Path: path.Join(dir, n), Kind: memfs.KFile, Data: []byte(data)})
	}
	return es
}

func permuted(r *rng.R, in []string) []string {
	out := append([]string(nil), in...)
	rng.Shuffle(r, out)
	return out
}

// respell names a schema file or directory in another way.
func respell(r *rng.R, name, cwd string) string {
	rel, err := filepath.Rel(path.Join("/", cwd), name)
	if err != nil {
		return name
	}
	switch r.N(7) {
	case 0:
		return path.Dir(name) + "/./" + path.Base(name)
	case 1:
		return "/" + name
	case 2:
		if !strings.HasSuffix(name, ".zs") && !strings.HasSuffix(name, ".zserio") {
			return name + rng.Pick(r, "/", "/.", "//")
		}
		return name
	case 3:
		return "./" + rel
	case 4:
		return name
	}
	return rel
}

// source yields the scenarios of a property: first the systematic ones, then
// seeded random ones.
type source struct {
	prop  string
	seed  uint64
	r     *Runner
	fixed []*Scenario
	n     int // random scenarios
	cases []Case
}

func newSource(r *Runner, prop string, seed uint64, thorough bool) (*source, error) {
	s := &source{prop: prop, seed: seed, r: r}
	for _, n := range Corpora {
		c, err := corpus(n)
		if err != nil {
			return nil, err
		}
		s.cases = append(s.cases, c)
	}
	tiny := tinyCase()
	s.cases = append(s.cases, tiny)
	if err := s.systematic(thorough); err != nil {
		return nil, err
	}
	for i, sc := range s.fixed {
		sc.Property, sc.Seed, sc.Index = prop, seed, i
	}
	return s, nil
}

func tinyCase() Case {
	return Case{Name: "tiny", Inputs: []string{"/s"}, Out: "/out", Files: []zsgen.File{
		chop("/s/a.zs", "package tiny.a;\n\nenum uint8 Kind\n{\n    ONE,\n    TWO\n};\n\nstruct Item\n{\n    uint8 value;\n    Kind kind if value > 3;\n    string names[];\n};\n"),
		chop("/s/b.zs", "package tiny.b;\n\nimport tiny.a.*;\n\nunion Any\n{\n    Item item;\n    uint32 number;\n};\n"),
	}}
}

// byName picks fixed cases.
func (s *source) byName(names ...string) []Case {
	var out []Case
	for _, n := range names {
		for _, c := range s.cases {
			if c.Name == n {
				out = append(out, c)
			}
		}
	}
	return out
}

func (s *source) only(c Case, pkg string) Case {
	c.Only = pkg
	return c
}

func (s *source) systematic(thorough bool) error {
	add := func(c Case, ps ...Proc) { s.fixed = append(s.fixed, &Scenario{Case: c, Procs: ps}) }
	sysCases := s.byName("tiny")
	if thorough {
		sysCases = s.byName("tiny", "scope", "templ", "refmods", "longn")
	}
	switch s.prop {
	case "G01":
		nh := 8
		if thorough {
			nh = 60
		}
		for _, c := range s.cases {
			for h := 1; h <= nh; h += 2 {
				add(c, Proc{Plan: memfs.Plan{Hash: uint64(h)}}, Proc{Plan: memfs.Plan{Hash: uint64(h + 1), Dents: uint64(h * 7), Clock: int64(h) * 1e7, Sched: uint64(h), Env: uint64(h)}})
			}
			o, err := s.r.Ref(&c)
			if err != nil {
				return err
			}
			if o.Exit == 0 {
				var in []string
				for _, f := range c.Files {
					in = append(in, f.Path)
				}
				if len(in) > 1 {
					r := rng.New(s.seed, 77)
					for k := 0; k < nh/2; k++ {
						add(c, Proc{Inputs: permuted(r, in), Plan: memfs.Plan{Hash: uint64(k)}})
					}
				}
			}
		}
		c, err := corpus("twofile")
		if err != nil {
			return err
		}
		c.Inputs = []string{"/s/a1.zs", "/s/a2.zs"}
		add(c, Proc{Inputs: []string{"/s/a2.zs", "/s/a1.zs"}})
		for _, c := range s.byName("scope", "templ", "tiny") {
			in := inspect(c.Files[len(c.Files)-1].Text()).pkg
			for h := 1; h <= nh; h += 2 {
				add(s.only(c, in), Proc{Plan: memfs.Plan{Hash: uint64(h), Dents: uint64(h)}}, Proc{Plan: memfs.Plan{Hash: uint64(h + 1)}})
			}
		}
	case "G02", "G03":
		for _, c := range sysCases {
			vars := []Case{c}
			if s.prop == "G02" {
				vars = append(vars, s.only(c, inspect(c.Files[0].Text()).pkg))
			}
			nf := c
			nf.Opts = []string{"--noformat"}
			vars = append(vars, nf)
			for _, c := range vars {
				o, err := s.r.Ref(&c)
				if err != nil {
					return err
				}
				for _, f := range append(faultsOf(o), shortReads(&c, o)...) {
					add(c, Proc{Plan: memfs.Plan{Faults: []memfs.Fault{f}}})
				}
				tot := totalSize(o)
				steps := 40
				for k := 0; k < steps && c.Only == ""; k++ {
					cp := tot * k / steps
					add(c, Proc{Cap: &cp})
				}
				for k := 1; k < 30 && c.Only == ""; k++ {
					cp := tot - k
					add(c, Proc{Cap: &cp})
				}
			}
		}
	case "G04":
		for _, c := range sysCases {
			o, err := s.r.Ref(&c)
			if err != nil {
				return err
			}
			for k := range o.Events {
				at := o.Events[k].N
				if o.Events[k].Op == "read" || o.Events[k].Op == "fstat" || o.Events[k].Op == "getdents" {
					continue
				}
				crash := memfs.Plan{Faults: []memfs.Fault{{At: at, Crash: true}}}
				add(c, Proc{Plan: crash}, Proc{Keep: true, Plan: memfs.Plan{Hash: 3}})
				for m, mode := range []string{"empty", "torn", "zero", "garbage", "mixed"} {
					add(c, Proc{Plan: crash, Lose: &Lose{Mode: mode, Ops: m % 3, Seed: uint64(at)}}, Proc{Keep: true, Plan: memfs.Plan{Hash: uint64(at)}})
				}
				// short writes before the crash leave half of a file
				if o.Events[k].Op == "write" {
					half := memfs.Plan{Faults: []memfs.Fault{{At: at, Short: len(o.Events[k].Data) / 2}, {At: at + 1, Crash: true}}}
					add(c, Proc{Plan: half}, Proc{Keep: true})
				}
			}
			add(c, Proc{Lose: &Lose{Mode: "zero", Seed: 5}}, Proc{Keep: true})
			add(c, Proc{Lose: &Lose{Mode: "empty", Seed: 5}}, Proc{Keep: true})
			add(c, Proc{}, Proc{Keep: true, Plan: memfs.Plan{Hash: 9}})
		}
	case "G05":
		for _, c := range sysCases {
			o, err := s.r.Ref(&c)
			if err != nil {
				return err
			}
			for _, n := range refNames(&c, o) {
				full := path.Join(c.Out, n)
				for _, tgt := range []string{"/elsewhere/precious", c.Files[0].Path, "/elsewhere/notthere", "precious.txt", path.Join(path.Dir(full), "precious.txt")} {
					pr := []memfs.Entry{
						{Path: "/elsewhere/precious", Kind: memfs.KFile, Data: []byte("precious\n")},
						{Path: path.Join(path.Dir(full), "precious.txt"), Kind: memfs.KFile, Data: []byte("precious too\n")},
						{Path: full, Kind: memfs.KLink, Link: tgt},
					}
					add(c, Proc{Prior: pr})
					wf := memfs.Plan{}
					for k := range o.Events {
						if o.Events[k].Op == "write" && o.Events[k].Real == full {
							wf.Faults = []memfs.Fault{{At: o.Events[k].N, Err: "ENOSPC"}}
						}
					}
					add(c, Proc{Prior: pr, Plan: wf})
				}
				add(c, Proc{Prior: []memfs.Entry{{Path: full, Kind: memfs.KDir}, {Path: full + "/keep", Kind: memfs.KFile, Data: []byte("k")}}})
				add(c, Proc{Prior: []memfs.Entry{{Path: full, Kind: memfs.KDir}}})
			}
			in := c
			in.Out = "/s"
			add(in, Proc{})
			for _, f := range faultsOf(o) {
				pr := []memfs.Entry{
					{Path: path.Join(c.Out, "tiny/keep.go"), Kind: memfs.KFile, Data: []byte("package tiny\n")},
					{Path: path.Join(c.Out, "tiny/a/keep.txt"), Kind: memfs.KFile, Data: []byte("keep\n")},
					{Path: path.Join(c.Out, "tiny/a/item_test.go"), Kind: memfs.KFile, Data: []byte("package a\n")},
				}
				add(c, Proc{Prior: pr, Plan: memfs.Plan{Faults: []memfs.Fault{f}}})
			}
		}
	case "G06":
		cs := s.byName("tiny")
		if thorough {
			cs = s.byName("tiny", "scope", "templ", "refmods")
		}
		for _, c := range cs {
			for fi, f := range c.Files {
				t := f.Text()
				for at := 0; at < len(t); at++ {
					if !cutInside(t, at) {
						continue
					}
					add(c, Proc{Torn: &Torn{File: fi, At: at}})
					if thorough || at%7 == 0 {
						add(c, Proc{Torn: &Torn{File: fi, At: at, Mode: "zero"}})
					}
				}
			}
		}
		for _, c := range s.byName("tiny", "scope", "templ", "refmods") {
			o, err := s.r.Ref(&c)
			if err != nil {
				return err
			}
			for k := range o.Events {
				e := &o.Events[k]
				p := e.Real
				if p == "" {
					p = e.Path
				}
				if !under(p, "/s") {
					continue
				}
				for _, f := range plausible[e.Op] {
					if e.Op == "close" || e.Op == "fstat" {
						continue
					}
					f.At = e.N
					add(c, Proc{Plan: memfs.Plan{Faults: []memfs.Fault{f}}})
				}
			}
			for _, f := range shortReads(&c, o) {
				add(c, Proc{Plan: memfs.Plan{Faults: []memfs.Fault{f}}})
			}
			for _, f := range c.Files {
				add(c, Proc{Remove: []string{f.Path}})
				add(c, Proc{Prior: []memfs.Entry{{Path: f.Path, Kind: memfs.KFile, Data: []byte(f.Text()), NoRd: true}}})
			}
		}
	case "G07":
		for _, c := range s.cases {
			var ps []Proc
			for h := 1; h <= 4; h++ {
				ps = append(ps, Proc{Plan: memfs.Plan{Hash: uint64(h), Dents: uint64(h * 5)}})
			}
			add(c, ps...)
			for _, l := range []int{40, 48, 52, 55, 60, 64, 70, 80} {
				add(c, Proc{Opts: []string{"--max-path-length", fmt.Sprint(l)}}, Proc{Plan: memfs.Plan{Hash: uint64(l)}, Opts: []string{"--max-path-length", fmt.Sprint(l)}})
			}
		}
	case "G08":
		lo, hi := 8, 110
		for _, c := range s.byName("longn", "names", "tiny") {
			for l := lo; l <= hi; l++ {
				if !thorough && l%3 != 0 && c.Name != "longn" {
					continue
				}
				add(c, Proc{MaxPath: l, Plan: memfs.Plan{Hash: uint64(l)}})
			}
			add(c, Proc{MaxPath: 0})
		}
		for _, c := range s.cases {
			add(c, Proc{MaxPath: 0})
		}
	case "G09":
		return s.systematicPeers(thorough)
	}
	return nil
}

// random makes the i-th random scenario.
func (s *source) random(i int) (*Scenario, error) {
	var pn uint64
	for _, c := range s.prop {
		pn = pn*131 + uint64(c)
	}
	r := rng.New(s.seed, pn, uint64(i))
	var c Case
	if r.P(25) && s.prop != "G07" || r.P(8) {
		c = s.cases[r.N(len(s.cases))]
	} else {
		c = randomCase(r, zsOpts(r))
	}
	sc := &Scenario{Property: s.prop, Seed: s.seed, Index: len(s.fixed) + i, Case: c}
	hash := func() uint64 { return 1 + r.U64()%1000 }
	ref, err := s.r.Ref(&sc.Case)
	if err != nil {
		return nil, err
	}
	needOK := s.prop != "G01" && s.prop != "G03"
	if needOK && ref.Exit != 0 {
		return nil, nil
	}
	if ref.Exit == 0 && r.P(15) && (s.prop == "G02" || s.prop == "G01") {
		sc.Case.Only = inspect(c.Files[r.N(len(c.Files))].Text()).pkg
		if ref, err = s.r.Ref(&sc.Case); err != nil {
			return nil, err
		}
	}
	add := func(p Proc) {
		if s.prop != "G01" {
			if r.P(30) {
				p.Plan.Sched = 1 + r.U64()%1000
			}
			if r.P(20) {
				p.Plan.Env = 1 + r.U64()%50
			}
		}
		sc.Procs = append(sc.Procs, p)
	}
	switch s.prop {
	case "G01":
		for k := 0; k < 4; k++ {
			p := Proc{Plan: memfs.Plan{Hash: hash(), Dents: r.U64() % 100, Clock: int64(r.N(2e9)), Sched: r.U64() % 1000, Env: r.U64() % 50}}
			if len(sc.Case.Inputs) > 1 && r.P(70) {
				p.Inputs = permuted(r, sc.Case.Inputs)
				if r.P(20) {
					p.Inputs = append(p.Inputs, p.Inputs[0]) // the same file named twice
				}
			}
			if sc.Case.Only == "" && r.P(60) {
				switch r.N(5) {
				case 0:
					p.Out = "/other/place/gen"
				case 1:
					p.Out, p.Cwd = "gen/out", "/work"
				case 2:
					p.Out = "/out/"
				case 3:
					p.Out, p.Cwd = ".", "/work/here"
				case 4:
					p.Out, p.Cwd = "../x", "/work/here"
				}
			}
			if p.Cwd == "" && r.P(15) {
				p.Cwd = rng.Pick(r, "/s", "/s", "/work", "/s/sub")
			}
			if r.P(35) {
				in := p.Inputs
				if in == nil {
					in = sc.Case.Inputs
				}
				p.Inputs = nil
				for _, x := range in {
					p.Inputs = append(p.Inputs, respell(r, x, p.Cwd))
				}
			}
			if ref.Exit == 0 && r.P(40) && p.Out == "" {
				p.Prior = append(p.Prior, priorOutputs(r, &sc.Case, ref, 50)...)
			}
			if ref.Exit == 0 && r.P(40) {
				p.Prior = append(foreignFiles(r, &sc.Case, ref, sc.outDir(&p)), p.Prior...)
				p.Prior = notOwn(p.Prior, sc, &p, ref)
			}
			add(p)
		}
	case "G02", "G03":
		for k := 0; k < 4; k++ {
			p := Proc{Plan: memfs.Plan{Hash: hash(), Dents: r.U64() % 4}}
			o := ref
			for n := 1 + r.N(3); n > 0; n-- {
				p.Plan.Faults = append(p.Plan.Faults, randomFault(r, o))
			}
			if fs := shortReads(&sc.Case, o); len(fs) > 0 && r.P(15) {
				p.Plan.Faults = []memfs.Fault{fs[r.N(len(fs))]}
			}
			if r.P(20) && sc.Case.Only == "" {
				cp := r.N(totalSize(ref) + 10)
				p.Cap = &cp
				if r.P(60) {
					p.Plan.Faults = nil
				}
			}
			if ref.Exit == 0 && r.P(40) {
				p.Prior = priorOutputs(r, &sc.Case, ref, 60)
			}
			if ref.Exit == 0 && r.P(20) {
				p.Prior = append(p.Prior, foreignFiles(r, &sc.Case, ref, sc.Case.Out)...)
				p.Prior = notOwn(p.Prior, sc, &p, ref)
			}
			if ref.Exit != 0 && r.P(30) {
				p.Plan.Faults = nil
			}
			add(p)
		}
	case "G04":
		if r.P(50) {
			sc.Case.Prior = append(sc.Case.Prior, priorOutputs(r, &sc.Case, ref, 50)...)
		}
		if r.P(30) {
			sc.Case.Prior = append(sc.Case.Prior, foreignFiles(r, &sc.Case, ref, sc.Case.Out)...)
			sc.Case.Prior = notOwn(sc.Case.Prior, sc, &Proc{}, ref)
		}
		for k := r.N(3); k >= 0; k-- {
			p := Proc{Keep: len(sc.Procs) > 0, Plan: memfs.Plan{Hash: hash()}}
			at := r.N(len(ref.Events))
			if r.P(70) { // in the writing part of the run
				at = writeStart(ref) + r.N(len(ref.Events)-writeStart(ref)+1)
			}
			if r.P(85) {
				p.Plan.Faults = []memfs.Fault{{At: at, Crash: true}}
				if r.P(25) && at > 0 {
					p.Plan.Faults = append(p.Plan.Faults, memfs.Fault{At: at - 1, Short: 1 + r.N(200)})
				}
			} else if r.P(50) {
				p.Plan.Faults = []memfs.Fault{randomFault(r, ref)}
			}
			if r.P(60) {
				p.Lose = &Lose{Mode: rng.Pick(r, "empty", "torn", "zero", "garbage", "mixed", "mixed"), Ops: r.N(4) * r.N(4), Seed: r.U64()}
			}
			add(p)
		}
		add(Proc{Keep: true, Plan: memfs.Plan{Hash: hash(), Dents: r.U64() % 5}})
	case "G05":
		for k := 0; k < 3; k++ {
			p := Proc{Plan: memfs.Plan{Hash: hash()}}
			p.Prior = foreignFiles(r, &sc.Case, ref, sc.Case.Out)
			names := refNames(&sc.Case, ref)
			p.Prior = append(p.Prior, memfs.Entry{Path: "/elsewhere/precious", Kind: memfs.KFile, Data: []byte("precious\n")})
			if r.P(50) {
				p.Prior = append(p.Prior, priorOutputs(r, &sc.Case, ref, 30)...)
			}
			p.Prior = notOwn(p.Prior, sc, &p, ref)
			for n := r.N(3); n > 0 && len(names) > 0; n-- {
				nm := path.Join(sc.Case.Out, rng.Pick(r, names...))
				tgt := rng.Pick(r, "/elsewhere/precious", "/elsewhere/missing", sc.Case.Files[0].Path)
				if len(p.Prior) > 0 && r.P(40) {
					if e := p.Prior[r.N(len(p.Prior))]; e.Kind == memfs.KFile && e.Path != nm {
						tgt = e.Path
					}
				}
				p.Prior = append(p.Prior, memfs.Entry{Path: nm, Kind: memfs.KLink, Link: tgt})
			}
			for n := r.N(3); n > 0; n-- {
				p.Plan.Faults = append(p.Plan.Faults, randomFault(r, ref))
			}
			if r.P(20) {
				p.Plan.Faults = append(p.Plan.Faults, memfs.Fault{At: r.N(len(ref.Events)), Crash: true})
			}
			if r.P(15) {
				cp := r.N(totalSize(ref) + 10)
				p.Cap = &cp
			}
			add(p)
		}
	case "G06":
		for k := 0; k < 4; k++ {
			p := Proc{Plan: memfs.Plan{Hash: hash(), Dents: r.U64() % 5}}
			switch r.N(4) {
			case 0, 1:
				fi := r.N(len(sc.Case.Files))
				t := sc.Case.Files[fi].Text()
				at := r.N(len(t) + 1)
				for n := 0; n < 20 && !cutInside(t, at); n++ {
					at = r.N(len(t) + 1)
				}
				p.Torn = &Torn{File: fi, At: at}
				if r.P(25) {
					p.Torn.Mode = "zero"
				}
			case 2:
				p.Remove = []string{sc.Case.Files[r.N(len(sc.Case.Files))].Path}
				if len(sc.Case.Inputs) > 1 {
					for _, in := range sc.Case.Inputs {
						if in != p.Remove[0] {
							p.Inputs = append(p.Inputs, in)
						}
					}
				}
			case 3:
				for n := 0; n < 30; n++ {
					e := &ref.Events[r.N(len(ref.Events))]
					q := e.Real
					if q == "" {
						q = e.Path
					}
					if !under(q, "/s") || e.Op == "close" || e.Op == "fstat" || len(plausible[e.Op]) == 0 {
						continue
					}
					f := rng.Pick(r, plausible[e.Op]...)
					f.At = e.N
					p.Plan.Faults = []memfs.Fault{f}
					p.Plan.Dents = 0
					break
				}
			}
			if r.P(30) {
				p.Prior = priorOutputs(r, &sc.Case, ref, 60)
			}
			add(p)
		}
	case "G07":
		for k := 0; k < 2; k++ {
			p := Proc{Plan: memfs.Plan{Hash: hash(), Dents: r.U64() % 5}}
			if r.P(50) {
				p.Opts = []string{"--max-path-length", fmt.Sprint(20 + r.N(50))}
			}
			add(p)
		}
	case "G09":
		if err := s.randomPeers(r, sc, ref); err != nil {
			return nil, err
		}
	case "G08":
		for k := 0; k < 3; k++ {
			p := Proc{Plan: memfs.Plan{Hash: hash()}, MaxPath: 12 + r.N(60)}
			switch r.N(6) {
			case 0:
				p.Out, p.Cwd = "g", "/work"
			case 1:
				p.Out = rng.Pick(r, "/a/longer/output/directory", "/out//", "/./out/", "/out/../out2")
				p.MaxPath += r.N(len(p.Out))
			case 2:
				p.Out = rng.Pick(r, "/ausgänge/größe", "/出力/ディレクトリ", "/é", "größe/ü")
				p.MaxPath += r.N(len(p.Out))
			case 3:
				if r.P(40) { // the limit that applies if none is named
					p.Out = "/" + strings.Repeat(rng.Pick(r, "long/", "directory_name/", "d/"), 200)[:150+r.N(100)] + "x"
					p.MaxPath = -1
				}
			}
			if r.P(10) {
				p.MaxPath = 0
			}
			add(p)
		}
	}
	return sc, nil
}

func writeStart(o *Out) int {
	for i := range o.Events {
		if o.Events[i].Mut {
			return i
		}
	}
	return 0
}

// notOwn removes prior entries that a later entry or an output file replaces
// in a way that makes the disk contradictory.
func notOwn(es []memfs.Entry, sc *Scenario, p *Proc, ref *Out) []memfs.Entry {
	own := outFiles(ref.FS, sc.Case.Cwd, sc.Case.Out)
	dir := sc.outDir(p)
	isPrior := map[string]bool{}
	var out []memfs.Entry
	for _, e := range es {
		rel := strings.TrimPrefix(e.Path, dir+"/")
		if _, ok := own[rel]; ok && (strings.HasPrefix(string(e.Data), "package keep //") || strings.Contains(string(e.Data), keepMark)) {
			continue
		}
		if isPrior[e.Path] {
			continue
		}
		isPrior[e.Path] = true
		// a foreign file named like an output directory
		clash := false
		for n := range own {
			if strings.HasPrefix(n, rel+"/") {
				clash = true
			}
		}
		if !clash {
			out = append(out, e)
		}
	}
	return out
}
