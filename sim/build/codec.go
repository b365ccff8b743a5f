package build

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"vsim/zmodel"
)

// Codec is the built codec world.
type Codec struct {
	Bin     string
	Random  int // random schemas asked for
	Seed    uint64
	Used    []int // random schemas that made it
	Dropped []string
	Files   int // instrumented files
	Types   int
}

// Options of the codec world.
type Options struct {
	Race  bool // with the race detector
	Enums bool // with all that there is for enums
}

// BuildCodec generates code from the fixed schema and some random ones with the
// current generator, instruments it and the run-time packages, and links them
// with the simulator.
func BuildCodec(work string, random int, seed uint64, o Options) (*Codec, error) {
	c := &Codec{Random: random, Seed: seed}
	gen, err := PlainGen(work)
	if err != nil {
		return nil, err
	}
	run := filepath.Join(work, "run")
	if err := os.MkdirAll(run, 0o755); err != nil {
		return nil, err
	}
	render := func(dir string, s *zmodel.Schema) error {
		for _, p := range s.Packages {
			f := filepath.Join(dir, strings.ReplaceAll(p.Name, ".", "/")+".zs")
			if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
				return err
			}
			if err := os.WriteFile(f, []byte(p.Render()), 0o644); err != nil {
				return err
			}
		}
		return nil
	}
	out := filepath.Join(work, "gen")
	generate := func(dir string) error {
		args := []string{"generate", "--rootpackage", "vrun/vgen", "--out", out, dir}
		if o.Enums {
			args = append(args, "--sql")
		}
		return Run(work, Env(), gen, args...)
	}
	fixed := zmodel.Fixed()
	dir := filepath.Join(work, "schema")
	if err := render(dir, fixed); err != nil {
		return nil, err
	}
	if err := generate(dir); err != nil {
		return nil, err
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < random; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d := filepath.Join(work, fmt.Sprintf("schema%d", i))
			err := render(d, zmodel.Random(seed, i))
			if err == nil {
				err = generate(d)
			}
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				c.Dropped = append(c.Dropped, fmt.Sprintf("%d: generation: %v", i, err))
			} else {
				c.Used = append(c.Used, i)
			}
		}()
	}
	wg.Wait()
	sort.Ints(c.Used)
	// The run-time packages, with everything of the module they import.
	cmd := exec.Command("go", "list", "-deps", "-f", "{{if .Module}}{{if eq .Module.Path \""+Module+"\"}}{{.ImportPath}}\t{{.Dir}}{{end}}{{end}}", ".", "./zstream", "./ztype")
	cmd.Dir, cmd.Env = Repo, Env()
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %w", err)
	}
	zs := filepath.Join(work, "zs")
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		ip, src, ok := strings.Cut(l, "\t")
		if !ok {
			continue
		}
		n, err := InstrumentDir(src, filepath.Join(zs, strings.TrimPrefix(ip, Module)))
		if err != nil {
			return nil, err
		}
		c.Files += n
	}
	mod, err := os.ReadFile(filepath.Join(Repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(Repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	own := strings.Replace(string(mod), "module "+Module, "module vrun", 1) + fmt.Sprintf(`
require (
	%s v0.0.0
	vsim v0.0.0
)

replace %s => %s

replace vsim => %s
`, Module, Module, zs, Home)
	for f, s := range map[string]string{zs + "/go.mod": string(mod) + "\nrequire vsim v0.0.0\n", run + "/go.mod": own, run + "/go.sum": string(sum), zs + "/go.sum": string(sum)} {
		if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
			return nil, err
		}
	}
	src := filepath.Join(Home, "codecrun")
	ents, err := os.ReadDir(src)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			b, err := os.ReadFile(filepath.Join(src, e.Name()))
			if err != nil {
				return nil, err
			}
			if err := os.WriteFile(filepath.Join(run, e.Name()), b, 0o644); err != nil {
				return nil, err
			}
		}
	}
	err = filepath.WalkDir(out, func(p string, d os.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(out, p)
		n, err := InstrumentDir(p, filepath.Join(run, "vgen", rel))
		c.Files += n
		return err
	})
	if err != nil {
		return nil, err
	}
	env := Env("GOFLAGS=-mod=mod")
	args := []string{"build"}
	if o.Race {
		env = Env("GOFLAGS=-mod=mod", "CGO_ENABLED=1")
		args = append(args, "-race")
	}
	// Random schemas whose code does not compile are left out.
	if len(c.Used) > 0 {
		var all []string
		for _, i := range c.Used {
			all = append(all, fmt.Sprintf("./vgen/zr/s%d", i))
		}
		if err := Run(run, env, "go", append(append([]string{}, args...), all...)...); err != nil {
			var ok []int
			for k, i := range c.Used {
				if err := Run(run, env, "go", append(append([]string{}, args...), all[k])...); err != nil {
					c.Dropped = append(c.Dropped, fmt.Sprintf("%d: compilation: %v", i, err))
				} else {
					ok = append(ok, i)
				}
			}
			c.Used = ok
		}
	}
	var glue strings.Builder
	glue.WriteString("package main\n\nimport (\n")
	pkgs := map[string]string{}
	schemas := []*zmodel.Schema{fixed}
	for _, i := range c.Used {
		schemas = append(schemas, zmodel.Random(seed, i))
	}
	var reg strings.Builder
	alias := func(d *zmodel.Decl) string {
		a, ok := pkgs[d.Pkg]
		if !ok {
			a = fmt.Sprintf("g%d", len(pkgs))
			pkgs[d.Pkg] = a
			fmt.Fprintf(&glue, "\t%s %q\n", a, "vrun/vgen/"+strings.ReplaceAll(d.Pkg, ".", "/"))
		}
		return a
	}
	for _, s := range schemas {
		for _, d := range s.Roots {
			fmt.Fprintf(&reg, "\t%q: func() Codec { return new(%s.%s) },\n", d.FullName(), alias(d), d.Name)
			c.Types++
		}
	}
	var enums strings.Builder
	for _, s := range schemas {
		for _, p := range s.Packages {
			for _, d := range p.Decls {
				if d.Kind != zmodel.DEnum || !o.Enums {
					continue
				}
				n := alias(d) + "." + d.Name
				fmt.Fprintf(&enums, "\t%q: {New: func() Codec { return new(%s) }, Values: func() any { return %sValues() }, Strings: %sStrings, Parse: func(s string) (any, error) { return %sString(s) }},\n", d.FullName(), n, n, n, n)
			}
		}
	}
	fmt.Fprintf(&glue, ")\n\nvar schemaSeed = uint64(%d)\n\nvar randomSchemas = %#v\n\nvar registry = map[string]func() Codec{\n%s}\n\nvar enumTable = map[string]*EnumAPI{\n%s}\n", seed, append([]int{}, c.Used...), reg.String(), enums.String())
	if err := os.WriteFile(filepath.Join(run, "glue.go"), []byte(glue.String()), 0o644); err != nil {
		return nil, err
	}
	c.Bin = filepath.Join(work, "vrun")
	return c, Run(run, env, "go", append(args, "-o", c.Bin, ".")...)
}
