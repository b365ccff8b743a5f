// Package build makes the simulated binaries from the current tree of the
// repository: it writes overlays for the Go tool (nothing in the repository or
// the tool chain is changed) and runs the Go tool.
package build

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

// Goroot is the tool chain the repository's own build uses.
const Goroot = "/opt/veriftools/go1.24.13"

// Repo is the tree under test.
var Repo = envOr("VSIM_REPO", "/repo")

// Home is the directory of the simulator's sources.
var Home = envOr("VSIM_HOME", "/verif/sim")

// Module is the module path of the repository.
const Module = "github.com/woven-planet/go-zserio"

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Env is the environment of every Go tool invocation.
func Env(extra ...string) []string {
	keep := []string{"HOME", "TMPDIR", "GOCACHE"}
	var e []string
	for _, k := range keep {
		if v := os.Getenv(k); v != "" {
			e = append(e, k+"="+v)
		}
	}
	if os.Getenv("HOME") == "" {
		e = append(e, "HOME=/root")
	}
	e = append(e,
		"PATH="+Goroot+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOROOT="+Goroot, "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOTOOLCHAIN=local",
		"GOPROXY=off", "GOFLAGS=", "GOENV=off", "GOWORK=off", "CGO_ENABLED=0", "LANG=C.UTF-8")
	return append(e, extra...)
}

// Run runs a command and returns its combined output in the error.
func Run(dir string, env []string, name string, args ...string) error {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%s %s: %w\n%s", name, strings.Join(args, " "), err, out)
	}
	return nil
}

// Overlay collects replaced and added files.
type Overlay struct {
	Dir     string // where generated files go
	Replace map[string]string
	n       int
}

// NewOverlay makes an overlay that keeps its files in dir.
func NewOverlay(dir string) (*Overlay, error) {
	return &Overlay{Dir: dir, Replace: map[string]string{}}, os.MkdirAll(dir, 0o755)
}

// Add maps a path to generated content.
func (o *Overlay) Add(path string, content []byte) error {
	o.n++
	f := filepath.Join(o.Dir, fmt.Sprintf("%03d_%s", o.n, filepath.Base(path)))
	o.Replace[path] = f
	return os.WriteFile(f, content, 0o644)
}

// Write stores the overlay description and returns its path.
func (o *Overlay) Write() (string, error) {
	b, _ := json.MarshalIndent(map[string]any{"Replace": o.Replace}, "", " ")
	f := filepath.Join(o.Dir, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}

type hook struct{ fn, method string }

var syscallHooks = []hook{
	{"faccessat", "Faccessat"}, {"fchmodat", "Fchmodat"}, {"linkat", "Linkat"}, {"openat", "Openat"},
	{"readlinkat", "Readlinkat"}, {"symlinkat", "Symlinkat"}, {"unlinkat", "Unlinkat"}, {"utimensat", "Utimensat"},
	{"Getcwd", "Getcwd"}, {"Chdir", "Chdir"}, {"Close", "Close"}, {"Dup", "Dup"}, {"Fchdir", "Fchdir"},
	{"Fchmod", "Fchmod"}, {"Fchownat", "Fchownat"}, {"fcntl", "Fcntl"}, {"Fdatasync", "Fdatasync"}, {"Fsync", "Fsync"},
	{"Getdents", "Getdents"}, {"Mkdirat", "Mkdirat"}, {"read", "Read"}, {"write", "Write"}, {"Fchown", "Fchown"},
	{"Ftruncate", "Ftruncate"}, {"pread", "Pread"}, {"pwrite", "Pwrite"}, {"Renameat", "Renameat"}, {"Seek", "Seek"},
	{"Truncate", "Truncate"}, {"fstatat", "Fstatat"}, {"Fstat", "Fstat"},
}

var unixHooks = []hook{{"Unlinkat", "Unlinkat"}, {"Openat", "Openat"}, {"Readlinkat", "Readlinkat"}, {"Mkdirat", "Mkdirat"}, {"Fstatat", "Fstatat"}}

const simIface = `package syscall

// SimFSI is implemented by the simulated operating system.
type SimFSI interface {
	Openat(dirfd int, path string, flags int, mode uint32) (int, error, bool)
	Read(fd int, p []byte) (int, error, bool)
	Write(fd int, p []byte) (int, error, bool)
	Pread(fd int, p []byte, off int64) (int, error, bool)
	Pwrite(fd int, p []byte, off int64) (int, error, bool)
	Close(fd int) (error, bool)
	Fstat(fd int, st *Stat_t) (error, bool)
	Fstatat(dirfd int, path string, st *Stat_t, flags int) (error, bool)
	Mkdirat(dirfd int, path string, mode uint32) (error, bool)
	Unlinkat(dirfd int, path string, flags int) (error, bool)
	Renameat(od int, op string, nd int, np string) (error, bool)
	Symlinkat(target string, nd int, np string) (error, bool)
	Linkat(od int, op string, nd int, np string, flags int) (error, bool)
	Readlinkat(dirfd int, path string, buf []byte) (int, error, bool)
	Ftruncate(fd int, l int64) (error, bool)
	Truncate(path string, l int64) (error, bool)
	Fsync(fd int) (error, bool)
	Fdatasync(fd int) (error, bool)
	Fchmod(fd int, mode uint32) (error, bool)
	Fchown(fd int, uid, gid int) (error, bool)
	Fchmodat(dirfd int, path string, mode uint32) (error, bool)
	Fchownat(dirfd int, path string, uid, gid, flags int) (error, bool)
	Utimensat(dirfd int, path string, ts *[2]Timespec, flags int) (error, bool)
	Faccessat(dirfd int, path string, mode uint32) (error, bool)
	Chdir(path string) (error, bool)
	Fchdir(fd int) (error, bool)
	Getcwd(buf []byte) (int, error, bool)
	Fcntl(fd, cmd, arg int) (int, error, bool)
	Dup(fd int) (int, error, bool)
	Seek(fd int, off int64, whence int) (int64, error, bool)
	Getdents(fd int, buf []byte) (int, error, bool)
	Getpid() int
}

// SimFS answers file system calls if it is set.
var SimFS SimFSI
`

// addHooks inserts a hook at the start of every listed function.
func addHooks(src string, hooks []hook, prefix string, found map[string]bool) string {
	for _, h := range hooks {
		re := regexp.MustCompile(`(?m)^func ` + h.fn + `\(([^)]*)\) (\([^)]*\)|error) \{\n`)
		m := re.FindStringSubmatchIndex(src)
		if m == nil {
			continue
		}
		found[h.fn] = true
		params := src[m[2]:m[3]]
		results := src[m[4]:m[5]]
		var args []string
		for _, p := range strings.Split(params, ",") {
			p = strings.TrimSpace(p)
			if p != "" {
				args = append(args, strings.Fields(p)[0])
			}
		}
		call := prefix + "SimFS." + h.method + "(" + strings.Join(args, ", ") + ")"
		var ins string
		if strings.Contains(results, ",") {
			ins = "\tif " + prefix + "SimFS != nil {\n\t\tif r, e, ok := " + call + "; ok {\n\t\t\treturn r, e\n\t\t}\n\t}\n"
		} else {
			ins = "\tif " + prefix + "SimFS != nil {\n\t\tif e, ok := " + call + "; ok {\n\t\t\treturn e\n\t\t}\n\t}\n"
		}
		src = src[:m[1]] + ins + src[m[1]:]
	}
	return src
}

// StdOverlay adds the seams in the standard library: the source of the
// run-time's hash and map randomness and the file system calls.
func StdOverlay(o *Overlay) error {
	found := map[string]bool{}
	zs := Goroot + "/src/syscall/zsyscall_linux_amd64.go"
	b, err := os.ReadFile(zs)
	if err != nil {
		return err
	}
	const getpid = "func Getpid() (pid int) {\n"
	if strings.Count(string(b), getpid) != 1 {
		return fmt.Errorf("no Getpid in syscall")
	}
	src := strings.Replace(string(b), getpid, getpid+"\tif SimFS != nil {\n\t\treturn SimFS.Getpid()\n\t}\n", 1)
	if err := o.Add(zs, []byte(addHooks(src, syscallHooks, "", found))); err != nil {
		return err
	}
	for _, h := range syscallHooks {
		if !found[h.fn] {
			return fmt.Errorf("no %s in syscall", h.fn)
		}
	}
	if err := o.Add(Goroot+"/src/syscall/zz_simfs.go", []byte(simIface)); err != nil {
		return err
	}
	found = map[string]bool{}
	for _, f := range []string{"at.go", "at_fstatat.go"} {
		p := Goroot + "/src/internal/syscall/unix/" + f
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if err := o.Add(p, []byte(addHooks(string(b), unixHooks, "syscall.", found))); err != nil {
			return err
		}
	}
	for _, h := range unixHooks {
		if !found[h.fn] {
			return fmt.Errorf("no %s in internal/syscall/unix", h.fn)
		}
	}
	if err := ClockOverlay(o); err != nil {
		return err
	}
	return HashOverlay(o)
}

// HashOverlay adds the seam for the run-time's hash and map randomness.
func HashOverlay(o *Overlay) error {
	p := Goroot + "/src/runtime/rand.go"
	b, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	s := string(b)
	rep := func(old, new string) {
		if strings.Count(s, old) != 1 {
			err = fmt.Errorf("runtime/rand.go: %q occurs %d times", old, strings.Count(s, old))
		}
		s = strings.Replace(s, old, new, 1)
	}
	rep("	globalRand.state.Init(*seed)\n", "	for i := range seed {\n		seed[i] = byte(i*7 + 1)\n	}\n	globalRand.state.Init(*seed)\n")
	rep("func maps_rand() uint64 {\n	return rand()\n}\n", `func maps_rand() uint64 {
	if !simHashInit && envs != nil {
		simHashInit = true
		v := uint64(0)
		for _, c := range []byte(gogetenv("VSIM_HASH")) {
			v = v*10 + uint64(c-'0')
		}
		simHash += v * 0x9e3779b97f4a7c15
	}
	simHash += 0x9e3779b97f4a7c15
	z := simHash
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

var simHashInit bool
var simHash uint64

//go:linkname simrand
func simrand() uint64 { return maps_rand() }
`)
	if err != nil {
		return err
	}
	if err := o.Add(p, []byte(s)); err != nil {
		return err
	}
	for _, f := range []string{"math/rand/rand.go", "math/rand/v2/rand.go", "hash/maphash/maphash_runtime.go", "os/tempfile.go"} {
		if err := o.Patch(Goroot+"/src/"+f, "//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simrand\n"); err != nil {
			return err
		}
	}
	// No time-based preemption: goroutines switch only where the simulated
	// system makes them.
	return o.Patch(Goroot+"/src/runtime/proc.go", "const forcePreemptNS = 10 * 1000 * 1000 // 10ms", "const forcePreemptNS = 1 << 61")
}

// Patch adds a copy of a file in which old, which must occur once, is replaced.
func (o *Overlay) Patch(file, old, new string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	if strings.Count(string(b), old) != 1 {
		return fmt.Errorf("%s: %q occurs %d times", file, old, strings.Count(string(b), old))
	}
	return o.Add(file, []byte(strings.Replace(string(b), old, new, 1)))
}

// ClockOverlay adds the seam for the wall clock.
func ClockOverlay(o *Overlay) error {
	return o.Patch(Goroot+"/src/time/time.go", "func Now() Time {\n", `// SimNow replaces the clock if it is set.
var SimNow func() (sec int64, nsec int64)

func Now() Time {
	if SimNow != nil {
		return Unix(SimNow())
	}
`)
}

const genMain = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"

	"` + Module + `/internal/zzvsim/memfs"
)

func init() {
	imgFile := os.Getenv("VSIM_IMG")
	if imgFile == "" {
		return
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	die := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "vsim:", err)
			os.Exit(97)
		}
	}
	b, err := os.ReadFile(imgFile)
	die(err)
	img, err := memfs.LoadImage(b)
	die(err)
	var plan memfs.Plan
	pb := []byte(os.Getenv("VSIM_PLAN"))
	if len(pb) > 0 && pb[0] == '@' {
		pb, err = os.ReadFile(string(pb[1:]))
		die(err)
	}
	die(json.Unmarshal(pb, &plan))
	sim := memfs.NewSim(img, plan, 3)
	sim.Yield = runtime.Gosched
	time.SimNow = sim.Now
	syscall.SimFS = sim
}
`

// GenSim builds the generator command of the repository as a simulated process.
func GenSim(work string) (string, error) {
	o, err := NewOverlay(filepath.Join(work, "overlay-gen"))
	if err != nil {
		return "", err
	}
	if err := StdOverlay(o); err != nil {
		return "", err
	}
	for _, f := range []string{"memfs.go", "sim.go"} {
		b, err := os.ReadFile(filepath.Join(Home, "memfs", f))
		if err != nil {
			return "", err
		}
		if err := o.Add(Repo+"/internal/zzvsim/memfs/"+f, b); err != nil {
			return "", err
		}
	}
	if err := o.Add(Repo+"/cmd/go-zserio/zz_vsim_main.go", []byte(genMain)); err != nil {
		return "", err
	}
	oj, err := o.Write()
	if err != nil {
		return "", err
	}
	bin := filepath.Join(work, "gensim")
	return bin, Run(Repo, Env(), "go", "build", "-overlay", oj, "-o", bin, "./cmd/go-zserio")
}

// PlainGen builds the generator command as shipped.
func PlainGen(work string) (string, error) {
	bin := filepath.Join(work, "go-zserio")
	return bin, Run(Repo, Env(), "go", "build", "-o", bin, "./cmd/go-zserio")
}
