package memfs

import (
	"encoding/json"
	"strings"
	"sync"
	"syscall"
	"unsafe"
)

const (
	atFDCWD   = -0x64
	atNoFol   = 0x100
	atRemove  = 0x200
	atEmpty   = 0x1000
	firstFd   = 1000
	maxOpenFd = 4096
)

// Sim is the simulated operating system of one generator process: it answers
// every file-related system call of the process from the in-memory file
// system, injects the planned faults and writes the journal.
type Sim struct {
	mu      sync.Mutex
	fs      *FS
	plan    Plan
	files   map[int]*File
	peers   map[int]*File // opened by other processes
	next    int
	n       int
	sticky  map[string]string
	pending map[int]string
	journal int
	rnd     uint64
	sched   uint64
	Yield   func()
}

// MaxCalls bounds a process: one that makes more system calls is stopped with
// exit status 96 (it does not terminate).
const MaxCalls = 200000

// Now is the simulated clock: it advances by a millisecond per system call.
func (s *Sim) Now() (int64, int64) {
	ms := s.plan.Clock*1000 + int64(s.n)
	return ms / 1000, ms % 1000 * 1000000
}

// enter is called before every system call: other goroutines may run first.
func (s *Sim) enter() {
	if s.sched != 0 && s.Yield != nil {
		s.sched ^= s.sched << 13
		s.sched ^= s.sched >> 7
		s.sched ^= s.sched << 17
		for k := s.sched % 4; k > 0; k-- {
			s.Yield()
		}
	}
	s.mu.Lock()
	s.fs.Tick(s.n)
	for len(s.plan.Peer) > 0 && s.plan.Peer[0].At <= s.n {
		in := &s.plan.Peer[0]
		s.plan.Peer = s.plan.Peer[1:]
		for i := range in.Ops {
			s.intrude(in.Who, &in.Ops[i])
		}
	}
}

// intrude lets a call that another process made take effect on the disk.
func (s *Sim) intrude(who int, o *Event) {
	if o.Op == "stdout" {
		return
	}
	key := who<<32 | o.Fd
	fl := s.peers[key]
	e := *o
	e.Peer, e.Mut, e.Fault = true, false, ""
	if o.Err != "" && o.Op != "close" || o.Fault == "crash" {
		return
	}
	var err error
	switch o.Op {
	case "open":
		if !o.Mut && o.Flags&oAccmode == syscall.O_RDONLY {
			return
		}
		n := s.fs.LLookup(o.Real)
		if n != nil && n.Kind == KLink {
			n = s.fs.Lookup(o.Real)
		}
		fl, err = s.fs.Open(o.Real, o.Flags&^syscall.O_EXCL)
		if err != nil {
			break
		}
		s.peers[key] = fl
		e.Mut = n == nil || o.Flags&syscall.O_TRUNC != 0 && o.Flags&oAccmode != 0
		e.Ctx = ""
		if n == nil {
			e.Ctx = "new"
		} else if e.Mut {
			e.Ctx = "trunc"
		}
	case "write", "pwrite":
		if fl == nil {
			err = syscall.EBADF
			break
		}
		_, _, err = s.fs.Write(fl, o.Data, o.Off)
		e.Real = fl.Real
		e.Mut = err == nil && s.fs.LLookup(fl.Real) == fl.n
	case "close":
		delete(s.peers, key)
	case "truncate", "lost":
		var n *Node
		if n = s.fs.LLookup(o.Real); n == nil || !o.Mut {
			return
		}
		err = s.fs.Truncate(n, o.Len)
		e.Mut = err == nil
	case "mkdir":
		_, err = s.fs.Mkdir(o.Real)
		e.Mut = err == nil
	case "unlink", "rmdir":
		_, err = s.fs.Unlink(o.Real, o.Op == "rmdir")
		e.Mut = err == nil
	case "rename":
		_, _, err = s.fs.Rename(o.Real, o.Real2)
		e.Mut = err == nil
		for _, t := range []map[int]*File{s.files, s.peers} {
			for _, f := range t {
				if err == nil && f.Real == o.Real {
					f.Real = o.Real2
				}
			}
		}
	case "symlink":
		_, err = s.fs.Symlink(o.Path, o.Real)
		e.Mut = err == nil
	case "link":
		_, err = s.fs.LinkNode(o.Real2, o.Real)
		e.Mut = err == nil
	}
	if err != nil {
		// It succeeded for the other process on the same disk.
		rawExit(97)
	}
	if e.Mut {
		e.N = s.n
		s.emit(&e)
	}
}

// Getpid is the process id.
func (s *Sim) Getpid() int {
	if s.plan.Pid != 0 {
		return s.plan.Pid
	}
	return 2 + int(s.plan.Hash*2654435761%32000)
}

// NewSim makes a simulated system that writes its journal to a real descriptor.
func NewSim(img *Image, plan Plan, journalFd int) *Sim {
	fs := New(img)
	fs.Start = plan.Clock
	return &Sim{fs: fs, plan: plan, files: map[int]*File{}, peers: map[int]*File{}, next: firstFd, sticky: map[string]string{}, pending: map[int]string{}, journal: journalFd, rnd: plan.Dents, sched: plan.Sched}
}

func rawWrite(fd int, p []byte) {
	for len(p) > 0 {
		n, _, e := syscall.Syscall(syscall.SYS_WRITE, uintptr(fd), uintptr(unsafe.Pointer(&p[0])), uintptr(len(p)))
		if e == syscall.EINTR || e == syscall.EAGAIN {
			continue
		}
		if e != 0 {
			rawExit(99)
		}
		p = p[n:]
	}
}

func rawExit(code int) {
	for {
		syscall.Syscall(syscall.SYS_EXIT_GROUP, uintptr(code), 0, 0)
	}
}

func (s *Sim) emit(e *Event) {
	b, err := json.Marshal(e)
	if err != nil {
		rawExit(98)
	}
	rawWrite(s.journal, append(b, '\n'))
}

// begin numbers the call and looks up the planned fault.
func (s *Sim) begin(e *Event) (f *Fault) {
	e.N = s.n
	if s.plan.Pause > 0 && e.N >= s.plan.Pause {
		rawExit(138)
	}
	s.n++
	if s.n > MaxCalls {
		rawExit(96)
	}
	if st, ok := s.sticky[e.Op]; ok {
		return &Fault{At: e.N, Err: st}
	}
	for i := range s.plan.Faults {
		p := &s.plan.Faults[i]
		if p.At == e.N {
			if p.Crash {
				e.Fault = "crash"
				s.emit(e)
				rawExit(137)
			}
			if p.Err == "ENOENT" && e.Op != "open" {
				// Go takes it for a file that was removed meanwhile, and
				// then it rightly is no part of the input.
				return nil
			}
			if p.Stick && p.Err != "" {
				s.sticky[e.Op] = p.Err
			}
			return p
		}
	}
	return nil
}

// fail applies a plain error fault; it reports whether the call failed.
func (s *Sim) fail(e *Event, f *Fault) error {
	if f == nil || f.Err == "" {
		return nil
	}
	e.Fault = f.Err
	e.Err = f.Err
	s.emit(e)
	return Errnos[f.Err]
}

func (s *Sim) done(e *Event, err error) error {
	e.Err = ErrnoName(err)
	s.emit(e)
	return err
}

func (s *Sim) at(dirfd int, p string) string {
	if dirfd == atFDCWD || strings.HasPrefix(p, "/") {
		return p
	}
	if f := s.files[dirfd]; f != nil {
		return f.Real + "/" + p
	}
	return p
}

func (s *Sim) Openat(dirfd int, p string, flags int, mode uint32) (int, error, bool) {
	s.enter()
	defer s.mu.Unlock()
	p = s.at(dirfd, p)
	e := &Event{Op: "open", Path: p, Flags: flags}
	f := s.begin(e)
	if err := s.fail(e, f); err != nil {
		return -1, err, true
	}
	before, real, _ := s.fs.Walk(p, flags&syscall.O_NOFOLLOW == 0)
	had := before != nil
	hadLen := 0
	if had {
		hadLen = len(before.Data)
	}
	_ = real
	fl, err := s.fs.Open(p, flags)
	if err != nil {
		return -1, s.done(e, err), true
	}
	e.Real = fl.Real
	if !had {
		e.Ctx, e.Mut = "new", true
	} else if flags&syscall.O_TRUNC != 0 && flags&oAccmode != 0 {
		e.Ctx, e.Mut = "trunc", true
		e.Len = hadLen
	}
	fd := s.next
	s.next++
	s.files[fd] = fl
	e.Fd = fd
	s.done(e, nil)
	return fd, nil, true
}

func (s *Sim) file(fd int) *File { return s.files[fd] }

func (s *Sim) Read(fd int, p []byte) (int, error, bool) {
	s.enter()
	defer s.mu.Unlock()
	fl := s.file(fd)
	if fl == nil {
		return -1, syscall.EBADF, fd >= firstFd
	}
	e := &Event{Op: "read", Fd: fd, Real: fl.Real}
	f := s.begin(e)
	if pe := s.pending[fd]; pe != "" {
		delete(s.pending, fd)
		e.Fault = pe
		return -1, s.done(e, Errnos[pe]), true
	}
	if f != nil && f.Short > 0 {
		if len(p) > f.Short {
			p = p[:f.Short]
			e.Fault = "short"
		}
		if f.Err != "" {
			s.pending[fd] = f.Err
		}
	} else if err := s.fail(e, f); err != nil {
		return -1, err, true
	}
	n, err := fl.Read(p)
	e.Len = n
	s.done(e, err)
	return n, err, true
}

func (s *Sim) Pread(fd int, p []byte, off int64) (int, error, bool) {
	s.enter()
	defer s.mu.Unlock()
	fl := s.file(fd)
	if fl == nil {
		return -1, syscall.EBADF, fd >= firstFd
	}
	e := &Event{Op: "pread", Fd: fd, Real: fl.Real, Off: int(off)}
	f := s.begin(e)
	if err := s.fail(e, f); err != nil {
		return -1, err, true
	}
	n, err := fl.PRead(p, int(off))
	e.Len = n
	s.done(e, err)
	return n, err, true
}

func (s *Sim) write(op string, fd int, p []byte, at int) (int, error, bool) {
	fl := s.file(fd)
	if fl == nil && fd != 1 {
		return -1, syscall.EBADF, fd >= firstFd
	}
	e := &Event{Op: op, Fd: fd}
	if fl != nil {
		e.Real = fl.Real
	} else {
		e.Op = "stdout"
	}
	f := s.begin(e)
	if pe := s.pending[fd]; pe != "" {
		delete(s.pending, fd)
		e.Fault = pe
		return -1, s.done(e, Errnos[pe]), true
	}
	if f != nil && f.Short > 0 {
		if len(p) > f.Short {
			p = p[:f.Short]
			e.Fault = "short"
			if f.Err != "" {
				s.pending[fd] = f.Err
			}
		} else if f.Err != "" {
			if err := s.fail(e, f); err != nil {
				return -1, err, true
			}
		}
	} else if err := s.fail(e, f); err != nil {
		return -1, err, true
	}
	if fl == nil { // standard output
		e.Len = len(p)
		e.Data = append([]byte(nil), p...)
		s.done(e, nil)
		return len(p), nil, true
	}
	n, off, err := s.fs.Write(fl, p, at)
	if err == nil {
		e.Off, e.Len = off, n
		e.Data = append([]byte(nil), p[:n]...)
		// A file that has lost its name is no longer on the disk.
		if cur := s.fs.LLookup(fl.Real); cur == fl.n {
			e.Mut = true
		}
		if n < len(p) {
			e.Fault = "nospace"
		}
	} else if err == syscall.ENOSPC {
		e.Fault = "nospace"
	}
	s.done(e, err)
	if err != nil {
		n = -1
	}
	return n, err, true
}

func (s *Sim) Write(fd int, p []byte) (int, error, bool) {
	s.enter()
	defer s.mu.Unlock()
	return s.write("write", fd, p, -1)
}

func (s *Sim) Pwrite(fd int, p []byte, off int64) (int, error, bool) {
	s.enter()
	defer s.mu.Unlock()
	return s.write("pwrite", fd, p, int(off))
}

func (s *Sim) Close(fd int) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	fl := s.file(fd)
	if fl == nil {
		return syscall.EBADF, fd >= firstFd
	}
	e := &Event{Op: "close", Fd: fd, Real: fl.Real, Flags: fl.flags}
	f := s.begin(e)
	delete(s.files, fd)
	if f != nil && f.Err != "" {
		if f.Lose > 0 && fl.n.Kind == KFile && fl.flags&oAccmode != 0 && s.fs.LLookup(fl.Real) == fl.n {
			keep := len(fl.n.Data) * (f.Lose - 1) / 100
			if keep < len(fl.n.Data) {
				s.fs.Truncate(fl.n, keep)
				s.emit(&Event{N: e.N, Op: "lost", Real: fl.Real, Len: keep, Mut: true})
			}
		}
		return s.fail(e, f), true
	}
	return s.done(e, nil), true
}

func (s *Sim) Fstat(fd int, st *syscall.Stat_t) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	fl := s.file(fd)
	if fl == nil {
		return syscall.EBADF, fd >= firstFd
	}
	e := &Event{Op: "fstat", Fd: fd, Real: fl.Real}
	f := s.begin(e)
	if err := s.fail(e, f); err != nil {
		return err, true
	}
	s.fs.Stat(fl.n, st)
	return s.done(e, nil), true
}

func (s *Sim) Fstatat(dirfd int, p string, st *syscall.Stat_t, flags int) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	if p == "" && flags&atEmpty != 0 {
		fl := s.file(dirfd)
		if fl == nil {
			return syscall.EBADF, dirfd >= firstFd
		}
		s.fs.Stat(fl.n, st)
		return nil, true
	}
	p = s.at(dirfd, p)
	op := "stat"
	if flags&atNoFol != 0 {
		op = "lstat"
	}
	e := &Event{Op: op, Path: p}
	f := s.begin(e)
	if err := s.fail(e, f); err != nil {
		return err, true
	}
	n, real, err := s.fs.Walk(p, flags&atNoFol == 0)
	e.Real = real
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil {
		s.fs.Stat(n, st)
	}
	return s.done(e, err), true
}

func (s *Sim) path1(op, p string, fn func(e *Event) error) (error, bool) {
	e := &Event{Op: op, Path: p}
	f := s.begin(e)
	if err := s.fail(e, f); err != nil {
		return err, true
	}
	err := fn(e)
	e.Mut = err == nil && e.Mut
	return s.done(e, err), true
}

func (s *Sim) Mkdirat(dirfd int, p string, mode uint32) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	return s.path1("mkdir", s.at(dirfd, p), func(e *Event) (err error) {
		e.Mut = true
		e.Real, err = s.fs.Mkdir(s.at(dirfd, p))
		return
	})
}

func (s *Sim) Unlinkat(dirfd int, p string, flags int) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	op := "unlink"
	if flags&atRemove != 0 {
		op = "rmdir"
	}
	return s.path1(op, s.at(dirfd, p), func(e *Event) (err error) {
		e.Mut = true
		e.Real, err = s.fs.Unlink(s.at(dirfd, p), flags&atRemove != 0)
		return
	})
}

func (s *Sim) Renameat(od int, op string, nd int, np string) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	return s.path1("rename", s.at(od, op), func(e *Event) (err error) {
		e.Mut = true
		e.Path2 = s.at(nd, np)
		e.Real, e.Real2, err = s.fs.Rename(s.at(od, op), s.at(nd, np))
		for _, t := range []map[int]*File{s.files, s.peers} {
			for _, f := range t {
				if err == nil && f.Real == e.Real {
					f.Real = e.Real2
				}
			}
		}
		return
	})
}

func (s *Sim) Symlinkat(target string, nd int, np string) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	return s.path1("symlink", target, func(e *Event) (err error) {
		e.Mut = true
		e.Path2 = s.at(nd, np)
		e.Real, err = s.fs.Symlink(target, s.at(nd, np))
		return
	})
}

func (s *Sim) Linkat(od int, op string, nd int, np string, flags int) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	return s.path1("link", s.at(nd, np), func(e *Event) (err error) {
		e.Mut = true
		e.Real2 = s.at(od, op)
		e.Real, err = s.fs.LinkNode(s.at(od, op), s.at(nd, np))
		return
	})
}

func (s *Sim) Readlinkat(dirfd int, p string, buf []byte) (n int, err error, ok bool) {
	s.enter()
	defer s.mu.Unlock()
	err, ok = s.path1("readlink", s.at(dirfd, p), func(e *Event) error {
		nd, real, err := s.fs.Walk(s.at(dirfd, p), false)
		e.Real = real
		if err != nil {
			return err
		}
		if nd == nil {
			return syscall.ENOENT
		}
		if nd.Kind != KLink {
			return syscall.EINVAL
		}
		n = copy(buf, nd.Link)
		return nil
	})
	if err != nil {
		n = -1
	}
	return
}

func (s *Sim) Ftruncate(fd int, l int64) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	fl := s.file(fd)
	if fl == nil {
		return syscall.EBADF, fd >= firstFd
	}
	return s.path1("truncate", fl.Real, func(e *Event) error {
		e.Real, e.Len = fl.Real, int(l)
		e.Mut = s.fs.LLookup(fl.Real) == fl.n
		if fl.flags&oAccmode == 0 {
			return syscall.EINVAL
		}
		return s.fs.Truncate(fl.n, int(l))
	})
}

func (s *Sim) Truncate(p string, l int64) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	return s.path1("truncate", p, func(e *Event) error {
		n, real, err := s.fs.Walk(p, true)
		if err != nil {
			return err
		}
		if n == nil {
			return syscall.ENOENT
		}
		e.Real, e.Len, e.Mut = real, int(l), true
		return s.fs.Truncate(n, int(l))
	})
}

func (s *Sim) fdop(op string, fd int) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	fl := s.file(fd)
	if fl == nil {
		return syscall.EBADF, fd >= firstFd
	}
	return s.path1(op, fl.Real, func(e *Event) error { e.Real = fl.Real; return nil })
}

func (s *Sim) Fsync(fd int) (error, bool)               { return s.fdop("fsync", fd) }
func (s *Sim) Fdatasync(fd int) (error, bool)           { return s.fdop("fsync", fd) }
func (s *Sim) Fchmod(fd int, mode uint32) (error, bool) { return s.fdop("fchmod", fd) }
func (s *Sim) Fchown(fd int, uid, gid int) (error, bool) {
	return s.fdop("fchown", fd)
}

func (s *Sim) pathExists(op string, p string) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	return s.path1(op, p, func(e *Event) error {
		n, real, err := s.fs.Walk(p, true)
		e.Real = real
		if err == nil && n == nil {
			err = syscall.ENOENT
		}
		return err
	})
}

func (s *Sim) Fchmodat(dirfd int, p string, mode uint32) (error, bool) {
	return s.pathExists("chmod", s.at(dirfd, p))
}
func (s *Sim) Fchownat(dirfd int, p string, uid, gid, flags int) (error, bool) {
	return s.pathExists("chown", s.at(dirfd, p))
}
func (s *Sim) Utimensat(dirfd int, p string, ts *[2]syscall.Timespec, flags int) (error, bool) {
	return s.pathExists("utime", s.at(dirfd, p))
}
func (s *Sim) Faccessat(dirfd int, p string, mode uint32) (error, bool) {
	return s.pathExists("access", s.at(dirfd, p))
}

func (s *Sim) Chdir(p string) (error, bool) {
	s.enter()
	defer s.mu.Unlock()
	return s.path1("chdir", p, func(e *Event) error {
		n, real, err := s.fs.Walk(p, true)
		if err != nil {
			return err
		}
		if n == nil {
			return syscall.ENOENT
		}
		if n.Kind != KDir {
			return syscall.ENOTDIR
		}
		s.fs.Cwd = real
		return nil
	})
}

func (s *Sim) Fchdir(fd int) (error, bool) {
	fl := s.file(fd)
	if fl == nil {
		return syscall.EBADF, true
	}
	return s.Chdir(fl.Real)
}

func (s *Sim) Getcwd(buf []byte) (int, error, bool) {
	n := copy(buf, s.fs.Cwd+"\x00")
	return n, nil, true
}

func (s *Sim) Fcntl(fd, cmd, arg int) (int, error, bool) {
	s.enter()
	defer s.mu.Unlock()
	fl := s.file(fd)
	if fl == nil {
		return -1, syscall.EBADF, fd >= firstFd
	}
	switch cmd {
	case syscall.F_GETFL:
		return fl.flags, nil, true
	case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
		nfd := s.next
		s.next++
		s.files[nfd] = fl
		return nfd, nil, true
	}
	return 0, nil, true
}

func (s *Sim) Dup(fd int) (int, error, bool) {
	return s.Fcntl(fd, syscall.F_DUPFD, 0)
}

func (s *Sim) Seek(fd int, off int64, whence int) (int64, error, bool) {
	s.enter()
	defer s.mu.Unlock()
	fl := s.file(fd)
	if fl == nil {
		return -1, syscall.EBADF, fd >= firstFd
	}
	base := 0
	switch whence {
	case 1:
		base = fl.off
	case 2:
		base = len(fl.n.Data)
	}
	if base+int(off) < 0 {
		return -1, syscall.EINVAL, true
	}
	fl.off = base + int(off)
	if fl.n.Kind == KDir {
		fl.dirpos = 0
		fl.dirs = sortedNames(fl.n)
	}
	return int64(fl.off), nil, true
}

func (s *Sim) rand(n int) int {
	s.rnd ^= s.rnd << 13
	s.rnd ^= s.rnd >> 7
	s.rnd ^= s.rnd << 17
	return int(s.rnd % uint64(n))
}

func (s *Sim) Getdents(fd int, buf []byte) (int, error, bool) {
	s.enter()
	defer s.mu.Unlock()
	fl := s.file(fd)
	if fl == nil {
		return -1, syscall.EBADF, fd >= firstFd
	}
	e := &Event{Op: "getdents", Fd: fd, Real: fl.Real}
	f := s.begin(e)
	if err := s.fail(e, f); err != nil {
		return -1, err, true
	}
	if fl.n.Kind != KDir {
		return -1, s.done(e, syscall.ENOTDIR), true
	}
	if fl.dirpos == 0 && s.plan.Dents != 0 {
		for i := len(fl.dirs) - 1; i > 0; i-- {
			j := s.rand(i + 1)
			fl.dirs[i], fl.dirs[j] = fl.dirs[j], fl.dirs[i]
		}
	}
	out := 0
	for fl.dirpos < len(fl.dirs) {
		name := fl.dirs[fl.dirpos]
		n := fl.n.Ent[name]
		if n == nil {
			fl.dirpos++
			continue
		}
		rl := (19 + len(name) + 1 + 7) &^ 7
		if out+rl > len(buf) {
			break
		}
		b := buf[out : out+rl]
		for i := range b {
			b[i] = 0
		}
		*(*uint64)(unsafe.Pointer(&b[0])) = n.ino
		*(*int64)(unsafe.Pointer(&b[8])) = int64(fl.dirpos + 1)
		*(*uint16)(unsafe.Pointer(&b[16])) = uint16(rl)
		switch {
		case s.plan.Dents%3 == 2:
			b[18] = 0 // a file system that does not report types
		case n.Kind == KDir:
			b[18] = 4
		case n.Kind == KLink:
			b[18] = 10
		default:
			b[18] = 8
		}
		copy(b[19:], name)
		out += rl
		fl.dirpos++
		if f != nil && f.Short > 0 {
			break
		}
	}
	e.Len = out
	s.done(e, nil)
	return out, nil, true
}
