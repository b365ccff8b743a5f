// Package memfs is the simulated disk of the generator world: an in-memory
// file system with POSIX semantics that are close enough for a tool which
// reads a source tree and writes an output tree. It is used twice: inside the
// simulated process (behind the typed system-call wrappers of the standard
// library, see Sim) and in the driver, which replays the journal of a run onto
// a copy of the image to obtain the disk state at any point of the run.
package memfs

import (
	"encoding/json"
	"errors"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
)

// Kind of a node.
const (
	KFile = "f"
	KDir  = "d"
	KLink = "l"
)

// Node is one inode.
type Node struct {
	Kind string
	Data []byte
	Link string
	RO   bool // writing (file) or changing entries (directory) is refused
	NoRd bool // reading is refused
	Ent  map[string]*Node
	ino  uint64
	time int64 // of the last change, in ns
}

// FS is a file system.
type FS struct {
	Root    *Node
	Cwd     string
	MaxPath int // if >0, longer absolute or relative path arguments are refused with ENAMETOOLONG
	Cap     int // if >=0, bytes that may still be allocated
	nextIno uint64
	Start   int64 // wall clock at the start of the running process, Unix seconds
	now     int64 // wall clock, ns
	puts    int64
}

// Entry is the serialised form of one node.
type Entry struct {
	Path string `json:"p"`
	Kind string `json:"k"`
	Data []byte `json:"d,omitempty"`
	Link string `json:"l,omitempty"`
	RO   bool   `json:"ro,omitempty"`
	NoRd bool   `json:"nr,omitempty"`
	Time int64  `json:"t,omitempty"` // of the last change in ns; 0: after all entries before
}

// Image is a serialised file system.
type Image struct {
	Entries []Entry `json:"entries"`
	Cwd     string  `json:"cwd,omitempty"`
	MaxPath int     `json:"maxpath,omitempty"`
	Cap     *int    `json:"cap,omitempty"`
}

// New makes a file system from an image.
func New(img *Image) *FS {
	fs := &FS{Root: &Node{Kind: KDir, Ent: map[string]*Node{}}, Cwd: "/", Cap: -1, nextIno: 1}
	fs.Root.ino = fs.ino()
	if img == nil {
		return fs
	}
	if img.Cwd != "" {
		fs.Cwd = img.Cwd
	}
	for _, e := range img.Entries {
		fs.Put(e)
	}
	fs.MaxPath = img.MaxPath
	if img.Cap != nil {
		fs.Cap = *img.Cap
	}
	return fs
}

func (fs *FS) ino() uint64 { fs.nextIno++; return fs.nextIno }

// Tick sets the clock to the time of a system call.
func (fs *FS) Tick(call int) { fs.now = fs.Start*1e9 + int64(call)*1e6 }

// Put creates a node, with its parents.
func (fs *FS) Put(e Entry) {
	p := path.Clean("/" + e.Path)
	if p == "/" {
		return
	}
	if e.Time == 0 {
		// Before all runs, one second after the entry before.
		fs.puts++
		e.Time = -1e15 + fs.puts*1e9
	}
	cur := fs.Root
	parts := strings.Split(p[1:], "/")
	for _, c := range parts[:len(parts)-1] {
		n := cur.Ent[c]
		if n == nil {
			n = &Node{Kind: KDir, Ent: map[string]*Node{}, ino: fs.ino(), time: e.Time}
			cur.Ent[c] = n
		}
		cur = n
	}
	n := &Node{Kind: e.Kind, Data: append([]byte(nil), e.Data...), Link: e.Link, RO: e.RO, NoRd: e.NoRd, ino: fs.ino(), time: e.Time}
	if e.Kind == KDir {
		n.Ent = map[string]*Node{}
		if old := cur.Ent[parts[len(parts)-1]]; old != nil && old.Kind == KDir {
			n.Ent = old.Ent
		}
	}
	cur.Ent[parts[len(parts)-1]] = n
}

// Dump lists all nodes in path order.
func (fs *FS) Dump() []Entry {
	var out []Entry
	var rec func(p string, n *Node)
	rec = func(p string, n *Node) {
		if p != "" {
			out = append(out, Entry{Path: p, Kind: n.Kind, Data: append([]byte(nil), n.Data...), Link: n.Link, RO: n.RO, NoRd: n.NoRd, Time: n.time})
		}
		for _, k := range sortedNames(n) {
			rec(p+"/"+k, n.Ent[k])
		}
	}
	rec("", fs.Root)
	return out
}

// Image serialises the file system.
func (fs *FS) Image() *Image {
	return &Image{Entries: fs.Dump(), Cwd: fs.Cwd, MaxPath: fs.MaxPath}
}

func sortedNames(n *Node) []string {
	var ks []string
	for k := range n.Ent {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (fs *FS) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = fs.Cwd + "/" + p
	}
	return p
}

var errLoop = syscall.ELOOP

// walk resolves p. If followLast is false a final symbolic link is returned
// itself. parent and base are valid if everything but the last component
// exists.
func (fs *FS) walk(p string, followLast bool, depth int) (n, parent *Node, base, real string, err error) {
	if depth > 20 {
		return nil, nil, "", "", errLoop
	}
	if p == "" {
		return nil, nil, "", "", syscall.ENOENT
	}
	if fs.MaxPath > 0 && len(p) > fs.MaxPath {
		return nil, nil, "", "", syscall.ENAMETOOLONG
	}
	a := fs.abs(p)
	trailing := strings.HasSuffix(a, "/")
	var stack []*Node
	var names []string
	cur := fs.Root
	parts := strings.Split(a, "/")
	var comp []string
	for _, c := range parts {
		if c != "" && c != "." {
			comp = append(comp, c)
		}
	}
	if len(comp) == 0 {
		return fs.Root, fs.Root, ".", "/", nil
	}
	for i, c := range comp {
		last := i == len(comp)-1
		if len(c) > 255 {
			return nil, nil, "", "", syscall.ENAMETOOLONG
		}
		if cur.Kind != KDir {
			return nil, nil, "", "", syscall.ENOTDIR
		}
		if c == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			if last {
				return cur, cur, ".", "/" + strings.Join(names, "/"), nil
			}
			continue
		}
		child := cur.Ent[c]
		if child != nil && child.Kind == KLink && (!last || followLast || trailing) {
			tgt := child.Link
			if !strings.HasPrefix(tgt, "/") {
				tgt = "/" + strings.Join(names, "/") + "/" + tgt
			}
			rest := strings.Join(comp[i+1:], "/")
			if rest != "" {
				tgt += "/" + rest
			}
			return fs.walkAbs(tgt, followLast, depth+1)
		}
		if last {
			full := "/" + strings.Join(append(append([]string{}, names...), c), "/")
			if child != nil && trailing && child.Kind != KDir {
				return nil, nil, "", "", syscall.ENOTDIR
			}
			return child, cur, c, full, nil
		}
		if child == nil {
			return nil, nil, "", "", syscall.ENOENT
		}
		stack = append(stack, cur)
		names = append(names, c)
		cur = child
	}
	panic("unreachable")
}

func (fs *FS) walkAbs(p string, followLast bool, depth int) (*Node, *Node, string, string, error) {
	mp := fs.MaxPath
	fs.MaxPath = 0
	n, par, b, r, e := fs.walk(p, followLast, depth)
	fs.MaxPath = mp
	return n, par, b, r, e
}

// Lookup returns the node at p, following links, or nil.
func (fs *FS) Lookup(p string) *Node {
	n, _, _, _, err := fs.walk(p, true, 0)
	if err != nil {
		return nil
	}
	return n
}

// LLookup returns the node at p, not following a final link, or nil.
func (fs *FS) LLookup(p string) *Node {
	n, _, _, _, err := fs.walk(p, false, 0)
	if err != nil {
		return nil
	}
	return n
}

// File is an open file description.
type File struct {
	n      *Node
	Real   string
	off    int
	flags  int
	dirpos int
	dirs   []string
}

const oAccmode = 3

// Open opens a file.
func (fs *FS) Open(p string, flags int) (*File, error) {
	follow := flags&syscall.O_NOFOLLOW == 0
	if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
		follow = false
	}
	n, parent, base, real, err := fs.walk(p, follow, 0)
	if err != nil {
		return nil, err
	}
	wr := flags&oAccmode != syscall.O_RDONLY
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return nil, syscall.ENOENT
		}
		if parent.RO {
			return nil, syscall.EACCES
		}
		n = &Node{Kind: KFile, ino: fs.ino(), time: fs.now}
		parent.Ent[base] = n
		parent.time = fs.now
		return &File{n: n, Real: real, flags: flags}, nil
	}
	if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
		return nil, syscall.EEXIST
	}
	if n.Kind == KLink {
		return nil, syscall.ELOOP
	}
	if n.Kind == KDir && (wr || flags&syscall.O_CREAT != 0) {
		return nil, syscall.EISDIR
	}
	if n.Kind != KDir && flags&syscall.O_DIRECTORY != 0 {
		return nil, syscall.ENOTDIR
	}
	if wr && n.RO {
		return nil, syscall.EACCES
	}
	if flags&oAccmode != syscall.O_WRONLY && n.NoRd {
		return nil, syscall.EACCES
	}
	if n.Kind == KFile && flags&syscall.O_TRUNC != 0 && wr {
		fs.release(len(n.Data))
		n.Data = nil
		n.time = fs.now
	}
	f := &File{n: n, Real: real, flags: flags}
	if n.Kind == KDir {
		f.dirs = sortedNames(n)
	}
	return f, nil
}

func (fs *FS) release(n int) {
	if fs.Cap >= 0 {
		fs.Cap += n
	}
}

// Read reads.
func (f *File) Read(p []byte) (int, error) {
	if f.n.Kind == KDir {
		return 0, syscall.EISDIR
	}
	if f.flags&oAccmode == syscall.O_WRONLY {
		return 0, syscall.EBADF
	}
	if f.off >= len(f.n.Data) {
		return 0, nil
	}
	n := copy(p, f.n.Data[f.off:])
	f.off += n
	return n, nil
}

// PRead reads at an offset.
func (f *File) PRead(p []byte, off int) (int, error) {
	if f.n.Kind == KDir {
		return 0, syscall.EISDIR
	}
	if off >= len(f.n.Data) {
		return 0, nil
	}
	return copy(p, f.n.Data[off:]), nil
}

// Write writes; at is the offset, or -1 for the file position.
func (fs *FS) Write(f *File, p []byte, at int) (n, off int, err error) {
	if f.flags&oAccmode == syscall.O_RDONLY || f.n.Kind != KFile {
		return 0, 0, syscall.EBADF
	}
	off = at
	if at < 0 {
		off = f.off
		if f.flags&syscall.O_APPEND != 0 {
			off = len(f.n.Data)
		}
	}
	grow := off + len(p) - len(f.n.Data)
	if grow > 0 && fs.Cap >= 0 && grow > fs.Cap {
		fit := len(p) - (grow - fs.Cap)
		if fit <= 0 {
			return 0, off, syscall.ENOSPC
		}
		p = p[:fit]
		grow = off + len(p) - len(f.n.Data)
	}
	if grow > 0 {
		if fs.Cap >= 0 {
			fs.Cap -= grow
		}
		nd := make([]byte, off+len(p))
		copy(nd, f.n.Data)
		f.n.Data = nd
	}
	copy(f.n.Data[off:], p)
	f.n.time = fs.now
	if at < 0 {
		f.off = off + len(p)
	}
	return len(p), off, nil
}

// Truncate sets the length of a node.
func (fs *FS) Truncate(n *Node, l int) error {
	if n.Kind != KFile {
		return syscall.EINVAL
	}
	if n.RO {
		return syscall.EACCES
	}
	n.time = fs.now
	if l <= len(n.Data) {
		fs.release(len(n.Data) - l)
		n.Data = n.Data[:l:l]
		return nil
	}
	grow := l - len(n.Data)
	if fs.Cap >= 0 && grow > fs.Cap {
		return syscall.ENOSPC
	}
	if fs.Cap >= 0 {
		fs.Cap -= grow
	}
	nd := make([]byte, l)
	copy(nd, n.Data)
	n.Data = nd
	return nil
}

// Mkdir makes a directory.
func (fs *FS) Mkdir(p string) (string, error) {
	n, parent, base, real, err := fs.walk(p, false, 0)
	if err != nil {
		return "", err
	}
	if n != nil {
		return "", syscall.EEXIST
	}
	if parent.RO {
		return "", syscall.EACCES
	}
	parent.Ent[base] = &Node{Kind: KDir, Ent: map[string]*Node{}, ino: fs.ino(), time: fs.now}
	parent.time = fs.now
	return real, nil
}

// Symlink makes a link.
func (fs *FS) Symlink(target, p string) (string, error) {
	n, parent, base, real, err := fs.walk(p, false, 0)
	if err != nil {
		return "", err
	}
	if n != nil {
		return "", syscall.EEXIST
	}
	if parent.RO {
		return "", syscall.EACCES
	}
	parent.Ent[base] = &Node{Kind: KLink, Link: target, ino: fs.ino(), time: fs.now}
	parent.time = fs.now
	return real, nil
}

// LinkNode makes a hard link.
func (fs *FS) LinkNode(old, p string) (string, error) {
	o, _, _, _, err := fs.walk(old, false, 0)
	if err != nil {
		return "", err
	}
	if o == nil {
		return "", syscall.ENOENT
	}
	n, parent, base, real, err := fs.walk(p, false, 0)
	if err != nil {
		return "", err
	}
	if n != nil {
		return "", syscall.EEXIST
	}
	if parent.RO {
		return "", syscall.EACCES
	}
	parent.Ent[base] = o
	parent.time = fs.now
	return real, nil
}

// Unlink removes a file or, with dir, an empty directory.
func (fs *FS) Unlink(p string, dir bool) (string, error) {
	n, parent, base, real, err := fs.walk(p, false, 0)
	if err != nil {
		return "", err
	}
	if n == nil {
		return "", syscall.ENOENT
	}
	if dir {
		if n.Kind != KDir {
			return "", syscall.ENOTDIR
		}
		if len(n.Ent) > 0 {
			return "", syscall.ENOTEMPTY
		}
	} else if n.Kind == KDir {
		return "", syscall.EISDIR
	}
	if parent.RO {
		return "", syscall.EACCES
	}
	delete(parent.Ent, base)
	fs.release(len(n.Data))
	return real, nil
}

// Rename renames.
func (fs *FS) Rename(a, b string) (string, string, error) {
	n, parent, base, real, err := fs.walk(a, false, 0)
	if err != nil {
		return "", "", err
	}
	if n == nil {
		return "", "", syscall.ENOENT
	}
	n2, parent2, base2, real2, err := fs.walk(b, false, 0)
	if err != nil {
		return "", "", err
	}
	if parent.RO || parent2.RO {
		return "", "", syscall.EACCES
	}
	if n2 == n {
		return real, real2, nil
	}
	if n2 != nil {
		if n2.Kind == KDir && n.Kind != KDir {
			return "", "", syscall.EISDIR
		}
		if n2.Kind != KDir && n.Kind == KDir {
			return "", "", syscall.ENOTDIR
		}
		if n2.Kind == KDir && len(n2.Ent) > 0 {
			return "", "", syscall.ENOTEMPTY
		}
	}
	delete(parent.Ent, base)
	parent2.Ent[base2] = n
	parent.time, parent2.time = fs.now, fs.now
	return real, real2, nil
}

// Stat fills a stat buffer.
func (fs *FS) Stat(n *Node, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Ino: n.ino, Nlink: 1, Dev: 1, Blksize: 4096, Size: int64(len(n.Data))}
	st.Mtim = syscall.NsecToTimespec(n.time)
	st.Ctim, st.Atim = st.Mtim, st.Mtim
	switch n.Kind {
	case KDir:
		st.Mode = syscall.S_IFDIR | 0755
	case KLink:
		st.Mode = syscall.S_IFLNK | 0777
		st.Size = int64(len(n.Link))
	default:
		st.Mode = syscall.S_IFREG | 0644
	}
	if n.RO {
		st.Mode &^= 0222
	}
}

// Walk exposes path resolution.
func (fs *FS) Walk(p string, follow bool) (*Node, string, error) {
	n, _, _, real, err := fs.walk(p, follow, 0)
	return n, real, err
}

// Dir is the node of the open file.
func (f *File) Node() *Node { return f.n }

// Event is one journal line: one simulated system call with its outcome.
type Event struct {
	N     int    `json:"n"`
	Op    string `json:"op"`
	Path  string `json:"path,omitempty"`  // argument as given
	Path2 string `json:"path2,omitempty"` // second argument
	Real  string `json:"real,omitempty"`  // resolved path
	Real2 string `json:"real2,omitempty"`
	Fd    int    `json:"fd,omitempty"`
	Flags int    `json:"flags,omitempty"`
	Off   int    `json:"off,omitempty"`
	Len   int    `json:"len,omitempty"`
	Data  []byte `json:"data,omitempty"`
	Err   string `json:"err,omitempty"`
	Fault string `json:"fault,omitempty"`
	Mut   bool   `json:"mut,omitempty"`  // changed the disk
	Ctx   string `json:"ctx,omitempty"`  // open: "new" if it created the file, "trunc" if it cut an existing one
	Peer  bool   `json:"peer,omitempty"` // the change was made by another process that runs at the same time
}

func (e *Event) Key() string {
	return fmt.Sprintf("%s %s %s %d %s %s", e.Op, e.Real, e.Real2, e.Len, e.Err, e.Fault)
}

// put creates a node now.
func (fs *FS) put(e Entry) {
	e.Time = fs.now
	if e.Time == 0 {
		e.Time = 1
	}
	if _, parent, _, _, err := fs.walk(e.Path, false, 0); err == nil {
		parent.time = e.Time
	}
	fs.Put(e)
}

// Apply replays a mutating event onto fs.
func (fs *FS) Apply(e *Event) error {
	if !e.Mut {
		return nil
	}
	fs.Tick(e.N)
	switch e.Op {
	case "open":
		if e.Ctx == "new" {
			fs.put(Entry{Path: e.Real, Kind: KFile})
		} else if n := fs.LLookup(e.Real); n != nil {
			n.Data = nil
			n.time = fs.now
		} else {
			return errors.New("apply open: no " + e.Real)
		}
	case "write", "pwrite":
		n := fs.LLookup(e.Real)
		if n == nil {
			return nil // written to an unlinked file
		}
		if need := e.Off + len(e.Data); need > len(n.Data) {
			nd := make([]byte, need)
			copy(nd, n.Data)
			n.Data = nd
		}
		copy(n.Data[e.Off:], e.Data)
		n.time = fs.now
	case "truncate", "lost":
		n := fs.LLookup(e.Real)
		if n != nil {
			n.time = fs.now
			if e.Len <= len(n.Data) {
				n.Data = n.Data[:e.Len:e.Len]
			} else {
				nd := make([]byte, e.Len)
				copy(nd, n.Data)
				n.Data = nd
			}
		}
	case "mkdir":
		fs.put(Entry{Path: e.Real, Kind: KDir})
	case "symlink":
		fs.put(Entry{Path: e.Real, Kind: KLink, Link: e.Path})
	case "link":
		fs.LinkNode(e.Real2, e.Real)
	case "unlink":
		fs.Unlink(e.Real, false)
	case "rmdir":
		fs.Unlink(e.Real, true)
	case "rename":
		fs.Rename(e.Real, e.Real2)
	default:
		return errors.New("apply: unknown op " + e.Op)
	}
	return nil
}

// Fault is one planned fault.
type Fault struct {
	At    int    `json:"at"`              // index of the system call it hits (0-based)
	Err   string `json:"err,omitempty"`   // errno name
	Short int    `json:"short,omitempty"` // read/write: transfer at most this many bytes (with Err: then fail the next call on the same file)
	Stick bool   `json:"stick,omitempty"` // all later calls of the same kind fail the same way
	Crash bool   `json:"crash,omitempty"` // stop the process before this call takes effect
	Lose  int    `json:"lose,omitempty"`  // close: percentage of the file's data that the failed close keeps (1..100), 0 = keep all
}

// Plan is everything that is decided about one simulated process.
type Plan struct {
	Hash   uint64  `json:"hash"` // seed of the run-time's map and hash randomness
	Faults []Fault `json:"faults,omitempty"`
	Dents  uint64  `json:"dents,omitempty"` // seed of the directory enumeration order (0: sorted)
	Clock  int64   `json:"clock,omitempty"` // wall clock at the start, Unix seconds
	Sched  uint64  `json:"sched,omitempty"` // seed of the goroutine switches at system calls (0: none)
	Env    uint64  `json:"env,omitempty"`   // seed of the environment of the process (0: none)

	Pid int `json:"pid,omitempty"` // process id (0: chosen by the hash seed)

	// Other processes that run at the same time.
	Peer  []Intrusion `json:"peer,omitempty"`
	Pause int         `json:"pause,omitempty"` // if >0: the process stands still before this call (exit status 138)
}

// Intrusion is what another process did before a system call of this one.
type Intrusion struct {
	At  int     `json:"at"`
	Who int     `json:"who"`
	Ops []Event `json:"ops"`
}

// ParseErrno maps errno names.
var Errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EROFS": syscall.EROFS,
	"EDQUOT": syscall.EDQUOT, "EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "ENOENT": syscall.ENOENT,
	"EINTR": syscall.EINTR, "ENOMEM": syscall.ENOMEM, "EPIPE": syscall.EPIPE, "EFBIG": syscall.EFBIG,
	"ENAMETOOLONG": syscall.ENAMETOOLONG, "ELOOP": syscall.ELOOP, "EPERM": syscall.EPERM, "ESTALE": syscall.ESTALE,
	"EEXIST": syscall.EEXIST, "ENOTDIR": syscall.ENOTDIR, "EISDIR": syscall.EISDIR, "EBADF": syscall.EBADF,
	"EINVAL": syscall.EINVAL, "ENOTEMPTY": syscall.ENOTEMPTY, "ENOSYS": syscall.ENOSYS, "EBUSY": syscall.EBUSY,
	"ETXTBSY": syscall.ETXTBSY, "EAGAIN": syscall.EAGAIN,
}

// ErrnoName is the reverse of Errnos.
func ErrnoName(err error) string {
	if err == nil {
		return ""
	}
	for k, v := range Errnos {
		if v == err {
			return k
		}
	}
	return err.Error()
}

// LoadImage parses an image.
func LoadImage(b []byte) (*Image, error) {
	var i Image
	return &i, json.Unmarshal(b, &i)
}
