// Package simfs is the simulated storage below the system calls of the Go runtime library: files,
// directories, open handles, console, faults, and what a crash leaves behind.
package simfs

import (
	"path"
	"sort"
	"strings"
	"syscall"

	"goslicesim/simrt"
)

// Fault makes operations Nth..Nth+Count-1 matching Op and Path behave badly.
type Fault struct {
	Op    string `json:"op"`              // open read write close seek fstat stat unlink rename ftruncate fsync mkdir console ...
	Path  string `json:"path,omitempty"`  // absolute path; empty: any; "1"/"2" for console streams
	Nth   int    `json:"nth"`             // from 1
	Count int    `json:"count"`           // -1: for ever
	Err   string `json:"err,omitempty"`   // errno name; empty with Short: only shortened
	Short int    `json:"short,omitempty"` // bytes transferred at most (reads and writes), before Err on the next call when both are given
	Wr    bool   `json:"wr,omitempty"`    // open, close: only those of a file opened for writing
	Lose  bool   `json:"lose,omitempty"`  // close: unsynced data of the file is lost
}

// Entry is a file (or directory, symbolic link) of a stored tree.
type Entry struct {
	Dir  bool
	Link string
	Mode uint32
	Data []byte
	Time int64 // modification time, nanoseconds; 0: BaseTime
}

// BaseTime is the modification time of files that do not say otherwise.
const BaseTime = 1_690_000_000

// Config of the storage.
type Config struct {
	Tree     map[string]Entry
	Cwd      string
	Faults   []Fault
	Capacity int64 // total bytes of files; 0: unlimited
	// crash at the CrashOp-th storage operation (from 1; 0: never), before it or in the middle of it
	CrashOp  int
	CrashMid bool
	KeepLog  bool
	// standard streams and free space
	Stdin  string
	Std    string
	FreeMB int64
	// every file that does not exist seems to exist with this content when it is looked at, except those named
	Ghost       string
	GhostExcept []string
}

type inode struct {
	id    int
	dir   bool
	link  string
	mode  uint32
	data  []byte
	base  []byte // content at the last synchronisation or open for writing
	mtime int64
	dev   bool
}

type handle struct {
	ino    *inode
	path   string
	off    int64
	flags  int
	wrote  bool
	dirPos int
	dev    int // 1, 2: the console; 3: nothing
}

var devices = map[string]int{"/dev/stdout": 1, "/dev/stderr": 2, "/dev/fd/1": 1, "/dev/fd/2": 2, "/proc/self/fd/1": 1, "/proc/self/fd/2": 2, "/dev/tty": 1, "/dev/null": 3}

type logop struct {
	kind   string // create mkdir symlink write trunc unlink rename chmod
	path   string
	path2  string
	ino    int
	off    int64
	data   []byte
	mode   uint32
	synced bool
}

var (
	cfg      Config
	tree     map[string]*inode
	initial  map[string]Entry
	inoOf    map[string]int
	fds      map[int]*handle
	cwd      string
	nextIno  int
	oplog    []logop
	matched  []int
	on       bool
	writable map[string]bool

	// Results.
	Console       [3][]byte
	Ops           int
	OpCount       = map[string]int{} // "op path" -> calls
	Fired         []int              // per fault rule
	Opened        []string           // "path flags" of every successful open
	Mutated       []string           // mutating operations "op path"
	FullHits      int
	MaxOpen       int
	Log           []string
	ConsoleFaults int
	PartialLast   bool
	Ghosts        int // opened files that only seem to exist
	ghosts        = map[string]*inode{}
)

// Install sets up the storage and takes over the system calls.
func Install(c Config) {
	cfg = c
	tree = map[string]*inode{}
	initial = c.Tree
	inoOf = map[string]int{}
	fds = map[int]*handle{}
	nextIno = 1
	ensureDir("/")
	var names []string
	for p := range c.Tree {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		e := c.Tree[p]
		ensureDir(path.Dir(p))
		n := newInode(e.Mode)
		n.dir, n.link = e.Dir, e.Link
		n.mtime = e.Time
		n.data = append([]byte(nil), e.Data...)
		n.base = n.data
		tree[p] = n
		inoOf[p] = n.id
	}
	cwd = c.Cwd
	if cwd == "" {
		cwd = "/"
	}
	ensureDir(cwd)
	matched = make([]int, len(c.Faults))
	Fired = make([]int, len(c.Faults))
	on = true
	syscall.SimSys = sys
}

// Uninstall gives the system calls back to the kernel.
func Uninstall() { on = false; syscall.SimSys = nil }

func newInode(mode uint32) *inode {
	n := &inode{id: nextIno, mode: mode}
	nextIno++
	return n
}

func ensureDir(p string) {
	if p == "" || p == "." {
		p = "/"
	}
	if _, ok := tree[p]; ok {
		return
	}
	if p != "/" {
		ensureDir(path.Dir(p))
	}
	n := newInode(0755)
	n.dir = true
	tree[p] = n
	inoOf[p] = n.id
}

func abs(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	trail := strings.HasSuffix(p, "/")
	p = path.Clean(p)
	if trail && p != "/" {
		if n := tree[p]; n != nil && !n.dir {
			return p + "/" // not a directory
		}
	}
	return p
}

// resolve follows symbolic links of the last component.
func resolve(p string) (string, *inode, error) {
	for i := 0; i < 8; i++ {
		if e := parentErr(p); e != 0 {
			return p, nil, e
		}
		n := tree[p]
		if n == nil || n.link == "" {
			return p, n, nil
		}
		t := n.link
		if !strings.HasPrefix(t, "/") {
			t = path.Join(path.Dir(p), t)
		}
		p = path.Clean(t)
	}
	return p, nil, syscall.ELOOP
}

func parentErr(p string) syscall.Errno {
	if len(path.Base(p)) > 255 {
		return syscall.ENAMETOOLONG
	}
	if strings.HasSuffix(p, "/") && p != "/" {
		return syscall.ENOTDIR
	}
	d := path.Dir(p)
	for {
		n := tree[d]
		if n != nil && !n.dir {
			return syscall.ENOTDIR
		}
		if n != nil {
			break
		}
		if d == "/" {
			break
		}
		d = path.Dir(d)
	}
	if tree[path.Dir(p)] == nil {
		return syscall.ENOENT
	}
	return 0
}

// Errnos by name.
var Errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "ENOENT": syscall.ENOENT, "EINTR": syscall.EINTR,
	"EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "EROFS": syscall.EROFS, "EDQUOT": syscall.EDQUOT, "EPERM": syscall.EPERM,
	"EISDIR": syscall.EISDIR, "ENOMEM": syscall.ENOMEM, "EFBIG": syscall.EFBIG, "ESTALE": syscall.ESTALE, "ELOOP": syscall.ELOOP,
	"ENOTDIR": syscall.ENOTDIR, "ETIMEDOUT": syscall.ETIMEDOUT, "ENAMETOOLONG": syscall.ENAMETOOLONG, "EBADF": syscall.EBADF,
}

func total() int64 {
	var s int64
	seen := map[int]bool{}
	for _, n := range tree {
		if !seen[n.id] {
			seen[n.id] = true
			s += int64(len(n.data))
		}
	}
	return s
}

type verdict struct {
	err   syscall.Errno
	short int // -1: none
	lose  bool
}

func faults(op, p string, wr bool) verdict {
	v := verdict{short: -1}
	for i, f := range cfg.Faults {
		if f.Op != op || (f.Path != "" && f.Path != p) || (f.Wr && !wr) {
			continue
		}
		matched[i]++
		if matched[i] < f.Nth || (f.Count >= 0 && matched[i] >= f.Nth+f.Count) {
			continue
		}
		Fired[i]++
		simrt.Note("fault " + op + " " + f.Err)
		if f.Short > 0 {
			if f.Err != "" && matched[i] > f.Nth {
				v.err = Errnos[f.Err]
			} else {
				v.short = f.Short
			}
		} else if f.Err != "" {
			v.err = Errnos[f.Err]
			v.lose = f.Lose
		}
	}
	return v
}

const atFdcwd = -100

func at(fd int, p string) string {
	if strings.HasPrefix(p, "/") || fd == atFdcwd {
		return abs(p)
	}
	if h := fds[fd]; h != nil {
		return path.Clean(h.path + "/" + p)
	}
	return abs(p)
}

// Put replaces a file from outside of the simulated process; its modification time moves on if it is later.
func Put(p string, b []byte, fresh, later bool) {
	p = abs(p)
	old := tree[p]
	n := old
	was := int64(0)
	if old != nil {
		was = mtime(old)
	}
	if n == nil || fresh {
		n = newInode(0644)
	}
	n.data = append([]byte(nil), b...)
	n.base = n.data
	n.mtime = wall()
	if old != nil && n.mtime <= was {
		n.mtime = was + 1e9
	}
	if old != nil && !later {
		n.mtime = was
	}
	tree[p] = n
}

func wall() int64 { return simrt.Wall() }

func mtime(n *inode) int64 {
	if n.mtime == 0 {
		return BaseTime * 1e9
	}
	return n.mtime
}

func logm(o logop) {
	for _, n := range tree {
		if n.id == o.ino && o.kind != "chmod" && o.kind != "utimes" && o.kind != "rename" && o.kind != "link" && o.kind != "unlink" {
			n.mtime = wall()
		}
	}
	oplog = append(oplog, o)
	Mutated = append(Mutated, o.kind+" "+o.path)
	if o.path2 != "" {
		Mutated = append(Mutated, o.kind+" "+o.path2)
	}
}

func sys(a *syscall.SimArgs) (bool, int64, error) {
	if !on {
		return false, 0, nil
	}
	if simrt.Dead() {
		simrt.Die()
	}
	simrt.Point(simrt.PtIO)
	simrt.Y()
	n, e := do(a)
	if e == 0 {
		return true, n, nil
	}
	return true, n, e
}

func name(a *syscall.SimArgs) string {
	switch a.Op {
	case "open", "stat", "unlink", "mkdir", "rename", "link", "readlink", "chmod", "chown", "access", "utimes", "symlink", "mknod":
		return at(a.Fd, a.Path)
	case "truncate", "statfs", "chdir":
		return abs(a.Path)
	}
	if h := fds[a.Fd]; h != nil {
		return h.path
	}
	return ""
}

func do(a *syscall.SimArgs) (int64, syscall.Errno) {
	if a.Fd >= 0 && a.Fd <= 2 && (a.Op == "write" || a.Op == "read" || a.Op == "fcntl" || a.Op == "close" || a.Op == "fstat" || a.Op == "fsync" || a.Op == "seek") {
		return console(a)
	}
	p := name(a)
	Ops++
	OpCount[a.Op+" "+p]++
	wr := a.Op == "open" && int(a.A)&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	if h := fds[a.Fd]; a.Op == "close" && h != nil && h.flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		wr = true
	} else if wr {
		OpCount["openw "+p]++
	}
	simrt.Note(a.Op + p)
	if cfg.KeepLog {
		Log = append(Log, a.Op+" "+p)
	}
	if cfg.CrashOp > 0 && Ops == cfg.CrashOp && !simrt.Booting() {
		if cfg.CrashMid {
			PartialLast = true
			exec(a, p, wr)
		}
		simrt.Crash()
	}
	return exec(a, p, wr)
}

func exec(a *syscall.SimArgs, p string, wr bool) (int64, syscall.Errno) {
	v := faults(a.Op, p, wr)
	if v.err != 0 && a.Op != "close" {
		return -1, v.err
	}
	switch a.Op {
	case "open":
		return open(p, int(a.A), uint32(a.B))
	case "close":
		h := fds[a.Fd]
		if h == nil {
			return -1, syscall.EBADF
		}
		delete(fds, a.Fd)
		if v.err != 0 {
			if v.lose && h.wrote {
				if len(h.ino.data) > len(h.ino.base) || string(h.ino.data) != string(h.ino.base) {
					// the data written since the file was opened did not reach the storage
					h.ino.data = append([]byte(nil), h.ino.data[:len(h.ino.data)/2]...)
					logm(logop{kind: "trunc", path: h.path, ino: h.ino.id, off: int64(len(h.ino.data))})
				}
			}
			return -1, v.err
		}
		return 0, 0
	case "read", "pread":
		h := fds[a.Fd]
		if h == nil || h.flags&syscall.O_WRONLY != 0 {
			return -1, syscall.EBADF
		}
		if h.ino.dir {
			return -1, syscall.EISDIR
		}
		off := h.off
		if a.Op == "pread" {
			off = a.A
		}
		if off >= int64(len(h.ino.data)) {
			return 0, 0
		}
		b := a.P
		if v.short >= 0 && len(b) > v.short {
			b = b[:v.short]
		}
		n := copy(b, h.ino.data[off:])
		if a.Op == "read" {
			h.off += int64(n)
		}
		return int64(n), 0
	case "write", "pwrite":
		h := fds[a.Fd]
		if h == nil || h.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
			return -1, syscall.EBADF
		}
		if h.dev == 3 {
			return int64(len(a.P)), 0
		} else if h.dev != 0 {
			return console(&syscall.SimArgs{Op: "write", Fd: h.dev, P: a.P})
		}
		off := h.off
		if a.Op == "pwrite" {
			off = a.A
		}
		if h.flags&syscall.O_APPEND != 0 {
			off = int64(len(h.ino.data))
		}
		b := a.P
		if v.short >= 0 && len(b) > v.short {
			b = b[:v.short]
		}
		if PartialLast {
			b = b[:len(b)/2]
		}
		if cfg.Capacity > 0 {
			grow := off + int64(len(b)) - int64(len(h.ino.data))
			if grow > 0 {
				free := cfg.Capacity - total()
				if free < grow {
					FullHits++
					keep := int64(len(b)) - (grow - free)
					if keep <= 0 {
						return -1, syscall.ENOSPC
					}
					b = b[:keep]
				}
			}
		}
		d := h.ino.data
		if need := off + int64(len(b)); int64(len(d)) < need {
			nd := make([]byte, need, need+need/4)
			copy(nd, d)
			d = nd
		} else {
			d = append([]byte(nil), d...)
		}
		copy(d[off:], b)
		h.ino.data = d
		h.wrote = true
		logm(logop{kind: "write", path: h.path, ino: h.ino.id, off: off, data: append([]byte(nil), b...)})
		if a.Op == "write" {
			h.off = off + int64(len(b))
		}
		return int64(len(b)), 0
	case "seek":
		h := fds[a.Fd]
		if h == nil {
			return -1, syscall.EBADF
		}
		switch a.B {
		case 0:
			h.off = a.A
		case 1:
			h.off += a.A
		case 2:
			h.off = int64(len(h.ino.data)) + a.A
		}
		if h.off < 0 {
			return -1, syscall.EINVAL
		}
		if h.off == 0 {
			h.dirPos = 0
		}
		return h.off, 0
	case "statfs", "fstatfs":
		free := cfg.FreeMB
		if free == 0 {
			free = 100_000
		}
		*a.Sf = syscall.Statfs_t{Type: 0xef53, Bsize: 4096, Frsize: 4096, Blocks: 1 << 36, Bfree: uint64(free) << 8, Bavail: uint64(free) << 8, Files: 1 << 30, Ffree: 1 << 29, Namelen: 255}
		return 0, 0
	case "fstat":
		h := fds[a.Fd]
		if h == nil {
			return -1, syscall.EBADF
		}
		fill(a.St, h.ino)
		return 0, 0
	case "stat":
		if devices[p] != 0 {
			fill(a.St, &inode{mode: 0666, dev: true})
			return 0, 0
		}
		if a.Path == "" {
			return -1, syscall.ENOENT
		}
		var n *inode
		var err error
		if a.A&0x100 != 0 { // AT_SYMLINK_NOFOLLOW
			if e := parentErr(p); e != 0 && ghost(p) == nil {
				return -1, e
			}
			n = tree[p]
		} else if _, n, err = resolve(p); err != nil && ghost(p) == nil {
			return -1, err.(syscall.Errno)
		}
		if n == nil {
			n = ghost(p)
		}
		if n == nil {
			return -1, syscall.ENOENT
		}
		fill(a.St, n)
		return 0, 0
	case "access":
		_, n, err := resolve(p)
		if err != nil {
			return -1, err.(syscall.Errno)
		}
		if n == nil {
			return -1, syscall.ENOENT
		}
		return 0, 0
	case "unlink":
		if e := parentErr(p); e != 0 {
			return -1, e
		}
		n := tree[p]
		if n == nil {
			return -1, syscall.ENOENT
		}
		if a.A&0x200 != 0 {
			if !n.dir {
				return -1, syscall.ENOTDIR
			}
			for q := range tree {
				if strings.HasPrefix(q, p+"/") {
					return -1, syscall.ENOTEMPTY
				}
			}
		} else if n.dir {
			return -1, syscall.EISDIR
		}
		delete(tree, p)
		logm(logop{kind: "unlink", path: p, ino: n.id})
		return 0, 0
	case "mkdir":
		if e := parentErr(p); e != 0 {
			return -1, e
		}
		if tree[p] != nil {
			return -1, syscall.EEXIST
		}
		n := newInode(uint32(a.A))
		n.dir = true
		tree[p] = n
		logm(logop{kind: "mkdir", path: p, ino: n.id, mode: uint32(a.A)})
		return 0, 0
	case "rename":
		q := at(int(a.A), a.Path2)
		if e := parentErr(p); e != 0 {
			return -1, e
		}
		if e := parentErr(q); e != 0 {
			return -1, e
		}
		n := tree[p]
		if n == nil {
			return -1, syscall.ENOENT
		}
		if o := tree[q]; o != nil && o.dir && !n.dir {
			return -1, syscall.EISDIR
		}
		delete(tree, p)
		tree[q] = n
		if n.dir {
			for x, y := range tree {
				if strings.HasPrefix(x, p+"/") {
					delete(tree, x)
					tree[q+x[len(p):]] = y
				}
			}
		}
		logm(logop{kind: "rename", path: p, path2: q, ino: n.id})
		return 0, 0
	case "link":
		q := at(int(a.A), a.Path2)
		n := tree[p]
		if n == nil {
			return -1, syscall.ENOENT
		}
		if tree[q] != nil {
			return -1, syscall.EEXIST
		}
		tree[q] = n
		logm(logop{kind: "link", path: q, ino: n.id})
		return 0, 0
	case "symlink":
		q := at(a.Fd, a.Path2)
		if tree[q] != nil {
			return -1, syscall.EEXIST
		}
		n := newInode(0777)
		n.link = a.Path
		tree[q] = n
		logm(logop{kind: "symlink", path: q, ino: n.id, data: []byte(a.Path)})
		return 0, 0
	case "readlink":
		n := tree[p]
		if n == nil {
			return -1, syscall.ENOENT
		}
		if n.link == "" {
			return -1, syscall.EINVAL
		}
		return int64(copy(a.P, n.link)), 0
	case "ftruncate", "truncate":
		var n *inode
		if a.Op == "ftruncate" {
			h := fds[a.Fd]
			if h == nil {
				return -1, syscall.EBADF
			}
			n = h.ino
			h.wrote = true
		} else {
			_, m, err := resolve(p)
			if err != nil {
				return -1, err.(syscall.Errno)
			}
			if m == nil {
				return -1, syscall.ENOENT
			}
			n = m
		}
		trunc(n, a.A)
		logm(logop{kind: "trunc", path: p, ino: n.id, off: a.A})
		return 0, 0
	case "fsync":
		h := fds[a.Fd]
		if h == nil {
			return -1, syscall.EBADF
		}
		for i := range oplog {
			if h.ino.dir {
				if path.Dir(oplog[i].path) == h.path && oplog[i].kind != "write" && oplog[i].kind != "trunc" {
					oplog[i].synced = true
				}
			} else if oplog[i].ino == h.ino.id {
				oplog[i].synced = true
			}
		}
		h.ino.base = h.ino.data
		return 0, 0
	case "sync":
		for i := range oplog {
			oplog[i].synced = true
		}
		return 0, 0
	case "chmod", "fchmod", "utimes", "chown", "fchown":
		var n *inode
		if a.Op[0] == 'f' {
			h := fds[a.Fd]
			if h == nil {
				return -1, syscall.EBADF
			}
			n = h.ino
		} else {
			var err error
			if p, n, err = resolve(p); err != nil {
				return -1, err.(syscall.Errno)
			}
			if n == nil {
				return -1, syscall.ENOENT
			}
		}
		switch a.Op {
		case "chmod":
			n.mode = uint32(a.A) & 07777
		case "fchmod":
			n.mode = uint32(a.A) & 07777
		case "utimes":
			n.mtime = wall()
		}
		logm(logop{kind: strings.TrimPrefix(a.Op, "f"), path: p, ino: n.id, mode: n.mode})
		return 0, 0
	case "flock", "fallocate":
		return 0, 0
	case "getcwd":
		b := append([]byte(cwd), 0)
		if len(a.P) < len(b) {
			return -1, syscall.ERANGE
		}
		return int64(copy(a.P, b)), 0
	case "chdir":
		n := tree[p]
		if n == nil {
			return -1, syscall.ENOENT
		}
		if !n.dir {
			return -1, syscall.ENOTDIR
		}
		cwd = p
		return 0, 0
	case "dup":
		h := fds[a.Fd]
		if h == nil {
			return -1, syscall.EBADF
		}
		return newFd(h), 0
	case "fcntl":
		h := fds[a.Fd]
		if h == nil {
			return -1, syscall.EBADF
		}
		switch a.A {
		case syscall.F_GETFL:
			return int64(h.flags), 0
		case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
			return newFd(h), 0
		}
		return 0, 0
	case "getdents":
		return getdents(a)
	case "mmap":
		return -1, syscall.ENODEV
	case "sendfile", "splice", "copyrange":
		return -1, syscall.ENOSYS
	}
	return -1, syscall.ENOSYS
}

func trunc(n *inode, size int64) {
	d := make([]byte, size)
	copy(d, n.data)
	n.data = d
}

func newFd(h *handle) int64 {
	fd := 3
	for fds[fd] != nil {
		fd++
	}
	fds[fd] = h
	if len(fds) > MaxOpen {
		MaxOpen = len(fds)
	}
	return int64(fd)
}

// ghost is the file that seems to exist at a path where there is none.
func ghost(p string) *inode {
	if cfg.Ghost == "" || p == "" || tree[p] != nil {
		return nil
	}
	for _, x := range cfg.GhostExcept {
		if x == p {
			return nil
		}
	}
	for _, x := range []string{"/etc/", "/usr/", "/proc/", "/sys/", "/dev/"} {
		if strings.HasPrefix(p, x) {
			return nil
		}
	}
	n := ghosts[p]
	if n == nil {
		n = newInode(0644)
		n.data = []byte(cfg.Ghost)
		n.base = n.data
		ghosts[p] = n
	}
	return n
}

func open(p string, flags int, mode uint32) (int64, syscall.Errno) {
	if p == "" {
		return -1, syscall.ENOENT
	}
	if d := devices[p]; d != 0 {
		how := "r"
		if flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
			how = "w"
		}
		Opened = append(Opened, how+" "+p)
		n := newInode(0666)
		n.dev = true
		return newFd(&handle{ino: n, path: p, flags: flags, dev: d}), 0
	}
	q, n, err := resolve(p)
	if g := ghost(p); n == nil && g != nil && flags&(syscall.O_CREAT|syscall.O_WRONLY|syscall.O_RDWR|syscall.O_DIRECTORY) == 0 {
		Ghosts++
		return newFd(&handle{ino: g, path: p, flags: flags}), 0
	}
	if err != nil {
		return -1, err.(syscall.Errno)
	}
	acc := flags & (syscall.O_WRONLY | syscall.O_RDWR)
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return -1, syscall.ENOENT
		}
		n = newInode(mode)
		tree[q] = n
		logm(logop{kind: "create", path: q, ino: n.id, mode: mode})
	} else {
		if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
			return -1, syscall.EEXIST
		}
		if n.dir && acc != 0 {
			return -1, syscall.EISDIR
		}
		if !n.dir && flags&syscall.O_DIRECTORY != 0 {
			return -1, syscall.ENOTDIR
		}
		if acc != 0 && n.mode&0200 == 0 {
			return -1, syscall.EACCES
		}
		if acc != syscall.O_WRONLY && n.mode&0400 == 0 {
			return -1, syscall.EACCES
		}
		if flags&syscall.O_TRUNC != 0 && acc != 0 && len(n.data) > 0 {
			trunc(n, 0)
			logm(logop{kind: "trunc", path: q, ino: n.id, off: 0})
		}
	}
	how := "r"
	if acc != 0 {
		how = "w"
		n.base = nil
	}
	Opened = append(Opened, how+" "+q)
	return newFd(&handle{ino: n, path: q, flags: flags}), 0
}

func fill(st *syscall.Stat_t, n *inode) {
	*st = syscall.Stat_t{Ino: uint64(n.id), Nlink: 1, Size: int64(len(n.data)), Blksize: 4096}
	st.Mode = n.mode & 0777
	if n.dev {
		st.Mode |= syscall.S_IFCHR
		return
	}
	switch {
	case n.dir:
		st.Mode |= syscall.S_IFDIR
	case n.link != "":
		st.Mode |= syscall.S_IFLNK
	default:
		st.Mode |= syscall.S_IFREG
	}
	st.Mtim.Sec, st.Mtim.Nsec = mtime(n)/1e9, mtime(n)%1e9
}

func getdents(a *syscall.SimArgs) (int64, syscall.Errno) {
	h := fds[a.Fd]
	if h == nil || !h.ino.dir {
		return -1, syscall.ENOTDIR
	}
	var names []string
	for q := range tree {
		if q != "/" && path.Dir(q) == h.path {
			names = append(names, q)
		}
	}
	sort.Strings(names)
	n := 0
	for h.dirPos < len(names) {
		q := names[h.dirPos]
		b := path.Base(q)
		l := (19 + len(b) + 1 + 7) &^ 7
		if n+l > len(a.P) {
			break
		}
		e := a.P[n : n+l]
		for i := range e {
			e[i] = 0
		}
		e[0] = byte(tree[q].id)
		e[16], e[17] = byte(l), byte(l>>8)
		e[18] = syscall.DT_REG
		if tree[q].dir {
			e[18] = syscall.DT_DIR
		}
		copy(e[19:], b)
		n += l
		h.dirPos++
	}
	return int64(n), 0
}

func console(a *syscall.SimArgs) (int64, syscall.Errno) {
	switch a.Op {
	case "write":
		k := "1"
		if a.Fd == 2 {
			k = "2"
		}
		v := faults("console", k, false)
		OpCount["console "+k]++
		simrt.Note("console" + k)
		if v.err != 0 {
			ConsoleFaults++
			return -1, v.err
		}
		b := a.P
		if v.short >= 0 && len(b) > v.short {
			b = b[:v.short]
			ConsoleFaults++
		}
		if len(Console[a.Fd]) < 1<<22 {
			Console[a.Fd] = append(Console[a.Fd], b...)
		}
		return int64(len(b)), 0
	case "read":
		n := copy(a.P, cfg.Stdin)
		cfg.Stdin = cfg.Stdin[n:]
		return int64(n), 0
	case "fstat":
		*a.St = syscall.Stat_t{Mode: syscall.S_IFIFO | 0600}
		switch cfg.Std {
		case "tty":
			*a.St = syscall.Stat_t{Mode: syscall.S_IFCHR | 0620, Rdev: 0x8801}
		case "null":
			*a.St = syscall.Stat_t{Mode: syscall.S_IFCHR | 0666, Rdev: 0x103}
		case "file":
			*a.St = syscall.Stat_t{Mode: syscall.S_IFREG | 0644, Size: int64(len(cfg.Stdin))}
		case "socket":
			*a.St = syscall.Stat_t{Mode: syscall.S_IFSOCK | 0600}
		}
		return 0, 0
	case "close":
		return 0, 0
	case "fcntl":
		return 0, 0
	}
	return -1, syscall.EINVAL
}

// Peek returns the content of a file as the running system would read it.
func Peek(p string) ([]byte, bool) {
	_, n, err := resolve(abs(p))
	if err != nil || n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// Tree is the current (volatile) content.
func Tree() map[string]Entry { return snapshot(tree) }

func snapshot(t map[string]*inode) map[string]Entry {
	r := map[string]Entry{}
	for p, n := range t {
		r[p] = Entry{Dir: n.dir, Link: n.link, Mode: n.mode, Data: append([]byte(nil), n.data...), Time: n.mtime}
	}
	return r
}

// OpenHandles lists the handles that have not been closed.
func OpenHandles() []string {
	var r []string
	for _, h := range fds {
		r = append(r, h.path)
	}
	sort.Strings(r)
	return r
}

// Unsynced is the number of logged changes that are not durable yet.
func Unsynced() int {
	n := 0
	for _, o := range oplog {
		if !o.synced {
			n++
		}
	}
	return n
}

// Durable returns the tree found after power returned. mode: "kill" keeps everything, "none" loses all unsynced
// changes, "prefix" keeps the first half (by seed) of the unsynced changes, "subset" an arbitrary subset with torn writes.
func Durable(mode string, seed uint64) map[string]Entry {
	if mode == "kill" {
		return Tree()
	}
	t := map[string]*inode{}
	byID := map[int]*inode{}
	for p, e := range initial {
		n := &inode{id: inoOf[p], dir: e.Dir, link: e.Link, mode: e.Mode, data: append([]byte(nil), e.Data...), mtime: e.Time}
		t[p] = n
		byID[n.id] = n
	}
	for p, id := range inoOf {
		if t[p] == nil {
			t[p] = &inode{id: id, dir: true, mode: 0755}
			byID[id] = t[p]
		}
	}
	rs := seed
	rnd := func(n int) int {
		rs += 0x9e3779b97f4a7c15
		z := rs
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return int((z ^ (z >> 31)) % uint64(n))
	}
	cut := len(oplog)
	if mode == "prefix" {
		cut = rnd(len(oplog) + 1)
	}
	for i, o := range oplog {
		keep := o.synced
		switch mode {
		case "prefix":
			keep = keep || i < cut
		case "subset":
			keep = keep || rnd(3) > 0
		}
		if !keep {
			continue
		}
		n := byID[o.ino]
		switch o.kind {
		case "create", "mkdir", "symlink":
			m := &inode{id: o.ino, mode: o.mode, dir: o.kind == "mkdir"}
			if o.kind == "symlink" {
				m.link = string(o.data)
			}
			t[o.path] = m
			byID[o.ino] = m
		case "write":
			if n == nil {
				continue
			}
			d := o.data
			off := o.off
			if mode == "subset" && !o.synced {
				switch rnd(4) {
				case 0: // torn: only a part of it
					d = d[:rnd(len(d)+1)]
				case 1: // blocks missing: zeros where data should be
					d = append([]byte(nil), d...)
					if len(d) > 0 {
						s := rnd(len(d))
						for k := s; k < len(d) && k < s+512; k++ {
							d[k] = 0
						}
					}
				}
			}
			if need := off + int64(len(d)); int64(len(n.data)) < need {
				trunc(n, need)
			}
			copy(n.data[off:], d)
		case "trunc":
			if n != nil {
				trunc(n, o.off)
			}
		case "chmod":
			if n != nil {
				n.mode = o.mode
			}
		case "unlink":
			delete(t, o.path)
		case "rename":
			if m := t[o.path]; m != nil {
				delete(t, o.path)
				t[o.path2] = m
			} else if n != nil {
				t[o.path2] = n
			}
		case "link":
			if n != nil {
				t[o.path] = n
			}
		}
	}
	return snapshot(t)
}
