#!/usr/bin/env python3
"""Generates the `go build -overlay` replacements of the few Go standard library files that form the
simulator's seams.  Usage: overlay.py OUTDIR   (writes OUTDIR/*.go and OUTDIR/overlay.json)"""
import json, os, re, subprocess, sys
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
G = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip() + "/src"
rep = {}

def die(msg):
    sys.stderr.write("overlay: " + msg + "\n"); sys.exit(3)

def patch(f, subs, append=""):
    p = f"{G}/{f}"
    s = open(rep.get(p, p)).read()
    for a, b in subs:
        if s.count(a) < 1: die(f"anchor not found in {f}: {a!r}")
        s = s.replace(a, b, 1)
    o = os.path.join(os.path.abspath(out), f.replace("/", "_"))
    open(o, "w").write(s + append)
    rep[p] = o

def newfile(f, text):
    o = os.path.join(os.path.abspath(out), f.replace("/", "_"))
    open(o, "w").write(text)
    rep[f"{G}/{f}"] = o

# --- runtime: seeded randomness (map hash seeds, map iteration, select), bubbles, goroutine ids
patch("runtime/rand.go", [
 ("func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn {\n\t\treturn simRandNext()\n\t}\n"),
 ("func bootstrapRand() uint64 {\n", "func bootstrapRand() uint64 {\n\tif true {\n\t\tsimBoot += 0x9e3779b97f4a7c15\n\t\treturn simMix(simBoot)\n\t}\n"),
 ("\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n", "\tmp.cheaprand = uint32(bootstrapRand())\n\tmp.cheaprand64 = bootstrapRand()\n"),
])
patch("runtime/select.go", [("cheaprandn(uint32(norder + 1))", "simSelectRandn(uint32(norder + 1))")])
patch("runtime/proc.go", [("func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif simOn && gcphase == _GCoff {\n\t\treturn false\n\t}\n")])
patch("runtime/runtime2.go", [("\twaitReasonSynctestSelect:        true,\n",
 "\twaitReasonSynctestSelect:        true,\n\twaitReasonSelect: true,\n\twaitReasonChanReceive: true,\n\twaitReasonChanSend: true,\n"
 "\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n\twaitReasonSyncWaitGroupWait: true,\n\twaitReasonSemacquire: true,\n")])
patch("runtime/sema.go", [("func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif simOn {\n\t\treturn 1\n\t}\n")])
newfile("runtime/zz_sim.go", '''package runtime

var (
	simBoot  uint64
	simOn    bool
	simState uint64
)

//go:nosplit
func simMix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRandNext() uint64 {
	simState += 0x9e3779b97f4a7c15
	return simMix(simState)
}

func simSelectRandn(n uint32) uint32 {
	if simOn {
		return uint32((uint64(uint32(simRandNext())) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}

// SimSeed switches seeded runtime randomness on or off.
func SimSeed(on bool, seed uint64) { simState = seed; simOn = on }

// SimGoid returns the id of the running goroutine.
func SimGoid() uint64 { return getg().goid }

// SimBubble runs f in a synctest bubble; SimWait waits until every other goroutine of it is blocked.
func SimBubble(f func()) { synctestRun(f) }
func SimWait()           { synctestWait() }
''')

# --- what the machine looks like: processors, process number, host name (user numbers are those of the sandbox)
patch("runtime/debug.go", [("func NumCPU() int {\n", "func NumCPU() int {\n\tif SimCPUs > 0 {\n\t\treturn SimCPUs\n\t}\n"),
 ("\tif n <= 0 {\n\t\tunlock(&sched.lock)\n\t\treturn ret\n", "\tif n <= 0 {\n\t\tunlock(&sched.lock)\n\t\tif SimCPUs > 0 {\n\t\t\treturn SimCPUs\n\t\t}\n\t\treturn ret\n")],
 "\n// SimCPUs, when set, is the number of processors.\nvar SimCPUs int\n")
patch("os/exec.go", [("func Getpid() int { ", "func Getpid() int { if SimPid > 0 { return SimPid }; "), ("func Getppid() int { ", "func Getppid() int { if SimPid > 0 { return SimPid / 2 }; ")],
 "\n// SimPid, when set, is the number of the process.\nvar SimPid int\n")
patch("os/sys_linux.go", [("func hostname() (name string, err error) {\n", "func hostname() (name string, err error) {\n\tif SimHost != \"\" {\n\t\treturn SimHost, nil\n\t}\n")],
 "\n// SimHost, when set, is the name of the machine.\nvar SimHost string\n")

patch("os/env.go", [("\tv, _ := syscall.Getenv(key)\n\treturn v\n", "\tv, ok := syscall.Getenv(key)\n\tif !ok && SimEnv != nil {\n\t\tv = SimEnv(key)\n\t}\n\treturn v\n"),
 ("\treturn syscall.Getenv(key)\n}", "\tv, ok := syscall.Getenv(key)\n\tif !ok && SimEnv != nil {\n\t\treturn SimEnv(key), true\n\t}\n\treturn v, ok\n}")],
 "\n// SimEnv, when set, gives variables that are not set a value.\nvar SimEnv func(key string) string\n")

# --- time, os.Exit
patch("time/time.go", [("\tsec, nsec, mono := runtimeNow()\n", "\tsec, nsec, mono := runtimeNow()\n\tif SimNow != nil {\n\t\tsec, nsec, mono = SimNow(sec, nsec)\n\t\tmono += startNano\n\t}\n")],
 "\n// SimNow, when set, is the clock: wall time and monotonic reading.\nvar SimNow func(sec int64, nsec int32) (int64, int32, int64)\n")
patch("os/proc.go", [("func Exit(code int) {\n", "func Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n")],
 "\n// SimExit, when set, is called by Exit and must not return.\nvar SimExit func(code int)\n")

# --- system calls
def hook(ret, **kw):
    fields = ", ".join(f"{k}: {v}" for k, v in kw.items())
    return f"\tif SimSys != nil {{\n\t\tif h, n, e := SimSys(&SimArgs{{{fields}}}); h {{\n\t\t\t_, _ = n, e\n\t\t\t{ret}\n\t\t}}\n\t}}\n"
RN = "return int(n), e"; RE = "return e"
z = "syscall/zsyscall_linux_amd64.go"
subs = []
def fn(sig, ret, **kw):
    subs.append((sig + " {\n", sig + " {\n" + hook(ret, **kw)))
q = lambda s: '"' + s + '"'
fn("func faccessat(dirfd int, path string, mode uint32) (err error)", RE, Op=q("access"), Fd="dirfd", Path="path", A="int64(mode)")
fn("func faccessat2(dirfd int, path string, mode uint32, flags int) (err error)", RE, Op=q("access"), Fd="dirfd", Path="path", A="int64(mode)")
fn("func fchmodat(dirfd int, path string, mode uint32) (err error)", RE, Op=q("chmod"), Fd="dirfd", Path="path", A="int64(mode)")
fn("func fchmodat2(dirfd int, path string, mode uint32, flags int) (err error)", RE, Op=q("chmod"), Fd="dirfd", Path="path", A="int64(mode)")
fn("func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error)", RE, Op=q("link"), Fd="olddirfd", Path="oldpath", Path2="newpath", A="int64(newdirfd)")
fn("func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error)", RN, Op=q("open"), Fd="dirfd", Path="path", A="int64(flags)", B="int64(mode)")
fn("func readlinkat(dirfd int, path string, buf []byte) (n int, err error)", RN, Op=q("readlink"), Fd="dirfd", Path="path", P="buf")
fn("func symlinkat(oldpath string, newdirfd int, newpath string) (err error)", RE, Op=q("symlink"), Fd="newdirfd", Path="oldpath", Path2="newpath")
fn("func unlinkat(dirfd int, path string, flags int) (err error)", RE, Op=q("unlink"), Fd="dirfd", Path="path", A="int64(flags)")
fn("func utimensat(dirfd int, path string, times *[2]Timespec, flag int) (err error)", RE, Op=q("utimes"), Fd="dirfd", Path="path")
fn("func Getcwd(buf []byte) (n int, err error)", RN, Op=q("getcwd"), P="buf")
fn("func Chdir(path string) (err error)", RE, Op=q("chdir"), Path="path")
fn("func Fchdir(fd int) (err error)", RE, Op=q("fchdir"), Fd="fd")
fn("func Close(fd int) (err error)", RE, Op=q("close"), Fd="fd")
fn("func Dup(oldfd int) (fd int, err error)", RN, Op=q("dup"), Fd="oldfd")
fn("func Fallocate(fd int, mode uint32, off int64, len int64) (err error)", RE, Op=q("fallocate"), Fd="fd", A="off", B="len")
fn("func Fchmod(fd int, mode uint32) (err error)", RE, Op=q("fchmod"), Fd="fd", A="int64(mode)")
fn("func Fchownat(dirfd int, path string, uid int, gid int, flags int) (err error)", RE, Op=q("chown"), Fd="dirfd", Path="path")
fn("func Fchown(fd int, uid int, gid int) (err error)", RE, Op=q("fchown"), Fd="fd")
fn("func fcntl(fd int, cmd int, arg int) (val int, err error)", RN, Op=q("fcntl"), Fd="fd", A="int64(cmd)", B="int64(arg)")
fn("func Fdatasync(fd int) (err error)", RE, Op=q("fsync"), Fd="fd")
fn("func Flock(fd int, how int) (err error)", RE, Op=q("flock"), Fd="fd", A="int64(how)")
fn("func Fsync(fd int) (err error)", RE, Op=q("fsync"), Fd="fd")
fn("func Getdents(fd int, buf []byte) (n int, err error)", RN, Op=q("getdents"), Fd="fd", P="buf")
fn("func Mkdirat(dirfd int, path string, mode uint32) (err error)", RE, Op=q("mkdir"), Fd="dirfd", Path="path", A="int64(mode)")
fn("func Mknodat(dirfd int, path string, mode uint32, dev int) (err error)", RE, Op=q("mknod"), Fd="dirfd", Path="path", A="int64(mode)")
fn("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error)", RE, Op=q("rename"), Fd="olddirfd", Path="oldpath", Path2="newpath", A="int64(newdirfd)")
fn("func Seek(fd int, offset int64, whence int) (off int64, err error)", "return n, e", Op=q("seek"), Fd="fd", A="offset", B="int64(whence)")
fn("func Fstat(fd int, stat *Stat_t) (err error)", RE, Op=q("fstat"), Fd="fd", St="stat")
fn("func fstatat(fd int, path string, stat *Stat_t, flags int) (err error)", RE, Op=q("stat"), Fd="fd", Path="path", St="stat", A="int64(flags)")
fn("func Fstatfs(fd int, buf *Statfs_t) (err error)", RE, Op=q("fstatfs"), Fd="fd", Sf="buf")
fn("func Statfs(path string, buf *Statfs_t) (err error)", RE, Op=q("statfs"), Path="path", Sf="buf")
fn("func Ftruncate(fd int, length int64) (err error)", RE, Op=q("ftruncate"), Fd="fd", A="length")
fn("func Truncate(path string, length int64) (err error)", RE, Op=q("truncate"), Path="path", A="length")
fn("func sendfile(outfd int, infd int, offset *int64, count int) (written int, err error)", RN, Op=q("sendfile"), Fd="outfd", A="int64(infd)")
fn("func Splice(rfd int, roff *int64, wfd int, woff *int64, len int, flags int) (n int64, err error)", "return n, e", Op=q("splice"), Fd="rfd", A="int64(wfd)")
fn("func mmap(addr uintptr, length uintptr, prot int, flags int, fd int, offset int64) (xaddr uintptr, err error)", "return uintptr(n), e", Op=q("mmap"), Fd="fd")
fn("func Sync()", "return", Op=q("sync"))
for name, v in ("Getuid", "uid"), ("Geteuid", "euid"), ("Getgid", "gid"), ("Getegid", "egid"):
    subs.append((f"func {name}() ({v} int) {{\n", f"func {name}() ({v} int) {{\n\tif SimUid > 0 {{\n\t\treturn SimUid - 1\n\t}}\n"))
subs.append(("func Sysinfo(info *Sysinfo_t) (err error) {\n", "func Sysinfo(info *Sysinfo_t) (err error) {\n\tif SimUid > 0 {\n\t\ts := SimSalt\n\t\t*info = Sysinfo_t{Uptime: int64(1000 + s%1e7), Totalram: 1 << (30 + s%8), Freeram: 1 << (20 + s>>8%12), Procs: uint16(40 + s>>16%900), Unit: 1}\n\t\tinfo.Loads[0] = s >> 24 % (40 << 16)\n\t\treturn nil\n\t}\n"))
subs.append(("func Getrusage(who int, rusage *Rusage) (err error) {\n", "func Getrusage(who int, rusage *Rusage) (err error) {\n\tif SimUid > 0 {\n\t\ts := SimSalt\n\t\t*rusage = Rusage{Maxrss: int64(20000 + s%1e6)}\n\t\trusage.Utime.Usec, rusage.Stime.Usec = int64(s%1e6), int64(s>>20%1e6)\n\t\treturn nil\n\t}\n"))
subs.append(("func Times(tms *Tms) (ticks uintptr, err error) {\n", "func Times(tms *Tms) (ticks uintptr, err error) {\n\tif SimUid > 0 {\n\t\t*tms = Tms{Utime: int64(SimSalt % 1000)}\n\t\treturn uintptr(SimSalt % 1e7), nil\n\t}\n"))
subs.append(("func Uname(buf *Utsname) (err error) {\n", "func Uname(buf *Utsname) (err error) {\n\tif SimUid > 0 {\n\t\t*buf = Utsname{}\n\t\tbuf.Sysname = [65]int8{'L', 'i', 'n', 'u', 'x'}\n\t\tbuf.Release = [65]int8{'0' + int8(SimSalt%9), '.', '1'}\n\t\tbuf.Nodename = [65]int8{'n', 'a' + int8(SimSalt%26)}\n\t\treturn nil\n\t}\n"))
# variables named n/err clash in functions with named results n: rename inside hook scope is fine (shadowing)
patch(z, subs)
patch("syscall/syscall_unix.go", [
 (s + " {\n", s + " {\n" + hook(RN, **kw)) for s, kw in [
  ("func Read(fd int, p []byte) (n int, err error)", dict(Op=q("read"), Fd="fd", P="p")),
  ("func Write(fd int, p []byte) (n int, err error)", dict(Op=q("write"), Fd="fd", P="p")),
  ("func Pread(fd int, p []byte, offset int64) (n int, err error)", dict(Op=q("pread"), Fd="fd", P="p", A="offset")),
  ("func Pwrite(fd int, p []byte, offset int64) (n int, err error)", dict(Op=q("pwrite"), Fd="fd", P="p", A="offset")),
 ]], '''
// SimArgs describes one system call handed to the simulator.
type SimArgs struct {
	Op          string
	Fd          int
	Path, Path2 string
	A, B        int64
	P           []byte
	St          *Stat_t
	Sf          *Statfs_t
}

// SimUid, when set, is one more than the number of the user and group; SimSalt makes the load of the machine.
var (
	SimUid  int
	SimSalt uint64
)

// SimSys, when set, may handle a system call instead of the kernel.
var SimSys func(*SimArgs) (handled bool, n int64, err error)
''')
# writev (net.Buffers / os does not use it) goes through internal/poll; covered by ENOSYS in unix below where needed.
def uhook(ret, **kw):
    return hook(ret, **kw).replace("SimSys", "syscall.SimSys").replace("&SimArgs", "&syscall.SimArgs")
def upatch(f, items):
    patch(f, [(s + " {\n", s + " {\n" + uhook(r, **kw)) for s, r, kw in items])
u = "internal/syscall/unix/"
def sig(f, name):
    s = open(f"{G}/{f}").read()
    m = re.search(r"^func " + name + r"\([^\n]*$", s, re.M)
    if not m: die(f"no func {name} in {f}")
    return m.group(0)[:-2]
at = u + "at.go"
def par(s):  # parameter names of a signature line
    return re.findall(r"(\w+) [\[\]\w\*\.]+", s[s.index("(")+1:s.index(")")])
items = []
for name, op, ret in [("Unlinkat","unlink",RE),("Openat","open",RN),("Readlinkat","readlink",RN),("Mkdirat","mkdir",RE),("Fchownat","chown",RE),("Renameat","rename",RE),("Linkat","link",RE),("Symlinkat","symlink",RE)]:
    s = sig(at, name)
    kw = dict(Op=q(op))
    if name == "Unlinkat": kw.update(Fd="dirfd", Path="path", A="int64(flags)")
    elif name == "Openat": kw.update(Fd="dirfd", Path="path", A="int64(flags)", B="int64(perm)")
    elif name == "Readlinkat": kw.update(Fd="dirfd", Path="path", P="buf")
    elif name == "Mkdirat": kw.update(Fd="dirfd", Path="path", A="int64(mode)")
    elif name == "Fchownat": kw.update(Fd="dirfd", Path="path")
    elif name == "Renameat": kw.update(Fd="olddirfd", Path="oldpath", Path2="newpath", A="int64(newdirfd)")
    elif name == "Linkat": kw.update(Fd="olddirfd", Path="oldpath", Path2="newpath", A="int64(newdirfd)")
    elif name == "Symlinkat": kw.update(Fd="newdirfd", Path="oldpath", Path2="newpath")
    items.append((s, ret, kw))
upatch(at, items)
upatch(u + "at_fstatat.go", [(sig(u + "at_fstatat.go", "Fstatat"), RE, dict(Op=q("stat"), Fd="dirfd", Path="path", St="stat", A="int64(flags)"))])
upatch(u + "copy_file_range_unix.go", [(sig(u + "copy_file_range_unix.go", "CopyFileRange"), RN, dict(Op=q("copyrange"), Fd="rfd", A="int64(wfd)"))])
upatch(u + "fcntl_unix.go", [(sig(u + "fcntl_unix.go", "Fcntl"), RN, dict(Op=q("fcntl"), Fd="fd", A="int64(cmd)", B="int64(arg)"))])
json.dump({"Replace": rep}, open(os.path.join(out, "overlay.json"), "w"), indent=0)
