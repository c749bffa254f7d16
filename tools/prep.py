#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.  usage: prep.py [--race]
Prints the path of the binary.  Everything lands in /verif/build/<hash of all sources>/."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
race = "--race" in sys.argv
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
env.pop("GOFLAGS_EXTRA")
env["GOTELEMETRY"] = "off"
for k in ("HOME",): env.setdefault(k, "/root")
if "GOCACHE" not in env and not os.path.isdir(env["HOME"]): env["GOCACHE"] = V + "/build/gocache"

def die(m):
    sys.stderr.write("prep: " + m + "\n"); sys.exit(3)

def sh(cmd, cwd=None, e=env):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: die(" ".join(cmd) + "\n" + r.stdout[-8000:])
    return r.stdout

def sources(root, pred):
    out = []
    for d, dn, fn in os.walk(root):
        dn[:] = sorted(x for x in dn if not x.startswith(".") and x not in ("testdata", "vendor", "__pycache__"))
        for f in sorted(fn):
            if pred(f): out.append(os.path.join(d, f))
    return out

h = hashlib.sha256()
gov = sh(["go", "version"])
h.update(gov.encode())
for f in sources(REPO, lambda f: (f.endswith((".go", ".s")) and not f.endswith("_test.go")) or f in ("go.mod", "go.sum")) + \
         sources(V + "/sim", lambda f: True) + sources(V + "/tools", lambda f: f in ("overlay.py", "prep.py", "main.go")):
    h.update(f.encode() + b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
hid = h.hexdigest()[:16]
BD = f"{V}/build/{hid}"
os.makedirs(V + "/build", exist_ok=True)
lock = open(V + "/build/lock", "w")
fcntl.flock(lock, fcntl.LOCK_EX)
binp = BD + ("/sim-race" if race else "/sim")
if os.path.exists(binp):
    os.utime(BD); print(binp); sys.exit(0)
# forget old builds
old = sorted((d for d in os.listdir(V + "/build") if re.fullmatch("[0-9a-f]{16}", d) and d != hid), key=lambda d: os.path.getmtime(f"{V}/build/{d}"))
for d in old[:-3]: shutil.rmtree(f"{V}/build/{d}", ignore_errors=True)

if not os.path.exists(BD + "/ready"):
    shutil.rmtree(BD, ignore_errors=True)
    os.makedirs(BD)
    sh([sys.executable, V + "/tools/overlay.py", BD + "/overlay"])
    instr = BD + "/instr"
    sh(["go", "build", "-o", instr, "."], cwd=V + "/tools/instr")
    mods = {}
    for line in sh(["go", "list", "-mod=readonly", "-deps", "-f", "{{with .Module}}{{.Path}} {{.Version}} {{.Dir}}{{end}}", "./..."], cwd=REPO, e=dict(env, GOFLAGS="-mod=readonly")).splitlines():
        p = line.split()
        if len(p) == 3: mods[p[0]] = (p[1], p[2])
    RT = "goslicesim/simrt"
    sh([instr, REPO, BD + "/goslice", RT, "cmd/goslice:goslicecmd"])
    shutil.copy(REPO + "/go.mod", BD + "/goslice/go.mod")
    rep = {"github.com/aligator/goslice": BD + "/goslice"}
    for m, d in (("github.com/aligator/go.clipper", "clipper"), ("github.com/hschendel/stl", "stl"), ("github.com/furstenheim/go-convex-hull-2d", "hull")):
        if m not in mods: continue
        sh([instr, mods[m][1], f"{BD}/{d}", RT])
        gm = mods[m][1] + "/go.mod"
        if os.path.exists(gm): shutil.copy(gm, f"{BD}/{d}/go.mod"); os.chmod(f"{BD}/{d}/go.mod", 0o644)
        else: open(f"{BD}/{d}/go.mod", "w").write(f"module {m}\n\ngo 1.14\n")
        rep[m] = f"{BD}/{d}"
    # failure switch in the polygon library
    cf = BD + "/clipper/clipper.go"
    s = open(cf).read()
    for n in ("1", "2"):
        s, k = re.subn(r"(clpr|c2)\.Execute" + n + r"\(", r"\1.execute" + n + "_(", s)
        if k == 0: die("clipper: no internal Execute" + n)
        s, k = re.subn(r"func \(c \*Clipper\) Execute" + n + r"\(", "func (c *Clipper) execute" + n + "_(", s)
        if k != 1: die("clipper: no Execute" + n)
    s += '''
func (c *Clipper) Execute1(clipType ClipType, subjFillType, clipFillType PolyFillType) (solution Paths, succeeded bool) {
	if simrt_.ClipFail() {
		return nil, false
	}
	return c.execute1_(clipType, subjFillType, clipFillType)
}

func (c *Clipper) Execute2(clipType ClipType, subjFillType, clipFillType PolyFillType) (polytree *PolyTree, succeeded bool) {
	if simrt_.ClipFail() {
		return nil, false
	}
	return c.execute2_(clipType, subjFillType, clipFillType)
}
'''
    open(cf, "w").write(s)
    sm = BD + "/simmod"
    shutil.copytree(V + "/sim", sm)
    gomod = "module goslicesim\n\ngo 1.25\n\nrequire github.com/aligator/goslice v0.0.0\n\n" + "".join(f"replace {m} => {d}\n" for m, d in sorted(rep.items()))
    open(sm + "/go.mod", "w").write(gomod)
    # the words the code knows: what it may look for in files and variables
    words = []
    for f in sources(REPO, lambda f: f.endswith(".go") and not f.endswith("_test.go")):
        t = re.sub(r"(?s)^import \(.*?^\)", "", open(f, encoding="utf-8", errors="ignore").read(), flags=re.M)
        words += re.findall(r'"([^"\\\n%]{2,40})"', t)
    words = sorted(set(w for w in words if "github.com" not in w and w.isprintable()))
    open(sm + "/simbin/words.go", "w", encoding="utf-8").write("package main\n\nfunc init() {\n\twords = []string{\n" + "".join("\t\t" + json.dumps(w, ensure_ascii=False) + ",\n" for w in words) + "\t}\n}\n")
    shutil.copy(REPO + "/go.sum", sm + "/go.sum")
    open(BD + "/ready", "w").write("")
cmd = ["go", "build", "-overlay", BD + "/overlay/overlay.json", "-trimpath", "-o", binp + ".tmp"]
e = dict(env, CGO_ENABLED="0")
if race:
    e["CGO_ENABLED"] = "1"
    cmd.append("-race")
sh(cmd + ["./simbin"], cwd=BD + "/simmod", e=e)
os.rename(binp + ".tmp", binp)
json.dump({"go": gov.strip(), "hash": hid}, open(BD + "/info.json", "w"))
print(binp)
