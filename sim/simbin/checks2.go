package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"

	"goslicesim/simboot"
	"goslicesim/simfs"
	"goslicesim/simrt"
)

// ---- C07

func genConcurrent(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	tasks := r.I(2, 2, 2, 3, 4)
	share := r.P(1, 2)
	m, o := plainJob(r)
	p.addJob(m, o)
	same := r.P(1, 3) // all slice the same model
	near := r.P(1, 2)
	var total int64
	for t := 0; t < tasks; t++ {
		for k, n := 0, r.I(1, 1, 1, 2); k < n; k++ {
			run := Run{Task: t, Kind: "process"}
			if same && near && len(p.Runs) > 0 { // the same model, one option differs
				p.Opts = append(p.Opts, tweak(r, o))
				run.Opt = len(p.Opts) - 1
			}
			if !same && len(p.Runs) > 0 {
				m2, o2 := plainJob(r)
				run.Model, run.Opt = p.addJob(m2, o2)
				if share {
					p.Opts = p.Opts[:len(p.Opts)-1]
					run.Opt = 0
				} else if r.P(1, 4) {
					p.Opts[run.Opt] = clone(p.Opts[0])
				}
			}
			id := len(p.Runs)
			run.In, run.Out = fmt.Sprintf("/in/m%d.stl", id), fmt.Sprintf("/out/p%d.gcode", id)
			if same && r.P(1, 2) {
				run.In = "/in/m0.stl"
			}
			if share && run.Opt == 0 {
				run.OptKey = "shared"
			}
			p.Runs = append(p.Runs, run)
			total += c.goldOf(p, id).Rec.NSteps
		}
	}
	if r.P(1, 2) {
		p.Events = pointSwitches(r, tasks)
	} else {
		p.Events = switches(r, total)
		if r.P(1, 3) {
			p.Events = append(p.Events, pointSwitches(r, tasks)...)
		}
	}
	if r.P(1, 3) {
		p.World.Pick = r.U() | 1
	}
}

func genC07(c *Ctx, r *Rng, p *Plan) {
	genConcurrent(c, r, p)
	for i := range p.Runs {
		if r.P(1, 6) {
			p.Runs[i].Inject = []Inject{genStageFailure(r)}
		} else if r.P(1, 12) {
			p.Runs[i].NoFile = true
			p.Runs[i].In = fmt.Sprintf("/in/none%d.stl", i)
		}
	}
	p.Race = c.raceBin != "" && r.P(1, 5)
}

func genStageFailure(r *Rng) Inject {
	switch r.N(8) {
	case 0:
		return Inject{Where: "reader", How: r.S("before", "after")}
	case 1:
		return Inject{Where: "optimizer", How: r.S("before", "after")}
	case 2:
		return Inject{Where: "slicer", How: r.S("before", "after")}
	case 3, 4:
		return Inject{Where: "modifier", At: r.N(6), How: r.S("before", "after")}
	case 5:
		return Inject{Where: "modifier", At: r.N(7), How: "insert"}
	case 6:
		return Inject{Where: "generator", How: r.S("before", "after")}
	}
	return Inject{Where: "writer", How: "before"}
}

func checkC07(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if !j.usable() || !j.alive() {
		return j.list
	}
	if rec.Switches <= len(p.Runs) {
		c.stats.Discarded++
	}
	for i := range p.Runs {
		s := p.result(rec, i)
		if !s.Done {
			j.add("lost", "run %d did not end", i)
			continue
		}
		if s.ErrNo > 0 { // its own plug-in failed
			j.untouched(i, "a stage failed")
			continue
		}
		if s.Injected > 0 {
			j.add("error", "run %d: a plug-in failed, the run reports %q", i, s.Err)
			continue
		}
		g := c.goldOf(p, i)
		if len(p.Runs[i].Inject) > 0 && !g.Ok {
			continue
		}
		j.exact(i, g, true)
	}
	if p.Race {
		j.probe("runs under the race detector")
		for _, x := range races(rec.Stderr) {
			j.add("race", "unsynchronised access: %s", x)
			break
		}
	}
	return j.list
}

// races extracts the data races whose accesses are not those of the simulator.
func races(s string) []string {
	var out []string
	for _, blk := range strings.Split(s, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		var tops []string
		sim := false
		lines := strings.Split(blk, "\n")
		for i, l := range lines {
			if !(strings.Contains(l, "by goroutine") || strings.Contains(l, "by main goroutine")) || strings.HasPrefix(l, "Goroutine") {
				continue
			}
			what := strings.Fields(strings.TrimSpace(l))
			for k := i + 1; k < len(lines) && strings.TrimSpace(lines[k]) != ""; k += 2 {
				f := strings.TrimSpace(lines[k])
				if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "sync/atomic.") || strings.HasPrefix(f, "internal/") {
					continue
				}
				for n := k; n < len(lines) && strings.TrimSpace(lines[n]) != ""; n += 2 { // who called the library function
					g := strings.TrimSpace(lines[n])
					if strings.HasPrefix(g, "main.optFP(") { // the caller looks at its own options
						break
					}
					if strings.HasPrefix(g, "goslicesim/") || strings.HasPrefix(g, "main.") {
						sim = true
					}
					if strings.HasPrefix(g, "github.com/") {
						break
					}
				}
				at := ""
				if k+1 < len(lines) {
					at = strings.TrimSpace(lines[k+1])
					if x := strings.LastIndex(at, " +0x"); x > 0 {
						at = at[:x]
					}
					at = at[strings.LastIndex(at, "/")+1:]
				}
				tops = append(tops, strings.ToLower(what[0])+" in "+f+" ("+at+")")
				break
			}
		}
		if sim || len(tops) < 2 {
			continue
		}
		sort.Strings(tops)
		out = append(out, strings.Join(tops, " / "))
	}
	sort.Strings(out)
	return out
}

// ---- C08

func genC08(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	m, o := plainJob(r)
	if r.P(1, 2) {
		m, o = genJob(r, 3, 5)
	}
	p.addJob(m, o)
	lt := o.um("layer-thickness", 200)
	if r.P(1, 4) {
		p.Kind = "stages"
		p.Models = append(p.Models, genModel(r, lt, r.R(2, 5)))
		ops := func(k string, in string) []string {
			l := []string{"read " + k + " " + in, "optimize " + k, "slice " + k}
			for i := 0; i < 6; i++ {
				l = append(l, fmt.Sprintf("modify %s %d", k, i))
			}
			return append(l, "generate "+k, "write "+k+" /out/s"+k+".gcode")
		}
		a, b := ops("0", "/in/m0.stl"), ops("1", "/in/m1.stl")
		var seq []string
		for len(a)+len(b) > 0 {
			if len(b) == 0 || len(a) > 0 && r.P(1, 2) {
				seq, a = append(seq, a[0]), a[1:]
			} else {
				seq, b = append(seq, b[0]), b[1:]
			}
		}
		p.Runs = []Run{{Kind: "stages", In: "/in/m0.stl", Out: "/out/s0.gcode", Args: seq}, {Kind: "process", Model: 1, In: "/in/m1.stl", Out: "/out/later.gcode", Task: 1}}
		// the second run only brings its file; it is made later by the check
		return
	}
	p.Kind = "history"
	n := r.R(2, 5)
	derived := r.P(1, 4) // no output path is configured
	for i := 0; i < n; i++ {
		run := Run{Kind: "process", Inst: 1, In: fmt.Sprintf("/in/m%d.stl", i), Out: fmt.Sprintf("/out/p%d.gcode", i)}
		if r.P(1, 4) {
			run.Out = "/out/p0.gcode"
		}
		if derived || r.P(1, 8) {
			run.Out = ""
		}
		if i > 0 && r.P(2, 3) {
			p.Models = append(p.Models, genModel(r, lt, r.R(2, 6)))
			run.Model = len(p.Models) - 1
		}
		switch r.N(7) {
		case 0:
			run.NoFile = true
			run.In = fmt.Sprintf("/in/none%d.stl", i)
		case 1:
			if i+1 < n {
				p.Faults = append(p.Faults, simfs.Fault{Op: r.S("open", "read"), Path: run.In, Nth: r.R(1, 2), Count: -1, Err: r.S("EIO", "EACCES")})
			}
		case 2:
			if i+1 < n && run.Out != "" {
				p.Faults = append(p.Faults, simfs.Fault{Op: r.S("open", "write"), Path: run.Out, Nth: 1, Count: 1, Err: r.S("EIO", "ENOSPC")})
			}
		case 3:
			if i+1 < n {
				mm := clone(p.Models[run.Model])
				mm.Cut = r.R(20, 200)
				p.Models = append(p.Models, mm)
				run.Model = len(p.Models) - 1
			}
		}
		p.Runs = append(p.Runs, run)
	}
	if r.P(1, 3) && len(p.Faults) == 0 { // every job comes in the same file
		for i := range p.Runs {
			if !p.Runs[i].NoFile {
				p.Runs[i].In = "/in/m0.stl"
				if i > 0 {
					p.Runs[i].Replace = r.S("rewritten", "replaced", "rewritten, same time", "replaced, same time")
					switch r.N(3) {
					case 0: // a file of the same size
						mm := clone(p.Models[0])
						for k := range mm.Bodies {
							mm.Bodies[k].W += 1000 * r.R(1, 3)
							mm.Bodies[k].H += lt * r.R(0, 2)
						}
						p.Models = append(p.Models, mm)
						p.Runs[i].Model = len(p.Models) - 1
					case 1: // one that was there before
						p.Runs[i].Model = p.Runs[r.N(i)].Model
					}
				}
			}
		}
		if p.Runs[0].NoFile {
			p.Runs[0].NoFile, p.Runs[0].In = false, "/in/m0.stl"
		}
	}
	// plug-ins of the instance fail at some call
	var inj []Inject
	for i, k := 0, r.I(0, 1, 1, 2); i < k; i++ {
		x := genStageFailure(r)
		x.Call = r.R(1, n-1)
		inj = append(inj, x)
	}
	if r.P(1, 4) { // a renderer or pattern fails in the middle of a program
		inj = append([]Inject{{Where: "generator", How: "custom", Val: "pre,skirt,brim,perimeter,support,supportInterface,bottom,top,infill,post"}}, inj...)
		inj = append(inj, Inject{Where: r.S("renderer", "pattern"), At: r.N(10), Layer: r.N(6), How: r.S("before", "after"), Call: 1})
	} else if r.P(1, 4) {
		g := c.goldOf(p, 0)
		if len(g.Rec.ClipSites) > 0 && len(inj) == 0 && len(p.Faults) == 0 && !p.Runs[0].NoFile {
			p.Clip = []simrt.ClipRule{{Nth: r.R(1, len(g.Rec.ClipSites)), Count: 1}}
		}
	}
	for i := range p.Runs {
		p.Runs[i].Inject = inj
	}
	if !customOf(p) && len(p.Clip) == 0 && r.P(1, 2) { // other instances in between
		for k := r.R(1, 2); k > 0; k-- {
			at := r.R(1, len(p.Runs))
			x := Run{Kind: "process", In: "/in/n.stl", Out: "/out/n.gcode"}
			x.Model = r.N(len(p.Models))
			if q := p.Runs[at-1]; r.P(2, 3) {
				x.Model = q.Model
			}
			x.Replace = "replaced"
			p.Opts = append(p.Opts, tweak(r, o))
			x.Opt = len(p.Opts) - 1
			p.Runs = append(p.Runs[:at], append([]Run{x}, p.Runs[at:]...)...)
		}
	}
}

// customOf tells whether the plan's instance has the recording generator.
func customOf(p *Plan) bool {
	return len(p.Runs[0].Inject) > 0 && p.Runs[0].Inject[0].How == "custom"
}

// freshTwin runs job i of the plan alone in a fresh process with a fresh instance and the same plug-ins that do not fail.
func (c *Ctx) freshTwin(p *Plan, i int) *Gold {
	if !customOf(p) {
		return c.goldOf(p, i)
	}
	q := Plan{Prop: p.Prop, Models: p.Models, Opts: p.Opts, Runs: []Run{p.Runs[i]}, World: p.World}
	q.Runs[0].Inst = 0
	q.Runs[0].Inject = p.Runs[i].Inject[:1]
	rec := c.run(&q)
	s := q.result(rec, 0)
	return &Gold{Ok: good(s), Prog: s.Dest, Err: s.Err, Panic: s.Panic, Dead: rec.Dead, Res: *s, Rec: rec}
}

func checkC08(c *Ctx, p *Plan) []Viol {
	if p.Kind == "stages" {
		return checkStages(c, p)
	}
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if !j.usable() || !j.alive() {
		return j.list
	}
	faulty := func(i int) bool {
		r := p.Runs[i]
		for k, f := range p.Faults {
			if rec.Fired[k] > 0 && (f.Path == r.In || f.Path == r.Dest()) {
				return true
			}
		}
		return false
	}
	failures := 0
	for i := range p.Runs {
		s := p.result(rec, i)
		if s.HasErr {
			failures++
		}
		if s.ErrNo > 0 {
			continue
		}
		if s.Injected > 0 {
			j.add("error", "run %d: a plug-in failed, the run reports %q", i, s.Err)
			continue
		}
		g := c.freshTwin(p, i)
		if !g.usable() {
			continue
		}
		if good(s) {
			j.complete(i, g)
			continue
		}
		if faulty(i) || (i == 0 && rec.ClipFired > 0) {
			continue
		}
		j.exact(i, g, true)
	}
	if failures > 0 {
		j.probe("histories with failures")
	}
	for _, h := range rec.Open {
		j.add("leak", "the instance keeps %s open", h)
	}
	return j.list
}

func checkStages(c *Ctx, p *Plan) []Viol {
	e := p.episode()
	e.Tasks = e.Tasks[:1]
	rec := c.exec(e, false)
	j := newJudge(c, p, rec)
	if !j.usable() || !j.alive() {
		return j.list
	}
	s := p.result(rec, 0)
	for k := 0; k < 2; k++ {
		g := c.golden(p.Models[k], p.Opts[0], fmt.Sprintf("/in/m%d.stl", k), "", false)
		if !g.usable() {
			c.stats.Discarded++
			return nil
		}
		file, has := rec.Tree[fmt.Sprintf("/out/s%d.gcode", k)]
		failed := ""
		for i, op := range p.Runs[0].Args {
			if strings.Fields(op)[1] == strconv.Itoa(k) && i < len(s.Sess) && s.Sess[i].Err != "" {
				failed = s.Sess[i].Err
			}
		}
		switch {
		case g.Ok && failed != "":
			j.add("fails", "job %d fails with %q when the stages are shared, alone it succeeds; order: %v", k, failed, p.Runs[0].Args)
		case !g.Ok && failed == "":
			j.add("differs", "job %d succeeds when the stages are shared, alone it fails with %q", k, g.Err)
		case g.Ok && (!has || !bytes.Equal(file.Data, g.Prog)):
			j.add("differs", "job %d gives another program when the stages are shared with another job: %s; order: %v", k, firstDiff(string(file.Data), string(g.Prog)), p.Runs[0].Args)
		}
	}
	return j.list
}

// ---- C09

// genMachine draws properties of the machine and of the account that runs the program.
func genMachine(r *Rng) *simboot.Machine {
	return &simboot.Machine{Uid: r.I(0, 1000, r.R(1, 60000)), Arg0: r.S("", "goslice-draft", "/usr/local/bin/goslice", "./slice me", "a.out", "x"), Idle: r.I(0, 0, 1, 5, 40, 1000), Heap: r.I(0, 0, 16, 150, 600), Salt: r.U() >> 8, FreeMB: int64(r.I(0, 0, 1, 5, 300)),
			Stdin: r.S("", "", "y\n", "--infill-percent=90\n", "solid x\nendsolid x\n"), Std: r.S("", "tty", "file", "null", "socket")}
}

// words are the string constants of the code (written by tools/prep.py): what it may look for in a file.
var words []string

func anyText(r *Rng) string {
	if len(words) == 0 {
		return "1\n"
	}
	w := words[r.N(len(words))]
	switch r.N(6) {
	case 0:
		return w + "\n"
	case 1:
		return w + "=" + r.S("1", "true", "90") + "\n"
	case 2:
		return w + ": " + r.S("1", "true", "90") + "\n"
	case 3:
		b, _ := json.Marshal(map[string]interface{}{w: r.S("1", "90"), words[r.N(len(words))]: true})
		return string(b)
	}
	all := append([]string(nil), words...)
	for i := range all {
		k := r.N(i + 1)
		all[i], all[k] = all[k], all[i]
	}
	return strings.Join(all, r.S("\n", " ", "=1\n")) + "\n"
}

func genC09(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	m, o := genJob(r, 3, 6)
	p.addJob(m, o)
	run := Run{Kind: "process", In: inPath, Out: outPath}
	if r.P(1, 5) {
		run.Kind = "cli"
	}
	p.Runs = []Run{run}
	g := c.goldOf(p, 0)
	p.World.Rand = r.U() >> 8
	if r.P(1, 5) {
		p.World.InMode = uint32(r.I(0400, 0444, 0600, 0640, 0755, 0777))
	}
	if r.P(1, 5) { // the input is a link to it
		p.World.InReal = r.S("/in/real.stl", "/data/v1/part.stl", "/out/the model")
		p.World.Files[path.Dir(p.World.InReal)] = FileSpec{Dir: true, Mode: 0755}
	}
	if r.P(1, 2) {
		p.Events = timeEvents(r, g.Rec.NSteps, r.R(1, 8))
	}
	if r.P(1, 2) {
		p.World.WallNs = []int64{1, 1_000_000_000, 951_782_400_000_000_000, 1_709_164_799_999_999_999, 4_102_444_800_000_000_000, 7_258_118_400_000_000_000}[r.N(6)]
	}
	if r.P(1, 3) {
		p.World.NsPerStep = int64(r.I(1, 5, 1000, 100000))
	}
	if r.P(1, 2) {
		p.World.CPUs, p.World.Pid, p.World.Host = r.I(1, 2, 3, 8, 64, 255), r.R(1, 4000000), r.S("a", "build-7.example.org", "localhost")
	}
	if r.P(1, 2) {
		p.World.Machine = genMachine(r)
		if r.P(1, 4) && len(words) > 0 {
			p.World.Machine.Stdin = anyText(r)
		}
		if r.P(1, 4) && len(words) > 0 {
			p.World.Machine.Arg0 = words[r.N(len(words))]
		}
	}
	if r.P(1, 2) {
		p.World.InTime = int64(r.R(-600_000_000, 600_000_000))
	}
	if r.P(1, 3) {
		p.prior(r, outPath, len(g.Prog))
	}
	if r.P(1, 2) {
		p.World.Env = map[string]string{}
		for i := r.R(1, 4); i > 0; i-- {
			kv := strings.SplitN(r.S("TZ=Asia/Kathmandu", "LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "HOME=/nowhere", "TMPDIR=/none", "COLUMNS=3", "USER=x", "SOURCE_DATE_EPOCH=1", "GOSLICE_OPTS=--infill-percent=90", "PATH=", "PWD=/wrong"), "=", 2)
			p.World.Env[kv[0]] = kv[1]
		}
	}
	if r.P(2, 3) { // who goes on when something blocks
		p.World.Pick = r.U() | 1
		p.Events = append(p.Events, switches(r, g.Rec.NSteps)...)
	}
	if r.P(1, 3) {
		p.World.EnvAny = r.S("1", "0", "true", "false", "off", "90", "/tmp/x", "debug")
	}
	if r.P(1, 3) {
		p.World.Ghost = anyText(r)
		if r.P(1, 2) {
			p.World.Ghost = r.S("1\n", "{}", "{\"Print\":{\"InfillPercent\":90}}", "infill-percent=90\n", "--infill-percent=90", "[print]\ninfill_percent = 90\n")
		}
	}
	if p.World.EnvAny != "" && len(words) > 0 && r.P(1, 3) {
		p.World.EnvAny = words[r.N(len(words))]
	}
	if r.P(1, 2) {
		p.World.Cwd = r.S("/in", "/work/dir", "/out")
		p.World.Files[p.World.Cwd] = FileSpec{Dir: true, Mode: 0755}
		if r.P(1, 2) {
			p.Runs[0].In = r.S("rel.stl", "../in/x.stl", "./a b.stl", "sub.d/m.STL", "./m"+oddName(r), "$HOME/"+oddName(r), "~/m.stl")
			if strings.HasPrefix(p.Runs[0].In, "sub.d") {
				p.World.Files[abspath(p.World.Cwd, "sub.d")] = FileSpec{Dir: true, Mode: 0755}
			}
			p.Runs[0].Out = r.S("rel.gcode", "", "../out/y.gcode", "./p"+oddName(r), "~/p.gcode", "$HOME/p.gcode", "${HOME}x/p.gcode")
			for _, q := range []string{p.Runs[0].In, p.Runs[0].Out} {
				if d := path.Dir(abspath(p.World.Cwd, q)); q != "" {
					p.World.Files[d] = FileSpec{Dir: true, Mode: 0755}
				}
			}
		}
	}
	if r.P(1, 3) && strings.HasPrefix(p.Runs[0].In, "/") {
		p.Runs[0].In = "/in/" + r.S("x", "no extension", "a%d%s.stl", "ü-ß.stl", strings.Repeat("long", 40)+".stl", "m.gcode", oddName(r), oddName(r))
		if r.P(1, 2) {
			p.Runs[0].Out = "/out/" + r.S("q", "100%.gcode", "ä.g", "with space.gcode", strings.Repeat("n", 200), oddName(r), oddName(r))
		} else {
			p.Runs[0].Out = ""
		}
	}
	if run.Kind == "process" {
		kind := r.S("", "console", "fail", "short", "slow", "flaky")
		p.Runs[0].Sink = kind + r.S("", "+stamp")
		if kind == "console" && r.P(2, 3) {
			p.Faults = append(p.Faults, simfs.Fault{Op: "console", Path: "1", Nth: r.R(1, 10), Count: r.I(1, 3, -1), Err: r.S("EIO", "ENOSPC", "EBADF", "EINTR")})
			if p.Faults[0].Err == "EINTR" {
				p.Faults[0].Count = 3
			}
		}
	} else {
		if r.P(1, 2) {
			p.Faults = append(p.Faults, simfs.Fault{Op: "console", Path: r.S("1", "2"), Nth: r.R(1, 10), Count: r.I(1, 3, -1), Err: r.S("EIO", "ENOSPC", "EBADF")})
		}
		p.Runs[0].Args = cliArgs(r, o, p.Runs[0].In, p.Runs[0].Out)
	}
	if r.P(1, 3) {
		p.softFaults(r, abspath(p.World.Cwd, p.Runs[0].In), abspath(p.World.Cwd, p.Runs[0].Dest()))
	}
}

// cliArgs makes a command line; flags before or behind the model.
func cliArgs(r *Rng, o Opt, in, out string) []string {
	a := o.Args()
	if out != "" {
		a = append(a, r.S("--output="+out, "-o="+out, "-o"+out))
	}
	if r.P(1, 2) {
		return append(a, in)
	}
	return append([]string{in}, a...)
}

func checkC09(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	// the reference runs in the plain world
	g := c.golden(p.Models[0], p.Opts[0], inPath, outPath, false)
	if !g.usable() {
		c.stats.Discarded++
		return nil
	}
	if !j.alive() {
		return j.list
	}
	s := p.result(rec, 0)
	ok := good(s)
	if p.Runs[0].Kind == "cli" {
		ok = rec.ExitCode == 0
		if !ok && g.Ok {
			s.Err = short(string(rec.Console[1]) + string(rec.Console[2]))
		}
	}
	switch {
	case ok && !g.Ok:
		j.add("differs", "succeeds, in the plain environment it fails with %q", g.Err)
	case !ok && g.Ok:
		j.add("fails", "fails with %q, in the plain environment it succeeds", s.Err)
	case ok && !s.HasDest:
		j.add("missing", "no program at the destination %s", p.Runs[0].Dest())
	case ok && !bytes.Equal(s.Dest, g.Prog):
		j.add("differs", "the program depends on the environment: %s", firstDiff(string(s.Dest), string(g.Prog)))
	}
	return j.list
}

// ---- C10

func genC10(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	switch r.N(5) {
	case 0, 1:
		p.Kind = "geometry"
		p.Runs = []Run{{Kind: "geom", Ops: genGeom(r)}}
		if r.P(1, 4) {
			p.Clip = []simrt.ClipRule{{Nth: r.R(1, 20), Count: r.R(1, 3)}}
		}
	case 2:
		p.Kind = "builder"
		o := genOpt(r)
		p.Opts = []Opt{o}
		p.Runs = []Run{{Kind: "builder", Ops: genBuilder(r, false)}}
		if r.P(1, 4) {
			p.Clip = []simrt.ClipRule{{Nth: r.R(1, 6), Count: 1}}
		}
	default:
		p.Kind = "run"
		m, o := genJob(r, 3, 5)
		if r.P(1, 5) {
			o["center"] = r.S("0_0_5", "60000_50000_-5", "1_2_3", "100000_100000_300", "-7_-8_-900", "90000_90000_1")
		}
		p.addJob(m, o)
		p.Runs = []Run{{Kind: "process", In: inPath, Out: outPath, Deep: true, Twice: r.P(2, 3)}}
		if r.P(1, 4) {
			p.Clip = []simrt.ClipRule{{Nth: r.R(1, 400), Count: 1}}
		}
	}
}

// shape makes a closed polygon: rectangle, n-gon or L, counterclockwise or clockwise; sometimes with redundant points.
func genShape(r *Rng, x, y, w, d int) [][2]int {
	var p [][2]int
	switch r.N(4) {
	case 0:
		p = [][2]int{{x, y}, {x + w, y}, {x + w, y + d}, {x, y + d}}
	case 1:
		p = [][2]int{{x, y}, {x + w, y}, {x + w, y + d/2}, {x + w/2, y + d/2}, {x + w/2, y + d}, {x, y + d}}
	case 2:
		p = ngon(x+w/2, y+d/2, w, d, r.R(3, 12), float64(r.N(10)))
	default: // many nearly collinear points
		k := r.R(2, 6)
		for i := 0; i < k; i++ {
			p = append(p, [2]int{x + w*i/k, y + r.R(-8, 8)})
		}
		p = append(p, [2]int{x + w, y}, [2]int{x + w, y + d})
		for i := 0; i < k; i++ {
			p = append(p, [2]int{x + w - w*(i+1)/(k+1), y + d + r.R(-60, 60)})
		}
		p = append(p, [2]int{x, y + d})
	}
	if r.P(1, 5) {
		for i, k := 0, len(p)-1; i < k; i, k = i+1, k-1 {
			p[i], p[k] = p[k], p[i]
		}
	}
	return p
}

func genGeom(r *Rng) []Op {
	var ops []Op
	n := r.R(2, 5)
	for i := 0; i < n; i++ {
		w, d := r.R(2000, 12000), r.R(2000, 12000)
		x, y := r.N(12000), r.N(12000)
		op := Op{K: "part", P: genShape(r, x, y, w, d)}
		if r.P(1, 3) {
			op.P = [][2]int{{x, y}, {x + w, y}, {x + w, y + d}, {x, y + d}}
			op.Q = [][][2]int{{{x + w/4, y + d/4}, {x + w/4, y + d/2}, {x + w/2, y + d/2}, {x + w/2, y + d/4}}}
		}
		ops = append(ops, op)
	}
	mask := func() int { return r.R(1, 1<<uint(n)-1) }
	for i, k := 0, r.R(4, 14); i < k; i++ {
		op := Op{K: r.S("union", "difference", "intersection", "inset", "insetlayer", "hull", "toplevel", "crossing", "layerparts", "fill", "fill", "fill", "smooth", "bounds", "cut"), I: mask(), J: mask()}
		switch op.K {
		case "inset", "insetlayer":
			op.A = []float64{float64(r.I(400, -400, 200, 1000)), float64(r.R(1, 3)), float64(r.I(0, 200, -200))}
		case "crossing":
			op.P = [][2]int{{r.N(24000), r.N(24000)}, {r.N(24000), r.N(24000)}}
		case "fill":
			op.A = []float64{float64(r.I(400, 800, 2000)), float64(r.I(0, 30, 45, 90, 135)), float64(r.N(2)), float64(r.N(2)), float64(r.N(4))}
		case "smooth":
			op.A = []float64{float64(r.I(-1, -1, 70, 500))}
		case "cut":
			op.A = make([]float64, 9)
			for q := range op.A {
				op.A[q] = float64(r.N(10000))
			}
		}
		ops = append(ops, op)
	}
	return ops
}

func checkC10(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if !j.usable() {
		return j.list
	}
	if !j.alive() {
		return j.list
	}
	s := p.result(rec, 0)
	for _, n := range s.Notes {
		j.add("changed", "%s", n)
	}
	if p.Kind == "run" && len(p.Clip) == 0 {
		j.exact(0, c.goldOf(p, 0), true)
	}
	return j.list
}

// ---- C11

func genC11(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	m, o := plainJob(r)
	p.addJob(m, o)
	p.Runs = []Run{{Kind: "process", In: inPath, Out: outPath}}
	p.names(r, &p.Runs[0])
	g := c.goldOf(p, 0)
	p.prior(r, p.Runs[0].Dest(), len(g.Prog))
	if r.P(1, 10) {
		p.World.Files[p.Runs[0].Dest()] = FileSpec{Link: "/out/real.gcode"}
		p.World.Files["/out/real.gcode"] = FileSpec{Text: ";old\n", Rep: r.R(1, 2000)}
	}
	if r.P(1, 3) { // the program is written in pieces
		p.Faults = append(p.Faults, simfs.Fault{Op: "write", Path: p.Runs[0].Dest(), Nth: 1, Count: -1, Short: len(g.Prog)/r.R(2, 6) + 1})
	}
	ops := g.Rec.Ops + len(p.Faults)*4
	point := func() (int, bool, []simrt.Event) {
		if r.P(1, 5) {
			return 0, false, []simrt.Event{{Step: int64(r.U() % uint64(g.Rec.NSteps+1)), Kind: simrt.EvCrash}}
		}
		if r.P(1, 2) { // around writing
			return ops - r.N(5), r.P(1, 2), nil
		}
		return r.R(1, ops), r.P(1, 2), nil
	}
	dur := func() string { return r.S("kill", "none", "prefix", "subset", "subset") }
	p.CrashOp, p.CrashMid, p.Events = point()
	if p.CrashOp < 0 {
		p.CrashOp = 1
	}
	p.Durable, p.DurSeed = dur(), r.U()>>8
	for i, n := 0, r.I(0, 0, 1, 2); i < n; i++ {
		a := Again{Durable: dur(), DurSeed: r.U() >> 8}
		a.CrashOp, a.CrashMid, a.Events = point()
		if a.CrashOp < 0 {
			a.CrashOp = 1
		}
		p.Again = append(p.Again, a)
	}
	p.World.Rand = r.U() >> 8
}

// crashRuns executes the plan's process, the ones after each crash, and finally one that is not disturbed.
func (c *Ctx) crashRuns(p *Plan, each func(n int, rec *Record)) *Record {
	e := p.episode()
	rec := c.exec(e, false)
	each(0, rec)
	for k := 0; k <= len(p.Again); k++ {
		n := e
		n.FS.Tree = rec.Tree
		n.FS.CrashOp, n.FS.CrashMid, n.Sim.Events, n.Dur, n.DurSeed = 0, false, nil, "", 0
		if k < len(p.Again) {
			a := p.Again[k]
			n.FS.CrashOp, n.FS.CrashMid, n.Sim.Events, n.Dur, n.DurSeed = a.CrashOp, a.CrashMid, a.Events, a.Durable, a.DurSeed
		}
		rec = c.exec(n, false)
		each(k+1, rec)
	}
	return rec
}

func checkC11(c *Ctx, p *Plan) []Viol {
	e := p.episode()
	v := &viols{prop: p.Prop}
	g := c.goldOf(p, 0)
	if !g.usable() {
		c.stats.Discarded++
		return nil
	}
	dest := p.Runs[0].Dest()
	if l := p.World.Files[dest].Link; l != "" {
		dest = l
	}
	crashes := 0
	dead := false
	check := func(n int, rec *Record) {
		if rec.Dead != "" {
			v.add("dead", "process %d died: %s", n, rec.Dead)
			dead = true
			return
		}
		if rec.Ending == simrt.EndCrash {
			crashes++
		}
		var names []string
		for q := range e.FS.Tree {
			names = append(names, q)
		}
		sort.Strings(names)
		for _, q := range names {
			if q == dest || dead {
				continue
			}
			was := e.FS.Tree[q]
			now, ok := rec.Tree[q]
			what := "a file that is not its own"
			if q == p.Runs[0].In {
				what = "the input file"
			}
			if !ok {
				v.add("damage", "process %d (crash: %v, durable: %s) removed %s: %s", n, rec.Ending == simrt.EndCrash, e.Dur, what, q)
			} else if now.Dir != was.Dir || now.Link != was.Link || now.Mode != was.Mode || now.Time != was.Time || !bytes.Equal(now.Data, was.Data) {
				v.add("damage", "process %d (crash: %v) changed %s: %s", n, rec.Ending == simrt.EndCrash, what, q)
			}
		}
		var extra []string
		for q := range rec.Tree {
			if _, ok := e.FS.Tree[q]; !ok && q != dest && q != "/" && !isParent(q, e.FS.Tree) {
				extra = append(extra, q)
			}
		}
		sort.Strings(extra)
		for _, q := range extra {
			v.add("debris", "process %d (crash: %v) left %s", n, rec.Ending == simrt.EndCrash, q)
		}
	}
	rec := c.crashRuns(p, check)
	if dead {
		return v.list
	}
	if crashes == 0 {
		c.stats.Discarded++
	}
	s := p.result(rec, 0)
	if s.Panic != "" {
		v.add("panic", "the rerun panics: %s", s.Panic)
		return v.list
	}
	switch {
	case good(s) != g.Ok:
		v.add("rerun", "after %d crashes the rerun ends with %q, undisturbed with %q", crashes, s.Err, g.Err)
	case g.Ok && !bytes.Equal(s.Dest, g.Prog):
		v.add("rerun", "after %d crashes the rerun reports success, but the destination differs from the undisturbed program: %d bytes, %d expected, %s", crashes, len(s.Dest), len(g.Prog), firstDiff(string(s.Dest), string(g.Prog)))
	}
	return v.list
}

func isParent(q string, t map[string]simfs.Entry) bool {
	for x := range t {
		if strings.HasPrefix(x, q+"/") {
			return true
		}
	}
	return false
}

// ---- C12

func genC12(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	m, o := plainJob(r)
	p.addJob(m, o)
	run := Run{Kind: "cli", In: inPath, Out: outPath}
	p.names(r, &run)
	run.Args = cliArgs(r, o, run.In, run.Out)
	p.Kind = "run"
	p.Runs = []Run{run}
	g := c.goldOf(p, 0)
	size := len(g.Prog)
	switch r.N(14) {
	case 0:
		p.Kind = "version"
		p.Runs[0].Args = [][]string{{"--version"}, {"-v"}, {"--version", inPath}, {inPath, "-v"}}[r.N(4)]
	case 1:
		p.Kind = "help"
		p.Runs[0].Args = [][]string{{"--help"}, {"-h"}, {inPath, "--help"}}[r.N(3)]
	case 2:
		p.Kind = "no model"
		p.Runs[0].Args = append(o.Args(), []string{"--output=" + outPath}...)
		if r.P(1, 2) {
			p.Runs[0].Args = nil
		}
	case 3:
		p.Kind = "bad flag"
		bad := r.S("--no-such-flag", "--infill-percent=abc", "--layer-thickness=x", "--center=1_2", "--fan-speed=a", "-Z", "--output")
		p.Runs[0].Args = append([]string{inPath}, bad)
	case 4:
		p.Kind = "no input"
		p.Runs[0].NoFile = true
	case 5:
		p.Kind = "damaged input"
		p.Models[0].Cut = r.R(1, 300)
	case 6:
		p.Kind = "input error"
		p.Faults = append(p.Faults, simfs.Fault{Op: r.S("open", "read"), Path: run.In, Nth: r.R(1, 3), Count: -1, Err: r.S("EIO", "EACCES")})
	case 7:
		p.Kind = "destination"
		p.World.Files[run.Dest()] = FileSpec{Dir: true, Mode: 0755}
	case 8:
		p.Kind = "polygon"
		n := len(g.Rec.ClipSites)
		if n > 0 {
			p.Clip = []simrt.ClipRule{{Nth: r.R(1, n), Count: r.I(1, 1000000)}}
		}
	case 9:
	default:
		p.Kind = "destination"
		p.destFaults(r, run.Dest(), size)
		p.prior(r, run.Dest(), size)
		p.fitCapacity(run.Dest())
	}
	if len(p.Runs[0].Args) > 0 && (p.Kind == "run" || p.Kind == "destination" || p.Kind == "no input") && r.P(1, 6) { // a second file name on the command line
		p.Runs[0].Args = append(p.Runs[0].Args, r.S("/out/second.gcode", "second", "/in/model2.stl", "x y", ""))
	}
	if r.P(1, 2) {
		for i := r.R(1, 2); i > 0; i-- {
			p.Faults = append(p.Faults, simfs.Fault{Op: "console", Path: r.S("1", "1", "2"), Nth: r.I(1, 1, 2, 5, 12), Count: r.I(1, -1, -1), Err: r.S("EIO", "ENOSPC", "EBADF")})
		}
	}
}

func checkC12(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if rec.Dead != "" || rec.Ending == simrt.EndCap || rec.Ending == simrt.EndDeadlock {
		j.alive()
		return j.list
	}
	s := p.result(rec, 0)
	if s.Panic != "" {
		if j.usable() {
			j.alive()
		}
		return j.list
	}
	console := false
	for k, f := range p.Faults {
		if f.Op == "console" && rec.Fired[k] > 0 {
			console = true
		}
	}
	out, errs := string(rec.Console[1]), string(rec.Console[2])
	code := rec.ExitCode
	noOutput := func() {
		if p.Kind != "destination" {
			j.untouched(0, "nothing was sliced")
		}
	}
	switch p.Kind {
	case "version":
		if code != 0 || (!console && !strings.Contains(out+errs, "GoSlice")) {
			j.add("version", "%v: status %d, output %q", p.Runs[0].Args, code, short(out+errs))
		}
		noOutput()
		return j.list
	case "help":
		if (code != 0 && code != 2) || (!console && !strings.Contains(out+errs, "--output")) { // pflag itself ends with 2
			j.add("help", "%v: status %d, output %q", p.Runs[0].Args, code, short(out+errs))
		}
		noOutput()
		return j.list
	case "no model":
		if code != 1 || (!console && !(strings.Contains(out+errs, "STL_FILE") && strings.Contains(out+errs, "--output"))) {
			j.add("usage", "%v: status %d, output %q", p.Runs[0].Args, code, short(out+errs))
		}
		noOutput()
		return j.list
	case "bad flag":
		if code == 0 || (!console && len(out+errs) < 10) {
			j.add("flag", "%v: status %d, output %q", p.Runs[0].Args, code, short(out+errs))
		}
		noOutput()
		return j.list
	}
	// the same through the library
	q := clone(*p)
	q.Runs[0].Kind = "process"
	q.Runs[0].Args = nil
	q.Faults = nil
	for _, f := range p.Faults {
		if f.Op != "console" {
			q.Faults = append(q.Faults, f)
		}
	}
	twin := c.run(&q)
	t := q.result(twin, 0)
	if t.Panic != "" || twin.Dead != "" || twin.Ending != "" {
		c.stats.Discarded++
		return j.list
	}
	g := c.golden(p.Models[0], p.Opts[0], p.Runs[0].In, p.Runs[0].Out, p.Runs[0].NoFile)
	if code == 0 {
		switch {
		case !good(t):
			j.add("status", "status 0 although the run fails with %q (%s)", t.Err, p.Kind)
		case !s.HasDest:
			j.add("status", "status 0 but there is no program at the destination")
		case g.Ok && !bytes.Equal(s.Dest, g.Prog):
			j.add("status", "status 0 but the destination is not the complete program: %d bytes, %d expected, %s", len(s.Dest), len(g.Prog), firstDiff(string(s.Dest), string(g.Prog)))
		}
		return j.list
	}
	if good(t) && !console {
		j.add("status", "status %d although the run succeeds; output ends %q", code, lastOf(out, 200))
		return j.list
	}
	if !good(t) {
		if code != 2 {
			j.add("status", "status %d instead of 2 for a run that fails with %q", code, t.Err)
		}
		if !console && !strings.Contains(out+errs, t.Err) {
			j.add("message", "the message %q is not printed; output ends %q", t.Err, lastOf(out+errs, 200))
		}
	}
	return j.list
}

func lastOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---- C13

func genC13(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	m, o := plainJob(r)
	p.addJob(m, o)
	run := Run{Kind: "process", In: inPath, Out: outPath}
	p.names(r, &run)
	p.Runs = []Run{run}
	dest := run.Dest()
	g := c.goldOf(p, 0)
	nowhere := r.P(1, 8)
	if nowhere { // the destination cannot exist: missing directory, file instead of directory, directory, dangling link
		p.Runs[0].Out = r.S("/out/missing/p.gcode", "/none/a/b/p.gcode", "/out/keep.txt/p.gcode", "/out/dir", "/out/dir/", "/out/link")
		p.World.Files["/out/dir"] = FileSpec{Dir: true, Mode: 0755}
		p.World.Files["/out/link"] = FileSpec{Link: "/none/x.gcode"}
		dest = p.Runs[0].Dest()
	} else {
		p.prior(r, dest, len(g.Prog))
	}
	switch r.N(8) {
	case 0:
	case 1, 2, 3:
		p.destFaults(r, dest, len(g.Prog))
		p.fitCapacity(dest)
	case 4: // the n-th file operation of a kind fails, whatever the file
		p.Faults = append(p.Faults, simfs.Fault{Op: r.S("open", "read", "write", "close", "stat", "fstat", "seek"), Nth: r.R(1, 4), Count: r.I(1, -1), Err: r.S("EIO", "EACCES", "EMFILE")})
	case 5:
		p.Faults = append(p.Faults, simfs.Fault{Op: r.S("read", "open", "seek", "close", "fstat"), Path: run.In, Nth: r.R(1, 3), Count: r.I(1, -1), Err: r.S("EIO", "EACCES")})
	case 6:
		p.Models[0].Cut = r.R(1, 200)
	case 7:
		switch r.N(3) {
		case 0:
			p.Clip = []simrt.ClipRule{{Nth: r.R(1, 200), Count: r.I(1, 100000)}}
		case 1:
			p.Runs[0].Inject = []Inject{genStageFailure(r)}
		case 2:
			p.Models[0] = genWeird(r, o)
		}
	}
	if r.P(1, 4) { // more jobs in the same process
		p.Runs[0].Inst = 1
		for i := r.R(1, 2); i > 0; i-- {
			x := p.Runs[0]
			p.Runs = append(p.Runs, x)
		}
	}
	p.World.Env = map[string]string{"TMPDIR": "/tmp", "HOME": "/home"}
	if r.P(1, 3) {
		p.World.EnvAny = r.S("1", "true", "/tmp/x", "/out/other", "debug")
	}
}

func checkC13(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if rec.Dead != "" || rec.Ending != "" {
		if j.usable() {
			j.alive()
		}
		return j.list
	}
	for i := range p.Runs {
		if p.result(rec, i).Panic != "" {
			if j.usable() {
				j.alive()
			}
			return j.list
		}
	}
	dest := p.Runs[0].Dest()
	for _, h := range rec.Open {
		j.add("leak", "%s is still open after the run (%s)", h, j.ends())
	}
	for _, o := range rec.Opened {
		if strings.HasPrefix(o, "w ") && o[2:] != dest {
			j.add("foreign", "%s is opened for writing", o[2:])
		}
		if strings.HasPrefix(o, "r ") && o[2:] != dest && o[2:] != p.Runs[0].In && path.Dir(o[2:]) != "/usr/share/zoneinfo" && !strings.HasPrefix(o[2:], "/etc/") && o[2:] != path.Dir(dest) {
			j.probe("reads " + o[2:])
		}
	}
	for _, m := range rec.Mutated {
		f := strings.SplitN(m, " ", 2)
		if f[1] != dest {
			j.add("foreign", "%s of %s (%s)", f[0], f[1], j.ends())
		}
	}
	e := p.episode()
	for q, was := range e.FS.Tree {
		now, ok := rec.Tree[q]
		if q != dest && (!ok || now.Dir != was.Dir || now.Link != was.Link || now.Mode != was.Mode || now.Time != was.Time || !bytes.Equal(now.Data, was.Data)) {
			j.add("foreign", "%s was changed or removed", q)
		}
	}
	if rec.OpCount["unlink "+dest] > 0 && j.ends() == "success" {
		if _, ok := rec.Tree[dest]; !ok {
			j.add("foreign", "the destination was removed")
		}
	}
	sort.Slice(j.list, func(a, b int) bool { return j.list[a].Msg < j.list[b].Msg })
	return j.list
}

func (j *judge) ends() string {
	s := j.p.result(j.rec, len(j.p.Runs)-1)
	if good(s) {
		return "success"
	}
	return "failure: " + s.Err
}

// ---- C14

func genWeird(r *Rng, o Opt) ModelSpec {
	lt := o.um("layer-thickness", 200)
	first := o.um("initial-layer-thickness", 200)
	var m ModelSpec
	box := func(x, y, z, w, d, h int) Body { return Body{Shape: "box", X: x, Y: y, Z: z, W: w, D: d, H: h} }
	w := func() int { return r.R(2000, 12000) }
	switch r.N(17) {
	case 0: // nothing
		m.Bodies = nil
	case 1: // thin
		m.Bodies = []Body{box(0, 0, 0, w(), w(), r.I(0, 1, 10, first-1, first, first+1, first/2, first+lt-1, first+lt))}
	case 2: // gap in the air
		a := lt * r.R(1, 4)
		m.Bodies = []Body{box(0, 0, 0, w(), w(), a), box(r.R(-2000, 2000), 0, a+lt*r.R(1, 5)+r.N(lt), w(), w(), lt*r.R(1, 4))}
	case 3: // lifted, several gaps
		z := r.R(-3000, 5000)
		for i := r.R(1, 4); i > 0; i-- {
			h := r.R(1, 5*lt)
			m.Bodies = append(m.Bodies, box(r.R(-3000, 3000), r.R(-3000, 3000), z, w(), w(), h))
			z += h + r.I(0, 1, lt-1, lt, 2*lt, 7*lt)
		}
	case 4: // touching at edges or corners
		a := w()
		m.Bodies = []Body{box(0, 0, 0, a, a, 4*lt), box(a, r.I(0, a), 0, a, a, 4*lt)}
		if r.P(1, 2) {
			m.Bodies = append(m.Bodies, box(0, 0, 4*lt, a, a, 2*lt))
		}
	case 5: // overlapping
		for i := r.R(2, 4); i > 0; i-- {
			b := genBody(r, 5*lt)
			b.X, b.Y, b.Z = r.R(-4000, 4000), r.R(-4000, 4000), r.N(2)*lt
			m.Bodies = append(m.Bodies, b)
		}
	case 6: // tiny
		m.Bodies = []Body{{Shape: r.S("box", "prism", "ring", "tetra"), W: r.R(1, 900), D: r.R(1, 900), H: r.R(1, 6) * lt, N: r.R(3, 6), Top: 50}}
		if r.P(1, 2) {
			m.Bodies = append(m.Bodies, box(r.R(1000, 5000), 0, 0, r.R(20, 3000), r.R(20, 3000), r.R(1, 5)*lt))
		}
	case 7: // long and slim, fins
		m.Bodies = []Body{box(0, 0, 0, r.R(20000, 90000), r.R(100, 1200), r.R(2, 5)*lt), box(0, 0, 0, r.R(100, 1200), r.R(20000, 50000), r.R(2, 5)*lt)}
	case 8: // triangle soup
		n := r.R(1, 40)
		b := ModelSpec{}
		ext := r.I(500, 5000, 20000)
		s := "solid soup\n"
		for i := 0; i < n; i++ {
			s += "facet normal 0 0 0\nouter loop\n"
			for k := 0; k < 3; k++ {
				s += "vertex " + mm(r.R(-ext, ext)) + " " + mm(r.R(-ext, ext)) + " " + mm(r.R(0, 8*lt)) + "\n"
			}
			s += "endloop\nendfacet\n"
		}
		b.Raw = []byte(s + "endsolid soup\n")
		return b
	case 9: // bytes
		n := r.I(0, 1, 5, 83, 84, 85, 134, 135, 300)
		raw := make([]byte, n)
		for i := range raw {
			raw[i] = byte(r.U())
		}
		if r.P(1, 2) && n >= 84 {
			copy(raw[80:], []byte{byte((n - 84) / 50), 0, 0, 0})
		}
		if r.P(1, 3) {
			copy(raw, "solid ")
		}
		if f, ok := refParse(raw); ok && !sane(f) {
			raw = raw[:n/2]
		}
		return ModelSpec{Raw: raw, Cut: map[bool]int{true: -1, false: 0}[n == 0]}
	case 10: // damaged but parsable
		m = genModel(r, lt, r.R(3, 6))
		m.Dirt = nil
		for i := r.R(1, 12); i > 0; i-- {
			m.Dirt = append(m.Dirt, Dirt{r.S("drop", "drop", "drop", "dup", "flip", "degen", "jitter", "shift"), r.N(80), r.R(-3*lt, 3*lt)})
		}
	case 11: // damaged file
		m = genModel(r, lt, 3)
		for i := r.R(1, 5); i > 0; i-- {
			m.Muts = append(m.Muts, genMut(r, m))
		}
		if f, ok := refParse(m.Bytes()); ok && !sane(f) {
			m.Muts = nil
		}
	case 12: // only degenerate
		m.Bodies = []Body{box(0, 0, 0, 1000, 1000, 1000)}
		m.Bodies[0].W, m.Bodies[0].D, m.Bodies[0].H = r.I(0, 1000), r.I(0, 1000), r.I(0, 1000, 5)
	case 13: // big flat and high pillars
		m.Bodies = []Body{box(0, 0, 0, r.R(20000, 60000), r.R(20000, 60000), r.R(1, 3)*lt), {Shape: "prism", W: r.R(600, 3000), D: r.R(600, 3000), H: r.R(5, 25) * lt, N: r.R(3, 16)}}
	case 14: // inside out
		m = genModel(r, lt, 4)
		n := len(m.Tris())
		for i := 0; i < n; i++ {
			m.Dirt = append(m.Dirt, Dirt{Kind: "flip", At: i})
		}
	case 15: // nested shells
		a := r.R(6000, 14000)
		for i := 0; i < r.R(2, 4); i++ {
			m.Bodies = append(m.Bodies, Body{Shape: r.S("box", "prism", "ring"), W: a, D: a, H: r.R(2, 6) * lt, N: 8, Top: 60})
			a = a * r.R(30, 95) / 100
		}
	case 16: // cone, tip down or up, very flat slopes
		m.Bodies = []Body{{Shape: r.S("frustum", "tetra", "wedge"), W: r.R(2000, 15000), D: r.R(2000, 15000), H: r.R(1, 8) * lt, N: r.R(3, 24), Top: r.I(1, 2, 5, 500, 1000, 3000), DX: r.R(-9000, 9000)}}
		if m.Bodies[0].Top > 100 {
			m.Bodies[0].W, m.Bodies[0].D = r.R(300, 2000), r.R(300, 2000)
		}
	}
	m.ASCII = r.P(1, 2)
	return m
}

func genC14(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	if r.P(1, 4) {
		p.Kind = "sound"
		m, o := genJob(r, 2, 7)
		if lt := o.um("layer-thickness", 200); r.P(1, 60) {
			m = genTall(r, lt, r.I(400, 600, 1100, r.R(300, 1400)))
		} else if r.P(1, 60) {
			m = ModelSpec{Bodies: genGrid(r, lt, r.R(4, 8), r.R(4, 8))}
		}
		p.addJob(m, o)
		p.Runs = []Run{{Kind: "process", In: inPath, Out: outPath}}
		if r.P(1, 3) {
			p.softFaults(r, inPath, outPath)
		}
		p.World.Rand = r.U() >> 8
		return
	}
	o := genOpt(r)
	if r.P(1, 6) {
		o["center"] = r.S("0_0_500", "0_0_-300", "10000_10000_5000", "-100000_-100000_0", "0_0_-5000")
	}
	if r.P(1, 6) {
		o["meld-distance"] = r.S("0", "1", "30", "300", "2000")
	}
	if r.P(1, 6) {
		o["join-polygon-snap-distance"] = r.S("0", "50", "1000")
	}
	if r.P(1, 6) {
		o["finish-polygon-snap-distance"] = r.S("0", "50", "3000")
	}
	if r.P(1, 8) {
		o["inset-count"] = r.S("0", "1", "8")
	}
	if r.P(1, 8) {
		o["number-bottom-layers"], o["number-top-layers"] = r.S("0", "50"), r.S("0", "50")
	}
	if r.P(1, 8) {
		o["support-top-gap-layers"], o["support-interface-layers"] = r.S("0", "20"), r.S("0", "20")
	}
	if r.P(1, 10) {
		o["support-threshold-angle"] = r.S("0", "1", "89", "90")
	}
	if r.P(1, 10) {
		o["infill-percent"] = r.S("1", "0", "100")
	}
	m := genWeird(r, o)
	p.addJob(m, o)
	p.Runs = []Run{{Kind: "process", In: inPath, Out: outPath, Faces: true}}
	if r.P(1, 4) {
		switch r.N(3) {
		case 0:
			p.destFaults(r, outPath, 4000)
			p.fitCapacity(outPath)
		case 1:
			p.Faults = append(p.Faults, simfs.Fault{Op: r.S("open", "read", "write", "close", "stat", "fstat", "seek"), Nth: r.R(1, 4), Count: r.I(1, -1), Err: r.S("EIO", "EACCES", "EMFILE")})
		case 2:
			p.softFaults(r, inPath, outPath)
		}
	}
	p.World.Rand = r.U() >> 8
}

func checkC14(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if !j.alive() {
		return j.list
	}
	s := p.result(rec, 0)
	switch {
	case !s.Done:
		j.add("lost", "the run did not end (%s)", rec.Ending)
	case good(s):
		j.probe("success")
		if s.Layers < 1 || !bytes.Contains(s.Dest, []byte(";LAYER:0\n")) {
			j.add("empty", "success with %d layers and a program of %d bytes", s.Layers, len(s.Dest))
		}
	default:
		j.probe("error: " + firstWords(s.Err))
		if s.Err == "" {
			j.add("message", "failure without a message")
		}
		if lo, hi := p.Models[0].Span(); p.Kind == "sound" && hi-lo >= p.Opts[0].um("initial-layer-thickness", 200)+10 {
			j.add("fails", "a sound model cannot be sliced: %s", s.Err)
		}
	}
	return j.list
}

func firstWords(s string) string {
	f := strings.Fields(s)
	var r []string
	for _, x := range f {
		if strings.ContainsAny(x, "0123456789/") {
			continue
		}
		r = append(r, x)
		if len(r) == 5 {
			break
		}
	}
	return strings.Join(r, " ")
}

func init() {
	register(&Property{ID: "C07", Quick: 500, Thorough: 30000, Race: true, Gen: genC07, Check: checkC07, Real: realAll, Stub: stubAll,
		Rule: "A plan is two to four goroutines with one or two runs each (same or different models, shared or own options, some failing) and a schedule of switches at statements; every run is compared with the same run alone. A part of the plans runs under the race detector."})
	register(&Property{ID: "C08", Quick: 1500, Thorough: 90000, Gen: genC08, Check: checkC08, Real: realAll, Stub: stubAll,
		Rule: "A plan is a history of two to five runs on one instance with failures of stages, renderers, storage and polygon operations, or two jobs interleaved over the stage objects of one instance; every run is compared with a fresh instance."})
	register(&Property{ID: "C09", Quick: 3000, Thorough: 180000, Gen: genC09, Check: checkC09, Real: realCLI, Stub: stubAll,
		Rule: "A plan is a job and an environment: hash seed, clock, clock jumps and stalls, environment variables, working directory, names, log sink, storage timing, library or command."})
	register(&Property{ID: "C10", Quick: 5000, Thorough: 300000, Gen: genC10, Check: checkC10, Real: realAll, Stub: stubAll,
		Rule: "A plan is a run with snapshots around every stage and repeated slicing and generation, or a history of polygon operations or builder calls over shared values with snapshots around each, some polygon operations failing."})
	register(&Property{ID: "C11", Quick: 2000, Thorough: 120000, Gen: genC11, Check: checkC11, Real: realAll, Stub: stubAll,
		Rule: "A plan is a job, a crash at a statement or before or in the middle of a storage operation, what of the unsynchronised changes survives, further crashes of the reruns, and a last undisturbed rerun."})
	register(&Property{ID: "C12", Quick: 3000, Thorough: 180000, Gen: genC12, Check: checkC12, Real: realCLI, Stub: stubAll,
		Rule: "A plan is a command line and faults of destination, input, polygon operations and console; exit status and messages are compared with the same run through the library."})
	register(&Property{ID: "C13", Quick: 3500, Thorough: 210000, Gen: genC13, Check: checkC13, Real: realAll, Stub: stubAll,
		Rule: "A plan is one or more runs with faults at any file operation, damaged models, failing stages or polygon operations; the storage's operation history, handle table and tree are compared with what a run may touch."})
	register(&Property{ID: "C14", Quick: 6000, Thorough: 360000, Gen: genC14, Check: checkC14, Real: realAll, Stub: stubAll,
		Rule: "A plan is an unusual model (empty, thin, gapped, open, degenerate, overlapping, tiny, soup, bytes) or damaged file with a configuration at its limits and storage faults."})
}
