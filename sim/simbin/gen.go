package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"goslicesim/simfs"
	"goslicesim/simrt"
)

// ---- shared pieces of plans

const (
	inPath  = "/in/model.stl"
	outPath = "/out/p.gcode"
)

// dirs makes the directories of the usual paths and some files nobody may touch.
func (p *Plan) dirs() {
	if p.World.Files == nil {
		p.World.Files = map[string]FileSpec{}
	}
	p.World.Files["/out"] = FileSpec{Dir: true, Mode: 0755}
	p.World.Files["/in/other.stl"] = FileSpec{Text: "solid other\nendsolid other\n"}
	p.World.Files["/in/model.gcode"] = FileSpec{Text: ";not yours\n"}
	p.World.Files["/out/p.gcode.bak"] = FileSpec{Text: ";backup\n"}
	p.World.Files["/out/keep.txt"] = FileSpec{Text: "keep", Rep: 3}
	p.World.Files["/tmp"] = FileSpec{Dir: true, Mode: 0777}
}

// bystanders are the paths of dirs() that are files.
var bystanders = []string{"/in/other.stl", "/in/model.gcode", "/out/p.gcode.bak", "/out/keep.txt"}

// genJob draws a printable job.
func genJob(r *Rng, lo, hi int) (ModelSpec, Opt) {
	o := genOpt(r)
	lt := o.um("layer-thickness", 200)
	return genModel(r, lt, r.R(lo, hi)), o
}

// plainJob is a small job with default-like settings, for plans whose interest is elsewhere.
func plainJob(r *Rng) (ModelSpec, Opt) {
	if r.P(1, 3) {
		return genJob(r, 3, 5)
	}
	o := Opt{"layer-thickness": "400", "initial-layer-thickness": "400", "infill-percent": "10"}
	if r.P(1, 3) {
		o["support-enabled"] = "true"
	}
	if r.P(1, 3) {
		o["brim-count"] = "2"
	}
	m := genModel(r, 400, r.R(2, 4))
	return m, o
}

// addJob adds a job and returns its numbers.
func (p *Plan) addJob(m ModelSpec, o Opt) (int, int) {
	p.Models = append(p.Models, m)
	p.Opts = append(p.Opts, o)
	return len(p.Models) - 1, len(p.Opts) - 1
}

// oddName is a file name with characters that shells, templates or other systems treat specially.
func oddName(r *Rng) string {
	return r.S("$HOME.x", "${USER}p", "$TMPDIR", "part $1.x", "%TEMP%.x", "~", "~root.x", "a*b?.x", "[1].x", "p;q|r.x", "p.x ", " p", "p#1.x", "p&q=1.x", "con", "it's \"p\"", "new\nline.x", "-o", "..p", "...", "p..x", "{date}.x", "{{.Name}}.x", "a\\b.x", "p.x.", "file:p", "p%20q.x", "%s%d.x", "ÄÖ.x", "a\u0308.x", ".hidden", "P.GCODE", "p.gcode", "model.gcode", "P.STL", "model.stl.gcode", "model", "p", "-", "p.tmp", "p~", "p.x.1")
}

// names draws where a run finds its input and where it puts its output.
func (p *Plan) names(r *Rng, run *Run) {
	switch r.N(8) {
	case 0, 1:
		run.Out = ""
	case 2:
		run.Out = "/out/" + oddName(r)
	case 3:
		if r.P(1, 4) {
			run.Out = "/out/-"
			p.World.Rel = "/out"
		}
	}
	if r.P(1, 8) {
		run.In = "/in/" + oddName(r)
	} else if run.Out == "" && r.P(1, 5) {
		run.In = "/in/" + r.S("model.gcode", "m.gcode", "MODEL.STL", "model", "m.gco", "m.stl.gcode")
	}
	delete(p.World.Files, run.In)
}

// prior puts something at the destination before the run.
func (p *Plan) prior(r *Rng, dest string, size int) {
	switch r.N(6) {
	case 0:
		p.World.Files[dest] = FileSpec{Text: ";old program\n"}
	case 1:
		p.World.Files[dest] = FileSpec{Text: ";LAYER:99 old\nG1 X1.00 E9.9999\n", Rep: size/33 + 50}
	case 2:
		p.World.Files[dest] = FileSpec{Text: "x", Rep: size + r.N(3)}
	}
	if f, ok := p.World.Files[dest]; ok { // written before or after the input
		f.Time = int64(r.I(-50000, 0, 50000))
		p.World.Files[dest] = f
	}
}

var openErrs = []string{"EACCES", "ENOSPC", "EMFILE", "ENFILE", "EROFS", "EISDIR", "EDQUOT", "EPERM", "ENOMEM", "EIO", "ETIMEDOUT"}
var writeErrs = []string{"ENOSPC", "EIO", "EDQUOT", "EFBIG", "ESTALE", "EPERM"}
var readErrs = []string{"EIO", "ESTALE", "ENOMEM", "EBADF", "ETIMEDOUT", "EISDIR", "EPERM"}

// destFaults lets the storage of the destination misbehave.
func (p *Plan) destFaults(r *Rng, dest string, size int) {
	f := func(x simfs.Fault) {
		x.Path = dest
		p.Faults = append(p.Faults, x)
	}
	if size < 4 {
		size = 4
	}
	switch r.N(12) {
	case 0:
		f(simfs.Fault{Op: "open", Wr: true, Nth: 1, Count: r.I(1, -1), Err: r.S(openErrs...)})
	case 1, 2:
		f(simfs.Fault{Op: "write", Nth: 1, Count: r.I(1, -1), Err: r.S(writeErrs...)})
	case 3, 4: // some data, then an error
		f(simfs.Fault{Op: "write", Nth: 1, Count: -1, Short: r.R(1, size-1), Err: r.S(writeErrs...)})
	case 5: // data in pieces, then an error
		f(simfs.Fault{Op: "write", Nth: 1, Count: -1, Short: size/r.R(2, 9) + 1})
		f(simfs.Fault{Op: "write", Nth: r.R(2, 5), Count: r.I(1, -1), Err: r.S(writeErrs...)})
	case 6: // data in pieces
		f(simfs.Fault{Op: "write", Nth: 1, Count: -1, Short: size/r.R(2, 40) + 1})
	case 7:
		f(simfs.Fault{Op: r.S("write", "open"), Nth: 1, Count: r.R(1, 3), Err: "EINTR"})
	case 8, 9:
		f(simfs.Fault{Op: "close", Wr: true, Nth: 1, Count: 1, Err: r.S("EIO", "ENOSPC", "EDQUOT", "ESTALE"), Lose: r.P(2, 3)})
	case 10:
		f(simfs.Fault{Op: r.S("fsync", "ftruncate", "fstat", "stat", "seek", "rename", "chmod", "fchmod"), Nth: 1, Count: -1, Err: r.S("EIO", "ENOSPC", "EPERM")})
	case 11:
		p.Capacity = int64(r.R(1, size-1)) // free space, added to the size of the tree in place()
	}
}

// fitCapacity turns free space into a capacity.
func (p *Plan) fitCapacity(dest string) {
	if p.Capacity == 0 {
		return
	}
	e := p.episode()
	var s int64
	for q, x := range e.FS.Tree {
		if q != dest {
			s += int64(len(x.Data))
		}
	}
	p.Capacity += s
}

// recoverable faults must not change anything.
func (p *Plan) softFaults(r *Rng, in, dest string) {
	for i, n := 0, r.R(1, 3); i < n; i++ {
		switch r.N(6) {
		case 0:
			p.Faults = append(p.Faults, simfs.Fault{Op: "read", Path: in, Nth: 1, Count: -1, Short: r.I(1, 7, 50, 80, 84, 85, 100, 511, 4000)})
		case 1:
			p.Faults = append(p.Faults, simfs.Fault{Op: "read", Path: in, Nth: r.R(1, 4), Count: r.R(1, 2), Err: "EINTR"})
		case 2:
			p.Faults = append(p.Faults, simfs.Fault{Op: "write", Path: dest, Nth: 1, Count: -1, Short: r.I(100, 1000, 4096, 70000)})
		case 3:
			p.Faults = append(p.Faults, simfs.Fault{Op: "write", Path: dest, Nth: 1, Count: r.R(1, 3), Err: "EINTR"})
		case 4:
			p.Faults = append(p.Faults, simfs.Fault{Op: "open", Path: r.S(in, dest), Nth: 1, Count: r.R(1, 2), Err: "EINTR"})
		case 5:
			p.Faults = append(p.Faults, simfs.Fault{Op: "write", Path: dest, Nth: 1, Count: r.R(1, 4), Short: r.R(1, 50)})
		}
	}
}

// events draws stalls and clock jumps over a run of some length.
func timeEvents(r *Rng, steps int64, n int) []simrt.Event {
	var ev []simrt.Event
	for i := 0; i < n; i++ {
		at := int64(r.U() % uint64(steps+1))
		switch r.N(3) {
		case 0:
			ev = append(ev, simrt.Event{Step: at, Kind: simrt.EvStall, Arg: int64(r.R(1, 3_000_000)) * 1_000_000})
		default:
			ev = append(ev, simrt.Event{Step: at, Kind: simrt.EvJump, Arg: (int64(r.N(2_000_000)) - 1_000_000) * 1_000_000_000})
		}
	}
	sort.SliceStable(ev, func(a, b int) bool { return ev[a].Step < ev[b].Step })
	return ev
}

// switches draws a schedule; dense bursts around some points besides evenly spread switches.
func switches(r *Rng, steps int64) []simrt.Event {
	var ev []simrt.Event
	n := r.I(5, 20, 60, 200)
	for i := 0; i < n; i++ {
		ev = append(ev, simrt.Event{Step: int64(r.U() % uint64(steps+1)), Kind: simrt.EvSwitch, Pick: r.N(4)})
	}
	for b, k := 0, r.N(4); b < k; b++ {
		at := int64(r.U() % uint64(steps+1))
		for i := 0; i < 40; i++ {
			at += int64(r.R(1, r.I(3, 30, 300)))
			ev = append(ev, simrt.Event{Step: at, Kind: simrt.EvSwitch, Pick: r.N(4)})
		}
	}
	sort.SliceStable(ev, func(a, b int) bool { return ev[a].Step < ev[b].Step })
	return ev
}

// pointSwitches draws a schedule that changes the goroutine at the borders of stages, system calls, log output and polygon operations.
func pointSwitches(r *Rng, tasks int) []simrt.Event {
	var ev []simrt.Event
	add := func(at string, n, max int) {
		for i := 0; i < n; i++ {
			ev = append(ev, simrt.Event{At: at, Nth: r.R(1, max), Kind: simrt.EvSwitch, Pick: r.N(4)})
		}
	}
	switch r.N(5) {
	case 0:
		add(simrt.PtStage, r.R(1, 4), 35*tasks)
	case 1:
		add(simrt.PtIO, r.R(1, 4), 12*tasks)
	case 2:
		add(simrt.PtLog, r.R(1, 10), 30*tasks)
	case 3:
		add(simrt.PtStage, r.R(1, 20), 35*tasks)
		add(simrt.PtIO, r.R(1, 10), 12*tasks)
		add(simrt.PtLog, r.R(1, 20), 30*tasks)
	case 4:
		add(simrt.PtClip, r.I(10, 50, 200), r.I(50, 300, 1000)*tasks)
	}
	return ev
}

// ---- judging

func good(s *StepResult) bool { return s.Done && !s.HasErr && s.Panic == "" }

// judge collects violations of one execution.
type judge struct {
	*viols
	c   *Ctx
	p   *Plan
	rec *Record
}

func newJudge(c *Ctx, p *Plan, rec *Record) *judge {
	return &judge{&viols{prop: p.Prop}, c, p, rec}
}

// alive reports executions that did not come to an orderly end.
func (j *judge) alive() bool {
	if j.rec.oversized() && !j.orderly() {
		j.c.stats.Discarded++
		return false
	}
	if j.rec.Dead != "" {
		j.add("dead", "the process died: %s", j.rec.Dead)
		return false
	}
	switch j.rec.Ending {
	case simrt.EndDeadlock:
		j.add("hang", "nothing can run any more")
		return false
	case simrt.EndCap:
		j.add("hang", "not finished after %d statements", int64(stepCapHang))
		return false
	}
	ok := true
	for i := range j.p.Runs {
		if s := j.p.result(j.rec, i); s.Panic != "" {
			j.add("panic", "run %d panics: %s in %s", i, s.Panic, s.Stack)
			ok = false
		}
	}
	return ok
}

func (j *judge) orderly() bool {
	for i := range j.p.Runs {
		if j.p.result(j.rec, i).Panic != "" {
			return false
		}
	}
	return j.rec.Dead == "" && j.rec.Ending != simrt.EndCap
}

// usable tells whether the undisturbed runs of the plan ended in an orderly way (C14 is about those that do not).
func (j *judge) usable() bool {
	for i, r := range j.p.Runs {
		if r.Kind == "process" || r.Kind == "cli" {
			if !j.c.goldOf(j.p, i).usable() {
				j.c.stats.Discarded++
				return false
			}
		}
	}
	return true
}

// sameDest: the content of the destination at the end of the execution is what it was at the start.
func (j *judge) untouched(i int, why string) {
	d := abspath(j.p.World.Cwd, j.p.Runs[i].Dest())
	e := j.p.episode()
	was, had := e.FS.Tree[d]
	now, has := j.rec.Tree[d]
	switch {
	case has && !had:
		j.add("output", "run %d: %s, but the destination was created (%d bytes)", i, why, len(now.Data))
	case had && !has:
		j.add("output", "run %d: %s, but the destination was removed", i, why)
	case had && has && !bytes.Equal(was.Data, now.Data):
		j.add("output", "run %d: %s, but the destination was changed (%d bytes, %d before)", i, why, len(now.Data), len(was.Data))
	}
}

// complete: a successful run has its whole program at the destination.
func (j *judge) complete(i int, g *Gold) bool {
	s := j.p.result(j.rec, i)
	switch {
	case !s.HasDest:
		j.add("missing", "run %d reports success but there is no file at the destination", i)
	case s.HasProg && !bytes.Equal(s.Dest, s.Prog):
		j.add("incomplete", "run %d reports success but the destination is not the generated program: %d bytes of %d, %s", i, len(s.Dest), len(s.Prog), firstDiff(string(s.Dest), string(s.Prog)))
	case g != nil && g.Ok && !bytes.Equal(s.Dest, g.Prog):
		j.add("differs", "run %d reports success but its program is not the one of an undisturbed run: %d bytes, %d expected, %s", i, len(s.Dest), len(g.Prog), firstDiff(string(s.Dest), string(g.Prog)))
	case g != nil && !g.Ok:
		j.add("differs", "run %d reports success, undisturbed it fails with %q", i, g.Err)
	default:
		return true
	}
	return false
}

// exact: the run ended exactly like its undisturbed twin.
func (j *judge) exact(i int, g *Gold, text bool) {
	s := j.p.result(j.rec, i)
	if good(s) {
		j.complete(i, g)
		return
	}
	if g.Ok {
		j.add("fails", "run %d fails with %q, undisturbed it succeeds", i, s.Err)
	} else if text && s.Err != g.Err {
		j.add("error", "run %d fails with %q, undisturbed with %q", i, s.Err, g.Err)
	}
}

func (j *judge) fired() int {
	n := j.rec.FullHits + j.rec.ClipFired
	for _, k := range j.rec.Fired {
		n += k
	}
	return n
}

func (j *judge) probe(k string) { j.c.stats.Probes[k]++ }

// opens counts attempts to open a path for writing.
func (j *judge) opens(path string) int { return j.rec.OpCount["openw "+path] }

func short(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var _ = fmt.Sprint
var _ = strings.Join
