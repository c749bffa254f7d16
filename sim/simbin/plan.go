package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path"
	"sort"
	"strings"
	"sync"
	"time"

	"goslicesim/simboot"
	"goslicesim/simfs"
	"goslicesim/simrt"
)

// Plan is one simulated execution, complete: everything that happens is written down here.
type Plan struct {
	Prop     string           `json:"property"`
	Seed     uint64           `json:"seed"`
	Kind     string           `json:"kind"`
	Models   []ModelSpec      `json:"models,omitempty"`
	Opts     []Opt            `json:"options,omitempty"`
	Runs     []Run            `json:"runs,omitempty"`
	World    World            `json:"world"`
	Faults   []simfs.Fault    `json:"faults,omitempty"`
	Capacity int64            `json:"capacity,omitempty"`
	Clip     []simrt.ClipRule `json:"failing_polygon_operations,omitempty"`
	Events   []simrt.Event    `json:"schedule,omitempty"`
	CrashOp  int              `json:"crash_at_storage_operation,omitempty"`
	CrashMid bool             `json:"crash_in_the_middle,omitempty"`
	Durable  string           `json:"durable,omitempty"`
	DurSeed  uint64           `json:"durable_seed,omitempty"`
	Again    []Again          `json:"again,omitempty"` // C11: what happens after the crash
	Race     bool             `json:"race_detector,omitempty"`
}

// Again is one more process started on what a crash left behind.
type Again struct {
	Events   []simrt.Event `json:"schedule,omitempty"`
	CrashOp  int           `json:"crash_at_storage_operation,omitempty"`
	CrashMid bool          `json:"crash_in_the_middle,omitempty"`
	Durable  string        `json:"durable,omitempty"`
	DurSeed  uint64        `json:"durable_seed,omitempty"`
}

// Run is one job of the plan.
type Run struct {
	Task   int      `json:"task,omitempty"`
	Kind   string   `json:"kind"`
	Model  int      `json:"model"`
	Opt    int      `json:"opt"`
	In     string   `json:"in"`
	Out    string   `json:"out,omitempty"`
	Inst   int      `json:"instance,omitempty"`
	OptKey string   `json:"shared_options,omitempty"`
	Sink   string   `json:"log,omitempty"`
	Args   []string `json:"args,omitempty"`
	Inject []Inject `json:"inject,omitempty"`
	Ops    []Op     `json:"ops,omitempty"`
	NoFile bool     `json:"input_missing,omitempty"`
	Trace  bool     `json:"trace,omitempty"`
	Faces  bool     `json:"faces,omitempty"`
	Deep   bool     `json:"deep,omitempty"`
	Twice  bool     `json:"twice,omitempty"`
	// the input is replaced before the run: "rewritten" or "replaced" (another file of that name), "..., same time"
	Replace string `json:"input_replaced,omitempty"`
	// the destination is changed before the run: "flip N", "cut N", "tail N" (N in thousandths of its size), "touch"
	Mangle string `json:"destination_changed,omitempty"`
}

// Dest is where the program of the run has to be.
func (r Run) Dest() string {
	if r.Out != "" {
		return r.Out
	}
	return r.In + ".gcode"
}

// FileSpec is a file that exists besides the inputs.
type FileSpec struct {
	Text string `json:"text,omitempty"`
	Rep  int    `json:"rep,omitempty"`
	Mode uint32 `json:"mode,omitempty"`
	Dir  bool   `json:"dir,omitempty"`
	Link string `json:"link,omitempty"`
	Time int64  `json:"time,omitempty"` // seconds after simfs.BaseTime
}

// World is the environment of the simulated process.
type World struct {
	Files     map[string]FileSpec `json:"files,omitempty"`
	Cwd       string              `json:"cwd,omitempty"`
	Rel       string              `json:"relative_to,omitempty"` // the working directory; the paths of input and output are given relative to it
	Env       map[string]string   `json:"env,omitempty"`
	EnvAny    string              `json:"any_other_variable,omitempty"` // what every other environment variable contains
	Ghost     string              `json:"any_other_file,omitempty"`     // what every file contains that does not exist, when it is read
	Rand      uint64              `json:"rand,omitempty"`               // seed of map iteration and select order
	WallNs    int64               `json:"wall_ns,omitempty"`
	NsPerStep int64               `json:"ns_per_step,omitempty"`
	Pick      uint64              `json:"pick,omitempty"`
	CPUs      int                 `json:"cpus,omitempty"`
	Pid       int                 `json:"pid,omitempty"`
	Host      string              `json:"host,omitempty"`
	Machine   *simboot.Machine    `json:"machine,omitempty"`
	InTime    int64               `json:"input_time,omitempty"` // seconds after simfs.BaseTime
	InMode    uint32              `json:"input_mode,omitempty"`
	InReal    string              `json:"input_is_link_to,omitempty"` // the input is a symbolic link to this path
}

func abspath(cwd, p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		if cwd == "" {
			cwd = "/"
		}
		p = cwd + "/" + p
	}
	return path.Clean(p)
}

// relpath is the absolute path p as somebody in directory cwd writes it.
func relpath(cwd, p string) string {
	switch {
	case cwd == "" || p == "" || p[0] != '/':
		return p
	case cwd == "/":
		p = p[1:]
	case strings.HasPrefix(p, cwd+"/"):
		p = p[len(cwd)+1:]
	default:
		p = strings.Repeat("../", strings.Count(cwd, "/")) + p[1:]
	}
	if p == "" {
		return "."
	}
	return p
}

func (w World) tree() map[string]simfs.Entry {
	t := map[string]simfs.Entry{}
	for p, f := range w.Files {
		m := f.Mode
		if m == 0 {
			m = 0644
		}
		n := f.Rep
		if n == 0 {
			n = 1
		}
		t[p] = simfs.Entry{Dir: f.Dir, Link: f.Link, Mode: m, Data: []byte(strings.Repeat(f.Text, n)), Time: (simfs.BaseTime + f.Time) * 1e9}
	}
	return t
}

// stepCap ends an execution; it is repeated with stepCapHang statements (20 s of work) before it counts as hanging.
const (
	stepCap     = 400_000_000
	stepCapHang = 4_000_000_000
)

// episode makes the simulated process of a plan.
func (p *Plan) episode() Episode {
	e := Episode{Env: p.World.Env, RandSeed: p.World.Rand, Dur: p.Durable, DurSeed: p.DurSeed, WantTree: true}
	e.FS = simfs.Config{Tree: p.World.tree(), Cwd: p.World.Cwd, Faults: p.Faults, Capacity: p.Capacity, CrashOp: p.CrashOp, CrashMid: p.CrashMid}
	if p.World.Rel != "" {
		e.FS.Cwd = p.World.Rel
		if _, ok := e.FS.Tree[p.World.Rel]; !ok && p.World.Rel != "/" {
			e.FS.Tree[p.World.Rel] = simfs.Entry{Dir: true, Mode: 0755}
		}
	}
	if p.World.Ghost != "" {
		e.FS.Ghost = p.World.Ghost
		if p.World.InReal != "" {
			e.FS.GhostExcept = append(e.FS.GhostExcept, p.World.InReal)
		}
		for _, r := range p.Runs {
			e.FS.GhostExcept = append(e.FS.GhostExcept, abspath(p.World.Cwd, r.In), abspath(p.World.Cwd, r.Dest()))
		}
	}
	e.EnvAny = p.World.EnvAny
	e.Sim = simrt.Config{Events: p.Events, Clip: p.Clip, Cap: stepCap, PickSeed: p.World.Pick, WallNs: p.World.WallNs, NsPerStep: p.World.NsPerStep}
	if e.Sim.WallNs == 0 {
		e.Sim.WallNs = 1_700_000_000_000_000_000
	}
	if e.Sim.NsPerStep == 0 {
		e.Sim.NsPerStep = 20
	}
	e.CPUs, e.Pid, e.Host = p.World.CPUs, p.World.Pid, p.World.Host
	if p.World.Machine != nil {
		e.Machine = *p.World.Machine
		e.FS.Stdin, e.FS.Std, e.FS.FreeMB = e.Machine.Stdin, e.Machine.Std, e.Machine.FreeMB
	}
	if e.CPUs == 0 {
		e.CPUs = 4
	}
	if e.Pid == 0 {
		e.Pid = 4711
	}
	if e.Host == "" {
		e.Host = "host"
	}
	for _, r := range p.Runs {
		for len(e.Tasks) <= r.Task {
			e.Tasks = append(e.Tasks, Task{})
		}
		st := Step{Kind: r.Kind, Inst: r.Inst, OptKey: r.OptKey, In: r.In, Out: r.Out, Sink: r.Sink, Args: r.Args, Inject: r.Inject, Ops: r.Ops,
			Trace: r.Trace, Faces: r.Faces, Deep: r.Deep, Plan: p.Prop == "C17", Twice: r.Twice, Mangle: r.Mangle}
		if r.Kind == "cli" {
			st.Args = nil
			for _, a := range r.Args {
				if rel := p.World.Rel; rel != "" {
					if a == r.In {
						if a = relpath(rel, a); a[0] == '-' {
							a = "./" + a
						}
					} else if r.Out != "" && strings.HasPrefix(a, "-o") && strings.HasSuffix(a, r.Out) || strings.HasPrefix(a, "--output=") {
						a = strings.TrimSuffix(a, r.Out) + relpath(rel, r.Out)
					}
				}
				st.Args = append(st.Args, raw(a))
			}
		}
		if p.World.Rel != "" && r.Kind == "process" {
			st.In, st.Out = relpath(p.World.Rel, st.In), relpath(p.World.Rel, st.Out)
		}
		if r.Opt < len(p.Opts) {
			st.Opt = p.Opts[r.Opt]
		}
		if r.Model < len(p.Models) && r.In != "" && !r.NoFile {
			a := abspath(p.World.Cwd, r.In)
			mode := p.World.InMode
			if mode == 0 {
				mode = 0644
			}
			if p.World.InReal != "" {
				e.FS.Tree[a] = simfs.Entry{Mode: 0777, Link: p.World.InReal}
				a = p.World.InReal
			}
			if _, ok := e.FS.Tree[a]; !ok {
				e.FS.Tree[a] = simfs.Entry{Mode: mode, Data: p.Models[r.Model].Bytes(), Time: (simfs.BaseTime + p.World.InTime) * 1e9}
			}
			if r.Replace != "" {
				st.Put, st.PutNew, st.PutTime = p.Models[r.Model].Bytes(), strings.HasPrefix(r.Replace, "replaced"), !strings.HasSuffix(r.Replace, "same time")
			}
		}
		e.Tasks[r.Task].Steps = append(e.Tasks[r.Task].Steps, st)
	}
	return e
}

// result of the n-th run of the plan
func (p *Plan) result(rec *Record, n int) *StepResult {
	k := 0
	for i := 0; i < n; i++ {
		if p.Runs[i].Task == p.Runs[n].Task {
			k++
		}
	}
	t := p.Runs[n].Task
	if t < len(rec.Steps) && k < len(rec.Steps[t]) {
		return &rec.Steps[t][k]
	}
	return &StepResult{}
}

// ---- running

// Stats is what has been covered.
type Stats struct {
	Runs      int64            // simulated processes
	Jobs      int64            // slicing runs (and sessions) inside of them
	Steps     int64            // statements of code under test
	SimNs     int64            // simulated time
	Faults    map[string]int64 // injected, by kind
	Hashes    map[uint64]bool  // distinct executions (hash over schedule, storage operations and faults)
	Probes    map[string]int64 // rare conditions reached
	Goldens   int64
	Discarded int64 // plans that did not exercise anything
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int64{}, Hashes: map[uint64]bool{}, Probes: map[string]int64{}}
}

func (s *Stats) add(o *Stats) {
	s.Runs += o.Runs
	s.Jobs += o.Jobs
	s.Steps += o.Steps
	s.SimNs += o.SimNs
	s.Goldens += o.Goldens
	s.Discarded += o.Discarded
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k := range o.Hashes {
		s.Hashes[k] = true
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
}

// Ctx executes plans.
type Ctx struct {
	bin, raceBin string
	mu           sync.Mutex
	gold         map[string]*goldSlot
	order        []string
	stats        *Stats
	trace        uint64 // hash over all executions since reset
}

type goldSlot struct {
	once sync.Once
	g    *Gold
}

// Infra is an error of the machinery.
type Infra struct{ msg string }

func (e Infra) Error() string { return e.msg }

func infra(f string, a ...interface{}) { panic(Infra{fmt.Sprintf(f, a...)}) }

func (c *Ctx) spawn(bin string, e *Episode) *Record {
	var in, out, errb bytes.Buffer
	early := simboot.Early{FS: e.FS, Env: e.Env, EnvAny: e.EnvAny, WallNs: e.Sim.WallNs, RandSeed: e.RandSeed, CPUs: e.CPUs, Pid: e.Pid, Host: e.Host, Machine: e.Machine}
	if len(e.Tasks) > 0 && len(e.Tasks[0].Steps) > 0 && e.Tasks[0].Steps[0].Kind == "cli" {
		early.Args = e.Tasks[0].Steps[0].Args
	}
	err := gob.NewEncoder(&in).Encode(early)
	if err == nil {
		rest := *e
		rest.FS = simfs.Config{}
		err = gob.NewEncoder(&in).Encode(rest)
	}
	if err != nil {
		infra("cannot encode the episode: %v", err)
	}
	cmd := exec.Command(bin, "exec")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = &in, &out, &errb
	cmd.Env = []string{"PATH=/usr/bin:/bin", "GORACE=exitcode=0 halt_on_error=0 history_size=3"}
	if err := cmd.Start(); err != nil {
		infra("cannot start the simulated process: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(400 * time.Second):
		cmd.Process.Kill()
		<-done
		infra("a simulated process did not end within 400 s; stderr: %s", tail(errb.String(), 1500))
	}
	rec := &Record{}
	if err == nil {
		if e2 := gob.NewDecoder(&out).Decode(rec); e2 != nil {
			infra("unreadable history: %v; stderr: %s", e2, tail(errb.String(), 1500))
		}
		rec.Stderr = errb.String()
		return rec
	}
	s := errb.String()
	for _, k := range []string{"fatal error: ", "panic: ", "runtime: goroutine stack exceeds"} {
		if i := strings.Index(s, k); i >= 0 && !strings.Contains(s, "goslicesim/simrt/simrt.go: ") && !strings.Contains(s, "exec: ") {
			line := s[i:]
			if j := strings.IndexByte(line, '\n'); j > 0 {
				line = line[:j]
			}
			rec.Dead, rec.Stderr = line, s
			rec.Steps = make([][]StepResult, len(e.Tasks))
			for t := range e.Tasks {
				rec.Steps[t] = make([]StepResult, len(e.Tasks[t].Steps))
			}
			return rec
		}
	}
	infra("the simulated process ended with %v; stderr: %s", err, tail(s, 3000))
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + " ... " + s[len(s)-n/2:]
	}
	return s
}

// oversized: a (damaged) file held a model of more than a meter, which is not printable.
func (r *Record) oversized() bool {
	for _, t := range r.Steps {
		for _, s := range t {
			for _, x := range s.Faces {
				if x > 1e6 || x < -1e6 {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) exec(e Episode, race bool) *Record {
	bin := c.bin
	if race && c.raceBin != "" {
		bin = c.raceBin
	}
	r := c.spawn(bin, &e)
	s := c.stats
	if r.Ending == simrt.EndCap && !r.oversized() { // slow or hanging
		s.Probes["executions repeated with a higher limit"]++
		e.Sim.Cap = stepCapHang
		r = c.spawn(bin, &e)
	}
	s.Runs++
	for _, t := range e.Tasks {
		s.Jobs += int64(len(t.Steps))
	}
	s.Steps += r.NSteps
	s.SimNs += r.Elapsed
	s.Hashes[r.Hash] = true
	c.trace = (c.trace ^ r.Hash) * 1099511628211
	for i, n := range r.Fired {
		f := e.FS.Faults[i]
		k := f.Op
		switch {
		case f.Op == "console":
		case f.Path != "":
			k += " of a file"
		}
		if f.Err != "" {
			k += " " + f.Err
		}
		if f.Short > 0 {
			k += " short"
		}
		if f.Lose {
			k += " with loss of data"
		}
		s.Faults[k] += int64(n)
	}
	cnt := func(k string, n int) {
		if n > 0 {
			s.Faults[k] += int64(n)
		}
	}
	cnt("full disk", r.FullHits)
	cnt("failing polygon operation", r.ClipFired)
	cnt("switch of goroutine", r.Switches)
	cnt("stall", r.Stalls)
	cnt("clock jump", r.Jumps)
	if r.Ending == simrt.EndCrash {
		cnt("crash ("+e.Dur+")", 1)
	}
	for _, t := range r.Steps {
		for _, x := range t {
			cnt("failing or tampering plug-in", x.Injected)
		}
	}
	return r
}

// run executes the plan.
func (c *Ctx) run(p *Plan) *Record { return c.exec(p.episode(), p.Race) }

// Gold is the undisturbed result of a job in a fresh process.
type Gold struct {
	Ok    bool
	Prog  []byte
	Err   string
	Panic string
	Dead  string
	Res   StepResult
	Rec   *Record
}

func (g *Gold) usable() bool { return g.Panic == "" && g.Dead == "" && g.Rec.Ending == "" }

func (c *Ctx) golden(m ModelSpec, o Opt, in, out string, missing bool) *Gold {
	kb, _ := json.Marshal([]interface{}{m, o, in, out, missing})
	key := string(kb)
	c.mu.Lock()
	s := c.gold[key]
	if s == nil {
		s = &goldSlot{}
		c.gold[key] = s
		c.order = append(c.order, key)
		if len(c.order) > 400 {
			delete(c.gold, c.order[0])
			c.order = c.order[1:]
		}
	}
	c.mu.Unlock()
	s.once.Do(func() {
		p := Plan{Models: []ModelSpec{m}, Opts: []Opt{o}, Runs: []Run{{Kind: "process", In: in, Out: out, NoFile: missing}}}
		p.World.Files = map[string]FileSpec{path.Dir(abspath("", in)): {Dir: true, Mode: 0755}}
		if out != "" {
			p.World.Files[path.Dir(abspath("", out))] = FileSpec{Dir: true, Mode: 0755}
		}
		e := p.episode()
		e.Sim.Probe = true
		rec := c.exec(e, false)
		c.stats.Goldens++
		res := rec.Steps[0][0]
		g := &Gold{Ok: res.Done && !res.HasErr && res.Panic == "", Prog: res.Dest, Err: res.Err, Panic: res.Panic, Dead: rec.Dead, Res: res, Rec: rec}
		s.g = g
	})
	return s.g
}

func (c *Ctx) goldOf(p *Plan, n int) *Gold {
	r := p.Runs[n]
	var o Opt
	if r.Opt < len(p.Opts) {
		o = p.Opts[r.Opt]
	}
	return c.golden(p.Models[r.Model], o, abspath(p.World.Cwd, r.In), abspath(p.World.Cwd, r.Out), r.NoFile)
}

// Viol is a violation found in a run.
type Viol struct{ Class, Msg string }

type viols struct {
	prop string
	list []Viol
}

func (v *viols) add(class, f string, a ...interface{}) {
	v.list = append(v.list, Viol{v.prop + "/" + class, fmt.Sprintf(f, a...)})
}

func classes(v []Viol) []string {
	m := map[string]bool{}
	for _, x := range v {
		m[x.Class] = true
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func fexists(p string) bool { _, err := os.Stat(p); return err == nil }
