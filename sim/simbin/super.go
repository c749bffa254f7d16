package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Property is the machinery of one property.
type Property struct {
	ID       string
	Quick    int // number of seeds
	Thorough int
	Race     bool // also uses the race detector build
	Gen      func(c *Ctx, r *Rng, p *Plan)
	Check    func(c *Ctx, p *Plan) []Viol
	Rule     string
	Real     []string
	Stub     []string
}

var registry = map[string]*Property{}

func register(p *Property) { registry[p.ID] = p }

type known struct{ prop, class, text, what string }

func loadKnown(file string) []known {
	var r []known
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: ") {
			var k known
			head, text, _ := strings.Cut(l, " text=")
			k.text, k.what = text, text
			for _, x := range strings.Fields(head)[1:] {
				switch {
				case strings.HasPrefix(x, "property="):
					k.prop = x[9:]
				case strings.HasPrefix(x, "class="):
					k.class = x[6:]
				}
			}
			if k.prop != "" && k.class != "" && k.text != "" {
				r = append(r, k)
			}
		}
	}
	return r
}

type options struct {
	prop, tier, out string
	seed            uint64
	n, jobs         int
	one             int
	verbose         bool
	race            string
	nomin           bool
}

func parseArgs(args []string) options {
	o := options{tier: "quick", seed: 1, jobs: 8, one: -1, out: "/verif"}
	for i := 0; i < len(args); i++ {
		next := func() string {
			i++
			if i >= len(args) {
				fmt.Fprintln(os.Stderr, "missing value of", args[i-1])
				os.Exit(3)
			}
			return args[i]
		}
		switch args[i] {
		case "-prop":
			o.prop = next()
		case "-tier":
			o.tier = next()
		case "-seed":
			o.seed, _ = strconv.ParseUint(next(), 10, 64)
		case "-n":
			o.n, _ = strconv.Atoi(next())
		case "-jobs":
			o.jobs, _ = strconv.Atoi(next())
		case "-one":
			o.one, _ = strconv.Atoi(next())
		case "-out":
			o.out = next()
		case "-race":
			o.race = next()
		case "-v":
			o.verbose = true
		case "-nomin":
			o.nomin = true
		default:
			o.prop = args[i]
		}
	}
	return o
}

func newCtx(o options) *Ctx {
	bin, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return &Ctx{bin: bin, raceBin: o.race, gold: map[string]*goldSlot{}, stats: newStats()}
}

func supervise(cmd string, args []string) int {
	o := parseArgs(args)
	switch cmd {
	case "check":
		return checkMain(o)
	case "replay":
		return replayMain(o)
	case "selftest":
		return selftestMain(o)
	case "plan":
		p := registry[o.prop]
		c := newCtx(o)
		pl := makePlan(c, p, o, o.one)
		b, _ := json.MarshalIndent(pl, "", " ")
		fmt.Println(string(b))
		return 0
	}
	fmt.Fprintln(os.Stderr, "unknown command", cmd)
	return 3
}

func planSeed(o options, i int) uint64 {
	return newRng("plan", o.prop, o.seed, i).U()
}

func makePlan(c *Ctx, p *Property, o options, i int) *Plan {
	s := planSeed(o, i)
	pl := &Plan{Prop: p.ID, Seed: s}
	pl.World.Rand = 1
	p.Gen(c, newRng("gen", s), pl)
	for _, r := range pl.Runs { // the input is not one of the files that merely lie around
		if pl.World.Files[r.In].Text == ";not yours\n" {
			delete(pl.World.Files, r.In)
		}
	}
	if r := newRng("paths", s); len(pl.Runs) > 0 && pl.World.Cwd == "" {
		if pl.World.InMode == 0 && r.P(1, 6) {
			pl.World.InMode = uint32(r.I(0400, 0444, 0444, 0600, 0755))
		}
		if r.P(1, 6) {
			pl.World.Rel = r.S("/in", "/out", "/", "/in/deep er")
		}
	}
	q := clone(*pl) // the plan is what is written in a replay file
	return &q
}

type outcome struct {
	i     int
	plan  *Plan
	viol  []Viol
	infra string
	trace uint64
	disc  bool
	ms    int64
}

// evaluate one plan; machinery errors are reported separately.
func evaluate(base *Ctx, prop *Property, o options, i int, given *Plan) (out outcome, st *Stats) {
	st = newStats()
	c := &Ctx{bin: base.bin, raceBin: base.raceBin, gold: map[string]*goldSlot{}, stats: st}
	out.i = i
	t0 := time.Now()
	defer func() {
		out.trace = c.trace
		out.ms = time.Since(t0).Milliseconds()
		if p := recover(); p != nil {
			if e, ok := p.(Infra); ok {
				out.infra = e.msg
				return
			}
			panic(p)
		}
	}()
	out.plan = given
	if given == nil {
		out.plan = makePlan(c, prop, o, i)
		c.trace = 0
	}
	d := st.Discarded
	out.viol = prop.Check(c, out.plan)
	out.disc = st.Discarded > d
	return
}

type batchResult struct {
	first    *outcome
	stats    *Stats
	done     int
	samples  []*Plan
	known    map[string]int
	infra    string
	nontriv  map[uint64]bool
	slowest  int64
	timedOut bool
}

func runBatch(o options, prop *Property, n int, kn []known, deadline time.Time) *batchResult {
	base := newCtx(o)
	br := &batchResult{stats: newStats(), known: map[string]int{}, nontriv: map[uint64]bool{}}
	var mu sync.Mutex
	next, best := 0, 1<<60
	var wg sync.WaitGroup
	for w := 0; w < o.jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				stop := i >= n || i > best || br.infra != ""
				if !stop && time.Now().After(deadline) {
					br.timedOut, stop = true, true
				}
				mu.Unlock()
				if stop {
					return
				}
				out, st := evaluate(base, prop, o, i, nil)
				mu.Lock()
				br.stats.add(st)
				br.done++
				if out.ms > br.slowest {
					br.slowest = out.ms
				}
				if out.infra != "" && br.infra == "" {
					br.infra = fmt.Sprintf("seed %d: %s", i, out.infra)
				}
				if !out.disc {
					br.nontriv[out.trace] = true
				}
				var left []Viol
				for _, v := range out.viol {
					isKnown := false
					for _, k := range kn {
						if k.prop == prop.ID && k.class == v.Class && strings.Contains(v.Msg, k.text) {
							isKnown = true
							br.known[k.what]++
						}
					}
					if !isKnown {
						left = append(left, v)
					}
				}
				out.viol = left
				if len(left) > 0 && i < best {
					best = i
					x := out
					br.first = &x
				}
				if o.verbose {
					for _, v := range left {
						fmt.Printf("seed %d: %s: %s\n", i, v.Class, v.Msg)
					}
				}
				if len(br.samples) < 3 && !out.disc && out.plan != nil && i%7 == 0 {
					br.samples = append(br.samples, out.plan)
				}
				if o.verbose {
					best = 1 << 60
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return br
}

func checkMain(o options) int {
	prop := registry[o.prop]
	if prop == nil {
		fmt.Fprintln(os.Stderr, "unknown property", o.prop)
		return 3
	}
	t0 := time.Now()
	n := prop.Quick
	limit := 330 * time.Second
	if o.tier == "thorough" {
		n = prop.Thorough
		limit = 40 * time.Minute
	}
	if o.n > 0 {
		n = o.n
	}
	fmt.Printf("property %s, tier %s, VERIF_SEED %d: %d plans\n", prop.ID, o.tier, o.seed, n)
	kn := loadKnown(o.out + "/known-findings.txt")
	if o.one >= 0 {
		out, _ := evaluate(newCtx(o), prop, o, o.one, nil)
		b, _ := json.MarshalIndent(out.plan, "", " ")
		fmt.Println(string(b))
		for _, v := range out.viol {
			fmt.Println(v.Class, v.Msg)
		}
		fmt.Println(out.infra, out.ms, "ms")
		return 0
	}
	br := runBatch(o, prop, n, kn, t0.Add(limit))
	if br.infra != "" && br.first == nil {
		fmt.Fprintln(os.Stderr, "error of the check (no verdict):", br.infra)
		return 3
	}
	for what, k := range br.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", prop.ID, what, k)
	}
	// listed findings that this batch did not meet are still findings
	for _, k := range kn {
		if k.prop == prop.ID && br.known[k.what] == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this batch)\n", prop.ID, k.what)
		}
	}
	viol := 0
	rc := 0
	if br.first != nil {
		viol = 1
		path, code := report(o, prop, br.first, kn)
		if code == 3 {
			return 3
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
		rc = 1
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(o, prop, br, wall, viol)
	fmt.Printf("%s: %d plans, %d simulated processes, %d jobs, %.1f M statements, %.1f s simulated, %d distinct executions, %.1f s wall\n", prop.ID, br.done, br.stats.Runs, br.stats.Jobs,
		float64(br.stats.Steps)/1e6, float64(br.stats.SimNs)/1e9, len(br.stats.Hashes), wall)
	if br.timedOut {
		fmt.Println("note: the time limit ended the batch early")
	}
	return rc
}

// Replay is the file that reproduces a violation.
type Replay struct {
	Property string `json:"property"`
	Index    int    `json:"index"`
	Seed     uint64 `json:"verif_seed"`
	Class    string `json:"class"`
	Message  string `json:"message"`
	Trace    string `json:"trace"`
	Plan     *Plan  `json:"plan"`
	Original *Plan  `json:"original_plan,omitempty"`
}

func report(o options, prop *Property, out *outcome, kn []known) (string, int) {
	class := out.viol[0].Class
	fmt.Printf("seed %d violates %s: %s\n", out.i, class, out.viol[0].Msg)
	plan, msg, trace := out.plan, out.viol[0].Msg, out.trace
	orig := out.plan
	// the violation must be reproducible from the plan alone
	var o1 outcome
	var v *Viol
	for try := 0; try < 4 && v == nil; try++ {
		o1, _ = evaluate(newCtx(o), prop, o, out.i, plan)
		v = find(o1.viol, class)
	}
	if o1.infra != "" || v == nil {
		fmt.Fprintf(os.Stderr, "error of the check: the violation %s does not reproduce (%s)\n", class, o1.infra)
		return "", 3
	}
	msg, trace = v.Msg, o1.trace
	if !o.nomin {
		plan, msg, trace = minimise(o, prop, plan, class, msg, trace, 100*time.Second)
		// what is written has to reproduce it, too
		var back Plan
		b, err := json.Marshal(plan)
		if err == nil {
			err = json.Unmarshal(b, &back)
		}
		o2, _ := evaluate(newCtx(o), prop, o, out.i, &back)
		if v2 := find(o2.viol, class); err != nil || v2 == nil || o2.trace != trace {
			fmt.Println("the minimised plan does not reproduce the violation, the original one is kept")
			plan, msg, trace = orig, v.Msg, o1.trace
		}
	}
	dir := o.out + "/replays"
	os.MkdirAll(dir, 0755)
	file := fmt.Sprintf("%s/%s-%d-%d.json", dir, prop.ID, o.seed, out.i)
	rp := Replay{prop.ID, out.i, o.seed, class, msg, fmt.Sprintf("%016x", trace), plan, orig}
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(file, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return "", 3
	}
	fmt.Printf("minimised: %s: %s\n", class, msg)
	return file, 1
}

func find(v []Viol, class string) *Viol {
	for i := range v {
		if v[i].Class == class {
			return &v[i]
		}
	}
	return nil
}

func replayMain(o options) int {
	b, err := os.ReadFile(o.prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	prop := registry[rp.Property]
	if prop == nil {
		return 3
	}
	out, _ := evaluate(newCtx(o), prop, o, rp.Index, rp.Plan)
	if out.infra != "" {
		fmt.Fprintln(os.Stderr, "error of the check (no verdict):", out.infra)
		return 3
	}
	for _, v := range out.viol {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
	}
	fmt.Printf("trace %016x (recorded %s)\n", out.trace, rp.Trace)
	if find(out.viol, rp.Class) != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, o.prop)
		return 1
	}
	return 0
}

// selftestMain runs the same seeds twice with different worker counts and compares the histories.
func selftestMain(o options) int {
	var ids []string
	if o.prop != "" {
		ids = []string{o.prop}
	} else {
		for k := range registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	n := o.n
	if n == 0 {
		n = 40
	}
	bad := 0
	for _, id := range ids {
		o.prop = id
		prop := registry[id]
		get := func(jobs int) []string {
			res := make([]string, n)
			var wg sync.WaitGroup
			ch := make(chan int)
			for w := 0; w < jobs; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := range ch {
						out, st := evaluate(newCtx(o), prop, o, i, nil)
						b, _ := json.Marshal(out.plan)
						res[i] = fmt.Sprintf("%016x %v %s %d %d %s", out.trace, classes(out.viol), hashStr(string(b)), st.Steps, st.SimNs, out.infra)
					}
				}()
			}
			for i := 0; i < n; i++ {
				ch <- i
			}
			close(ch)
			wg.Wait()
			return res
		}
		a, b := get(8), get(3)
		d := 0
		for i := range a {
			if a[i] != b[i] {
				d++
				fmt.Printf("%s seed %d: %s / %s\n", id, i, a[i], b[i])
			}
		}
		fmt.Printf("%s: %d seeds twice, %d differ\n", id, n, d)
		bad += d
	}
	if bad > 0 {
		return 3
	}
	return 0
}

func writeEvidence(o options, prop *Property, br *batchResult, wall float64, viol int) {
	s := br.stats
	hours := wall / 3600
	cov := map[string]interface{}{
		"evaluations":                  br.done,
		"distinct_nontrivial":          len(br.nontriv),
		"rule":                         prop.Rule + " A plan counts as non-trivial when what it plans took effect (faults fired, the schedule switched, the history ran to its end); two are distinct when the hash over schedule, storage operations, faults and failures of all their processes differs.",
		"samples":                      br.samples,
		"simulated_processes":          s.Runs,
		"simulated_processes_per_hour": int64(float64(s.Runs) / hours),
		"seeds_per_hour":               int64(float64(br.done) / hours),
		"jobs":                         s.Jobs,
		"statements_executed":          s.Steps,
		"simulated_seconds":            float64(s.SimNs) / 1e9,
		"faults_injected":              s.Faults,
		"distinct_executions":          len(s.Hashes),
		"distinct_executions_measure":  "hash over every goroutine switch with its step, every storage operation, every fired fault and every failed polygon operation with its step",
		"plans_without_effect":         s.Discarded,
		"undisturbed_reference_runs":   s.Goldens,
		"rare_conditions_reached":      s.Probes,
		"components_running_real_code": prop.Real,
		"components_replaced":          prop.Stub,
		"slowest_plan_ms":              br.slowest,
		"ended_early_by_time_limit":    br.timedOut,
		"known_findings_met":           br.known,
	}
	if cov["samples"] == nil || len(br.samples) == 0 {
		cov["samples"] = []string{}
	}
	ev := map[string]interface{}{
		"property": prop.ID, "tier": o.tier, "seed": o.seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{"seeded sampling: schedules, crash points and faults outside the sampled ones are not covered", "the simulated storage follows POSIX file semantics; data not synchronised before a power loss may be lost, torn or reordered"},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f := filepath.Join(o.out, "evidence", prop.ID+".json")
	os.MkdirAll(filepath.Dir(f), 0755)
	if err := os.WriteFile(f, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// ---- minimisation

func minimise(o options, prop *Property, plan *Plan, class, msg string, trace uint64, budget time.Duration) (*Plan, string, uint64) {
	end := time.Now().Add(budget)
	tries, kept := 0, 0
	try := func(q *Plan) bool {
		if time.Now().After(end) || tries > 600 {
			return false
		}
		a, _ := json.Marshal(q)
		b, _ := json.Marshal(plan)
		if string(a) == string(b) {
			return false
		}
		tries++
		ok := false
		func() {
			defer func() {
				if p := recover(); p != nil { // a reduction that makes no sense
					ok = false
				}
			}()
			out, _ := evaluate(newCtx(o), prop, o, 0, q)
			if out.infra != "" {
				return
			}
			if v := find(out.viol, class); v != nil {
				c := *q // the caller goes on with its variable
				plan, msg, trace = &c, v.Msg, out.trace
				ok = true
			}
		}()
		if ok {
			kept++
		}
		return ok
	}
	for round := 0; round < 4; round++ {
		k := kept
		// lists of the plan, big chunks first
		for _, name := range []string{"faults", "events", "clip", "again", "runs"} {
			reduceList(&plan, name, try)
		}
		for i := 0; i < len(plan.Runs); i++ {
			reduceRun(&plan, i, try)
		}
		for _, f := range scalarReductions {
			q := clone(*plan)
			f(&q)
			try(&q)
		}
		for i := range plan.Opts {
			var ks []string
			for x := range plan.Opts[i] {
				ks = append(ks, x)
			}
			sort.Strings(ks)
			q := clone(*plan)
			q.Opts[i] = Opt{}
			if len(ks) > 0 && try(&q) {
				continue
			}
			for _, x := range ks {
				q := clone(*plan)
				delete(q.Opts[i], x)
				try(&q)
			}
		}
		for i := range plan.Models {
			for j := len(plan.Models[i].Bodies) - 1; j >= 0 && len(plan.Models[i].Bodies) > 1; j-- {
				q := clone(*plan)
				b := q.Models[i].Bodies
				q.Models[i].Bodies = append(b[:j:j], b[j+1:]...)
				try(&q)
			}
			for j := range plan.Models[i].Dirt {
				if j < len(plan.Models[i].Dirt) {
					q := clone(*plan)
					d := q.Models[i].Dirt
					q.Models[i].Dirt = append(d[:j:j], d[j+1:]...)
					try(&q)
				}
			}
			for j := range plan.Models[i].Bodies {
				q := clone(*plan)
				b := &q.Models[i].Bodies[j]
				*b = Body{Shape: "box", X: b.X, Y: b.Y, Z: b.Z, W: b.W, D: b.D, H: b.H}
				try(&q)
				q = clone(*plan)
				b = &q.Models[i].Bodies[j]
				b.H = b.H / 2
				if b.H > 0 {
					try(&q)
				}
			}
			q := clone(*plan)
			q.Models[i].Header, q.Models[i].ASCII, q.Models[i].Norm, q.Models[i].Style = "", false, "", ""
			try(&q)
		}
		var fs []string
		for f := range plan.World.Files {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			q := clone(*plan)
			delete(q.World.Files, f)
			try(&q)
		}
		if kept == k || time.Now().After(end) {
			break
		}
	}
	fmt.Printf("minimisation: %d reductions tried, %d kept\n", tries, kept)
	return plan, msg, trace
}

type listAcc struct {
	len func(*Plan) int
	cut func(*Plan, int, int)
}

var planLists = map[string]listAcc{
	"faults": {func(p *Plan) int { return len(p.Faults) }, func(p *Plan, a, b int) { p.Faults = append(p.Faults[:a:a], p.Faults[b:]...) }},
	"events": {func(p *Plan) int { return len(p.Events) }, func(p *Plan, a, b int) { p.Events = append(p.Events[:a:a], p.Events[b:]...) }},
	"clip":   {func(p *Plan) int { return len(p.Clip) }, func(p *Plan, a, b int) { p.Clip = append(p.Clip[:a:a], p.Clip[b:]...) }},
	"again":  {func(p *Plan) int { return len(p.Again) }, func(p *Plan, a, b int) { p.Again = append(p.Again[:a:a], p.Again[b:]...) }},
	"runs": {func(p *Plan) int { return len(p.Runs) }, func(p *Plan, a, b int) {
		p.Runs = append(p.Runs[:a:a], p.Runs[b:]...)
	}},
}

func reduceList(plan **Plan, name string, try func(*Plan) bool) {
	l := planLists[name]
	for size := l.len(*plan); size > 0; size /= 2 {
		for at := 0; at < l.len(*plan); {
			e := at + size
			if e > l.len(*plan) {
				e = l.len(*plan)
			}
			if name == "runs" && e-at == l.len(*plan) {
				break
			}
			q := clone(**plan)
			l.cut(&q, at, e)
			if name == "runs" {
				compact(&q)
			}
			if !try(&q) {
				at = e
			}
		}
	}
}

// compact renumbers tasks without runs.
func compact(p *Plan) {
	m := map[int]int{}
	for i := range p.Runs {
		t := p.Runs[i].Task
		if _, ok := m[t]; !ok {
			m[t] = len(m)
		}
		p.Runs[i].Task = m[t]
	}
}

func reduceRun(plan **Plan, i int, try func(*Plan) bool) {
	for size := len((*plan).Runs[i].Ops); size > 0; size /= 2 {
		for at := 0; at < len((*plan).Runs[i].Ops); {
			e := at + size
			if e > len((*plan).Runs[i].Ops) {
				e = len((*plan).Runs[i].Ops)
			}
			q := clone(**plan)
			q.Runs[i].Ops = append(q.Runs[i].Ops[:at:at], q.Runs[i].Ops[e:]...)
			if !try(&q) {
				at = e
			}
		}
	}
	for j := len((*plan).Runs[i].Inject) - 1; j >= 0; j-- {
		q := clone(**plan)
		x := q.Runs[i].Inject
		q.Runs[i].Inject = append(x[:j:j], x[j+1:]...)
		try(&q)
	}
	q := clone(**plan)
	q.Runs[i].Sink = ""
	try(&q)
	q = clone(**plan)
	q.Runs[i].Inst = 0
	try(&q)
	q = clone(**plan)
	q.Runs[i].OptKey = ""
	try(&q)
	q = clone(**plan)
	q.Runs[i].Model, q.Runs[i].Opt = 0, 0
	try(&q)
}

var scalarReductions = []func(*Plan){
	func(p *Plan) { p.World.Env = nil },
	func(p *Plan) { p.World.EnvAny = "" },
	func(p *Plan) { p.World.Rel = "" },
	func(p *Plan) { p.World.InMode = 0 },
	func(p *Plan) { p.World.Ghost = "" },
	func(p *Plan) { p.World.Machine = nil },
	func(p *Plan) { p.World.WallNs = 0 },
	func(p *Plan) { p.World.NsPerStep = 0 },
	func(p *Plan) { p.World.Rand = 1 },
	func(p *Plan) { p.World.Pick = 0 },
	func(p *Plan) { p.Capacity = 0 },
	func(p *Plan) { p.CrashMid = false },
	func(p *Plan) { p.Durable = "kill" },
	func(p *Plan) { p.Race = false },
	func(p *Plan) {
		for i := range p.Faults {
			p.Faults[i].Nth = 1
		}
	},
	func(p *Plan) {
		for i := range p.Clip {
			p.Clip[i].Count = 1
		}
	},
}
