// Package simrt is the simulator's scheduler: it decides which goroutine of the simulated process runs,
// at which statement it is interrupted, when the process dies, and which polygon operations fail.
package simrt

import (
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Event kinds.
const (
	EvSwitch = "switch" // let another runnable goroutine continue
	EvStall  = "stall"  // the process is stopped for Arg nanoseconds (timers of others fire)
	EvCrash  = "crash"  // the process dies
	EvJump   = "jump"   // the wall clock jumps by Arg nanoseconds
)

// Points of an execution besides statements.
const (
	PtIO    = "io"    // before a system call
	PtStage = "stage" // at the beginning or end of a pipeline stage
	PtLog   = "log"   // before a line of log output
	PtClip  = "clip"  // before a polygon operation
)

// Event happens before the first statement executed at or after Step or, with At, behind the Nth point of that kind.
type Event struct {
	Step int64  `json:"step"`
	At   string `json:"at,omitempty"`
	Nth  int    `json:"nth,omitempty"`
	Kind string `json:"kind"`
	Pick int    `json:"pick,omitempty"`
	Arg  int64  `json:"arg,omitempty"`
}

// ClipRule lets Count consecutive polygon operations fail, starting with number Nth (from 1).
type ClipRule struct {
	Nth   int `json:"nth"`
	Count int `json:"count"`
}

// Config of one simulated process.
type Config struct {
	Events    []Event
	Clip      []ClipRule
	Cap       int64  // step limit
	PickSeed  uint64 // choice of the next goroutine when one blocks (0: the oldest)
	WallNs    int64  // wall clock at start
	NsPerStep int64  // clock advance per statement
	Probe     bool   // record the call site of every polygon operation
}

type task struct {
	id     int
	goid   uint64
	ch     chan struct{}
	parked bool
}

// Ending of the process.
const (
	EndNormal   = ""
	EndCrash    = "crash"
	EndExit     = "exit"
	EndCap      = "steplimit"
	EndDeadlock = "deadlock"
)

var (
	cfg      Config
	holder   uint64
	next     int64
	evIdx    int
	tasks    []*task
	current  *task
	pick     = -1
	stall    time.Duration
	jump     int64
	slept    int64
	dead     bool
	booting  bool
	mainLeft int
	points   [4][]Event
	passed   [4]int
	havePts  bool
	blocks   uint64

	// Results.
	Steps     int64
	Switches  int
	Spawned   int
	Stalls    int
	Jumps     int
	ClockUses int
	Ending    string
	ExitCode  int
	ClipCalls int
	ClipFired int
	ClipSites []string
	Trace     uint64 = 14695981039346656037
	siteCache        = map[uintptr]string{}
)

//go:norace
func mix(v uint64) {
	for i := 0; i < 8; i++ {
		Trace = (Trace ^ (v & 255)) * 1099511628211
		v >>= 8
	}
}

// Note adds a value to the trace hash of the execution.
//
//go:norace
func Note(s string) {
	for i := 0; i < len(s); i++ {
		Trace = (Trace ^ uint64(s[i])) * 1099511628211
	}
	mix(uint64(Steps))
}

// Y is called before every statement of the code under test.
//
//go:norace
func Y() {
	if holder == 0 {
		return
	}
	if runtime.SimGoid() != holder {
		enrol()
	}
	Steps++
	if Steps >= next {
		event()
	}
}

//go:norace
func self() *task {
	g := runtime.SimGoid()
	for _, t := range tasks {
		if t.goid == g {
			return t
		}
	}
	t := &task{id: len(tasks), goid: g, ch: make(chan struct{})}
	tasks = append(tasks, t)
	return t
}

//go:norace
func enrol() {
	if dead {
		Die()
	}
	n := len(tasks)
	t := self()
	if len(tasks) > n {
		Spawned++
	}
	park(t)
}

//go:norace
func park(t *task) {
	raceDisable()
	t.parked = true
	<-t.ch
	raceEnable()
}

// Die stops the calling goroutine for ever.
//
//go:norace
func Die() {
	raceDisable()
	select {}
}

// Dead reports whether the simulated process has ended.
func Dead() bool { return dead }

//go:norace
func end(how string) {
	if !dead {
		dead = true
		Ending = how
		Note(how)
	}
}

// Exit ends the process with a status.
//
//go:norace
func Exit(code int) {
	if !dead {
		ExitCode = code
		end(EndExit)
	}
	Die()
}

// Crash ends the process at once.
//
//go:norace
func Crash() {
	end(EndCrash)
	Die()
}

// Point is called at the points of an execution.
//
//go:norace
func Point(kind string) {
	if holder == 0 || !havePts || runtime.SimGoid() != holder {
		return
	}
	k := ptIndex(kind)
	passed[k]++
	for _, e := range points[k] {
		if e.Nth == passed[k] {
			apply(e)
			next = 0 // at the next statement
		}
	}
}

//go:norace
func ptIndex(kind string) int {
	switch kind {
	case PtIO:
		return 0
	case PtStage:
		return 1
	case PtLog:
		return 2
	}
	return 3
}

//go:norace
func apply(e Event) {
	switch e.Kind {
	case EvCrash:
		Crash()
	case EvJump:
		jump += e.Arg
		Jumps++
	case EvStall:
		stall += time.Duration(e.Arg)
		Stalls++
	case EvSwitch:
		pick = e.Pick
	}
}

//go:norace
func event() {
	for evIdx < len(cfg.Events) && cfg.Events[evIdx].Step <= Steps {
		e := cfg.Events[evIdx]
		evIdx++
		apply(e)
	}
	if Steps >= cfg.Cap {
		end(EndCap)
		Die()
	}
	setNext()
	if pick >= 0 || stall > 0 {
		t := self()
		park(t)
		if dead {
			Die()
		}
	}
}

//go:norace
func setNext() {
	next = cfg.Cap
	if evIdx < len(cfg.Events) && cfg.Events[evIdx].Step < next {
		next = cfg.Events[evIdx].Step
	}
}

// Elapsed simulated time since the start of the process.
//
//go:norace
func Elapsed() int64 { return slept + Steps*cfg.NsPerStep }

// Wall is the wall clock in nanoseconds.
//
//go:norace
func Wall() int64 { return cfg.WallNs + Elapsed() + jump }

// Now is the clock of the simulated process: wall time and monotonic reading.
//
//go:norace
func Now(int64, int32) (int64, int32, int64) {
	e := Elapsed()
	w := Wall()
	ClockUses++
	return w / 1e9, int32(w % 1e9), e + 1
}

//go:norace
func rnd(n int) int {
	if cfg.PickSeed == 0 || n < 2 {
		return 0
	}
	blocks++
	z := cfg.PickSeed + blocks*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int((z ^ (z >> 31)) % uint64(n))
}

// Boot starts the clock of a process whose packages are not initialised yet.
func Boot(wallNs int64) { cfg.WallNs, booting = wallNs, true }

// Booting reports whether packages are being initialised.
func Booting() bool { return booting }

// Run executes the functions as goroutines of one simulated process. It must be called inside a bubble
// and returns when all have finished or the process has ended. stepZero is called before anything runs.
//
//go:norace
func Run(c Config, fns []func()) {
	cfg = c
	booting = false
	cfg.Events = nil
	for _, e := range c.Events {
		if e.At == "" {
			cfg.Events = append(cfg.Events, e)
			continue
		}
		havePts = true
		points[ptIndex(e.At)] = append(points[ptIndex(e.At)], e)
	}
	sort.SliceStable(cfg.Events, func(i, j int) bool { return cfg.Events[i].Step < cfg.Events[j].Step })
	if cfg.Cap == 0 {
		cfg.Cap = 1 << 60
	}
	mainLeft = len(fns)
	for _, f := range fns {
		f := f
		t := &task{id: len(tasks), ch: make(chan struct{})}
		tasks = append(tasks, t)
		go func() {
			t.goid = runtime.SimGoid()
			park(t)
			f()
			raceDisable()
			mainLeft--
			raceEnable()
		}()
	}
	setNext()
	holder = 1 // simulation on; no goroutine holds the process yet
	idle := time.Duration(0)
	step := time.Millisecond
	for {
		raceDisable()
		runtime.SimWait()
		raceEnable()
		if dead || mainLeft == 0 {
			break
		}
		if stall > 0 {
			d := stall
			stall = 0
			slept += int64(d)
			time.Sleep(d)
			continue
		}
		var run []*task
		for _, t := range tasks {
			if t.parked {
				run = append(run, t)
			}
		}
		if len(run) == 0 {
			if idle > 24*time.Hour {
				end(EndDeadlock)
				break
			}
			idle += step
			slept += int64(step)
			time.Sleep(step)
			step *= 2
			continue
		}
		idle, step = 0, time.Millisecond
		var t *task
		if pick >= 0 {
			// the goroutine that was interrupted is the last choice
			others := run[:0:0]
			for _, x := range run {
				if x != current {
					others = append(others, x)
				}
			}
			if len(others) == 0 {
				others = run
			}
			t = others[pick%len(others)]
			pick = -1
		} else {
			t = run[rnd(len(run))]
			for _, x := range run { // an interrupted goroutine continues after a stall
				if x == current {
					t = x
				}
			}
		}
		if t != current {
			Switches++
			mix(uint64(t.id))
			mix(uint64(Steps))
		}
		current = t
		t.parked = false
		holder = t.goid
		raceDisable()
		t.ch <- struct{}{}
		raceEnable()
	}
	holder = 0
	dead = true
}

// ClipFail is called by every boolean polygon operation; it reports whether it has to fail.
//
//go:norace
func ClipFail() bool {
	if holder == 0 {
		return false
	}
	Point(PtClip)
	Y()
	ClipCalls++
	if cfg.Probe {
		ClipSites = append(ClipSites, site())
	}
	for _, r := range cfg.Clip {
		if ClipCalls >= r.Nth && ClipCalls < r.Nth+r.Count {
			ClipFired++
			Note("clipfail")
			return true
		}
	}
	return false
}

func site() string {
	var pcs [8]uintptr
	n := runtime.Callers(4, pcs[:])
	s := ""
	for _, pc := range pcs[:n] {
		name, ok := siteCache[pc]
		if !ok {
			f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
			name = f.Function
			if i := strings.LastIndex(name, "/"); i >= 0 {
				name = name[i+1:]
			}
			if strings.Contains(f.Function, "goslice/") { // two calls in one function are two sites
				name += ":" + strconv.Itoa(f.Line)
			}
			siteCache[pc] = name
		}
		if strings.HasPrefix(name, "goslicesim") || strings.HasPrefix(name, "goslice.") || strings.HasPrefix(name, "simbin") || strings.HasPrefix(name, "main.") {
			break
		}
		s = name + ">" + s
	}
	return s
}
