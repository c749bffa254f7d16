package main

import (
	"goslicesim/simboot"
	"goslicesim/simfs"
	"goslicesim/simrt"
)

// Episode is everything one simulated process needs; it is executed in a fresh real process.
type Episode struct {
	FS       simfs.Config
	Sim      simrt.Config
	Env      map[string]string
	EnvAny   string
	RandSeed uint64
	Tasks    []Task
	Dur      string // how durable state is derived at the end: "" (no crash), kill, none, prefix, subset
	DurSeed  uint64
	WantTree bool
	CPUs     int
	Pid      int
	Host     string
	Machine  simboot.Machine
}

// Task is one goroutine of the simulated process.
type Task struct{ Steps []Step }

// Step is one thing a task does.
type Step struct {
	Kind    string // process cli session
	Inst    int    // >0: instance shared by steps with the same number; 0: a fresh instance
	Opt     Opt
	OptKey  string // non-empty: the options value (and its logger) is shared by all instances with that key
	In      string
	Out     string
	Sink    string // where the log goes: "" (memory) console fail short panic-free variants
	Args    []string
	Inject  []Inject
	Trace   bool   // record calls and values of every stage
	Faces   bool   // record the model given to the optimizer
	Deep    bool   // snapshot values around stages
	Plan    bool   // record the paths and areas that have to be printed
	Put     []byte // the input file is replaced by this before the step
	PutNew  bool   // by another file of that name
	PutTime bool   // whose modification time is later
	Mangle  string // what happens to the destination before the step
	Twice   bool   // run Generate/Slice a second time on the same values
	Ops     []Op   // session
}

// Inject is a plugged-in stage (or renderer) behaviour.
type Inject struct {
	Where string `json:"where"`          // reader optimizer slicer modifier generator writer renderer pattern attr
	At    int    `json:"at"`             // modifier / renderer position; attr: position in the modifier sequence
	How   string `json:"how,omitempty"`  // before: fail instead of running; after: run, then fail; insert: extra stage that fails; noop
	Layer int    `json:"layer"`          // attr: layer (modulo); renderer, pattern: layer at which it fails
	Attr  string `json:"attr,omitempty"` // attribute name
	Val   string `json:"val,omitempty"`  // kind of value
	Err   string `json:"err,omitempty"`  // kind of error
	Call  int    `json:"call,omitempty"` // fail at this call number of the stage (0: always)
}

// StepResult is what a step did.
type StepResult struct {
	Started, Done bool
	HasErr        bool
	Err           string
	StageErr      []string // errors that stages returned (as text)
	SameErr       bool     // the error returned is (or wraps) the one the stage returned
	ErrNo         int      // number of the injected error that was returned (0: none)
	Panic         string
	Stack         string
	HasDest       bool
	Dest          []byte // content of the destination after the step
	HasProg       bool
	Prog          []byte // what the generator returned (last call)
	ProgNil       bool   // generator returned an error together with a non-empty program
	Layers        int
	Trace         []string
	Faces         []int64
	Notes         []string // violations found inside (snapshots, accessors, sessions)
	Text          string   // session output
	Log           []byte
	Zmin, Zmax    int64
	Sess          []OpOut
	Injected      int // how many injected failures / tamperings took place
	Attrs         []string
	Loops         []Loop
	Spots         []Spot
}

// Loop is a closed path that the layers given to the generator contain.
type Loop struct {
	Layer int
	Type  string
	P     [][2]int
}

// Spot is a place in the middle of an area that has to be filled: some line passes within R.
type Spot struct {
	Layer int
	Type  string
	Attr  string
	X, Y  int
	R     int
}

// Record is the history of an episode.
type Record struct {
	Steps         [][]StepResult
	Ending        string
	ExitCode      int
	Console       [3][]byte
	Tree          map[string]simfs.Entry // durable (after a crash) or current tree
	Open          []string
	Opened        []string
	Mutated       []string
	OpCount       map[string]int
	Ops           int
	Fired         []int
	FullHits      int
	ConsoleFaults int
	ClipCalls     int
	ClipFired     int
	ClipSites     []string
	NSteps        int64
	Elapsed       int64
	Switches      int
	Spawned       int
	Stalls        int
	Jumps         int
	Unsynced      int
	Hash          uint64
	Log           []string
	// set by the supervisor
	Dead   string // how the real process ended if not normally
	Stderr string
}

// Op is one operation of a session.
type Op struct {
	K string     `json:"k"`
	P [][2]int   `json:"p,omitempty"`
	Q [][][2]int `json:"q,omitempty"`
	A []float64  `json:"a,omitempty"`
	S string     `json:"s,omitempty"`
	I int        `json:"i,omitempty"`
	J int        `json:"j,omitempty"`
}

// OpOut is the observed outcome of an Op.
type OpOut struct {
	Err  string
	Pan  string
	Clip int // polygon operations failed so far
	Len  int // length of the text so far
	Val  string
}
