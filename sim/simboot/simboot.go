// Package simboot puts the simulated process into its world before the first package of the code under test
// is initialised: every instrumented file imports it.
package simboot

import (
	"bytes"
	crand "crypto/rand"
	"encoding/gob"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"

	"goslicesim/simfs"
	"goslicesim/simrt"
)

// Early is what the process needs before its packages are initialised; the rest of the message is the episode.
type Early struct {
	FS       simfs.Config
	Env      map[string]string
	EnvAny   string
	Args     []string
	WallNs   int64
	RandSeed uint64
	CPUs     int
	Pid      int
	Host     string
	Machine  Machine
}

// Machine is more of what a process sees of the machine it runs on and of how it was started.
type Machine struct {
	Uid    int    `json:"uid,omitempty"`
	Arg0   string `json:"arg0,omitempty"`
	Idle   int    `json:"idle_goroutines,omitempty"`
	Heap   int    `json:"heap_mb,omitempty"`
	Salt   uint64 `json:"load,omitempty"`
	FreeMB int64  `json:"free_disk_mb,omitempty"`
	Stdin  string `json:"stdin,omitempty"`
	Std    string `json:"stdio,omitempty"` // what the standard streams are: "" pipe, tty, file, null, socket
}

// Rest of the message.
var Rest *bytes.Reader

// simRandom is the system's source of random bytes.
type simRandom struct{}

func (simRandom) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(rand.Uint32())
	}
	return len(b), nil
}

func init() {
	if len(os.Args) < 2 || os.Args[1] != "exec" {
		return
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2500 << 20)
	if !simrt.Race { // a process that grows without end dies alone
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	}
	all, err := io.ReadAll(os.Stdin)
	if err != nil {
		fmt.Fprintln(os.Stderr, "exec: no episode:", err)
		os.Exit(3)
	}
	Rest = bytes.NewReader(all)
	var e Early
	if err := gob.NewDecoder(Rest).Decode(&e); err != nil {
		fmt.Fprintln(os.Stderr, "exec: bad episode:", err)
		os.Exit(3)
	}
	os.Clearenv()
	for k, v := range e.Env {
		os.Setenv(k, v)
	}
	if e.EnvAny != "" {
		os.SimEnv = func(string) string { return e.EnvAny }
	}
	arg0 := "goslice"
	if e.Machine.Arg0 != "" {
		arg0 = e.Machine.Arg0
	}
	os.Args = append([]string{arg0}, e.Args...)
	syscall.SimUid, syscall.SimSalt = e.Machine.Uid+1, e.Machine.Salt
	simrt.Boot(e.WallNs)
	simfs.Install(e.FS)
	time.SimNow = simrt.Now
	os.SimExit = func(code int) { panic(fmt.Sprintf("os.Exit(%d) while packages are initialised", code)) }
	runtime.SimCPUs, os.SimPid, os.SimHost = e.CPUs, e.Pid, e.Host
	crand.Reader = simRandom{}
	runtime.SimSeed(true, e.RandSeed)
}
