package main

import (
	"context"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"goslicesim/simboot"
	"goslicesim/simfs"
	"goslicesim/simrt"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/cmd/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
	"github.com/aligator/goslice/handler"
)

var _ = goslicecmd.SimMain

// execMain runs one episode: read from stdin, history to stdout.
func execMain() {
	var ep Episode
	if err := gob.NewDecoder(simboot.Rest).Decode(&ep); err != nil {
		simfs.Uninstall()
		fmt.Fprintln(os.Stderr, "exec: bad episode:", err)
		os.SimExit = nil
		os.Exit(3)
	}
	rec := &Record{Steps: make([][]StepResult, len(ep.Tasks))}
	h := &host{insts: map[int]*inst{}, opts: map[string]*sharedOpt{}}
	var fns []func()
	for ti := range ep.Tasks {
		ti := ti
		for si := range ep.Tasks[ti].Steps { // a value that several goroutines share exists before they start
			if st := &ep.Tasks[ti].Steps[si]; st.OptKey != "" && len(ep.Tasks) > 1 {
				h.shared(st)
			}
		}
		rec.Steps[ti] = make([]StepResult, len(ep.Tasks[ti].Steps))
		fns = append(fns, func() {
			for si := range ep.Tasks[ti].Steps {
				h.run(ep.Tasks[ti].Steps[si], &rec.Steps[ti][si])
			}
		})
	}
	os.SimExit = simrt.Exit
	var stop chan bool // nobody ever writes to it
	for i := 0; i < ep.Machine.Idle; i++ {
		go func() { <-stop }()
	}
	runtime.Gosched()
	ballast := make([]byte, ep.Machine.Heap<<20)
	defer runtime.KeepAlive(ballast)
	// the code under test believes that it was started with the simulated working directory
	runtime.SimBubble(func() {
		runtime.SimSeed(true, ep.RandSeed)
		simrt.Run(ep.Sim, fns)
		runtime.SimSeed(false, 0)
		simfs.Uninstall()
		time.SimNow = nil
		os.SimExit = nil
		finish(&ep, rec)
	})
}

func finish(ep *Episode, rec *Record) {
	rec.Ending, rec.ExitCode = simrt.Ending, simrt.ExitCode
	rec.Console = simfs.Console
	if rec.Ending == simrt.EndExit { // the command does not return if it calls os.Exit
		for t := range rec.Steps {
			for i := range rec.Steps[t] {
				if r := &rec.Steps[t][i]; r.Started && !r.Done {
					r.look(&ep.Tasks[t].Steps[i])
				}
			}
		}
	}
	if ep.WantTree || ep.Dur != "" {
		if ep.Dur != "" && rec.Ending == simrt.EndCrash {
			rec.Tree = simfs.Durable(ep.Dur, ep.DurSeed)
		} else {
			rec.Tree = simfs.Tree()
		}
	}
	rec.Open, rec.Opened, rec.Mutated = simfs.OpenHandles(), simfs.Opened, simfs.Mutated
	rec.OpCount, rec.Ops, rec.Fired, rec.FullHits = simfs.OpCount, simfs.Ops, simfs.Fired, simfs.FullHits
	rec.ConsoleFaults = simfs.ConsoleFaults
	rec.ClipCalls, rec.ClipFired, rec.ClipSites = simrt.ClipCalls, simrt.ClipFired, simrt.ClipSites
	rec.NSteps, rec.Elapsed = simrt.Steps, simrt.Elapsed()
	rec.Switches, rec.Spawned, rec.Stalls, rec.Jumps = simrt.Switches, simrt.Spawned, simrt.Stalls, simrt.Jumps
	rec.Unsynced = simfs.Unsynced()
	rec.Hash = simrt.Trace
	rec.Log = simfs.Log
	w := os.NewFile(1, "stdout")
	if err := gob.NewEncoder(w).Encode(rec); err != nil {
		fmt.Fprintln(os.Stderr, "exec: cannot report:", err)
		os.Exit(3)
	}
	os.Exit(0)
}

type sharedOpt struct {
	opts data.Options
	sink *sink
}

type host struct {
	insts map[int]*inst
	opts  map[string]*sharedOpt
}

type sink struct {
	kind string
	buf  []byte
	n    int
}

func (s *sink) Write(b []byte) (int, error) {
	simrt.Point(simrt.PtLog)
	s.n++
	switch s.kind {
	case "console":
		return os.Stdout.Write(b)
	case "fail":
		return 0, errors.New("log sink is broken")
	case "short":
		return len(b) / 2, io.ErrShortWrite
	case "slow":
		time.Sleep(time.Duration(s.n%7) * 400 * time.Millisecond)
	case "flaky":
		if s.n%3 == 1 {
			return 0, errors.New("log sink is broken")
		}
	}
	if len(s.buf) < 1<<20 {
		s.buf = append(s.buf, b...)
	}
	return len(b), nil
}

// injErr is the error of an injected failure.
type injErr struct {
	n    int
	base error
	text *string
}

func (e *injErr) Error() string {
	if e.text != nil {
		return *e.text
	}
	return fmt.Sprintf("injected failure #%d of a plug-in", e.n)
}
func (e *injErr) Unwrap() error { return e.base }

// injErrs are kinds of errors a plug-in may return; "=" means the very value.
var injErrs = map[string]error{"EOF": io.EOF, "not exist": os.ErrNotExist, "canceled": context.Canceled, "deadline": context.DeadlineExceeded,
	"ENOSPC": syscall.ENOSPC, "EINTR": syscall.EINTR, "unexpected EOF": io.ErrUnexpectedEOF, "closed": os.ErrClosed}

// inject makes the error of the k-th injection.
func (i *inst) inject(k int) error {
	i.cur.Injected++
	kind := i.inj[k].Err
	e := &injErr{n: k + 1}
	i.fired, i.firedErr = k+1, e
	if kind == "empty" {
		e.text = new(string)
	} else if b := injErrs[strings.TrimPrefix(kind, "=")]; b != nil {
		if strings.HasPrefix(kind, "=") {
			i.firedErr = b
			return b
		}
		e.base = b
	}
	return e
}

type inst struct {
	s    *goslice.GoSlice
	opts *data.Options
	sink *sink
	cur  *StepResult
	step *Step
	inj  []Inject
	// calls per injection
	calls map[int]int
	optFP string
	omFP  string
	om    data.OptimizedModel
	// paths of the last job
	in, out string
	// size of the model given to the generator
	lo, hi data.MicroPoint
	// the injected failure of this run, and the error the last failing stage returned
	fired    int
	firedErr error
	lastErr  error
}

// look takes the destination's content.
func (r *StepResult) look(st *Step) {
	if st.Out == "" && st.In == "" {
		return
	}
	d := st.Out
	if d == "" {
		d = st.In + ".gcode"
	}
	if b, ok := simfs.Peek(d); ok {
		r.HasDest, r.Dest = true, append([]byte(nil), b...)
	}
}

// mangle changes the destination as somebody else might have done it.
func (st *Step) mangle() {
	if st.Mangle == "" {
		return
	}
	d := st.Out
	if d == "" {
		d = st.In + ".gcode"
	}
	d = path.Clean(d)
	old, ok := simfs.Peek(d)
	if !ok || len(old) == 0 {
		return
	}
	b := append([]byte(nil), old...)
	n := 0
	kind := ""
	fmt.Sscan(st.Mangle, &kind, &n)
	at := len(b) * n / 1000
	if at >= len(b) {
		at = len(b) - 1
	}
	switch kind {
	case "flip":
		if b[at] == '1' {
			b[at] = '7'
		} else {
			b[at] = '1'
		}
	case "cut":
		b = b[:at]
	case "tail":
		b = append(b, b[at:]...)
	}
	simfs.Put(d, b, false, true)
}

func (h *host) run(st Step, r *StepResult) {
	r.Started = true
	if st.Put != nil {
		simfs.Put(path.Clean(st.In), st.Put, st.PutNew, st.PutTime)
	}
	st.mangle()
	defer func() {
		if p := recover(); p != nil {
			r.Panic = fmt.Sprint(p)
			r.Stack = stackOf()
		}
		r.look(&st)
		r.Done = true
	}()
	switch st.Kind {
	case "cli":
		goslicecmd.SimMain()
	case "process":
		i := h.instance(&st)
		i.cur, i.step = r, &st
		i.fired, i.firedErr, i.lastErr = 0, nil, nil
		// only what changes from job to job is set, as a caller would do
		if i.in != st.In {
			i.s.Options.InputFilePath = st.In
		}
		if i.out != st.Out {
			i.s.Options.OutputFilePath = st.Out
		}
		i.in, i.out = st.In, st.Out
		err := i.s.Process()
		i.note(r, err)
	case "write":
		i := h.instance(&st)
		i.cur, i.step = r, &st
		i.fired, i.firedErr, i.lastErr = 0, nil, nil
		text := expand(st.Args)
		err := i.s.Writer.Write(text, st.Out)
		r.HasProg, r.Prog = true, []byte(text)
		i.note(r, err)
	case "read":
		i := h.instance(&st)
		i.cur, i.step = r, &st
		i.fired, i.firedErr, i.lastErr = 0, nil, nil
		m, err := i.s.Reader.Read(st.In)
		i.note(r, err)
		if err == nil {
			r.Faces = faces(m)
		}
	case "stages":
		i := h.instance(&st)
		i.cur, i.step = r, &st
		i.fired, i.firedErr, i.lastErr = 0, nil, nil
		i.stages(r, st.Args)
	case "builder":
		builderSession(h, &st, r)
	case "geom":
		geomSession(&st, r)
	case "access":
		accessSession(&st, r)
	default:
		panic("unknown step kind " + st.Kind)
	}
}

// expand makes a text from (text, repetitions).
func expand(a []string) string {
	if len(a) > 1 {
		n := 0
		fmt.Sscan(a[1], &n)
		return strings.Repeat(raw(a[0]), n)
	}
	return raw(a[0])
}

// stages uses the stage objects of one instance for several jobs in any order: "read 0 path", "optimize 0", ...
func (i *inst) stages(r *StepResult, ops []string) {
	type job struct {
		m      data.Model
		om     data.OptimizedModel
		layers []data.PartitionedLayer
		prog   string
		err    error
	}
	jobs := map[string]*job{}
	for _, op := range ops {
		f := strings.SplitN(op, " ", 3)
		j := jobs[f[1]]
		if j == nil {
			j = &job{}
			jobs[f[1]] = j
		}
		var out OpOut
		if j.err == nil {
			switch f[0] {
			case "read":
				j.m, j.err = i.s.Reader.Read(f[2])
			case "optimize":
				j.om, j.err = i.s.Optimizer.Optimize(j.m)
			case "slice":
				j.layers, j.err = i.s.Slicer.Slice(j.om)
			case "modify":
				m := i.s.Modifiers[num(f[2])]
				m.Init(j.om)
				j.err = m.Modify(j.layers)
			case "generate":
				i.s.Generator.Init(j.om)
				j.prog, j.err = i.s.Generator.Generate(j.layers)
			case "write":
				j.err = i.s.Writer.Write(j.prog, f[2])
			default:
				panic("stage " + op)
			}
			if j.err != nil {
				out.Err = j.err.Error()
			}
		}
		r.Sess = append(r.Sess, out)
	}
}

func stackOf() string {
	var out []string
	var pcs [64]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		fn := f.Function
		if i := strings.LastIndex(fn, "/"); i >= 0 {
			fn = fn[i+1:]
		}
		if !strings.HasPrefix(fn, "runtime.") && !strings.HasPrefix(fn, "main.") && !strings.HasPrefix(fn, "simrt.") {
			out = append(out, fmt.Sprintf("%s:%d", fn, f.Line))
		}
		if !more || len(out) > 8 {
			break
		}
	}
	return strings.Join(out, " < ")
}

func (i *inst) note(r *StepResult, err error) {
	if err != nil {
		r.HasErr, r.Err = true, err.Error()
		var e *injErr
		if errors.As(err, &e) {
			r.ErrNo = e.n
		} else if i.firedErr != nil && errors.Is(err, i.firedErr) {
			r.ErrNo = i.fired
		}
		r.SameErr = i.lastErr != nil && errors.Is(err, i.lastErr)
	}
	if i.sink != nil {
		r.Log = i.sink.buf
	}
	if i.step != nil && i.step.Deep {
		if fp := optFP(i.opts); fp != i.optFP {
			r.Notes = append(r.Notes, "the caller's options were changed: "+diffStr(i.optFP, fp))
		}
	}
}

// shared returns the options value that several instances share.
func (h *host) shared(st *Step) *sharedOpt {
	so := h.opts[st.OptKey]
	if so == nil {
		so = &sharedOpt{sink: &sink{kind: st.Sink}}
		so.opts = st.Opt.Data(st.In, st.Out, so.sink)
		h.opts[st.OptKey] = so
	}
	return so
}

func (h *host) instance(st *Step) *inst {
	if st.Inst > 0 {
		if i := h.insts[st.Inst]; i != nil {
			return i
		}
	}
	i := &inst{calls: map[int]int{}, inj: st.Inject}
	if st.OptKey != "" {
		so := h.shared(st)
		i.opts = &so.opts
		i.sink = nil
	} else {
		i.sink = &sink{kind: st.Sink}
		o := st.Opt.Data(st.In, st.Out, i.sink)
		i.opts = &o
	}
	if strings.HasSuffix(st.Sink, "+stamp") && i.sink != nil {
		i.sink.kind = strings.TrimSuffix(st.Sink, "+stamp")
		i.opts.GoSlice.Logger.SetFlags(log.LstdFlags | log.Lmicroseconds | log.Lshortfile)
		i.opts.GoSlice.Logger.SetPrefix("goslice: ")
	}
	i.in, i.out = i.opts.GoSlice.InputFilePath, i.opts.GoSlice.OutputFilePath
	i.optFP = optFP(i.opts)
	i.s = goslice.NewGoSlice(*i.opts)
	i.wrap(st)
	if st.Inst > 0 {
		h.insts[st.Inst] = i
	}
	return i
}

func (i *inst) tr(f string, a ...interface{}) {
	simrt.Point(simrt.PtStage)
	if i.step.Trace {
		i.cur.Trace = append(i.cur.Trace, fmt.Sprintf(f, a...))
	}
}

// fail reports whether an injected failure of that place is due now.
func (i *inst) fail(where string, at int, how string) error {
	for k, j := range i.inj {
		if j.Where == where && j.How == how && (j.At == at || at < 0) {
			i.calls[k]++
			if j.Call == 0 || j.Call == i.calls[k] {
				return i.inject(k)
			}
		}
	}
	return nil
}

// ret notes the error a stage returns.
func (i *inst) ret(err error) error {
	if err != nil {
		i.cur.StageErr = append(i.cur.StageErr, err.Error())
		i.lastErr = err
	}
	return err
}

type wReader struct {
	i *inst
	r handler.ModelReader
}

func (w wReader) Read(f string) (data.Model, error) {
	w.i.tr("read %s", f)
	if e := w.i.fail("reader", -1, "before"); e != nil {
		return nil, w.i.ret(e)
	}
	m, err := w.r.Read(f)
	if err == nil && w.i.step.Deep {
		w.i.ask(m, "that was read")
	}
	if err == nil {
		w.i.tr("read.out %s", modelFP(m))
	}
	if e := w.i.fail("reader", -1, "after"); e != nil {
		return m, w.i.ret(e)
	}
	return m, w.i.ret(err)
}

// ask asks a model for everything it tells, which must not change it.
func (i *inst) ask(m data.Model, which string) {
	if m.FaceCount() == 0 {
		return
	}
	was := modelFP(m)
	lo, hi := *vec(m.Min()), *vec(m.Max())
	if lo != *vec(m.Min()) || hi != *vec(m.Max()) {
		i.cur.Notes = append(i.cur.Notes, "the model "+which+" has another extent when it is asked again")
	}
	if om, ok := m.(data.OptimizedModel); ok {
		z := *vec(om.Size())
		for k := 0; k < om.FaceCount(); k++ {
			f := om.OptimizedFace(k)
			f.MinZ()
			f.MaxZ()
		}
		if z != *vec(om.Size()) {
			i.cur.Notes = append(i.cur.Notes, "the model "+which+" has another size when it is asked again")
		}
	}
	if was != modelFP(m) {
		i.cur.Notes = append(i.cur.Notes, "asking for the extent of the model "+which+" changed it")
	}
}

func vec(v data.MicroVec3) *[3]int64 {
	return &[3]int64{int64(v.X()), int64(v.Y()), int64(v.Z())}
}

// same notes when the optimized model is no longer what it was.
func (i *inst) same(m data.OptimizedModel, after string) {
	if i.step.Deep && i.omFP != "" {
		if n := omodelFP(m); n != i.omFP {
			i.omFP = n
			i.cur.Notes = append(i.cur.Notes, after+" the model is not what it was")
		}
	}
}

type wOptimizer struct {
	i *inst
	o handler.ModelOptimizer
}

func (w wOptimizer) Optimize(m data.Model) (data.OptimizedModel, error) {
	if w.i.step.Faces {
		w.i.cur.Faces = faces(m)
	}
	w.i.tr("optimize.in %s", modelFP(m))
	if e := w.i.fail("optimizer", -1, "before"); e != nil {
		return nil, w.i.ret(e)
	}
	var fp string
	if w.i.step.Deep {
		fp = modelFP(m)
	}
	om, err := w.o.Optimize(m)
	if w.i.step.Deep && fp != modelFP(m) {
		w.i.cur.Notes = append(w.i.cur.Notes, "the optimizer changed the model it was given")
	}
	if err == nil && w.i.step.Deep {
		w.i.ask(om, "that was optimized")
		w.i.omFP = omodelFP(om)
	}
	if err == nil {
		w.i.tr("optimize.out %s", omodelFP(om))
		if om.FaceCount() > 0 {
			w.i.cur.Zmin, w.i.cur.Zmax = int64(om.Min().Z()), int64(om.Max().Z())
		}
	}
	if e := w.i.fail("optimizer", -1, "after"); e != nil {
		return om, w.i.ret(e)
	}
	return om, w.i.ret(err)
}

type wSlicer struct {
	i *inst
	s handler.ModelSlicer
}

func (w wSlicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	w.i.tr("slice.in %s", omodelFP(m))
	if e := w.i.fail("slicer", -1, "before"); e != nil {
		return nil, w.i.ret(e)
	}
	var fp string
	if w.i.step.Deep {
		fp = omodelFP(m)
	}
	l, err := w.s.Slice(m)
	for _, k := range w.i.inj {
		if k.Where == "slicer" && k.How == "nothing" {
			if l, err = nil, nil; k.Val == "empty" {
				l = []data.PartitionedLayer{}
			}
		}
	}
	if w.i.step.Deep && fp != omodelFP(m) {
		w.i.cur.Notes = append(w.i.cur.Notes, "slicing changed the model")
	}
	if err == nil {
		w.i.cur.Layers = len(l)
		w.i.tr("slice.out %s", layersFP(l))
		if w.i.step.Twice {
			fl := layersFP(l)
			fired := simrt.ClipFired
			l2, err2 := w.s.Slice(m)
			if simrt.ClipFired == fired && (err2 != nil || layersFP(l2) != fl) {
				w.i.cur.Notes = append(w.i.cur.Notes, "slicing the same model a second time gives another result")
			}
			if layersFP(l) != fl {
				w.i.cur.Notes = append(w.i.cur.Notes, "slicing a second time changed the layers returned first")
			}
		}
	}
	if e := w.i.fail("slicer", -1, "after"); e != nil {
		return l, w.i.ret(e)
	}
	return l, w.i.ret(err)
}

type wMod struct {
	i    *inst
	n    int // position
	orig int // position among the built-in ones
	inj  int // plug-in: number of the injection
	m    handler.LayerModifier
	nm   string
}

func (w wMod) GetName() string { return w.nm }
func (w wMod) Init(m data.OptimizedModel) {
	w.i.tr("init %d %s", w.n, omodelFP(m))
	if w.m != nil {
		w.m.Init(m)
	}
}
func (w wMod) Modify(l []data.PartitionedLayer) error {
	w.i.tr("modify.in %d %s", w.n, layersFP(l))
	if w.m == nil { // plug-in
		j := w.i.inj[w.inj]
		w.i.calls[w.inj]++
		if j.Call == 0 || j.Call == w.i.calls[w.inj] {
			switch {
			case j.Where == "attr":
				w.i.tamper(j, l)
			case j.How == "insert":
				return w.i.ret(w.i.inject(w.inj))
			}
		}
	} else {
		if e := w.i.fail("modifier", w.orig, "before"); e != nil {
			return w.i.ret(e)
		}
		err := w.m.Modify(l)
		if e := w.i.fail("modifier", w.orig, "after"); e != nil {
			return w.i.ret(e)
		}
		if err != nil {
			return w.i.ret(err)
		}
	}
	w.i.tr("modify.out %d %s", w.n, layersFP(l))
	return nil
}

type wGen struct {
	i *inst
	g handler.GCodeGenerator
}

func (w wGen) Init(m data.OptimizedModel) {
	w.i.tr("gen.init %s", omodelFP(m))
	w.i.om = m
	w.i.same(m, "after the modifiers")
	if w.i.step.Plan {
		w.i.lo, w.i.hi = m.Min().PointXY(), m.Max().PointXY()
	}
	w.g.Init(m)
}
func (w wGen) Generate(l []data.PartitionedLayer) (string, error) {
	w.i.tr("generate.in %s", layersFP(l))
	if e := w.i.fail("generator", -1, "before"); e != nil {
		return "", w.i.ret(e)
	}
	var fp string
	if w.i.step.Deep {
		fp = layersFP(l)
		w.i.cur.Attrs = attrNames(l)
	}
	w.i.cur.Spots = nil
	p, err := w.g.Generate(l)
	for _, j := range w.i.inj {
		if j.Where == "generator" && j.How == "text" && err == nil {
			p = j.Val
		}
	}
	if w.i.step.Deep && layersFP(l) != fp {
		w.i.cur.Notes = append(w.i.cur.Notes, "code generation changed the layers")
	}
	if w.i.step.Deep && w.i.om != nil {
		w.i.same(w.i.om, "after code generation")
	}
	if err != nil && p != "" {
		w.i.cur.ProgNil = true
	}
	if err == nil && w.i.step.Twice {
		fired := simrt.ClipFired
		p2, err2 := w.g.Generate(l)
		if simrt.ClipFired == fired && (err2 != nil || p2 != p) {
			w.i.cur.Notes = append(w.i.cur.Notes, "generating a second time from the same layers gives another program: "+firstDiff(p, p2))
		}
		if w.i.step.Deep && layersFP(l) != fp {
			w.i.cur.Notes = append(w.i.cur.Notes, "generating code a second time changed the layers")
		}
	}
	w.i.cur.HasProg, w.i.cur.Prog = err == nil, []byte(p)
	w.i.cur.Layers = len(l)
	if w.i.step.Plan && err == nil {
		w.i.planned(l)
	}
	w.i.tr("generate.out %s", hashStr(p))
	if e := w.i.fail("generator", -1, "after"); e != nil {
		return p, w.i.ret(e)
	}
	return p, w.i.ret(err)
}

type wWriter struct {
	i *inst
	w handler.GCodeWriter
}

func (w wWriter) Write(p, d string) error {
	w.i.tr("write %s %s", d, hashStr(p))
	if e := w.i.fail("writer", -1, "before"); e != nil {
		return w.i.ret(e)
	}
	err := w.w.Write(p, d)
	if e := w.i.fail("writer", -1, "after"); e != nil {
		return w.i.ret(e)
	}
	return w.i.ret(err)
}

// recRenderer is a renderer that records its calls and can fail.
type recRenderer struct {
	i *inst
	n int
	r gcode.Renderer
}

func (w *recRenderer) Init(m data.OptimizedModel) {
	w.i.tr("rinit %d", w.n)
	if w.r != nil {
		w.r.Init(m)
	}
}
func (w *recRenderer) Render(b *gcode.Builder, l, max int, layer data.PartitionedLayer, z data.Micrometer, o *data.Options) error {
	w.i.tr("render %d %d %d %d", w.n, l, max, int(z))
	if e := w.i.failLayer("renderer", w.n, l, "before"); e != nil {
		return e
	}
	if w.r != nil {
		if err := w.r.Render(b, l, max, layer, z, o); err != nil {
			return err
		}
	} else {
		b.AddComment("plug-in %d", w.n)
	}
	return w.i.failLayer("renderer", w.n, l, "after")
}

func (i *inst) failLayer(where string, at, layer int, how string) error {
	for k, j := range i.inj {
		if j.Where == where && j.How == how && j.At == at {
			max := i.cur.Layers
			if max == 0 {
				max = 1
			}
			want := j.Layer % max
			if want < 0 {
				want += max
			}
			if want == layer {
				i.calls[k]++
				if j.Call == 0 || j.Call == i.calls[k] {
					i.tr("FAIL %d", k+1)
					return i.inject(k)
				}
			}
		}
	}
	return nil
}

// recPattern wraps an infill pattern.
type recPattern struct {
	i *inst
	n int
	p clip.Pattern
}

func (w recPattern) Fill(l int, part data.LayerPart) (data.Paths, error) {
	if e := w.i.failLayer("pattern", w.n, l, "before"); e != nil {
		return nil, e
	}
	p, err := w.p.Fill(l, part)
	if err != nil {
		return p, err
	}
	if w.i.step.Plan {
		for _, q := range p {
			for k := 1; k < len(q); k++ {
				if q[k].Sub(q[k-1]).Size() > 500 {
					w.i.cur.Spots = append(w.i.cur.Spots, Spot{l, "FILL", "pattern", int(q[k].X()+q[k-1].X()) / 2, int(q[k].Y()+q[k-1].Y()) / 2, 60})
				}
			}
		}
	}
	if e := w.i.failLayer("pattern", w.n, l, "after"); e != nil {
		return p, e
	}
	return p, nil
}

// customGenerator is a generator with recording renderers in front of, between and behind the built-in ones.
func (i *inst) customGenerator(o *data.Options, order []string, spacing int) handler.GCodeGenerator {
	if spacing == 0 {
		spacing = 3
	}
	mk := func(attr string, n int, c []string) gcode.Renderer {
		return &renderer.Infill{AttrName: attr, Comments: c, PatternSetup: func(min, max data.MicroPoint) clip.Pattern {
			return recPattern{i, n, clip.NewLinearPattern(o.Printer.ExtrusionWidth, o.Printer.ExtrusionWidth*data.Micrometer(spacing), min, max, 45, true, false)}
		}}
	}
	var rs []gcode.Renderer
	for n, k := range order {
		if strings.HasPrefix(k, "=") { // the same renderer once more
			rs = append(rs, rs[num(k[1:])])
			continue
		}
		var r gcode.Renderer
		switch k {
		case "pre":
			r = renderer.PreLayer{}
		case "skirt":
			r = renderer.Skirt{}
		case "brim":
			r = renderer.Brim{}
		case "perimeter":
			r = renderer.Perimeter{}
		case "post":
			r = renderer.PostLayer{}
		case "bottom", "top", "infill", "support", "supportInterface":
			r = mk(k, n, []string{"TYPE:FILL"})
		}
		rs = append(rs, &recRenderer{i, n, r})
	}
	list := sliceOf(gcode.WithRenderer(rs[0]))
	for _, r := range rs[1:] {
		list = append(list, gcode.WithRenderer(r))
	}
	return gcode.NewGenerator(o, list...)
}

func sliceOf[T any](v ...T) []T { return v }

func (i *inst) wrap(st *Step) {
	s := i.s
	s.Reader = wReader{i, s.Reader}
	s.Optimizer = wOptimizer{i, s.Optimizer}
	s.Slicer = wSlicer{i, s.Slicer}
	var mods []handler.LayerModifier
	base := make([]int, len(s.Modifiers))
	for k := range base {
		base[k] = k
	}
	for _, j := range i.inj {
		if j.Where == "modifiers" {
			base = baseMods(i.inj)
		}
	}
	for k := 0; k <= len(base); k++ {
		for n, j := range i.inj {
			if (j.Where == "attr" || (j.Where == "modifier" && (j.How == "insert" || j.How == "noop"))) && min(j.At, len(base)) == k {
				nm := "plug-in"
				if j.Where == "modifier" && j.Attr != "" {
					nm = strings.TrimSuffix(j.Attr, ".")
				}
				mods = append(mods, wMod{i, len(mods), -1, n, nil, nm})
			}
		}
		if k < len(base) {
			mod := s.Modifiers[base[k]]
			mods = append(mods, wMod{i, len(mods), base[k], -1, mod, mod.GetName()})
		}
	}
	s.Modifiers = mods
	for _, j := range i.inj {
		if j.Where == "generator" && j.How == "custom" {
			s.Generator = i.customGenerator(i.opts, strings.Split(j.Val, ","), num(j.Attr))
		}
	}
	s.Generator = wGen{i, s.Generator}
	s.Writer = wWriter{i, s.Writer}
}

// ---- fingerprints of values as seen through their interfaces

func fnv64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
func hashStr(s string) string { return fmt.Sprintf("%016x:%d", fnv64(s), len(s)) }

type fp struct{ h uint64 }

func (f *fp) n(v int64) {
	for i := 0; i < 8; i++ {
		f.h = (f.h ^ uint64(v&255)) * 1099511628211
		v >>= 8
	}
}
func (f *fp) s(v string) {
	for i := 0; i < len(v); i++ {
		f.h = (f.h ^ uint64(v[i])) * 1099511628211
	}
	f.n(int64(len(v)))
}
func (f *fp) str() string { return fmt.Sprintf("%016x", f.h) }

func faces(m data.Model) []int64 {
	var r []int64
	for i := 0; i < m.FaceCount(); i++ {
		for _, p := range m.Face(i).Points() {
			r = append(r, int64(p.X()), int64(p.Y()), int64(p.Z()))
		}
	}
	return r
}

func modelFP(m data.Model) string {
	f := &fp{1}
	for _, v := range faces(m) {
		f.n(v)
	}
	return f.str()
}

func omodelFP(m data.OptimizedModel) string {
	f := &fp{2}
	for _, v := range faces(m) {
		f.n(v)
	}
	for i := 0; i < m.FaceCount(); i++ {
		for _, t := range m.OptimizedFace(i).TouchingFaceIndices() {
			f.n(int64(t))
		}
	}
	z := m.Size()
	f.n(int64(z.X()))
	f.n(int64(z.Y()))
	f.n(int64(z.Z()))
	return f.str()
}

func (f *fp) path(p data.Path) {
	f.n(int64(len(p)))
	for _, q := range p {
		f.n(int64(q.X()))
		f.n(int64(q.Y()))
	}
}

func (f *fp) part(p data.LayerPart) {
	if p == nil {
		f.s("nilpart")
		return
	}
	f.path(p.Outline())
	f.n(int64(len(p.Holes())))
	for _, h := range p.Holes() {
		f.path(h)
	}
	f.attrs(p.Attributes())
}

func (f *fp) attrs(a map[string]interface{}) {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		f.s(k)
		f.any(reflect.ValueOf(a[k]))
	}
}

func valueOf(v interface{}) reflect.Value { return reflect.ValueOf(v) }

func (f *fp) any(v reflect.Value) {
	if !v.IsValid() {
		f.s("nil")
		return
	}
	if v.CanInterface() {
		switch p := v.Interface().(type) {
		case data.LayerPart:
			f.part(p)
			return
		case data.MicroPoint:
			f.n(int64(p.X()))
			f.n(int64(p.Y()))
			return
		}
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		f.n(int64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			f.any(v.Index(i))
		}
	case reflect.Interface:
		f.any(v.Elem())
	case reflect.Int, reflect.Int64, reflect.Int32:
		f.n(v.Int())
	case reflect.String:
		f.s(v.String())
	case reflect.Float32, reflect.Float64:
		f.s(fmt.Sprint(v.Float()))
	default:
		f.s(v.Type().String())
	}
}

func layersFP(l []data.PartitionedLayer) string {
	f := &fp{3}
	f.n(int64(len(l)))
	for _, x := range l {
		if x == nil {
			f.s("nillayer")
			continue
		}
		for _, p := range x.LayerParts() {
			f.part(p)
		}
		f.attrs(x.Attributes())
	}
	return f.str()
}

func attrNames(l []data.PartitionedLayer) []string {
	m := map[string]bool{}
	for _, x := range l {
		for k := range x.Attributes() {
			m[k] = true
		}
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func optFP(o *data.Options) string {
	c := *o
	c.GoSlice.Logger = nil
	ctr := o.Printer.Center
	c.Printer.Center = nil
	var ks []int
	for k := range o.Filament.FanSpeed.LayerToSpeedLUT {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%d=%d,", k, o.Filament.FanSpeed.LayerToSpeedLUT[k])
	}
	c.Filament.FanSpeed.LayerToSpeedLUT = nil
	return fmt.Sprintf("%+v center %d %d %d fan %s start %q end %q", c, ctr.X(), ctr.Y(), ctr.Z(), s, o.Printer.StartGCode.GCodeLines, o.Printer.EndGCode.GCodeLines)
}

func diffStr(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 30
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		if lo >= len(s) {
			return ""
		}
		s = s[lo:]
		if len(s) > 70 {
			s = s[:70]
		}
		return s
	}
	return fmt.Sprintf("%q / %q", cut(a), cut(b))
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q / %q", i+1, x, y)
		}
	}
	return "same"
}
