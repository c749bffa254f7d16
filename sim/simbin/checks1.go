package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"

	"goslicesim/simfs"
	"goslicesim/simrt"
)

var realAll = []string{"goslice (all packages)", "go.clipper", "go-convex-hull-2d", "hschendel/stl", "Go standard library above the system calls"}
var stubAll = []string{"kernel file operations (simulated storage)", "clock and timers", "goroutine scheduling", "hash-map seeds", "log sink"}
var realCLI = append(append([]string{}, realAll...), "cmd/goslice", "pflag")

// ---- C01

func genC01(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	if r.P(1, 4) { // the writer on its own
		p.Kind = "writer"
		text := r.S("G1 X1.00 Y2.00\n", ";LAYER:0\n%d %s %%\n", "\x00\ue0ff\r\n", "M117 \ue0e4 \u00e4 \u2028\ufeff \ufffd\n", "\ufeff;bom\n", "trailing  \t\n", "line without end", "")
		n := r.I(1, 2, 50, 700, 5000, 70000)
		if r.P(1, 2) { // sizes around those of buffers
			text = "z"
			if n = 1<<uint(r.R(8, 21)) + r.R(-1, 1); r.P(1, 4) {
				n = n * 3 / 2
			}
		}
		p.Runs = []Run{{Kind: "write", Out: outPath, Args: []string{text, strconv.Itoa(n)}}}
		size := len(raw(text)) * n
		p.prior(r, outPath, size)
		if r.P(1, 3) {
			p.Runs = append(p.Runs, Run{Kind: "write", Out: outPath, Args: []string{"G0 Z1\n", strconv.Itoa(r.R(1, 9))}})
		} else if r.P(1, 3) {
			x := p.Runs[0]
			x.Mangle = mangle(r)
			p.Runs = append(p.Runs, x)
		}
		if r.P(5, 6) {
			p.destFaults(r, outPath, size)
		}
		p.fitCapacity(outPath)
		return
	}
	p.Kind = "run"
	m, o := plainJob(r)
	p.addJob(m, o)
	run := Run{Kind: "process", In: inPath, Out: outPath}
	p.names(r, &run)
	p.Runs = []Run{run}
	dest := run.Dest()
	g := c.goldOf(p, 0)
	size := len(g.Prog)
	if r.P(1, 8) {
		p.World.Machine = genMachine(r)
	}
	switch r.N(8) {
	case 0: // destination is a directory
		p.World.Files[dest] = FileSpec{Dir: true, Mode: 0755}
	case 1: // a link to the real file
		p.World.Files[dest] = FileSpec{Link: "/out/real.gcode"}
		p.World.Files["/out/real.gcode"] = FileSpec{Text: ";old\n", Rep: size/5 + r.N(100)}
	case 2: // directory of the destination is missing
		p.Runs[0].Out = "/out/missing/p.gcode"
		dest = p.Runs[0].Out
	case 3:
		p.World.Files[dest] = FileSpec{Text: "locked", Mode: 0444}
	default:
		p.prior(r, dest, size)
	}
	if r.P(1, 4) && p.Runs[0].Out == outPath { // a smaller job to the same place afterwards
		m2 := clone(m)
		m2.Bodies = m2.Bodies[:1]
		m2.Bodies[0].W, m2.Bodies[0].D = 3000, 3000
		p.Models = append(p.Models, m2)
		p.Runs = append(p.Runs, Run{Kind: "process", Model: 1, In: "/in/second.stl", Out: outPath})
	}
	if f := p.World.Files[dest]; len(p.Runs) == 1 && f.Link == "" && !f.Dir && r.P(1, 5) { // the same job again, after somebody has changed the program
		x := p.Runs[0]
		x.Mangle = mangle(r)
		p.Runs = append(p.Runs, x)
	}
	if r.P(6, 7) {
		p.destFaults(r, dest, size)
		if x := p.World.Files[dest].Link; x != "" {
			for i := range p.Faults {
				if p.Faults[i].Op != "open" || r.P(1, 2) {
					p.Faults[i].Path = x
				}
			}
		}
	}
	p.fitCapacity(dest)
}

func mangle(r *Rng) string {
	return fmt.Sprintf("%s %d", r.S("flip", "flip", "cut", "tail", "touch"), r.I(0, 1, 1000, r.N(1000), r.N(1000), r.N(1000)))
}

func checkC01(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if !j.usable() || !j.alive() {
		return j.list
	}
	if j.fired() == 0 && len(p.Faults)+len(p.Clip) > 0 {
		c.stats.Discarded++
	}
	okAll := true
	for i, r := range p.Runs {
		s := p.result(rec, i)
		var g *Gold
		if r.Kind == "process" {
			g = c.goldOf(p, i)
		}
		if good(s) {
			j.complete(i, g)
		} else {
			okAll = false
			if s.Err == "" && s.HasErr {
				j.add("message", "run %d fails without a message", i)
			}
		}
	}
	// an error that only shows up when the file is closed or synchronised
	for k, f := range p.Faults {
		if rec.Fired[k] > 0 && (f.Op == "close" || f.Op == "fsync") && f.Err != "EINTR" && !(f.Op == "fsync" && f.Err == "EPERM") && okAll {
			j.add("close", "%s of the destination failed with %s (data lost: %v), but every run reports success", f.Op, f.Err, f.Lose)
		}
	}
	return j.list
}

// ---- C02

func genC02(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	m, o := plainJob(r)
	run := Run{Kind: "process", In: inPath, Out: outPath, Faces: true}
	if r.P(1, 2) {
		run.Kind = "read"
		run.Out = ""
	}
	if r.P(1, 2) {
		m.ASCII = !m.ASCII
	}
	if r.P(1, 4) { // more digits than micrometers
		m = ModelSpec{Raw: fractional(r, m), ASCII: m.ASCII}
	} else if run.Kind == "read" && r.P(1, 4) {
		m = ModelSpec{Raw: anyTriangles(r, m.ASCII), ASCII: m.ASCII}
	}
	if run.Kind == "read" && r.P(1, 60) { // more triangles than fit into 16 bits, or as many as buffers hold
		n := r.I(65535, 65536, 65537, 70000, 131073, 4096, 8192, 32768)
		m = ModelSpec{Many: n, ASCII: n < 40000 && r.P(1, 2)}
		run.Kind = "read"
	}
	if r.P(1, 3) && m.Many == 0 { // orders and values that are easily mixed up
		for i := r.R(1, 4); i > 0; i-- {
			m.Dirt = append(m.Dirt, Dirt{r.S("dup", "flip", "degen", "jitter"), r.N(40), r.N(20)})
		}
	}
	size := len(m.Bytes())
	pos := func() int { return r.N(size) }
	p.prior(r, outPath, 3000)
	switch r.N(10) {
	case 0, 1: // clean, but in pieces
		p.Kind = "split"
		k := r.I(1, 2, 3, 6, 49, 50, 51, 79, 80, 81, 83, 84, 85, 133, 134, 500, 511, 512, 4095)
		p.Faults = append(p.Faults, simfs.Fault{Op: "read", Path: inPath, Nth: r.I(1, 1, 2), Count: r.I(-1, -1, 1, 2), Short: k})
		if r.P(1, 3) {
			p.Faults = append(p.Faults, simfs.Fault{Op: r.S("read", "open"), Path: inPath, Nth: r.R(1, 3), Count: r.R(1, 3), Err: "EINTR"})
		}
	case 2, 3: // the read fails somewhere
		p.Kind = "read error"
		k := r.I(84, 100, 1000, 512, 4096)
		if r.P(2, 3) {
			p.Faults = append(p.Faults, simfs.Fault{Op: "read", Path: inPath, Nth: 1, Count: -1, Short: k})
		}
		n := size/k + 2
		p.Faults = append(p.Faults, simfs.Fault{Op: "read", Path: inPath, Nth: r.R(1, n), Count: r.I(-1, 1), Err: r.S(readErrs...)})
	case 4:
		p.Kind = "open error"
		p.Faults = append(p.Faults, simfs.Fault{Op: r.S("open", "stat", "fstat", "seek", "close"), Path: inPath, Nth: 1, Count: r.I(-1, 1), Err: r.S("EACCES", "EIO", "EMFILE", "ENFILE", "ELOOP", "ENOENT", "ESTALE", "EPERM")})
	case 5, 6:
		p.Kind = "truncated"
		m.Cut = size - pos()
		if r.P(1, 2) { // near structural points
			if m.ASCII {
				m.Cut = r.R(1, 120)
			} else {
				m.Cut = r.I(1, 2, 12, 25, 49, 50, 51, 100, 150)
				if r.P(1, 4) {
					m.Cut = size - r.I(1, 5, 6, 79, 80, 81, 83, 84, 85)
				}
			}
			if m.Cut > size {
				m.Cut = size
			}
		}
		if r.P(1, 20) {
			m.Cut = -1
		}
	case 7, 8:
		p.Kind = "damaged"
		for i := r.R(1, 3); i > 0; i-- {
			m.Muts = append(m.Muts, genMut(r, m))
		}
	case 9:
		p.Kind = "not a file"
		switch r.N(4) {
		case 0:
			run.NoFile = true
		case 1:
			p.World.Files[inPath] = FileSpec{Dir: true, Mode: 0755}
		case 2:
			p.World.Files[inPath] = FileSpec{Link: "/in/model.stl"}
		case 3:
			p.World.Files[inPath] = FileSpec{Text: r.S("", "hello", "solid x", "solid x\n", "\x00", "endsolid\n", "solid \n facet normal 0 0 0\n outer loop\n"), Rep: r.I(1, 30)}
		}
	}
	p.addJob(m, o)
	p.Runs = []Run{run}
}

// fractional is a file whose coordinates need rounding, anywhere in space.
func fractional(r *Rng, m ModelSpec) []byte {
	var off [3]float64
	if r.P(2, 3) {
		for k := range off {
			off[k] = float64(r.R(-40000, 40000)) / 1000
		}
	}
	var t [][3][3]float64
	for _, x := range m.Tris() {
		var y [3][3]float64
		for i := range x {
			for k := range x[i] {
				y[i][k] = float64(x[i][k])/1000 + off[k] + float64(r.R(-499, 499))/1e6
			}
		}
		t = append(t, y)
	}
	return stlFile(r, t, m.ASCII)
}

// anyTriangles is a file with triangles that need not form a body.
func anyTriangles(r *Rng, ascii bool) []byte {
	var t [][3][3]float64
	for n := r.I(1, 2, 5, 40, 200); n > 0; n-- {
		var y [3][3]float64
		for i := range y {
			for k := range y[i] {
				switch r.N(8) {
				case 0:
					y[i][k] = 0
				case 1:
					y[i][k] = float64(r.R(-3, 3)) / 1e3
				case 2:
					y[i][k] = float64(r.R(-3000, 3000)) / 1e6
				case 3:
					y[i][k] = float64(r.R(-900000, 900000)) / 1e3
				case 4:
					y[i][k] = float64(r.R(-1000, 1000))
				default:
					y[i][k] = float64(r.R(-200_000_000, 200_000_000)) / 1e6
				}
			}
		}
		t = append(t, y)
		if r.P(1, 10) {
			t = append(t, t[r.N(len(t))])
		}
	}
	return stlFile(r, t, ascii)
}

func stlFile(r *Rng, t [][3][3]float64, ascii bool) []byte {
	if !ascii {
		b := make([]byte, 84, 84+50*len(t))
		copy(b, r.S("", "fine", "solid fine"))
		binary.LittleEndian.PutUint32(b[80:], uint32(len(t)))
		for _, x := range t {
			var q [50]byte
			o := 12
			for _, v := range x {
				for _, c := range v {
					binary.LittleEndian.PutUint32(q[o:], math.Float32bits(float32(c)))
					o += 4
				}
			}
			b = append(b, q[:]...)
		}
		return b
	}
	s := "solid fine\n"
	for _, x := range t {
		s += "facet normal 0 0 0\nouter loop\n"
		for _, v := range x {
			s += "vertex"
			for _, f := range v {
				s += " " + r.S(strconv.FormatFloat(f, 'f', 6, 64), strconv.FormatFloat(f, 'e', 8, 64), strconv.FormatFloat(f, 'g', -1, 64))
			}
			s += "\n"
		}
		s += "endloop\nendfacet\n"
	}
	return []byte(s + "endsolid fine\n")
}

var keywords = []string{"facet", "normal", "outer", "loop", "vertex", "endloop", "endfacet", "endsolid", "solid"}

func genMut(r *Rng, m ModelSpec) Mut {
	b := m.clean()
	if m.ASCII {
		k := r.S(keywords...)
		// one of the occurrences
		var at []int
		for i := 0; i+len(k) <= len(b); i++ {
			if string(b[i:i+len(k)]) == k && (i == 0 || b[i-1] <= ' ') {
				at = append(at, i)
			}
		}
		if len(at) > 0 && r.P(3, 4) {
			i := at[r.N(len(at))]
			switch r.N(5) {
			case 0:
				return Mut{At: i, Kind: "set", Val: r.S("X", "#", " ", "\n")}
			case 1:
				return Mut{At: i, Kind: "del", Val: k}
			case 2:
				return Mut{At: i, Kind: "ins", Val: r.S("foo ", "x", "facet ", "endsolid\n", "vertex 1 2 3\n")}
			case 3:
				return Mut{At: i, Kind: "del", Val: strings.Repeat("x", r.R(1, 60))}
			default:
				return Mut{At: i + len(k), Kind: "set", Val: "x"}
			}
		}
		return Mut{At: r.N(len(b)), Kind: r.S("set", "ins", "del"), Val: r.S("x", "\x00", " ", "\n", "--", "1e", "..")}
	}
	switch r.N(4) {
	case 0: // the count
		v := make([]byte, 4)
		n := binary.LittleEndian.Uint32(b[80:])
		binary.LittleEndian.PutUint32(v, uint32(int(n)+r.I(1, -1, 2, 1000, 1<<20)))
		return Mut{At: 80, Kind: "set", Val: latin(v)}
	case 1:
		return Mut{At: r.N(84), Kind: r.S("ins", "del"), Val: "abc"[:r.R(1, 3)]}
	case 2:
		return Mut{At: r.N(len(b)), Kind: r.S("ins", "del"), Val: strings.Repeat("z", r.I(1, 2, 49, 50, 51))}
	default:
		return Mut{At: r.N(80), Kind: "set", Val: r.S("solid ", "\x00", "abcdefghijk")}
	}
}

// latin keeps arbitrary bytes through JSON (see Mut.bytes).
func latin(b []byte) string {
	s := "hex:"
	for _, x := range b {
		s += fmt.Sprintf("%02x", x)
	}
	return s
}

// refParse reads an STL file strictly; coordinates in micrometers, not rounded.
func refParse(b []byte) ([]float64, bool) { return refParseWith(b, false) }

// refParseWith may be told to ignore words between two facets which belong to nothing.
func refParseWith(b []byte, ignore bool) ([]float64, bool) {
	var r []float64
	if len(b) >= 84 {
		n := int64(binary.LittleEndian.Uint32(b[80:]))
		if int64(len(b)) == 84+50*n {
			for i := int64(0); i < n; i++ {
				o := 84 + 50*i + 12
				for k := int64(0); k < 9; k++ {
					r = append(r, float64(math.Float32frombits(binary.LittleEndian.Uint32(b[o+4*k:])))*1000)
				}
			}
			return r, true
		}
	}
	if !bytes.HasPrefix(b, []byte("solid ")) {
		return nil, false
	}
	i := bytes.IndexByte(b, '\n')
	if i < 0 {
		return nil, false
	}
	w := strings.Fields(string(b[i:]))
	k := 0
	want := func(s ...string) bool {
		for _, x := range s {
			if k >= len(w) || w[k] != x {
				return false
			}
			k++
		}
		return true
	}
	point := func(keep bool) bool {
		for n := 0; n < 3; n++ {
			if k >= len(w) {
				return false
			}
			f, err := strconv.ParseFloat(w[k], 64)
			if err != nil {
				return false
			}
			if keep {
				r = append(r, f*1000)
			}
			k++
		}
		return true
	}
	for k < len(w) && w[k] != "endsolid" {
		if ignore && !keyword[w[k]] {
			k++
			continue
		}
		if !want("facet", "normal") || !point(false) || !want("outer", "loop", "vertex") || !point(true) || !want("vertex") || !point(true) || !want("vertex") || !point(true) || !want("endloop", "endfacet") {
			return nil, false
		}
	}
	if !want("endsolid") {
		return nil, false
	}
	for ; k < len(w); k++ {
		if w[k] == "vertex" || w[k] == "facet" {
			return nil, false
		}
	}
	return r, true
}

var keyword = map[string]bool{"facet": true, "normal": true, "outer": true, "loop": true, "vertex": true, "endloop": true, "endfacet": true}

func sane(f []float64) bool {
	for _, x := range f {
		if math.IsNaN(x) || math.Abs(x) > 1e6 {
			return false
		}
	}
	return true
}

func facesDiff(got []int64, want []float64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d triangles instead of %d", len(got)/9, len(want)/9)
	}
	for i := range got {
		if math.Abs(float64(got[i])-want[i]) > 0.5+2e-3+math.Abs(want[i])*2.5e-7 {
			return fmt.Sprintf("coordinate %d of triangle %d is %d instead of %.3f", i%9, i/9, got[i], want[i])
		}
	}
	return ""
}

func checkC02(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if !j.alive() {
		return j.list
	}
	r := p.Runs[0]
	s := p.result(rec, 0)
	e := p.episode()
	m := p.Models[0]
	file, isFile := e.FS.Tree[inPath]
	isFile = isFile && !file.Dir && file.Link == ""
	strict, okStrict := refParse(file.Data)
	whole := m
	whole.Cut, whole.Muts = 0, nil
	full, okFull := refParse(whole.Bytes())
	if isFile && okStrict && !sane(strict) {
		c.stats.Discarded++
		return nil
	}
	_, replaced := p.World.Files[inPath]
	hard := false
	for k, f := range p.Faults {
		if rec.Fired[k] > 0 && f.Err != "" && f.Err != "EINTR" && f.Path == inPath && f.Op != "close" {
			hard = true
		}
	}
	usedOK := s.Faces != nil || (r.Kind == "read" && good(s))
	if usedOK { // the model went into the pipeline
		d := "the file cannot be read"
		if isFile && okStrict {
			d = facesDiff(s.Faces, strict)
		}
		if d != "" && okFull && !replaced && isFile { // damage outside of the triangles may be tolerated
			if x := facesDiff(s.Faces, full); x == "" {
				d = ""
				j.probe("tolerated damage")
			} else if !okStrict {
				d = "the damaged file is used with " + x
				if y, ok := refParseWith(file.Data, true); ok && facesDiff(s.Faces, y) == "" { // another damage cannot be told from a good value
					d = ""
					j.probe("tolerated damage")
				}
			}
		}
		if d != "" {
			j.add("faces", "reading %s: %s (%s)", p.Kind, d, describeFile(file.Data, isFile))
		}
		if hard {
			j.probe("model complete in spite of an error")
		}
	} else if r.Kind == "process" {
		if good(s) {
			j.add("faces", "the run reports success without a model")
		}
	}
	if !good(s) {
		if s.Err == "" {
			j.add("message", "fails without a message")
		}
		if r.Kind == "process" && !usedOK {
			j.untouched(0, "reading failed")
		}
		if isFile && okStrict && !hard && !usedOK {
			j.add("refused", "a correct file is refused: %q (%s)", s.Err, p.Kind)
		}
	}
	if r.Kind == "process" && len(m.Muts) == 0 && m.Cut == 0 && !hard && isFile && !replaced {
		g := c.goldOf(p, 0)
		if g.usable() {
			j.exact(0, g, false)
		}
	}
	if len(rec.Fired) > 0 && j.fired() == 0 {
		c.stats.Discarded++
	}
	return j.list
}

func describeFile(b []byte, is bool) string {
	if !is {
		return "not a regular file"
	}
	return fmt.Sprintf("%d bytes beginning %q", len(b), tailHead(b, 24))
}

func tailHead(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// ---- C03

// stageNames in the order of the pipeline.
func genC03(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	m, o := plainJob(r)
	p.addJob(m, o)
	run := Run{Kind: "process", In: inPath, Out: outPath, Trace: true}
	if r.P(1, 5) {
		run.Out = ""
	}
	pick := func() Inject {
		switch r.N(9) {
		case 0:
			return Inject{Where: "reader", How: r.S("before", "after")}
		case 1:
			return Inject{Where: "optimizer", How: r.S("before", "after")}
		case 2:
			return Inject{Where: "slicer", How: r.S("before", "after")}
		case 3, 4:
			return Inject{Where: "modifier", At: r.N(6), How: r.S("before", "after")}
		case 5:
			return Inject{Where: "modifier", At: r.N(7), How: "insert"}
		case 6:
			return Inject{Where: "modifier", At: r.N(7), How: "noop"}
		case 7:
			return Inject{Where: "generator", How: r.S("before", "after")}
		default:
			return Inject{Where: "writer", How: r.S("before", "after")}
		}
	}
	if r.P(1, 8) { // a plug-in makes the program
		run.Inject = append(run.Inject, Inject{Where: "generator", How: "text", Val: r.S("", "", "\n", "M84", ";only a comment\n", strings.Repeat("G1 X1 Y1\n", r.R(1, 20000)))})
	}
	if r.P(1, 8) { // other modifiers than those of the shipped pipeline
		run.Inject = append(run.Inject, Inject{Where: "modifiers", Val: r.S("", "", "0", "01", "012", "03", "013", "0123", "01345", "45", "3")})
		if v := run.Inject[len(run.Inject)-1].Val; (v == "" || v == "0" || v == "01") && r.P(1, 2) {
			run.Inject = append(run.Inject, Inject{Where: "slicer", How: "nothing", Val: r.S("nil", "empty")})
		}
	}
	for i, n := 0, r.I(0, 1, 1, 1, 1, 2, 3); i < n; i++ {
		k := pick()
		if r.P(1, 3) {
			k.Err = injErrKind(r)
		}
		if k.Where == "modifier" && r.P(1, 3) {
			k.Attr = r.S(".", "Perimeter", "Infill", "Brim", "SupportGenerator") // the name of the plug-in
		}
		run.Inject = append(run.Inject, k)
	}
	if r.P(1, 4) { // natural failures
		switch r.N(4) {
		case 0:
			p.Faults = append(p.Faults, simfs.Fault{Op: "open", Path: inPath, Nth: 1, Count: -1, Err: r.S("EACCES", "EIO")})
		case 1:
			run.NoFile = true
		case 2:
			p.Clip = []simrt.ClipRule{{Nth: r.R(1, 60), Count: r.I(1, 3, 1000000)}}
		case 3:
			p.Models[0].Cut = r.R(30, 80)
		}
	}
	p.prior(r, run.Dest(), 3000)
	p.Runs = []Run{run}
	if r.P(1, 4) { // again with the same instance
		p.Runs[0].Inst = 1
		for i := range p.Runs[0].Inject {
			p.Runs[0].Inject[i].Call = 1
		}
		p.Runs = append(p.Runs, p.Runs[0])
		p.Runs[1].Inject = nil
	}
}

func injErrKind(r *Rng) string {
	k := r.S("empty", "EOF", "not exist", "canceled", "deadline", "ENOSPC", "EINTR", "unexpected EOF", "closed")
	if k != "empty" && r.P(1, 2) {
		k = "=" + k
	}
	return k
}

// modOrder lists the modifiers of a run: numbers >= 0 are built in, -1-k is the plug-in of injection k.
func modOrder(inj []Inject) []int {
	var l []int
	base := baseMods(inj)
	for k := 0; k <= len(base); k++ {
		for n, j := range inj {
			if (j.Where == "attr" || (j.Where == "modifier" && (j.How == "insert" || j.How == "noop"))) && min(j.At, len(base)) == k {
				l = append(l, -1-n)
			}
		}
		if k < len(base) {
			l = append(l, base[k])
		}
	}
	return l
}

// baseMods lists the built-in modifiers that are part of the pipeline.
func baseMods(inj []Inject) []int {
	for _, j := range inj {
		if j.Where == "modifiers" {
			var l []int
			for _, d := range j.Val {
				l = append(l, int(d-'0'))
			}
			return l
		}
	}
	return []int{0, 1, 2, 3, 4, 5}
}

// stageSteps is the expected sequence of stages with the injected failure that ends each (0: none).
type stageStep struct {
	name string
	fail int // number of the injection that fails in it
	pre  bool
}

func stageSteps(inj []Inject) []stageStep {
	find := func(where string, at int, how string) int {
		for k, j := range inj {
			if j.Where == where && j.How == how && (at < 0 || j.At == at) {
				return k + 1
			}
		}
		return 0
	}
	both := func(name, where string, at int) stageStep {
		if k := find(where, at, "before"); k > 0 {
			return stageStep{name, k, true}
		}
		return stageStep{name, find(where, at, "after"), false}
	}
	l := []stageStep{both("read", "reader", -1), both("optimize", "optimizer", -1), both("slice", "slicer", -1)}
	for n, m := range modOrder(inj) {
		name := fmt.Sprintf("modify %d", n)
		if m < 0 {
			k := -m
			if inj[k-1].How == "insert" {
				l = append(l, stageStep{name, k, true})
			} else {
				l = append(l, stageStep{name, 0, false})
			}
			continue
		}
		l = append(l, both(name, "modifier", m))
	}
	l = append(l, both("generate", "generator", -1), both("write", "writer", -1))
	return l
}

// checkTrace follows the recorded calls of a run. It returns the name of the stage that was executed last.
func (j *judge) checkTrace(i int, inj []Inject) {
	s := j.p.result(j.rec, i)
	var t []string
	for _, x := range s.Trace {
		if !strings.HasPrefix(x, "rinit") && !strings.HasPrefix(x, "render") && !strings.HasPrefix(x, "FAIL") {
			t = append(t, x)
		}
	}
	steps := stageSteps(inj)
	r := j.p.Runs[i]
	k := 0
	next := func() []string {
		if k < len(t) {
			k++
			return strings.Fields(t[k-1])
		}
		return nil
	}
	bad := func(f string, a ...interface{}) {
		j.add("order", "run %d: "+f+"; calls: %s", append(append([]interface{}{i}, a...), strings.Join(t, " | "))...)
	}
	model, om, layers, prog := "", "", "", ""
	mod := -1
	for n, st := range steps {
		if k >= len(t) {
			// nothing more was called: the stage before must have failed
			if n == 0 {
				bad("nothing was called")
				return
			}
			prev := steps[n-1]
			if !s.HasErr {
				bad("success although %q was never executed", st.name)
				return
			}
			if prev.fail > 0 && s.ErrNo != prev.fail {
				j.add("error", "run %d: %q failed with injected failure %d, the caller gets %q", i, prev.name, prev.fail, s.Err)
			}
			if prev.fail == 0 && s.ErrNo != 0 {
				j.add("error", "run %d: the caller gets injected failure %d, but %q was executed last; calls: %s", i, s.ErrNo, prev.name, strings.Join(t, " | "))
			}
			return
		}
		// a stage follows: the one before has succeeded
		if n > 0 && steps[n-1].fail > 0 {
			bad("%q was executed although %q failed", st.name, steps[n-1].name)
			return
		}
		f := next()
		verb := strings.Fields(st.name)[0]
		switch verb {
		case "read":
			if f[0] != "read" || len(f) != 2 || f[1] != relpath(j.p.World.Rel, r.In) {
				bad("expected reading %s", r.In)
				return
			}
			if k < len(t) && strings.HasPrefix(t[k], "read.out") {
				model = next()[1]
			}
		case "optimize":
			if f[0] != "optimize.in" || f[1] != model {
				bad("the optimizer does not get the model that was read")
				return
			}
			if k < len(t) && strings.HasPrefix(t[k], "optimize.out") {
				om = next()[1]
			}
		case "slice":
			if f[0] != "slice.in" || f[1] != om {
				bad("the slicer does not get the optimized model")
				return
			}
			if k < len(t) && strings.HasPrefix(t[k], "slice.out") {
				layers = next()[1]
			}
		case "modify":
			mod++
			if f[0] != "init" || f[1] != strconv.Itoa(mod) {
				bad("modifier %d is not initialised", mod)
				return
			}
			if f[2] != om {
				bad("modifier %d is initialised with another model", mod)
				return
			}
			f = next()
			if f == nil || f[0] != "modify.in" || f[1] != strconv.Itoa(mod) {
				bad("modifier %d is not executed after its initialisation", mod)
				return
			}
			if f[2] != layers {
				bad("modifier %d does not get the layers its predecessor left", mod)
				return
			}
			if k < len(t) && strings.HasPrefix(t[k], "modify.out") {
				layers = next()[2]
			}
		case "generate":
			if f[0] != "gen.init" || f[1] != om {
				bad("the generator is not initialised with the model")
				return
			}
			f = next()
			if f == nil || f[0] != "generate.in" || f[1] != layers {
				bad("the generator does not get the modified layers")
				return
			}
			if k < len(t) && strings.HasPrefix(t[k], "generate.out") {
				prog = next()[1]
			}
		case "write":
			if f[0] != "write" || f[1] != relpath(j.p.World.Rel, r.Dest()) {
				bad("expected writing to %s", r.Dest())
				return
			}
			if len(f) < 3 || f[2] != prog {
				bad("another program than the generated one is written")
				return
			}
			if st.fail > 0 && s.ErrNo != st.fail {
				j.add("error", "run %d: writing failed with injected failure %d, the caller gets %q", i, st.fail, s.Err)
			}
		}
	}
	if k < len(t) {
		bad("more calls than stages")
	}
}

func checkC03(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if !j.usable() || !j.alive() {
		return j.list
	}
	for i, r := range p.Runs {
		s := p.result(rec, i)
		inj := r.Inject
		if i > 0 && p.Runs[0].Inst > 0 { // the instance keeps its plug-ins, their failures were for the first time only
			inj = clone(p.Runs[0].Inject)
			for k := range inj {
				if s.Injected == 0 {
					if inj[k].How == "insert" {
						inj[k].How = "noop"
					} else if inj[k].Where != "modifiers" && (inj[k].Where != "modifier" || inj[k].How != "noop") {
						inj[k].Where = "none"
					}
				}
			}
			if s.Injected > 0 {
				continue // a failure that was not reached the first time; covered by single runs
			}
		}
		if s.Injected == 0 && len(inj) > 0 && i == 0 {
			// an earlier natural failure ended the run
			j.probe("natural failure before the injected one")
		}
		j.checkTrace(i, inj)
		switch n := len(s.StageErr); {
		case n > 1:
			j.add("order", "run %d: %d stages fail: %q", i, n, s.StageErr)
		case n == 0 && s.HasErr:
			j.add("error", "run %d fails with %q although no stage of it failed", i, s.Err)
		case n == 1 && !s.HasErr:
			j.add("error", "run %d reports success although a stage failed with %q", i, s.StageErr[0])
		case n == 1 && !strings.Contains(s.Err, s.StageErr[0]):
			j.add("error", "run %d: a stage fails with %q, the caller gets %q", i, s.StageErr[0], s.Err)
		case n == 1 && !s.SameErr:
			j.add("error", "run %d: a stage fails with %q, the caller gets another error with the text %q", i, s.StageErr[0], s.Err)
		}
		wrote := false
		for _, x := range s.Trace {
			if strings.HasPrefix(x, "write ") {
				wrote = true
			}
		}
		wroteInner := wrote
		for _, k := range inj {
			if k.Where == "writer" && k.How == "before" {
				wroteInner = false
			}
		}
		if s.HasErr && !wroteInner && len(p.Runs) == 1 {
			j.untouched(0, fmt.Sprintf("the run failed with %q before writing", s.Err))
			if n := j.opens(abspath(p.World.Cwd, r.Dest())); n > 0 {
				j.add("output", "the run failed with %q before writing, but the destination was opened for writing", s.Err)
			}
		}
		if !s.HasErr {
			j.complete(i, nil)
		}
	}
	return j.list
}

// ---- C04

var rendererKinds = []string{"pre", "skirt", "brim", "perimeter", "bottom", "top", "infill", "support", "supportInterface", "post", "mine"}

func genC04(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	m, o := plainJob(r)
	if r.P(1, 6) { // many parts
		m = ModelSpec{Bodies: genGrid(r, 400, r.R(2, 3), r.R(1, 3))}
	}
	p.addJob(m, o)
	var order []string
	switch r.N(3) {
	case 0:
		order = append(order, rendererKinds[:10]...)
	case 1:
		order = append(order, rendererKinds...)
		for i := range order {
			k := r.N(i + 1)
			order[i], order[k] = order[k], order[i]
		}
	default:
		for i, n := 0, r.R(1, 8); i < n; i++ {
			order = append(order, r.S(rendererKinds...))
		}
	}
	if r.P(1, 5) { // the same renderer is registered several times
		for i, n := 0, r.R(1, 12); i < n; i++ {
			order = append(order, fmt.Sprintf("=%d", canonical(order, r.N(len(order)))))
		}
	}
	run := Run{Kind: "process", In: inPath, Out: outPath, Trace: true}
	run.Inject = []Inject{{Where: "generator", How: "custom", Val: strings.Join(order, ",")}}
	for i, n := 0, r.I(0, 1, 1, 1, 1, 2); i < n; i++ {
		at := canonical(order, r.N(len(order)))
		where := "renderer"
		if r.P(2, 5) {
			var pat []int
			for k, x := range order {
				switch x {
				case "bottom", "top", "infill", "support", "supportInterface":
					pat = append(pat, k)
				}
			}
			if len(pat) > 0 {
				where, at = "pattern", pat[r.N(len(pat))]
			}
		}
		run.Inject = append(run.Inject, Inject{Where: where, At: at, Layer: r.I(0, 1, -1, -2, r.N(10)), How: r.S("before", "after")})
		if where == "pattern" { // at some part of the layer
			run.Inject[len(run.Inject)-1].Call = r.I(0, 0, 1, 2, 2, 3, 5)
		}
		if r.P(1, 3) {
			run.Inject[len(run.Inject)-1].Err = injErrKind(r)
		}
	}
	p.prior(r, outPath, 3000)
	p.Runs = []Run{run}
	if r.P(1, 4) {
		p.Runs[0].Inst = 1
		for i := range p.Runs[0].Inject[1:] {
			p.Runs[0].Inject[1+i].Call = 1
		}
		p.Runs = append(p.Runs, p.Runs[0])
	}
}

// canonical is the position at which the renderer of a position was registered first.
func canonical(order []string, n int) int {
	if strings.HasPrefix(order[n], "=") {
		return num(order[n][1:])
	}
	return n
}

func checkC04(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if !j.usable() || !j.alive() {
		return j.list
	}
	g := c.goldOf(p, 0)
	if !g.Ok {
		c.stats.Discarded++
		return j.list
	}
	lt := newJob(p.Opts[0], p.Models[0])
	for i := range p.Runs {
		s := p.result(rec, i)
		order := strings.Split(p.Runs[i].Inject[0].Val, ",")
		var t []string
		for _, x := range s.Trace {
			if strings.HasPrefix(x, "rinit") || strings.HasPrefix(x, "render") || strings.HasPrefix(x, "FAIL") || strings.HasPrefix(x, "write") {
				t = append(t, x)
			}
		}
		inits := map[string]int{}
		k := 0
		for ; k < len(t) && strings.HasPrefix(t[k], "rinit "); k++ {
			inits[t[k]]++
		}
		regs := map[int]int{}
		for n := range order {
			regs[canonical(order, n)]++
		}
		for n := range order {
			if k := inits[fmt.Sprintf("rinit %d", n)]; regs[n] > 0 && (k < 1 || k > regs[n]) {
				j.add("init", "run %d: renderer %d (%s) is initialised %d times before rendering", i, n, order[n], k)
			}
		}
		if len(j.list) > 0 {
			return j.list
		}
		n := s.Layers
		if n == 0 {
			n = g.Res.Layers
		}
		failed := false
	loop:
		for l := 0; l < n; l++ {
			for q := range order {
				want := fmt.Sprintf("render %d %d %d %d", canonical(order, q), l, n-1, lt.first+l*lt.lt)
				if k >= len(t) {
					j.add("order", "run %d: %q is missing; the run ends with %q", i, want, s.Err)
					return j.list
				}
				if t[k] != want {
					j.add("order", "run %d: %q instead of %q", i, t[k], want)
					return j.list
				}
				k++
				if k < len(t) && strings.HasPrefix(t[k], "FAIL ") {
					failed = true
					no := num(t[k][5:])
					if k+1 < len(t) {
						j.add("continues", "run %d: after the failure of renderer %d (%s) in layer %d still %q", i, q, order[q], l, t[k+1])
						return j.list
					}
					if s.ErrNo != no {
						j.add("error", "run %d: failure %d of renderer %d (%s) in layer %d is reported as %q", i, no, q, order[q], l, s.Err)
					}
					if s.ProgNil {
						j.add("program", "run %d: a program is returned together with the error", i)
					}
					k++
					break loop
				}
			}
		}
		if !failed {
			if len(t) != k+1 || !strings.HasPrefix(t[k], "write ") {
				j.add("order", "run %d: after the last layer: %v", i, t[k:])
			} else if s.HasErr {
				j.add("error", "run %d: fails with %q although every renderer succeeded", i, s.Err)
			} else {
				j.complete(i, nil)
			}
		} else if len(p.Runs) == 1 {
			j.untouched(0, "a renderer failed")
		}
		if s.Injected == 0 && len(p.Runs[i].Inject) > 1 && len(p.Runs) == 1 {
			c.stats.Discarded++
		}
	}
	return j.list
}

// ---- C05

func genC05(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	m, o := genJob(r, 3, 6)
	if r.P(1, 3) { // few layers are completely bottom or top, and what they leave open varies
		lt := o.um("layer-thickness", 200)
		m.Bodies = genPlates(r, lt)
		o["number-bottom-layers"] = strconv.Itoa(r.R(0, 2))
		o["number-top-layers"] = strconv.Itoa(r.R(2, 4))
		if r.P(1, 4) {
			o["number-bottom-layers"], o["number-top-layers"] = o["number-top-layers"], o["number-bottom-layers"]
		}
	}
	if r.P(2, 3) {
		o["support-enabled"] = "true"
	}
	if r.P(1, 2) {
		o["brim-count"] = "2"
	}
	if r.P(1, 6) { // a mushroom: support beside the foot, where the brim is
		lt := o.um("layer-thickness", 200)
		w := 1000 * r.R(3, 8)
		h := lt * r.R(2, 5)
		m.Bodies = []Body{{Shape: "box", X: 0, Y: 0, W: w, D: w, H: h},
			{Shape: "box", X: -1000 * r.R(0, 6), Y: -1000 * r.R(0, 4), Z: h, W: w + 1000*r.R(6, 12), D: w + 1000*r.R(4, 8), H: lt * r.R(1, 3)}}
		m.Dirt = nil
		o["support-enabled"], o["brim-count"] = "true", strconv.Itoa(r.R(1, 5))
		o["support-top-gap-layers"] = strconv.Itoa(r.R(0, 1))
		o["support-interface-layers"] = strconv.Itoa(r.R(0, 2))
		o["support-threshold-angle"] = strconv.Itoa(r.I(0, 30, 60))
	}
	p.addJob(m, o)
	p.Runs = []Run{{Kind: "process", In: inPath, Out: outPath}}
	p.prior(r, outPath, 3000)
	g := c.goldOf(p, 0)
	n := len(g.Rec.ClipSites)
	if n == 0 {
		n = 1
	}
	for i, k := 0, r.I(1, 1, 1, 2, 3); i < k; i++ {
		nth := r.R(1, n)
		if len(g.Rec.ClipSites) > 0 && r.P(4, 5) { // every call site is equally interesting
			var sites []string
			at := map[string][]int{}
			for q, s := range g.Rec.ClipSites {
				if at[s] == nil {
					sites = append(sites, s)
				}
				at[s] = append(at[s], q+1)
			}
			a := at[sites[r.N(len(sites))]]
			nth = a[r.N(len(a))]
			if r.P(1, 3) {
				nth = a[0]
			}
		}
		p.Clip = append(p.Clip, simrt.ClipRule{Nth: nth, Count: r.I(1, 1, 1, 1, 2, 5, 1<<30)})
	}
}

func checkC05(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if !j.usable() || !j.alive() {
		return j.list
	}
	g := c.goldOf(p, 0)
	if rec.ClipFired == 0 {
		c.stats.Discarded++
	}
	s := p.result(rec, 0)
	site := "?"
	if k := p.firstClip(); k > 0 && k <= len(g.Rec.ClipSites) {
		site = g.Rec.ClipSites[k-1]
	}
	if good(s) {
		j.probe("harmless failure")
		if !g.Ok {
			j.add("swallowed", "a failing polygon operation (%s) turns failure %q into success", site, g.Err)
		} else if !bytes.Equal(s.Dest, g.Prog) {
			j.add("swallowed", "polygon operation %d (%s) failed, the run reports success with another program: %s", p.firstClip(), site, firstDiff(string(s.Dest), string(g.Prog)))
		}
	} else {
		if s.Err == "" {
			j.add("message", "fails without a message")
		}
		j.untouched(0, "polygon operation "+site+" failed and the run reported it")
	}
	return j.list
}

func (p *Plan) firstClip() int {
	k := 0
	for _, x := range p.Clip {
		if k == 0 || x.Nth < k {
			k = x.Nth
		}
	}
	return k
}

// ---- C06

var attrNamesUsed = []string{"perimeters", "overlapPerimeters", "bottom", "top", "infill", "brim", "outerBrim", "support", "supportInterface", "fullSupport", "myPlugIn"}

// gapJob is a job with bodies above each other, layers without parts between them and support in those.
func gapJob(r *Rng) (ModelSpec, Opt) {
	o := genOpt(r)
	o["support-enabled"] = "true"
	o["support-top-gap-layers"] = r.S("0", "1", "1", "2")
	o["support-threshold-angle"] = r.S("0", "30", "60")
	lt := o.um("layer-thickness", 200)
	var m ModelSpec
	z := 0
	for i, k := 0, 2; i < k; i++ {
		b := Body{Shape: r.S("box", "prism"), W: r.R(4000, 9000), D: r.R(4000, 9000), H: lt * r.R(2, 3), N: r.R(4, 8), Z: z}
		if i > 0 {
			b.X, b.Y = r.I(0, r.R(-9000, 9000)), r.I(0, r.R(-9000, 9000))
		}
		z += b.H + lt*r.R(2, 5)
		m.Bodies = append(m.Bodies, b)
	}
	return m, o
}

func genC06(c *Ctx, r *Rng, p *Plan) {
	p.dirs()
	if r.P(1, 6) { // the accessors on their own
		p.Kind = "accessors"
		run := Run{Kind: "access"}
		for i, n := 0, r.R(3, 12); i < n; i++ {
			run.Ops = append(run.Ops, Op{K: r.S("BottomInfill", "TopInfill", "FullSupport", "BrimOuterDimension", "PartsAttribute", "Perimeters", "Brim", "OverlapPerimeters"),
				S: r.S(attrNamesUsed...), I: r.I(0, 1, 2, 2, 2, 2, 3, 4), J: r.N(len(wrongKinds))})
		}
		p.Runs = []Run{run}
		return
	}
	p.Kind = "run"
	m, o := genJob(r, 3, 6)
	if r.P(2, 3) {
		o["support-enabled"] = "true"
	}
	if r.P(1, 2) {
		o["brim-count"] = "2"
	}
	if r.P(1, 6) { // a mushroom: support beside the foot, where the brim is
		lt := o.um("layer-thickness", 200)
		w := 1000 * r.R(3, 8)
		h := lt * r.R(2, 5)
		m.Bodies = []Body{{Shape: "box", X: 0, Y: 0, W: w, D: w, H: h},
			{Shape: "box", X: -1000 * r.R(0, 6), Y: -1000 * r.R(0, 4), Z: h, W: w + 1000*r.R(6, 12), D: w + 1000*r.R(4, 8), H: lt * r.R(1, 3)}}
		m.Dirt = nil
		o["support-enabled"], o["brim-count"] = "true", strconv.Itoa(r.R(1, 5))
		o["support-top-gap-layers"] = strconv.Itoa(r.R(0, 1))
		o["support-interface-layers"] = strconv.Itoa(r.R(0, 2))
		o["support-threshold-angle"] = strconv.Itoa(r.I(0, 30, 60))
	}
	gap := r.P(1, 4)
	if gap { // layers without parts, through which support passes
		m, o = gapJob(r)
	}
	p.addJob(m, o)
	run := Run{Kind: "process", In: inPath, Out: outPath}
	for i, n := 0, r.I(1, 1, 1, 2); i < n; i++ {
		a := r.S(attrNamesUsed...)
		k := r.S(wrongKinds...)
		for rightKind(a, k) {
			k = r.S(wrongKinds...)
		}
		run.Inject = append(run.Inject, Inject{Where: "attr", At: r.I(0, 1, 2, 3, 4, 5, 6, 6), Layer: r.I(0, 1, 2, -1, -2, r.N(12)), Attr: a, Val: k})
		if x := &run.Inject[i]; gap && r.P(3, 4) {
			x.Layer, x.At = emptyLayer+r.N(4), r.I(0, 4, 5, 5, 6, 6)
			if r.P(2, 3) {
				x.Attr = r.S("support", "support", "supportInterface", "fullSupport")
			}
			for rightKind(x.Attr, x.Val) {
				x.Val = r.S(wrongKinds...)
			}
		}
	}
	p.prior(r, outPath, 3000)
	p.Runs = []Run{run}
}

func checkC06(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if !j.usable() || !j.alive() {
		return j.list
	}
	s := p.result(rec, 0)
	if p.Kind == "accessors" {
		for _, n := range s.Notes {
			j.add("accessor", "%s", n)
		}
		return j.list
	}
	g := c.goldOf(p, 0)
	what := ""
	for _, x := range p.Runs[0].Inject {
		what += fmt.Sprintf("attribute %s = %s in layer %d before modifier %d; ", x.Attr, x.Val, x.Layer, x.At)
	}
	if good(s) {
		j.probe("tampering nobody needs")
		if !g.Ok {
			j.add("dropped", "%sturns failure %q into success", what, g.Err)
		} else if !bytes.Equal(s.Dest, g.Prog) {
			j.add("dropped", "%sthe run reports success with another program: %s", what, firstDiff(string(s.Dest), string(g.Prog)))
		}
	} else {
		j.probe("tampering rejected")
		j.untouched(0, "the run failed")
	}
	if s.Injected == 0 {
		c.stats.Discarded++
	}
	return j.list
}

func init() {
	register(&Property{ID: "C01", Quick: 3500, Thorough: 210000, Gen: genC01, Check: checkC01, Real: realAll, Stub: stubAll,
		Rule: "A plan is a model, a configuration, what is at the destination before the run and a fault of the destination's storage (open, write, short write, full disk, close, interruption), for whole runs and for the writer alone."})
	register(&Property{ID: "C02", Quick: 6000, Thorough: 360000, Gen: genC02, Check: checkC02, Real: realAll, Stub: stubAll,
		Rule: "A plan is an ASCII or binary STL file, possibly truncated or damaged at a byte or keyword, and faults of reading it (splits, interruptions, errors at any read, open, stat)."})
	register(&Property{ID: "C03", Quick: 4000, Thorough: 240000, Gen: genC03, Check: checkC03, Real: realAll, Stub: append([]string{"failing plug-in stages"}, stubAll...),
		Rule: "A plan is a job and failures of stages (before or after doing their work, as additional modifier, several at once) or natural failures; the recorded sequence of calls and values is compared with the pipeline's order."})
	register(&Property{ID: "C04", Quick: 3500, Thorough: 210000, Gen: genC04, Check: checkC04, Real: realAll, Stub: append([]string{"failing renderers and patterns"}, stubAll...),
		Rule: "A plan is a job, a list of renderers and failures of renderers or patterns at layers; the recorded calls are compared with the nested loop over layers and renderers."})
	register(&Property{ID: "C05", Quick: 3500, Thorough: 210000, Gen: genC05, Check: checkC05, Real: realAll, Stub: stubAll,
		Rule: "A plan is a job and the numbers of the polygon operations that fail, drawn so that every call site is met."})
	register(&Property{ID: "C06", Quick: 3500, Thorough: 210000, Gen: genC06, Check: checkC06, Real: realAll, Stub: stubAll,
		Rule: "A plan is a job and values of unexpected type put into layer attributes between any two modifiers, or a history of accessor calls."})
}
