package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Reference printer: executes G-code and records what the machine would do.

// Move is one motion command.
type Move struct {
	Line    int
	Layer   int    // announced layer, -1 before the first announcement
	Type    string // last TYPE comment
	From    [3]float64
	To      [3]float64
	Known   bool // the position before the move was known
	E       float64
	HasE    bool
	F       float64
	HasF    bool // some feed rate is known
	G       int
	Changed bool // XYZ really changes
}

func (m Move) XY() float64 {
	return math.Hypot(m.To[0]-m.From[0], m.To[1]-m.From[1])
}

// Cmd is any other command.
type Cmd struct {
	Line  int
	Layer int
	Moves int // moves before it
	Code  string
	Arg   map[byte]string
	Text  string
}

// Program is an executed program.
type Program struct {
	Lines  []string
	Moves  []Move
	Cmds   []Cmd
	Layers []struct{ Line, Nr, Moves int }
	Errs   []string
	E      float64
}

type span struct{ from, to int } // lines [from,to)

// runPrinter executes the program; the lines in the opaque ranges are not interpreted (custom code).
func runPrinter(text string, opaque []span) *Program {
	p := &Program{}
	p.Lines = strings.Split(text, "\n")
	if n := len(p.Lines); n > 0 && p.Lines[n-1] == "" {
		p.Lines = p.Lines[:n-1]
	}
	pos := [3]float64{}
	known := [3]bool{true, true, true}
	feed, feedKnown := 0.0, false
	layer, typ := -1, ""
	e := 0.0
	bad := func(n int, f string, a ...interface{}) {
		if len(p.Errs) < 20 {
			p.Errs = append(p.Errs, fmt.Sprintf("line %d %q: ", n+1, p.Lines[n])+fmt.Sprintf(f, a...))
		}
	}
lines:
	for n, l := range p.Lines {
		for _, o := range opaque {
			if n >= o.from && n < o.to {
				known = [3]bool{}
				feedKnown = false
				continue lines
			}
		}
		if strings.HasPrefix(l, ";") {
			c := l[1:]
			if strings.HasPrefix(c, "LAYER:") {
				v, err := strconv.Atoi(c[6:])
				if err != nil {
					bad(n, "layer number")
					continue
				}
				layer = v
				typ = ""
				p.Layers = append(p.Layers, struct{ Line, Nr, Moves int }{n, v, len(p.Moves)})
			} else if strings.HasPrefix(c, "TYPE:") {
				typ = c[5:]
			}
			continue
		}
		body := l
		if i := strings.IndexByte(body, ';'); i >= 0 {
			body = body[:i]
		}
		f := strings.Fields(body)
		if len(f) == 0 {
			continue
		}
		arg := map[byte]string{}
		for _, a := range f[1:] {
			if _, dup := arg[a[0]]; dup {
				bad(n, "parameter %c twice", a[0])
			}
			arg[a[0]] = a[1:]
		}
		switch f[0] {
		case "G0", "G1":
			m := Move{Line: n, Layer: layer, Type: typ, From: pos, To: pos, Known: known[0] && known[1] && known[2], G: int(f[0][1] - '0')}
			for k, v := range arg {
				x, err := strconv.ParseFloat(v, 64)
				if err != nil || math.IsNaN(x) || math.IsInf(x, 0) {
					bad(n, "parameter %c", k)
					continue
				}
				switch k {
				case 'X', 'Y', 'Z':
					i := int(k - 'X')
					if x != pos[i] || !known[i] {
						m.Changed = true
					}
					m.To[i] = x
				case 'E':
					m.HasE, m.E = true, x-e
					e = x
				case 'F':
					feed, feedKnown = x, true
				default:
					bad(n, "parameter %c", k)
				}
			}
			for i := 0; i < 3; i++ {
				if _, ok := arg[byte('X'+i)]; ok {
					known[i] = true
				}
			}
			m.F, m.HasF = feed, feedKnown
			pos = m.To
			p.Moves = append(p.Moves, m)
		default:
			if f[0] == "G92" {
				if v, ok := arg['E']; ok {
					x, err := strconv.ParseFloat(v, 64)
					if err != nil {
						bad(n, "parameter E")
					}
					e = x
				}
			}
			p.Cmds = append(p.Cmds, Cmd{n, layer, len(p.Moves), f[0], arg, l})
		}
	}
	p.E = e
	return p
}

// job facts needed by the monitors
type jobInfo struct {
	o     Opt
	m     ModelSpec
	first int // initial layer thickness
	lt    int
	width int
	n     int // layers
	exact bool
	loops []Loop // what the layers given to the generator contain
	spots []Spot
	other bool // the program comes from another generator
}

func (o Opt) f(k string, def float64) float64 {
	if v, ok := o[k]; ok {
		x, _ := strconv.ParseFloat(v, 64)
		return x
	}
	return def
}

func (o Opt) b(k string, def bool) bool {
	if v, ok := o[k]; ok {
		return v == "true"
	}
	return def
}

func newJob(o Opt, m ModelSpec) jobInfo {
	j := jobInfo{o: o, m: m}
	j.first, j.lt, j.width = o.um("initial-layer-thickness", 200), o.um("layer-thickness", 200), o.um("extrusion-width", 400)
	lo, hi := m.Span()
	j.n = 1 // a model thinner than the first layer is either refused or printed as one layer
	if hi-lo >= j.first {
		j.n = (hi-lo-j.first)/j.lt + 1
	}
	return j
}

// what DefaultOptions configures
const (
	defaultStartText = ";SET BED TEMP\nM190 S{print_bed_temperature} ; heat and wait for bed\n;SET HOTEND TEMP\nM109 S{print_temperature} ; wait for hot end temperature\nM107 ; disable fan\nG1 Z5 F5000 ; lift nozzle\n"
	defaultEndText   = "M107 ; disable fan\nG28 X0  ; home X axis to get head out of the way\nM84 ;steppers off\n"
	defaultFan       = "2=255"
)

// startLines returns the custom lines as they have to appear.
func (j jobInfo) startLines() []string {
	var l []string
	for _, x := range hunk(j.o.str("start-gcode", defaultStartText)) {
		x = strings.ReplaceAll(x, "{print_bed_temperature}", strconv.Itoa(j.o.um("initial-bed-temperature", 60)))
		x = strings.ReplaceAll(x, "{print_temperature}", strconv.Itoa(j.o.um("initial-hot-end-temperature", 205)))
		l = append(l, x)
	}
	return l
}

func (j jobInfo) endLines() []string { return hunk(j.o.str("end-gcode", defaultEndText)) }

func (o Opt) str(k, def string) string {
	if v, ok := o[k]; ok {
		return v
	}
	return def
}

// hasCode tells whether custom code contains an instruction with one of the codes.
func hasCode(lines []string, codes ...string) bool {
	for _, l := range lines {
		if i := strings.IndexByte(l, ';'); i >= 0 {
			l = l[:i]
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		for _, c := range codes {
			if f[0] == c {
				return true
			}
		}
	}
	return false
}

// findBlock looks for the lines in the range.
func findBlock(lines, block []string, from, to int) []int {
	var r []int
	if len(block) == 0 {
		return nil
	}
	for i := from; i+len(block) <= to; i++ {
		ok := true
		for k := range block {
			if lines[i+k] != block[k] {
				ok = false
				break
			}
		}
		if ok {
			r = append(r, i)
		}
	}
	return r
}

// split locates header, custom start and end lines.
type layout struct {
	firstLayer int // line of the first layer announcement
	lastLayer  int
	start      []span
	end        []span
	err        string
}

func (j jobInfo) layout(text string) layout {
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	la := layout{firstLayer: -1, lastLayer: -1}
	for i, l := range lines {
		if strings.HasPrefix(l, ";LAYER:") {
			if la.firstLayer < 0 {
				la.firstLayer = i
			}
			la.lastLayer = i
		}
	}
	if la.firstLayer < 0 {
		la.err = "no layer is announced"
		return la
	}
	if s := j.startLines(); len(s) > 0 {
		at := findBlock(lines, s, 0, la.firstLayer)
		if len(at) != 1 {
			la.err = fmt.Sprintf("the custom start lines %q appear %d times, in order and unaltered, before the first layer", s, len(at))
			return la
		}
		la.start = []span{{at[0], at[0] + len(s)}}
	}
	if s := j.endLines(); len(s) > 0 {
		// the custom end lines are the last ones that match: nothing but generated code follows
		at := findBlock(lines, s, la.lastLayer, len(lines))
		if len(at) == 0 {
			la.err = fmt.Sprintf("the custom end lines %q do not appear in order and unaltered after the last layer", s)
			return la
		}
		if len(at) > 1 && at[len(at)-1]-at[len(at)-2] >= len(s) {
			la.err = fmt.Sprintf("the custom end lines %q appear %d times", s, len(at))
			return la
		}
		a := at[len(at)-1]
		la.end = []span{{a, a + len(s)}}
	}
	return la
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

func perMM(t, w, d, mul float64) float64 {
	return t / 1000 * w / 1000 / (math.Pi * d / 2000 * d / 2000) * mul / 100
}

// monitorProtocol: C16.
func (j jobInfo) monitorProtocol(v *viols, text string) {
	la := j.layout(text)
	if la.err != "" {
		v.add("custom-code", "%s", la.err)
		return
	}
	p := runPrinter(text, append(append([]span{}, la.start...), la.end...))
	o := j.o
	force, bed := o.b("force-safe-gcode", true), o.b("has-heated-bed", true)
	sl, el := j.startLines(), j.endLines()
	firstExtrusion := len(p.Lines)
	for _, m := range p.Moves {
		if m.HasE && m.E > 0 {
			firstExtrusion = m.Line
			break
		}
	}
	type want struct {
		code, s string
	}
	var hdr, foot []want
	if force && bed && !hasCode(sl, "M140", "M190") {
		hdr = append(hdr, want{"M190", strconv.Itoa(o.um("initial-bed-temperature", 60))})
	}
	if force && !hasCode(sl, "M104", "M109") {
		hdr = append(hdr, want{"M109", strconv.Itoa(o.um("initial-hot-end-temperature", 205))})
	}
	if force && !hasCode(el, "M104", "M109") {
		foot = append(foot, want{"M104", "0"})
	}
	if force && bed && !hasCode(el, "M140", "M190") {
		foot = append(foot, want{"M140", "0"})
	}
	// where the last layer's printing ends
	lastMove := 0
	if len(p.Moves) > 0 {
		lastMove = p.Moves[len(p.Moves)-1].Line
	}
	for i := range p.Lines { // with no motion in the last layer: after its announcement
		if i > lastMove && strings.HasPrefix(p.Lines[i], ";LAYER:") {
			lastMove = i
		}
	}
	temps := map[int][]want{}
	fans := map[int][]string{}
	tl := o.um("initial-temperature-layer-count", 3)
	if tl >= 0 && tl < j.n {
		temps[tl] = append(temps[tl], want{"M104", strconv.Itoa(o.um("hot-end-temperature", 200))})
		if bed {
			temps[tl] = append(temps[tl], want{"M140", strconv.Itoa(o.um("bed-temperature", 55))})
		}
	}
	for l, s := range fanLUT(o.str("fan-speed", defaultFan)) {
		if l >= 0 && l < j.n {
			if s == 0 {
				fans[l] = append(fans[l], "M107")
			} else {
				fans[l] = append(fans[l], "M106 S"+strconv.Itoa(s))
			}
		}
	}
	g92 := 0
	extrAfter := map[int]int{} // line of the first extrusion of a layer
	for _, m := range p.Moves {
		if _, ok := extrAfter[m.Layer]; !ok && m.HasE && m.E > 0 {
			extrAfter[m.Layer] = m.Line
		}
	}
	take := func(l []want, code, s string) ([]want, bool) {
		for i, w := range l {
			if w.code == code && w.s == s {
				return append(append([]want{}, l[:i]...), l[i+1:]...), true
			}
		}
		return l, false
	}
	for _, c := range p.Cmds {
		switch {
		case c.Code == "G92":
			g92++
			if c.Arg['E'] != "0" || len(c.Arg) != 1 || c.Layer >= 0 {
				v.add("reset", "unexpected %q in line %d", c.Text, c.Line+1)
			}
			for _, s := range la.start {
				if c.Line < s.to {
					v.add("reset", "the extruder position is reset before the custom start code (line %d)", c.Line+1)
				}
			}
		case c.Code == "M106" || c.Code == "M107":
			s := c.Code
			if c.Code == "M106" {
				s += " S" + c.Arg['S']
			}
			k := -1
			for i, w := range fans[c.Layer] {
				if w == s {
					k = i
				}
			}
			if k < 0 {
				v.add("fan", "unexpected fan command %q in layer %d", c.Text, c.Layer)
				continue
			}
			fans[c.Layer] = append(fans[c.Layer][:k:k], fans[c.Layer][k+1:]...)
			if x, ok := extrAfter[c.Layer]; ok && c.Line > x {
				v.add("fan", "the fan is set only after layer %d has started (line %d)", c.Layer, c.Line+1)
			}
		case c.Code == "M104" || c.Code == "M109" || c.Code == "M140" || c.Code == "M190":
			if (c.Code == "M140" || c.Code == "M190") && !bed {
				v.add("bed", "bed command %q without a heated bed", c.Text)
				continue
			}
			s := c.Arg['S']
			var ok bool
			if c.Layer < 0 {
				if hdr, ok = take(hdr, c.Code, s); !ok {
					v.add("heat", "unexpected command %q before the first layer", c.Text)
				}
				continue
			}
			if temps[c.Layer], ok = take(temps[c.Layer], c.Code, s); ok {
				if x, ok := extrAfter[c.Layer]; ok && c.Line > x {
					v.add("temperature", "the temperature is switched only after layer %d has started (line %d)", c.Layer, c.Line+1)
				}
				continue
			}
			if c.Line > lastMove && c.Layer == j.n-1 {
				if foot, ok = take(foot, c.Code, s); ok {
					continue
				}
			}
			v.add("heat", "unexpected command %q in layer %d", c.Text, c.Layer)
		default:
			v.add("command", "unexpected command %q in line %d", c.Text, c.Line+1)
		}
	}
	if g92 != 1 {
		v.add("reset", "the extruder position is reset %d times", g92)
	}
	for _, w := range hdr {
		v.add("heat", "%s S%s is missing before the first extrusion (line %d)", w.code, w.s, firstExtrusion+1)
	}
	for _, w := range foot {
		v.add("off", "%s S%s is missing at the end", w.code, w.s)
	}
	for l, ws := range temps {
		for _, w := range ws {
			v.add("temperature", "%s S%s is missing in layer %d", w.code, w.s, l)
		}
	}
	for l, ws := range fans {
		for _, w := range ws {
			v.add("fan", "%s is missing in layer %d", w, l)
		}
	}
	for _, e := range p.Errs {
		v.add("syntax", "%s", e)
	}
}

func (j jobInfo) z(n int) float64 { return float64(j.first+n*j.lt) / 1000 }

func (j jobInfo) program(v *viols, text string) *Program {
	la := j.layout(text)
	if la.err != "" && la.firstLayer < 0 {
		v.add("layers", "%s", la.err)
		return nil
	}
	op := append(append([]span{}, la.start...), la.end...)
	if la.err != "" {
		op = append(op, span{0, la.firstLayer})
	}
	p := runPrinter(text, op)
	for _, e := range p.Errs {
		v.add("syntax", "%s", e)
	}
	return p
}

// monitorLayers: C17.
func (j jobInfo) monitorLayers(v *viols, text string) {
	p := j.program(v, text)
	if p == nil {
		return
	}
	for i, l := range p.Layers {
		if l.Nr != i {
			v.add("order", "announcement %d is of layer %d (line %d)", i, l.Nr, l.Line+1)
			return
		}
	}
	if len(p.Layers) != j.n {
		v.add("count", "%d layers are announced, the model has %d (height %d, %d + n*%d)", len(p.Layers), j.n, func() int { a, b := j.m.Span(); return b - a }(), j.first, j.lt)
		return
	}
	extr := make([]float64, j.n)
	kinds := make([]map[string]float64, j.n)
	for i := range kinds {
		kinds[i] = map[string]float64{}
	}
	for _, m := range p.Moves {
		if m.Layer < 0 {
			v.add("early", "motion before the first layer: %q", p.Lines[m.Line])
			return
		}
		z := j.z(m.Layer)
		if m.HasE && m.E > 0 && m.XY() > 0 || (m.HasE && m.E > 0 && m.To[2] != m.From[2]) {
			if !near(m.To[2], z, 0.0051) || !near(m.From[2], z, 0.0051) {
				v.add("height", "layer %d extrudes at height %.2f..%.2f instead of %.3f (line %d)", m.Layer, m.From[2], m.To[2], z, m.Line+1)
				return
			}
			extr[m.Layer] += m.XY()
			kinds[m.Layer][m.Type] += m.XY()
		}
		if m.Changed && m.Known && m.To != m.From && m.To[2] < z-0.0051 {
			v.add("low", "in layer %d the nozzle moves down to %.2f, below %.3f (line %d %q)", m.Layer, m.To[2], z, m.Line+1, p.Lines[m.Line])
			return
		}
	}
	if !j.printed(v, p) {
		return
	}
	if j.m.dirty() || j.other {
		return
	}
	// bodies whose cross-section is known have to be printed
	type printed struct{ outer, inner, fill float64 }
	sums := map[[2]int]*printed{}
	off := j.offset()
	for _, m := range p.Moves {
		if !(m.HasE && m.E > 0) || m.Layer < 0 || m.XY() == 0 {
			continue
		}
		for k := range j.m.Bodies {
			b := &j.m.Bodies[k]
			x, y := (m.From[0]+m.To[0])/2*1000-off[0], (m.From[1]+m.To[1])/2*1000-off[1]
			if math.Abs(x-float64(b.X)) > float64(b.W)/2+20 || math.Abs(y-float64(b.Y)) > float64(b.D)/2+20 {
				continue
			}
			s := sums[[2]int{k, m.Layer}]
			if s == nil {
				s = &printed{}
				sums[[2]int{k, m.Layer}] = s
			}
			switch m.Type {
			case "WALL-OUTER":
				s.outer += m.XY() * 1000
			case "WALL-INNER":
				s.inner += m.XY() * 1000
			case "FILL":
				s.fill += m.XY() * 1000
			}
		}
	}
	insets := j.o.um("inset-count", 2)
	percent := j.o.um("infill-percent", 20)
	for k := range j.m.Bodies {
		for n := 0; n < j.n; n++ {
			if !j.solid(k, n, 3000) {
				continue
			}
			b := &j.m.Bodies[k]
			s := sums[[2]int{k, n}]
			if s == nil {
				s = &printed{}
			}
			w, d := float64(b.W), float64(b.D)
			outline := 2 * (w + d)
			area := 1.0
			if b.Shape == "prism" {
				outline = 2 * math.Min(w, d)
				area = 0.55
			}
			if want := 0.75 * (outline - 8*float64(j.width)); insets > 0 && s.outer < want {
				v.add("gap", "the outer wall of body %d (%s of %d x %d) in layer %d has %.0f µm, at least %.0f are expected", k, b.Shape, b.W, b.D, n, s.outer, want)
				return
			}
			if insets >= 2 && s.inner == 0 {
				v.add("gap", "body %d (%s of %d x %d) has no inner wall in layer %d", k, b.Shape, b.W, b.D, n)
				return
			}
			room := math.Min(w, d)
			if b.Shape == "prism" {
				room *= 0.7
			}
			if !j.solid(k, n, 9000) || room-2*float64(j.width)*float64(insets) < 3000 { // the walls leave no room
				continue
			}
			full := j.full(k, n)
			spacing := math.Inf(1) // of the lines
			if percent > 0 && j.width <= 10000 {
				spacing = 10000 / (float64(10000/int(j.width)) * float64(percent) / 100)
			}
			if (room-2*float64(j.width)*float64(insets+1) > 1.3*spacing+1000 || full) && s.fill == 0 {
				v.add("gap", "body %d (%s of %d x %d) has no infill in layer %d", k, b.Shape, b.W, b.D, n)
				return
			}
			in := 2 * float64(j.width) * float64(insets+1)
			if want := 0.6 * area * (w - in) * (d - in); full && w > in && d > in && s.fill*float64(j.width) < want {
				v.add("gap", "layer %d of body %d (%s of %d x %d) has to be filled completely (at least %.1f mm2), the infill covers %.1f mm2", n, k, b.Shape, b.W, b.D, want/1e6, s.fill*float64(j.width)/1e6)
				return
			}
		}
	}
}

// printed tells whether everything the layers contain is printed.
func (j jobInfo) printed(v *viols, p *Program) bool {
	type key struct {
		layer int
		typ   string
	}
	lines := map[key][]Move{}
	for _, m := range p.Moves {
		if m.HasE && m.E > 0 && m.XY() > 0 {
			lines[key{m.Layer, m.Type}] = append(lines[key{m.Layer, m.Type}], m)
		}
	}
	near := func(k key, x, y, r float64) bool {
		for _, m := range lines[k] {
			if lineDist(x, y, m.From[0]*1000, m.From[1]*1000, m.To[0]*1000, m.To[1]*1000) <= r {
				return true
			}
		}
		return false
	}
	for _, l := range j.loops {
		hit := 0
		for _, q := range l.P {
			if near(key{l.Layer, l.Type}, float64(q[0]), float64(q[1]), 110) {
				hit++
			}
		}
		if 2*hit < len(l.P) {
			v.add("gap", "layer %d contains a path %s with %d points near %v, only %d of them are printed", l.Layer, l.Type, len(l.P), l.P[0], hit)
			return false
		}
	}
	if k := j.o.um("skirt-count", 2); k > 0 && !j.other {
		if n := p.skirts(j.loops); n >= 0 && n < k {
			v.add("gap", "%d skirt lines are configured, but only %d surround the first layer", k, n)
			return false
		}
	}
	for _, s := range j.spots {
		if !near(key{s.Layer, s.Type}, float64(s.X), float64(s.Y), float64(s.R)) {
			v.add("gap", "layer %d has to be filled (%s) around %d/%d, but no line of type %s is within %d µm", s.Layer, s.Attr, s.X, s.Y, s.Type, s.R)
			return false
		}
	}
	return true
}

// skirts counts the loops of type SKIRT around the walls of the first layer which are no brim, -1 if there are no walls.
func (p *Program) skirts(planned []Loop) int {
	brim := func(at [3]float64) bool {
		for _, l := range planned {
			for i, q := range l.P {
				if o := l.P[(i+1)%len(l.P)]; l.Layer == 0 && l.Type == "SKIRT" && lineDist(at[0]*1000, at[1]*1000, float64(q[0]), float64(q[1]), float64(o[0]), float64(o[1])) < 200 {
					return true
				}
			}
		}
		return false
	}
	type box struct{ lo, hi [2]float64 }
	grow := func(b *box, m *Move) {
		if b == nil {
			return
		}
		for i := range b.lo {
			b.lo[i] = math.Min(b.lo[i], math.Min(m.From[i], m.To[i]))
			b.hi[i] = math.Max(b.hi[i], math.Max(m.From[i], m.To[i]))
		}
	}
	empty := box{[2]float64{1e9, 1e9}, [2]float64{-1e9, -1e9}}
	part, loops, isBrim := empty, []box{}, []bool{}
	walls, open := false, false
	for i := range p.Moves {
		m := &p.Moves[i]
		if m.Layer != 0 || m.XY() == 0 {
			continue
		}
		if !(m.HasE && m.E > 0) {
			open = false
			continue
		}
		switch m.Type {
		case "SKIRT":
			if !open {
				loops = append(loops, empty)
				isBrim = append(isBrim, brim(m.From))
			}
			open = true
			grow(&loops[len(loops)-1], m)
			continue
		case "WALL-OUTER", "WALL-INNER":
			walls = true
			grow(&part, m)
		}
		open = false
	}
	if !walls {
		return -1
	}
	n := 0
	for i, l := range loops {
		if !isBrim[i] && l.lo[0] < part.lo[0] && l.lo[1] < part.lo[1] && l.hi[0] > part.hi[0] && l.hi[1] > part.hi[1] {
			n++
		}
	}
	return n
}

func lineDist(x, y, ax, ay, bx, by float64) float64 {
	dx, dy := bx-ax, by-ay
	t := 0.0
	if n := dx*dx + dy*dy; n > 0 {
		t = math.Max(0, math.Min(1, ((x-ax)*dx+(y-ay)*dy)/n))
	}
	return math.Hypot(x-ax-t*dx, y-ay-t*dy)
}

// offset is how the optimizer moves the model.
func (j jobInfo) offset() [2]float64 {
	c := [2]float64{100000, 100000}
	if f := strings.Split(j.o.str("center", ""), "_"); len(f) == 3 {
		c[0], _ = strconv.ParseFloat(f[0], 64)
		c[1], _ = strconv.ParseFloat(f[1], 64)
	}
	lo, hi := [2]int{1 << 60, 1 << 60}, [2]int{-1 << 60, -1 << 60}
	for _, t := range j.m.Tris() {
		for _, p := range t {
			for i := range lo {
				if p[i] < lo[i] {
					lo[i] = p[i]
				}
				if p[i] > hi[i] {
					hi[i] = p[i]
				}
			}
		}
	}
	return [2]float64{c[0] - float64(lo[0]+hi[0])/2, c[1] - float64(lo[1]+hi[1])/2}
}

// cutAt: layer n cuts body k, well away from its ends.
func (j jobInfo) cutAt(k, n, margin int) bool {
	lo, _ := j.m.Span()
	z := lo + j.first + n*j.lt
	b := j.m.Bodies[k]
	return z > b.Z+margin && z < b.Z+b.H-margin
}

// apart: the bodies are nowhere above, in or next to each other.
func apart(a, b Body) bool {
	reach := func(b Body) (w, d int) {
		w, d = b.W, b.D
		if b.Top > 100 {
			w, d = w*b.Top/100, d*b.Top/100
		}
		if b.DX > 0 {
			return w + 2*b.DX, d
		}
		return w - 2*b.DX, d
	}
	aw, ad := reach(a)
	bw, bd := reach(b)
	w, d := (aw+bw)/2+1000, (ad+bd)/2+1000
	x, y := a.X-b.X, a.Y-b.Y
	return x > w || -x > w || y > d || -y > d
}

// solid: body k is a box or prism of some size, cut by layer n away from any other body.
func (j jobInfo) solid(k, n, size int) bool {
	b := j.m.Bodies[k]
	if b.Shape != "box" && !(b.Shape == "prism" && b.N >= 5) || b.W < size || b.D < size || b.W < 8*j.width || b.D < 8*j.width || !j.cutAt(k, n, 5) {
		return false
	}
	for i, o := range j.m.Bodies {
		if i != k && j.cutAt(i, n, -5) && !apart(b, o) {
			return false
		}
	}
	return true
}

// full: layer n of body k belongs to its bottom or top, with nothing of the model directly below or above.
func (j jobInfo) full(k, n int) bool {
	free := func(l int) bool {
		for i, o := range j.m.Bodies {
			if j.cutAt(i, l, -5) && !apart(j.m.Bodies[k], o) {
				return false
			}
		}
		return true
	}
	for i := 1; i <= j.o.um("number-bottom-layers", 3); i++ {
		if n-i < 0 || free(n-i) {
			return true
		}
	}
	for i := 1; i <= j.o.um("number-top-layers", 4); i++ {
		if n+i >= j.n || free(n+i) {
			return true
		}
	}
	return false
}

// monitorFilament: C18.
func (j jobInfo) monitorFilament(v *viols, text string) {
	p := j.program(v, text)
	if p == nil {
		return
	}
	o := j.o
	d, mul := float64(o.um("filament-diameter", 1750)), float64(o.um("extrusion-multiplier", 100))
	rl, rs, hop := o.f("retraction-length", 2), o.f("retraction-speed", 30), o.f("retraction-z-hop", 0)
	retracted := 0.0
	var since []Move
	sumE, sumL, round := 0.0, 0.0, 0.0
	for i, m := range p.Moves {
		pm := perMM(float64(j.lt), float64(j.width), d, mul)
		if m.Layer <= 0 {
			pm = perMM(float64(j.first), float64(j.width), d, mul)
		}
		where := func() string { return fmt.Sprintf("(layer %d, line %d %q)", m.Layer, m.Line+1, p.Lines[m.Line]) }
		if !m.HasE || m.E == 0 {
			if m.HasE && m.G == 1 && m.XY() > 0.03 {
				// filament below the printed resolution: only for very short moves
				if pm*m.XY() > 3e-4 {
					v.add("amount", "no filament for a move of %.3f mm %s", m.XY(), where())
					return
				}
			}
			if retracted > 0 {
				since = append(since, m)
			}
			continue
		}
		if m.E < 0 {
			if m.Changed && m.To != m.From && m.Known {
				v.add("retract", "a retraction moves the nozzle %s", where())
				return
			}
			if rl == 0 || rs == 0 {
				v.add("retract", "a retraction although it is switched off %s", where())
				return
			}
			if retracted > 0 {
				v.add("retract", "retracted twice %s", where())
				return
			}
			if !near(-m.E, rl, 3e-4) {
				v.add("retract", "retracts %.4f instead of %.4f %s", -m.E, rl, where())
				return
			}
			retracted = -m.E
			since = nil
			continue
		}
		if retracted > 0 {
			if m.XY() > 0 || m.To[2] != m.From[2] {
				v.add("retract", "extrudes while retracted %s", where())
				return
			}
			if !near(m.E, retracted, 3e-4) {
				v.add("retract", "undoes a retraction of %.4f by %.4f %s", retracted, m.E, where())
				return
			}
			z := j.z(m.Layer)
			if !near(m.To[2], z, 0.0051) {
				v.add("hop", "after the retraction the nozzle is at %.2f instead of %.3f %s", m.To[2], z, where())
				return
			}
			for _, t := range since {
				if t.XY() > 0 && t.Known && !near(t.To[2], z+hop, 0.0101) {
					v.add("hop", "retracted positioning at height %.2f instead of %.3f (line %d %q)", t.To[2], z+hop, t.Line+1, p.Lines[t.Line])
					return
				}
			}
			if len(since) == 0 {
				v.add("retract", "a retraction without positioning %s", where())
				return
			}
			retracted = 0
			continue
		}
		l := m.XY()
		if !m.Known {
			v.add("amount", "extrudes from an unknown position %s", where())
			return
		}
		if l == 0 && m.E > pm*0.02+2e-4 {
			v.add("amount", "filament is fed without a move %s", where())
			return
		}
		if !near(m.E, pm*l, pm*0.015+2.2e-4) {
			v.add("amount", "feeds %.4f for %.3f mm instead of %.4f %s", m.E, l, pm*l, where())
			return
		}
		sumE += m.E
		sumL += pm * l
		round += pm * 0.0142 // both ends are rounded to 0.01 mm, equally in every layer
		_ = i
	}
	if retracted > 0 {
		v.add("retract", "the program ends retracted")
		return
	}
	if !near(sumE, sumL, round+0.0005*sumL+0.05) {
		v.add("sum", "feeds %.3f in total instead of %.3f", sumE, sumL)
	}
}

// monitorSpeed: C19.
func (j jobInfo) monitorSpeed(v *viols, text string) {
	p := j.program(v, text)
	if p == nil {
		return
	}
	o := j.o
	sp := func(k string, d float64) float64 { return math.Trunc(o.f(k, d)) * 60 }
	initial, layer, outer, move, retr := sp("initial-layer-speed", 30), sp("layer-speed", 60), sp("outer-perimeter-speed", 40), sp("move-speed", 150), sp("retraction-speed", 30)
	for _, m := range p.Moves {
		want, what := move, "move"
		switch {
		case m.HasE && m.E != 0 && m.XY() == 0 && (m.E < 0 || m.E > 0 && isRetraction(p, m)):
			want, what = retr, "retraction"
		case m.G == 1 || m.HasE:
			switch {
			case m.Layer == 0:
				want, what = initial, "initial layer"
			case m.Type == "WALL-OUTER":
				want, what = outer, "outer perimeter"
			default:
				want, what = layer, "layer"
			}
		case !m.Changed || m.To == m.From && m.Known:
			continue
		}
		if !m.HasF || m.F != want {
			v.add("speed", "%s speed is %v instead of %v (layer %d, type %s, line %d %q)", what, m.F, want, m.Layer, m.Type, m.Line+1, p.Lines[m.Line])
			return
		}
	}
}

// isRetraction: feeding without motion undoes a retraction (extruding moves of zero printed length are shorter than the resolution).
func isRetraction(p *Program, m Move) bool { return m.E > 0.05 }
