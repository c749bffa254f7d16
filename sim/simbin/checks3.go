package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"goslicesim/simfs"
	"goslicesim/simrt"
)

// ---- C15

var grid = []int{0, 0, 2500, 5000, 7500, 10000, 12500, 15000, 20000, -3000, 1230, 990, 60000}

func coord(r *Rng) int {
	if r.P(2, 3) {
		return r.I(grid...)
	}
	return r.R(-500, 3000) * 10
}

func round10(p [][2]int) [][2]int {
	for i := range p {
		for k := range p[i] {
			p[i][k] = int(math.Round(float64(p[i][k])/10)) * 10
		}
	}
	return p
}

// genLayerParts makes disjoint rectangles, some with a hole (clockwise, behind its part).
func genLayerParts(r *Rng) [][][2]int {
	var q [][][2]int
	for x := 0; x < 2; x++ {
		for y := 0; y < 2; y++ {
			if r.P(1, 3) {
				continue
			}
			x0, y0 := x*12000-1000, y*12000-1000
			w, d := r.R(300, 1000)*10, r.R(300, 1000)*10
			if r.P(1, 4) { // close to its neighbour
				w = 12000 - r.R(8, 60)*10
			}
			if r.P(1, 4) {
				d = 12000 - r.R(8, 60)*10
			}
			q = append(q, [][2]int{{x0, y0}, {x0 + w, y0}, {x0 + w, y0 + d}, {x0, y0 + d}})
			if r.P(1, 6) { // a plate with holes
				nx, ny := r.R(1, 4), r.R(1, 3)
				for i := 0; i < nx*ny; i++ {
					cw, cd := w/nx, d/ny
					a, b := x0+cw*(i%nx)+cw/4, y0+cd*(i/nx)+cd/4
					q = append(q, round10([][2]int{{a, b}, {a, b + cd/2}, {a + cw/2, b + cd/2}, {a + cw/2, b}}))
				}
			} else if r.P(1, 4) {
				a, b := x0+w/4, y0+d/4
				q = append(q, [][2]int{{a, b}, {a, b + d/2}, {a + w/2, b + d/2}, {a + w/2, b}})
			}
		}
	}
	return q
}

// genBuilder draws a history of builder calls; strict: one the reference model covers exactly.
func genBuilder(r *Rng, strict bool) []Op {
	var ops []Op
	add := func(k string, a ...float64) *Op {
		ops = append(ops, Op{K: k, A: a})
		return &ops[len(ops)-1]
	}
	add("extrusion", float64(r.I(100, 200, 350)), float64(r.I(350, 400, 600)))
	if r.P(4, 5) {
		add("movespeed", float64(r.R(90, 160)))
		add("speed", float64(r.R(20, 80)))
		if r.P(3, 4) {
			add("rspeed", float64(r.R(20, 60)))
			add("ramount", []float64{0.5, 2, 4.25}[r.N(3)])
		}
	}
	layer := genLayerParts(r)
	z := 200
	for i, n := 0, r.I(4, 10, 25, 60); i < n; i++ {
		switch r.N(22) {
		case 0:
			add("movespeed", float64(r.R(1, 200)))
		case 1:
			add("speed", float64(r.R(1, 100)))
		case 2:
			add("override", float64(r.I(0, 5, 17, 30, 45)))
		case 3:
			add("nooverride")
		case 4:
			add("rspeed", float64(r.I(0, 10, 25, 40)))
		case 5:
			add("ramount", []float64{0, 0.5, 1, 2, 4.25}[r.N(5)])
		case 6:
			add("zhop", []float64{0, 0, 0.2, 0.55, 1}[r.N(5)])
		case 7:
			add("extrusion", float64(r.I(100, 200, 350)), float64(r.I(350, 400, 600)))
		case 8, 9, 10:
			e := 0.0
			if r.P(1, 2) {
				e = float64(r.R(-100, 4000)) / 1000
				if r.P(1, 20) {
					e = float64(r.R(100, 9000))
				}
			}
			if r.P(1, 4) {
				z = r.I(200, 400, 600, 1000, 200)
			}
			o := add("move", float64(coord(r)), float64(coord(r)), float64(z), e)
			if r.P(1, 3) {
				o.K, o.I = "movespd", r.R(1, 200)
			}
		case 11, 12:
			o := add("cmd")
			o.S = r.S("M117 hello", "M117 50% done", "M204 S500", "", "M117 %d%s%%%v", "M84 ; off", "G4 P100")
			if r.P(1, 8) {
				o.S = "M117 " + r.S("x", "long ", "äö", "\t") + strings.Repeat(r.S("0123456789", "abc d", "ü"), r.R(5, 60))
			} else if r.P(1, 2) {
				o.S, o.A = r.S("M204 S%d", "M106 S%d ; %d%%", "M117 %v")+"", []float64{float64(r.N(300))}
				o.S = strings.Replace(o.S, " ; %d%%", " ; 100%%", 1)
			}
		case 13:
			o := add("comment")
			o.S = r.S("TYPE:FILL", "100% infill", "LAYER:%d", "", "a\tb", "%!s(MISSING)", " blanks  ", "ä", strings.Repeat("ab ", r.R(10, 200)))
			if o.S == "LAYER:%d" {
				o.A = []float64{float64(r.N(100))}
			}
		case 14:
			add("read")
		default:
			if r.P(1, 4) {
				z = r.I(200, 400, 600, 1000)
			}
			if r.P(1, 8) {
				layer = genLayerParts(r)
			}
			o := add("poly", float64(z))
			o.I = r.N(2)
			if r.P(4, 5) {
				o.J, o.Q = 1, layer
			}
			switch r.N(10) {
			case 0:
				o.P = [][2]int{{coord(r), coord(r)}, {coord(r), coord(r)}}
				if r.P(1, 3) { // very short
					o.P[1] = [2]int{o.P[0][0] + 10*r.R(0, 4), o.P[0][1] + 10*r.R(2, 4)}
				}
			case 1:
				o.P = [][2]int{{coord(r), coord(r)}}
			case 2:
				o.P = nil
				if r.P(2, 3) {
					a := [2]int{coord(r), coord(r)}
					o.P = [][2]int{a, a, {a[0] + 2000, a[1]}, {a[0] + 2000, a[1]}, {a[0], a[1] + 3000}}
				}
			case 3: // like a previous polygon
				for k := len(ops) - 2; k >= 0; k-- {
					if ops[k].K == "poly" && len(ops[k].P) > 0 {
						o.P = append([][2]int(nil), ops[k].P...)
						break
					}
				}
			default:
				o.P = genShape(r, coord(r), coord(r), r.R(200, 900)*10, r.R(200, 900)*10)
			}
			if len(layer) > 0 && len(o.P) > 0 && o.J == 1 && r.P(1, 4) { // it starts right behind an edge, the move to it in front of it
				e := layer[r.N(len(layer))]
				k := r.N(len(e))
				a, b := e[k], e[(k+1)%len(e)]
				t := r.R(10, 90)
				c := [2]int{a[0] + (b[0]-a[0])*t/100, a[1] + (b[1]-a[1])*t/100}
				n := 0
				if a[0] != b[0] {
					n = 1
				}
				near, far := r.R(2, 40)*10, r.R(2, 70)*10
				if r.P(1, 2) {
					near, far = -near, -far
				}
				from, to := c, c
				from[n] -= near
				to[n] += far
				dx, dy := to[0]-o.P[0][0], to[1]-o.P[0][1]
				o.P = append([][2]int(nil), o.P...)
				for i := range o.P {
					o.P[i][0] += dx
					o.P[i][1] += dy
				}
				if strict {
					o.P = round10(o.P)
				}
				last := *o
				ops[len(ops)-1] = Op{K: "move", A: []float64{float64(round10([][2]int{from})[0][0]), float64(round10([][2]int{from})[0][1]), float64(z), 0}}
				ops = append(ops, last)
				break
			}
			if strict {
				o.P = round10(o.P)
			}
		}
	}
	return ops
}

// bmodel is the reference for the code builder: what the requests mean for the machine.
type bmodel struct {
	multiplier, diameter float64
	perMM                float64
	moveF, extF, overF   float64
	retF, retA, hop      float64
	e                    float64 // requested so far
	abs                  float64 // sum of the amounts (for the rounding)
	slack                float64
	// the machine
	pos   [3]float64
	known [3]bool
	me, f float64
}

type bmove struct {
	line   string
	from   [3]float64
	to     [3]float64
	de, f  float64
	me     float64 // where the extruder is afterwards
	hasE   bool
	motion bool
}

func (b bmove) xy() bool { return b.from[0] != b.to[0] || b.from[1] != b.to[1] }

// execute runs the motion commands of a piece of code on the machine; any other line is returned.
func (b *bmodel) execute(seg string) (mv []bmove, other []string, err string) {
	if seg == "" {
		return
	}
	if !strings.HasSuffix(seg, "\n") {
		return nil, nil, fmt.Sprintf("the last line %q is not terminated", seg)
	}
	for _, l := range strings.Split(strings.TrimSuffix(seg, "\n"), "\n") {
		f := strings.Fields(l)
		if len(f) == 0 || (f[0] != "G0" && f[0] != "G1") {
			other = append(other, l)
			continue
		}
		m := bmove{line: l, from: b.pos, to: b.pos}
		seen := map[byte]bool{}
		for _, a := range f[1:] {
			x, e := strconv.ParseFloat(a[1:], 64)
			if e != nil || seen[a[0]] || math.IsNaN(x) || math.IsInf(x, 0) {
				return nil, nil, fmt.Sprintf("malformed line %q", l)
			}
			seen[a[0]] = true
			switch a[0] {
			case 'X', 'Y', 'Z':
				m.to[a[0]-'X'] = x
				b.known[a[0]-'X'] = true
			case 'E':
				m.hasE, m.de = true, x-b.me
				b.me = x
			case 'F':
				b.f = x
			default:
				return nil, nil, fmt.Sprintf("malformed line %q", l)
			}
		}
		m.f, m.me = b.f, b.me
		m.motion = m.to != m.from
		b.pos = m.to
		if m.motion || m.hasE {
			mv = append(mv, m)
		}
	}
	return
}

// target checks one requested motion with its filament.
func (b *bmodel) target(m bmove, to [3]float64, e, f float64, what string) string {
	b.e += e
	b.abs += math.Abs(e)
	for i := range to {
		if !near(m.to[i], to[i], 0.0012) {
			return fmt.Sprintf("%s goes to %v instead of %v (%q)", what, m.to, to, m.line)
		}
	}
	if s := b.filament(m, what); s != "" {
		return s
	}
	if e == 0 && m.hasE && math.Abs(m.de) > 1.1e-4 {
		return fmt.Sprintf("%s feeds %.4f (%q)", what, m.de, m.line)
	}
	if m.f != f {
		return fmt.Sprintf("%s runs at F%v instead of F%v (%q)", what, m.f, f, m.line)
	}
	return ""
}

func (b *bmodel) filament(m bmove, what string) string {
	if !near(m.me, b.e, 6e-5+b.slack+6e-7*b.abs) {
		return fmt.Sprintf("after the %s the extruder is at %.4f instead of %.4f (%q)", what, m.me, b.e, m.line)
	}
	return ""
}

func (b *bmodel) extrude() float64 {
	if b.overF > 0 {
		return b.overF
	}
	return b.extF
}

func m3(x, y, z float64) [3]float64 { return [3]float64{x / 1000, y / 1000, z / 1000} }

// one checks the code of one call; "" if it is what the call means.
func (b *bmodel) one(op *Op, out *OpOut, seg string, clipFailed bool) string {
	f := func(i int) float64 {
		if i < len(op.A) {
			return op.A[i]
		}
		return 0
	}
	if out.Pan != "" {
		return "panics: " + out.Pan
	}
	switch op.K {
	case "movespeed":
		b.moveF = f(0) * 60
	case "speed":
		b.extF = f(0) * 60
	case "override":
		b.overF = f(0) * 60
	case "nooverride":
		b.overF = 0
	case "rspeed":
		b.retF = f(0) * 60
	case "ramount":
		b.retA = f(0)
	case "zhop":
		b.hop = f(0)
	case "extrusion":
		b.perMM = perMM(f(0), f(1), b.diameter, b.multiplier)
	case "read":
	case "cmd", "comment":
		want := op.S
		if len(op.A) > 0 {
			want = fmt.Sprintf(op.S, int(op.A[0]))
		}
		if op.K == "comment" {
			want = ";" + want
		}
		if seg != want+"\n" {
			return fmt.Sprintf("emits %q instead of %q", seg, want+"\n")
		}
		return ""
	case "move", "movespd":
		to := m3(f(0), f(1), f(2))
		from, known := b.pos, b.known
		mv, other, e := b.execute(seg)
		if e != "" || len(other) > 0 {
			return e + fmt.Sprintf("emits %q", other)
		}
		speed := b.moveF
		if f(3) != 0 {
			speed = b.extrude()
		}
		if op.K == "movespd" {
			speed = float64(op.I) * 60
		}
		if from == to && known == [3]bool{true, true, true} && f(3) == 0 {
			if len(mv) > 0 {
				return fmt.Sprintf("a move to the current position emits %q", seg)
			}
			return ""
		}
		if from == to && f(3) == 0 {
			if len(mv) > 0 {
				return fmt.Sprintf("emits %q", seg)
			}
			return b.locate()
		}
		if len(mv) != 1 {
			return fmt.Sprintf("emits %d motions: %q", len(mv), seg)
		}
		if s := b.target(mv[0], to, f(3), speed, "move"); s != "" {
			return s
		}
		return b.locate()
	case "poly":
		return b.polygon(op, out, seg, clipFailed)
	}
	if seg != "" {
		return fmt.Sprintf("emits %q", seg)
	}
	return ""
}

func (b *bmodel) locate() string {
	for i, k := range b.known {
		if !k {
			return fmt.Sprintf("the machine was never told its %c position", 'X'+i)
		}
	}
	return ""
}

// crossing relates a straight move to the parts of the layer: -1 inside of one part, 1 leaves the parts, 0 undecided.
func crossing(q [][][2]int, a, b [2]float64) int {
	l := math.Hypot(b[0]-a[0], b[1]-a[1])
	if l < 0.06 {
		return 0
	}
	clipTo := func(p [][2]int, grow float64) (float64, float64) { // parameters of the piece inside of the rectangle
		lo := [2]float64{math.Inf(1), math.Inf(1)}
		hi := [2]float64{math.Inf(-1), math.Inf(-1)}
		for _, c := range p {
			for k := 0; k < 2; k++ {
				lo[k] = math.Min(lo[k], float64(c[k])/1000)
				hi[k] = math.Max(hi[k], float64(c[k])/1000)
			}
		}
		t0, t1 := 0.0, 1.0
		for k := 0; k < 2; k++ {
			d := b[k] - a[k]
			l, h := lo[k]-grow, hi[k]+grow
			if d == 0 {
				if a[k] < l || a[k] > h {
					return 0, 0
				}
				continue
			}
			x, y := (l-a[k])/d, (h-a[k])/d
			if x > y {
				x, y = y, x
			}
			t0, t1 = math.Max(t0, x), math.Min(t1, y)
		}
		if t1 <= t0 {
			return 0, 0
		}
		return t0, t1
	}
	// how much of the line certainly lies outside, and whether all of it certainly lies inside
	out := 1.0
	inside := false
	inHole := 0.0
	for i, p := range q {
		if isHole(p) {
			continue
		}
		x, y := clipTo(p, 0.02)
		out -= y - x
		x, y = clipTo(p, -0.03)
		ok := x == 0 && y == 1
		for k := i + 1; k < len(q) && isHole(q[k]); k++ {
			x, y := clipTo(q[k], -0.02)
			inHole += y - x
			if x, y := clipTo(q[k], 0.03); y > x {
				ok = false
			}
		}
		inside = inside || ok
	}
	if out*l > 0.06 || inHole*l > 0.06 {
		return 1
	}
	if inside {
		return -1
	}
	return 0
}

func isHole(p [][2]int) bool {
	a := 0
	for i := range p {
		k := (i + 1) % len(p)
		a += p[i][0]*p[k][1] - p[k][0]*p[i][1]
	}
	return a < 0
}

func (b *bmodel) polygon(op *Op, out *OpOut, seg string, clipFailed bool) string {
	before := b.pos
	start := b.me
	mv, other, e := b.execute(seg)
	if e != "" || len(other) > 0 {
		return e + fmt.Sprintf("emits %q", other)
	}
	if clipFailed && out.Err == "" {
		return "the perimeter check failed, but no error is reported"
	}
	if out.Err != "" {
		if len(op.P) == 0 || op.J == 0 || b.retF == 0 || b.retA == 0 {
			return "fails without a perimeter check: " + out.Err
		}
		if !clipFailed && len(op.Q) > 0 && math.Hypot(before[0]-float64(op.P[0][0])/1000, before[1]-float64(op.P[0][1])/1000) > 0.1 {
			return "fails: " + out.Err
		}
		if !near(b.me, start, 1e-4) {
			return fmt.Sprintf("fails after feeding %.4f", b.me-start)
		}
		b.e, b.slack = b.me, b.slack+5e-5
		return ""
	}
	if len(op.P) == 0 {
		if seg != "" {
			return fmt.Sprintf("an empty polygon emits %q", seg)
		}
		return ""
	}
	z := op.A[0]
	at := func(i int) [3]float64 { return m3(float64(op.P[i][0]), float64(op.P[i][1]), z) }
	next := 0
	// positioning
	mayRetract := op.J > 0 && b.retF > 0 && b.retA > 0
	cross := 0
	if mayRetract {
		cross = crossing(op.Q, [2]float64{before[0], before[1]}, [2]float64{at(0)[0], at(0)[1]})
	}
	retract := len(mv) > 0 && mv[0].de < 0
	if retract && !mayRetract {
		return fmt.Sprintf("retracts although that is switched off: %q", mv[0].line)
	}
	if retract && cross < 0 {
		return fmt.Sprintf("retracts for the move from %v to %v inside of a part", before, at(0))
	}
	if !retract && cross > 0 {
		return fmt.Sprintf("does not retract for the move from %v to %v across perimeters", before, at(0))
	}
	if retract {
		if mv[0].motion {
			return fmt.Sprintf("moves while retracting: %q", mv[0].line)
		}
		if s := b.step(mv[0], -b.retA, b.retF, "retraction"); s != "" {
			return s
		}
		next++
	}
	for next < len(mv) && mv[next].motion && math.Abs(mv[next].de) < 1e-9 {
		if mv[next].hasE && samePos(mv[next].from, at(0)) { // a line so short that its filament is rounded away
			break
		}
		m := mv[next]
		if m.f != b.moveF {
			return fmt.Sprintf("positioning at F%v instead of F%v: %q", m.f, b.moveF, m.line)
		}
		if retract && b.hop > 0 && m.xy() && (!near(m.from[2], z/1000+b.hop, 0.0051) || !near(m.to[2], z/1000+b.hop, 0.0051)) {
			return fmt.Sprintf("positioning from %v to %v instead of at height %.2f: %q", m.from, m.to, z/1000+b.hop, m.line)
		}
		if !retract && (m.to[2] > before[2]+0.001 && m.to[2] > z/1000+0.001) {
			return fmt.Sprintf("lifts without a retraction: %q", m.line)
		}
		next++
		if m.to == at(0) || samePos(m.to, at(0)) {
			break
		}
	}
	here := before
	if next > 0 {
		here = mv[next-1].to
	}
	if !samePos(here, at(0)) {
		return fmt.Sprintf("positions at %v instead of %v: %q", here, at(0), seg)
	}
	if s := b.locate(); s != "" {
		return s
	}
	if retract {
		if next >= len(mv) || mv[next].motion || mv[next].de <= 0 {
			return fmt.Sprintf("the retraction is not undone at the start: %q", seg)
		}
		if s := b.step(mv[next], b.retA, b.retF, "end of the retraction"); s != "" {
			return s
		}
		next++
	}
	// drawing
	cur, n := 0, len(op.P)
	closing := op.I == 0
	done := false
	for ; next < len(mv); next++ {
		m := mv[next]
		if done {
			return fmt.Sprintf("goes on behind the end: %q", m.line)
		}
		k := -1
		for i := cur + 1; i < n; i++ {
			if samePos(m.to, at(i)) && !same2(op.P[i], op.P[cur]) {
				k = i
				break
			}
		}
		from := at(cur)
		switch {
		case k >= 0:
			for i := cur + 1; i < k; i++ {
				if d := segDist(op.P[cur], op.P[k], op.P[i]); d > 80 {
					return fmt.Sprintf("skips the corner %v, %.0f µm away from the line: %q", op.P[i], d, m.line)
				}
			}
			cur = k
		case closing && samePos(m.to, at(0)):
			for i := cur + 1; i < n; i++ {
				if d := segDist(op.P[cur], op.P[0], op.P[i]); d > 1e-9 && !same2(op.P[i], op.P[cur]) {
					return fmt.Sprintf("skips the last point %v: %q", op.P[n-1], m.line)
				}
			}
			done = true
			cur = n - 1
		default:
			return fmt.Sprintf("draws to %v, which is no further point of %v: %q", m.to, op.P, m.line)
		}
		d := math.Hypot(m.to[0]-from[0], m.to[1]-from[1])
		if s := b.target(m, m.to, d*b.perMM, b.extrude(), "line"); s != "" {
			return s
		}
		if !near(m.to[2], z/1000, 0.0012) || !near(m.from[2], z/1000, 0.0012) {
			return fmt.Sprintf("draws at height %v instead of %v: %q", m.to[2], z/1000, m.line)
		}
	}
	for i := cur + 1; i < n; i++ {
		if !same2(op.P[i], op.P[cur]) {
			return fmt.Sprintf("the points from %v on are not drawn: %q", op.P[i], seg)
		}
	}
	if closing && !done && !same2(op.P[n-1], op.P[0]) && n > 1 {
		return fmt.Sprintf("the polygon is not closed: %q", seg)
	}
	return ""
}

func (b *bmodel) step(m bmove, e, f float64, what string) string {
	return b.target(m, m.to, e, f, what)
}

func samePos(a, b [3]float64) bool {
	return near(a[0], b[0], 0.0012) && near(a[1], b[1], 0.0012) && near(a[2], b[2], 0.0012)
}

func same2(a, b [2]int) bool { return a == b }

// segDist is the distance of p from the segment a b in micrometers.
func segDist(a, b, p [2]int) float64 {
	dx, dy := float64(b[0]-a[0]), float64(b[1]-a[1])
	px, py := float64(p[0]-a[0]), float64(p[1]-a[1])
	l2 := dx*dx + dy*dy
	t := 0.0
	if l2 > 0 {
		t = math.Max(0, math.Min(1, (px*dx+py*dy)/l2))
	}
	return math.Hypot(px-t*dx, py-t*dy)
}

func genC15(c *Ctx, r *Rng, p *Plan) {
	n := r.I(1, 1, 1, 2, 3)
	for t := 0; t < n; t++ {
		o := Opt{}
		if r.P(1, 2) {
			o["filament-diameter"] = strconv.Itoa(r.I(1750, 2850, 3000, 1735, r.R(50, 600)*2+1))
		}
		if r.P(1, 2) {
			o["extrusion-multiplier"] = strconv.Itoa(r.R(50, 150))
		}
		p.Opts = append(p.Opts, o)
		p.Runs = append(p.Runs, Run{Kind: "builder", Task: t, Opt: t, Ops: genBuilder(r, true)})
	}
	if n > 1 {
		p.Kind = "interleaved builders"
		p.Events = switches(r, c.run(p).NSteps)
	} else if r.P(1, 3) {
		p.Kind = "failing perimeter checks"
		for i, k := 0, r.R(1, 2); i < k; i++ {
			p.Clip = append(p.Clip, simrt.ClipRule{Nth: r.R(1, 12), Count: r.R(1, 2)})
		}
	}
}

func checkC15(c *Ctx, p *Plan) []Viol {
	rec := c.run(p)
	j := newJudge(c, p, rec)
	if !j.alive() {
		return j.list
	}
	for i, run := range p.Runs {
		s := p.result(rec, i)
		o := p.Opts[run.Opt]
		b := &bmodel{diameter: float64(o.um("filament-diameter", 1750)), multiplier: float64(o.um("extrusion-multiplier", 100))}
		at, clips := 0, 0
		for n := range run.Ops {
			if n >= len(s.Sess) || s.Sess[n].Len > len(s.Text) || s.Sess[n].Len < at {
				j.add("text", "builder %d: the code got shorter at call %d", i, n)
				break
			}
			out := &s.Sess[n]
			op := &run.Ops[n]
			seg := s.Text[at:out.Len]
			failed := out.Clip > clips
			if m := b.one(op, out, seg, failed); m != "" {
				a := fmt.Sprint(op.A)
				j.add(op.K, "builder %d, call %d (%s %s%s): %s", i, n, op.K, a, map[bool]string{true: " open", false: ""}[op.K == "poly" && op.I == 1], m)
				break
			}
			if op.K == "poly" {
				c.stats.Probes["polygons"]++
				if strings.Contains(seg, " E") && strings.Count(seg, "E") > 1 && op.J > 0 && failed {
					c.stats.Probes["polygons with failing perimeter check"]++
				}
				if out.Err != "" {
					c.stats.Probes["failing perimeter checks"]++
				}
			}
			at, clips = out.Len, out.Clip
		}
	}
	return j.list
}

// ---- C16 .. C19: every program that is reported as successful, whatever happened before and around

func genProgram(c *Ctx, r *Rng, p *Plan) {
	job := func() (ModelSpec, Opt) {
		if r.P(1, 5) {
			return genJob(r, 1, 3)
		}
		return genJob(r, 3, 7)
	}
	m, o := job()
	if p.Prop == "C17" && r.P(1, 8) {
		// what the patterns return is recorded
		p.Kind = "recorded patterns"
		p.dirs()
		if r.P(1, 2) {
			m = ModelSpec{Bodies: []Body{{Shape: r.S("box", "prism"), W: r.R(20000, 60000), D: r.R(20000, 60000), H: o.um("layer-thickness", 200) * r.R(2, 3), N: r.R(4, 8)}}}
		}
		p.addJob(m, o)
		p.Runs = []Run{{Kind: "process", In: inPath, Out: outPath, Inject: []Inject{{Where: "generator", How: "custom", Attr: r.S("1", "1", "2", "3"), Val: "pre,skirt,brim,perimeter,support,supportInterface,bottom,top,infill,post"}}}}
		return
	}
	switch r.N(12) {
	case 0, 1, 2, 3, 4:
		p.Kind = "plain"
		p.dirs()
		p.addJob(m, o)
		p.Runs = []Run{{Kind: "process", In: inPath, Out: outPath}}
		p.World.Rand = r.U() >> 8
		if r.P(1, 2) {
			g := c.goldOf(p, 0)
			p.prior(r, outPath, len(g.Prog))
			p.softFaults(r, inPath, outPath)
			p.Events = timeEvents(r, g.Rec.NSteps, r.N(4))
		}
	case 5, 6, 7: // one instance, several models, failures in between
		p.Kind = "reused instance"
		p.dirs()
		p.addJob(m, o)
		lt := o.um("layer-thickness", 200)
		n := r.R(2, 4)
		for i := 0; i < n; i++ {
			run := Run{Kind: "process", Inst: 1, In: fmt.Sprintf("/in/m%d.stl", i), Out: fmt.Sprintf("/out/p%d.gcode", r.N(i+1))}
			if i > 0 && r.P(3, 4) {
				p.Models = append(p.Models, genModel(r, lt, r.R(1, 7)))
				run.Model = len(p.Models) - 1
			}
			if r.P(1, 5) {
				run.NoFile = true
			}
			if r.P(1, 5) {
				p.Faults = append(p.Faults, simfs.Fault{Op: r.S("open", "write", "read"), Path: r.S(run.In, run.Out), Nth: 1, Count: 1, Err: "EIO"})
			}
			p.Runs = append(p.Runs, run)
		}
		var inj []Inject
		for i, k := 0, r.I(0, 1, 1); i < k; i++ {
			x := genStageFailure(r)
			x.Call = r.R(1, n-1)
			inj = append(inj, x)
		}
		for i := range p.Runs {
			p.Runs[i].Inject = inj
		}
	case 8, 9:
		p.Kind = "concurrent"
		genConcurrent(c, r, p)
	case 10:
		p.Kind = "after a crash"
		p.dirs()
		p.addJob(m, o)
		p.Runs = []Run{{Kind: "process", In: inPath, Out: outPath}}
		g := c.goldOf(p, 0)
		p.prior(r, outPath, len(g.Prog))
		p.CrashOp, p.CrashMid = r.R(1, g.Rec.Ops), r.P(1, 2)
		p.Durable, p.DurSeed = r.S("kill", "none", "prefix", "subset"), r.U()>>8
	case 11:
		p.Kind = "failing polygon operations"
		p.dirs()
		p.addJob(m, o)
		p.Runs = []Run{{Kind: "process", In: inPath, Out: outPath}}
		g := c.goldOf(p, 0)
		if n := len(g.Rec.ClipSites); n > 0 {
			p.Clip = []simrt.ClipRule{{Nth: r.R(1, n), Count: r.I(1, 1, 1000000)}}
		}
	}
}

func monitorCheck(mon func(j jobInfo, v *viols, text string)) func(c *Ctx, p *Plan) []Viol {
	return func(c *Ctx, p *Plan) []Viol {
		v := &viols{prop: p.Prop}
		seen := 0
		one := func(_ int, rec *Record) {
			if rec.Dead != "" || rec.Ending != "" {
				return
			}
			for i, r := range p.Runs {
				s := p.result(rec, i)
				if !good(s) || !s.HasDest {
					continue
				}
				seen++
				n := len(v.list)
				job := newJob(p.Opts[r.Opt], p.Models[r.Model])
				job.loops, job.spots, job.other = s.Loops, s.Spots, p.Kind == "recorded patterns"
				mon(job, v, string(s.Dest))
				for k := n; k < len(v.list); k++ {
					v.list[k].Msg = fmt.Sprintf("run %d (%s): %s", i, p.Kind, v.list[k].Msg)
				}
			}
		}
		if p.Kind == "after a crash" {
			c.crashRuns(p, one)
		} else {
			one(0, c.run(p))
		}
		c.stats.Probes["programs executed on the simulated printer"] += int64(seen)
		if seen == 0 {
			c.stats.Discarded++
		}
		return v.list
	}
}

func init() {
	register(&Property{ID: "C15", Quick: 8000, Thorough: 480000, Gen: genC15, Check: checkC15, Real: []string{"gcode.Builder", "data (smoothing)", "clip (perimeter check)", "go.clipper", "Go standard library"}, Stub: stubAll,
		Rule: "A plan is one history of builder calls with perimeter checks failing at some calls, or two or three histories on builders of interleaved goroutines; the code of every call is executed on a reference printer and compared with a reference model of the call."})
	rule := "A plan is a job run in one of these situations: alone with recoverable storage faults and clock events, several models on one instance with failures in between, concurrently with others under a schedule, rerun after a crash, with failing polygon operations. Every program reported successful is executed on the reference printer and monitored."
	for id, mon := range map[string]func(j jobInfo, v *viols, text string){
		"C16": jobInfo.monitorProtocol, "C17": jobInfo.monitorLayers, "C18": jobInfo.monitorFilament, "C19": jobInfo.monitorSpeed,
	} {
		register(&Property{ID: id, Quick: 2500, Thorough: 150000, Gen: genProgram, Check: monitorCheck(mon), Real: realAll, Stub: stubAll, Rule: rule})
	}
}
