package main

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"strconv"
	"strings"
)

// ---- seeded choice

// Rng is the only source of randomness of a plan.
type Rng struct{ s uint64 }

func newRng(vals ...interface{}) *Rng {
	h := fnv.New64a()
	fmt.Fprint(h, vals...)
	return &Rng{h.Sum64()}
}
func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *Rng) R(lo, hi int) int     { return lo + r.N(hi-lo+1) }
func (r *Rng) P(num, den int) bool  { return r.N(den) < num }
func (r *Rng) S(v ...string) string { return v[r.N(len(v))] }
func (r *Rng) I(v ...int) int       { return v[r.N(len(v))] }

// ---- models

// Body is one closed (before Dirt) shape, in micrometers.
type Body struct {
	Shape string `json:"shape"` // box prism frustum ring tetra wedge plate
	X     int    `json:"x"`
	Y     int    `json:"y"`
	Z     int    `json:"z"`
	W     int    `json:"w"`             // size in x
	D     int    `json:"d"`             // size in y
	H     int    `json:"h"`             // height
	N     int    `json:"n,omitempty"`   // corners
	Top   int    `json:"top,omitempty"` // size of the top in percent of the bottom
	DX    int    `json:"dx,omitempty"`  // shift of the top
	Rot   int    `json:"rot,omitempty"` // degrees
}

// Dirt is one damage to the list of triangles.
type Dirt struct {
	Kind string `json:"kind"` // drop dup flip degen jitter shift, and without effect on the shape: mdegen mdup shuffle
	At   int    `json:"at"`
	By   int    `json:"by,omitempty"`
}

// ModelSpec describes an input file.
type ModelSpec struct {
	Bodies []Body `json:"bodies"`
	Dirt   []Dirt `json:"dirt,omitempty"`
	ASCII  bool   `json:"ascii,omitempty"`
	Header string `json:"header,omitempty"` // binary header text or name of the solid
	Raw    []byte `json:"raw,omitempty"`    // when set: the file itself
	Cut    int    `json:"cut,omitempty"`    // file truncated by that many bytes (-1: to nothing)
	Muts   []Mut  `json:"muts,omitempty"`   // byte damage
	Attr   int    `json:"attr,omitempty"`   // attribute value of binary triangles (colour)
	Norm   string `json:"norm,omitempty"`   // normals: out, in (pointing the wrong way), z, big, nan
	Style  string `json:"style,omitempty"`  // of a text file: crlf, tabs, exp, line (everything in one line)
	Many   int    `json:"many,omitempty"`   // so many triangles, all different, instead of bodies
}

// Mut overwrites, inserts or deletes bytes.
type Mut struct {
	At   int    `json:"at"` // modulo length
	Kind string `json:"kind"`
	Val  string `json:"val,omitempty"`
}

// Tri is a triangle in micrometers.
type Tri [3][3]int

func ngon(cx, cy, w, d, n int, rot float64) [][2]int {
	var r [][2]int
	for i := 0; i < n; i++ {
		a := 2*math.Pi*float64(i)/float64(n) + rot
		r = append(r, [2]int{cx + int(math.Round(float64(w)/2*math.Cos(a))), cy + int(math.Round(float64(d)/2*math.Sin(a)))})
	}
	return r
}

func loft(lo, hi [][2]int, z0, z1 int, flip bool) []Tri {
	var t []Tri
	n := len(lo)
	add := func(a, b, c [3]int) {
		if flip {
			b, c = c, b
		}
		t = append(t, Tri{a, b, c})
	}
	for i := range lo {
		j := (i + 1) % n
		a, b := [3]int{lo[i][0], lo[i][1], z0}, [3]int{lo[j][0], lo[j][1], z0}
		c, d := [3]int{hi[j][0], hi[j][1], z1}, [3]int{hi[i][0], hi[i][1], z1}
		add(a, b, c)
		add(a, c, d)
	}
	return t
}

func capFan(p [][2]int, z int, up bool) []Tri {
	var t []Tri
	for i := 1; i+1 < len(p); i++ {
		a, b, c := [3]int{p[0][0], p[0][1], z}, [3]int{p[i][0], p[i][1], z}, [3]int{p[i+1][0], p[i+1][1], z}
		if up {
			t = append(t, Tri{a, b, c})
		} else {
			t = append(t, Tri{a, c, b})
		}
	}
	return t
}

func (b Body) tris() []Tri {
	cx, cy := b.X, b.Y
	rect := func(w, d, dx int) [][2]int {
		return [][2]int{{cx - w/2 + dx, cy - d/2}, {cx + w - w/2 + dx, cy - d/2}, {cx + w - w/2 + dx, cy + d - d/2}, {cx - w/2 + dx, cy + d - d/2}}
	}
	n := b.N
	if n < 3 {
		n = 3
	}
	rot := float64(b.Rot) * math.Pi / 180
	z0, z1 := b.Z, b.Z+b.H
	switch b.Shape {
	case "frustum", "prism":
		top := b.Top
		if b.Shape == "prism" || top == 0 {
			top = 100
		}
		lo := ngon(cx, cy, b.W, b.D, n, rot)
		hi := ngon(cx+b.DX, cy, b.W*top/100, b.D*top/100, n, rot)
		t := loft(lo, hi, z0, z1, false)
		t = append(t, capFan(lo, z0, false)...)
		return append(t, capFan(hi, z1, true)...)
	case "wedge": // box whose top is another rectangle
		top := b.Top
		if top == 0 {
			top = 100
		}
		lo, hi := rect(b.W, b.D, 0), rect(b.W*top/100, b.D*top/100, b.DX)
		t := loft(lo, hi, z0, z1, false)
		t = append(t, capFan(lo, z0, false)...)
		return append(t, capFan(hi, z1, true)...)
	case "ring":
		top := b.Top
		if top <= 0 || top >= 100 {
			top = 50
		}
		lo := ngon(cx, cy, b.W, b.D, n, rot)
		in := ngon(cx, cy, b.W*top/100, b.D*top/100, n, rot)
		t := loft(lo, lo, z0, z1, false)
		t = append(t, loft(in, in, z0, z1, true)...)
		for i := range lo {
			j := (i + 1) % n
			for _, z := range []int{z0, z1} {
				a, c := [3]int{lo[i][0], lo[i][1], z}, [3]int{lo[j][0], lo[j][1], z}
				d, e := [3]int{in[j][0], in[j][1], z}, [3]int{in[i][0], in[i][1], z}
				if z == z1 {
					t = append(t, Tri{a, c, d}, Tri{a, d, e})
				} else {
					t = append(t, Tri{a, d, c}, Tri{a, e, d})
				}
			}
		}
		return t
	case "plate":
		return b.plate(n, rot)
	case "tetra":
		p := ngon(cx, cy, b.W, b.D, 3, rot)
		apex := [3]int{cx + b.DX, cy, z1}
		t := capFan(p, z0, false)
		for i := range p {
			j := (i + 1) % 3
			t = append(t, Tri{{p[i][0], p[i][1], z0}, {p[j][0], p[j][1], z0}, apex})
		}
		return t
	}
	lo := rect(b.W, b.D, 0)
	t := loft(lo, lo, z0, z1, false)
	t = append(t, capFan(lo, z0, false)...)
	return append(t, capFan(lo, z1, true)...)
}

// plate is a box with holes through it: Top/10 by Top%10 of them, with n corners.
func (b Body) plate(n int, rot float64) []Tri {
	nx, ny := b.Top/10, b.Top%10
	if nx < 1 {
		nx = 1
	}
	if ny < 1 {
		ny = 1
	}
	part := b.DX // diameter of the holes in percent
	if part <= 0 || part > 80 {
		part = 50
	}
	z0, z1 := b.Z, b.Z+b.H
	var t []Tri
	at := func(p [2]int, z int) [3]int { return [3]int{p[0], p[1], z} }
	for i := 0; i < nx*ny; i++ {
		x0, x1 := b.X-b.W/2+b.W*(i%nx)/nx, b.X-b.W/2+b.W*(i%nx+1)/nx
		y0, y1 := b.Y-b.D/2+b.D*(i/nx)/ny, b.Y-b.D/2+b.D*(i/nx+1)/ny
		cx, cy := (x0+x1)/2, (y0+y1)/2
		out := [][2]int{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}
		in := ngon(cx, cy, (x1-x0)*part/100, (y1-y0)*part/100, n, rot)
		t = append(t, loft(in, in, z0, z1, true)...)
		for k, use := range []bool{i/nx == 0, i%nx == nx-1, i/nx == ny-1, i%nx == 0} { // outer walls
			if use {
				p, q := out[k], out[(k+1)%4]
				t = append(t, Tri{at(p, z0), at(q, z0), at(q, z1)}, Tri{at(p, z0), at(q, z1), at(p, z1)})
			}
		}
		// between the hole and the edge of its cell: walk around both, connecting what is near
		dist := func(p, q [2]int) int { return (p[0]-q[0])*(p[0]-q[0]) + (p[1]-q[1])*(p[1]-q[1]) }
		s := 0 // the corner of the hole next to the first corner of the cell
		for k := range in {
			if dist(out[0], in[k]) < dist(out[0], in[s]) {
				s = k
			}
		}
		for o, h := 0, 0; o < 4 || h < n; {
			po, no, ph, nh := out[o%4], out[(o+1)%4], in[(s+h)%n], in[(s+h+1)%n]
			var a, c, d [2]int
			if o >= 4 || (h < n && dist(po, nh) < dist(no, ph)) {
				a, c, d = po, nh, ph
				h++
			} else {
				a, c, d = po, no, ph
				o++
			}
			t = append(t, Tri{at(a, z1), at(c, z1), at(d, z1)}, Tri{at(a, z0), at(d, z0), at(c, z0)})
		}
	}
	return t
}

// dirty tells whether the model is something else than its bodies.
func (m ModelSpec) dirty() bool {
	for _, d := range m.Dirt {
		if d.Kind != "mdegen" && d.Kind != "mdup" && d.Kind != "shuffle" {
			return true
		}
	}
	return m.Raw != nil
}

// Tris lists the triangles stored in the file.
func (m ModelSpec) Tris() []Tri {
	var t []Tri
	for i := 0; i < m.Many; i++ {
		t = append(t, Tri{{i, i % 977, 0}, {i + 100, i % 313, 5}, {i % 1009, -i, i % 7}})
	}
	for _, b := range m.Bodies {
		t = append(t, b.tris()...)
	}
	for _, d := range m.Dirt {
		if len(t) == 0 {
			break
		}
		i := d.At % len(t)
		switch d.Kind {
		case "drop":
			t = append(t[:i:i], t[i+1:]...)
		case "dup":
			t = append(t, t[i])
		case "flip":
			t[i][1], t[i][2] = t[i][2], t[i][1]
		case "degen":
			x := t[i]
			x[2] = x[1]
			t = append(t, x)
		case "jitter":
			t[i][d.By&1][0] += d.By % 13
			t[i][2][1] -= d.By % 7
		case "shift":
			t[i][2][2] += d.By
		// the rest leaves the shape as it is
		case "mdegen", "mdup":
			x := t[i]
			switch {
			case d.Kind == "mdup":
				x = Tri{x[d.By%3], x[(d.By+1)%3], x[(d.By+2)%3]}
			case d.By%4 == 3:
				x = Tri{x[0], x[0], x[0]}
			default:
				x[(d.By+1)%3] = x[d.By%3]
			}
			j := d.By % (len(t) + 1)
			t = append(t[:j:j], append([]Tri{x}, t[j:]...)...)
		case "shuffle":
			x := uint64(d.At)*2654435761 + uint64(d.By) + 1
			for j := len(t) - 1; j > 0; j-- {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				k := int(x % uint64(j+1))
				t[j], t[k] = t[k], t[j]
				n := x >> 40 % 3
				t[j] = Tri{t[j][n], t[j][(n+1)%3], t[j][(n+2)%3]}
			}
		}
	}
	return t
}

func mm(v int) string { return strconv.FormatFloat(float64(v)/1000, 'f', 3, 64) }

// Bytes is the input file.
func (m ModelSpec) Bytes() []byte {
	b := m.clean()
	for _, u := range m.Muts {
		if len(b) == 0 {
			break
		}
		if strings.HasPrefix(u.Val, "hex:") {
			v, _ := hex.DecodeString(u.Val[4:])
			u.Val = string(v)
		}
		i := u.At % len(b)
		switch u.Kind {
		case "set":
			b = append([]byte(nil), b...)
			copy(b[i:], u.Val)
		case "ins":
			b = append(append(append([]byte(nil), b[:i]...), u.Val...), b[i:]...)
		case "del":
			n := len(u.Val)
			if i+n > len(b) {
				n = len(b) - i
			}
			b = append(append([]byte(nil), b[:i]...), b[i+n:]...)
		}
	}
	if m.Cut < 0 {
		return nil
	}
	if m.Cut > 0 && m.Cut <= len(b) {
		b = b[:len(b)-m.Cut]
	}
	return b
}

func (m ModelSpec) clean() []byte {
	if m.Raw != nil {
		return append([]byte(nil), m.Raw...)
	}
	t := m.Tris()
	if m.ASCII {
		var s strings.Builder
		name := m.Header // a name, not a file format within the file format
		if strings.Trim(strings.ToLower(name), "abcdefghijklmnopqrstuvwxyz ") != "" || strings.HasPrefix(name, " ") || strings.HasPrefix(name, "facet") {
			name = "part"
		}
		s.WriteString("solid " + name + "\n")
		num := mm
		if m.Style == "exp" {
			num = func(v int) string { return strconv.FormatFloat(float64(v)/1000, 'e', 6, 64) }
		}
		for i, x := range t {
			n := m.normal(i, x)
			if m.Norm == "" {
				s.WriteString(" facet normal 0 0 0\n  outer loop\n")
			} else {
				fmt.Fprintf(&s, " facet normal %g %g %g\n  outer loop\n", n[0], n[1], n[2])
			}
			for _, v := range x {
				s.WriteString("   vertex " + num(v[0]) + " " + num(v[1]) + " " + num(v[2]) + "\n")
			}
			s.WriteString("  endloop\n endfacet\n")
		}
		s.WriteString("endsolid " + name + "\n")
		b := s.String()
		switch m.Style {
		case "crlf":
			b = strings.ReplaceAll(b, "\n", "\r\n")
		case "tabs":
			b = strings.ReplaceAll(strings.ReplaceAll(b, "  ", "\t"), "vertex ", "vertex\t ")
		case "line":
			if i := strings.Index(b, "\n") + 1; len(b)-i < 60000 {
				b = b[:i] + strings.ReplaceAll(b[i:], "\n", " ") + "\n"
			}
		}
		return []byte(b)
	}
	b := make([]byte, 84, 84+50*len(t))
	copy(b, m.Header)
	binary.LittleEndian.PutUint32(b[80:], uint32(len(t)))
	for i, x := range t {
		var r [50]byte
		o := 0
		for _, c := range m.normal(i, x) {
			binary.LittleEndian.PutUint32(r[o:], math.Float32bits(float32(c)))
			o += 4
		}
		for _, v := range x {
			for _, c := range v {
				binary.LittleEndian.PutUint32(r[o:], math.Float32bits(float32(float64(c)/1000)))
				o += 4
			}
		}
		r[48], r[49] = byte(m.Attr), byte(m.Attr>>8)
		b = append(b, r[:]...)
	}
	return b
}

// normal is what the file says about the direction of triangle i.
func (m ModelSpec) normal(i int, t Tri) (n [3]float64) {
	switch m.Norm {
	case "z":
		return [3]float64{0, 0, 1}
	case "big":
		return [3]float64{float64(i), -4e9, 1e30}
	case "nan":
		return [3]float64{math.NaN(), math.Inf(1), math.NaN()}
	case "out", "in":
		var a, b [3]float64
		for k := 0; k < 3; k++ {
			a[k], b[k] = float64(t[1][k]-t[0][k])/1000, float64(t[2][k]-t[0][k])/1000
		}
		l := 0.0
		for k := 0; k < 3; k++ {
			n[k] = a[(k+1)%3]*b[(k+2)%3] - a[(k+2)%3]*b[(k+1)%3]
			l += n[k] * n[k]
		}
		if l > 0 {
			l = math.Sqrt(l)
			if m.Norm == "in" {
				l = -l
			}
			for k := range n {
				n[k] /= l
			}
		}
	}
	return n
}

// Printable tells whether the model is a set of clean closed bodies of printable size.
func (m ModelSpec) Printable() bool {
	return m.Raw == nil && m.Cut == 0 && len(m.Muts) == 0 && len(m.Bodies) > 0 && m.Many == 0
}

// Span of the model in z.
func (m ModelSpec) Span() (int, int) {
	lo, hi := 1<<60, -1<<60
	for _, t := range m.Tris() {
		for _, v := range t {
			if v[2] < lo {
				lo = v[2]
			}
			if v[2] > hi {
				hi = v[2]
			}
		}
	}
	return lo, hi
}

func genBody(r *Rng, maxH int) Body {
	b := Body{Shape: r.S("box", "box", "prism", "frustum", "ring", "wedge", "tetra"), W: r.R(3000, 16000), D: r.R(3000, 16000), H: r.R(maxH/3, maxH), N: r.R(3, 9)}
	if r.P(1, 2) {
		b.Rot = r.N(90)
	}
	switch b.Shape {
	case "frustum", "wedge":
		b.Top = r.I(40, 60, 80, 120, 160, 220)
		if r.P(1, 3) {
			b.DX = r.R(-3000, 3000)
		}
	case "ring":
		b.Top = r.R(30, 75)
		b.N = r.R(4, 9)
		b.W += 4000
		b.D += 4000
	case "tetra":
		b.DX = r.R(-2000, 2000)
	}
	return b
}

// genModel draws a model with about n layers of thickness lt.
func genModel(r *Rng, lt int, n int) ModelSpec {
	h := lt * n
	var m ModelSpec
	kind := r.N(16)
	if r.P(1, 25) {
		kind = 16
	} else if r.P(1, 14) {
		kind = 17
	}
	switch kind {
	case 16:
		m.Bodies = genBig(r, lt)
	case 17:
		m.Bodies = genHoles(r, lt, h)
	case 14, 15: // bodies connected by thin bridges or webs
		x, w := 0, r.R(500, 2600)
		for i, k := 0, r.R(2, 3); i < k; i++ {
			b := Body{Shape: "box", W: r.R(4000, 9000), D: r.R(4000, 9000), H: h, N: 8}
			if r.P(1, 4) {
				b.Shape = "prism"
			}
			if i > 0 {
				x += b.W / 2
			}
			b.X = x
			m.Bodies = append(m.Bodies, b)
			gap := r.R(1500, 5000)
			if x += b.W / 2; i+1 < k {
				m.Bodies = append(m.Bodies, Body{Shape: "box", X: x + gap/2, Y: r.R(-800, 800), W: gap + 1200, D: w, H: r.I(h, h, h/2)})
			}
			x += gap
		}
	case 12, 13:
		m.Bodies = genPlates(r, lt)
	case 10, 11: // bodies above each other with empty layers between
		z := 0
		for i, k := 0, r.R(2, 3); i < k; i++ {
			b := genBody(r, h*2/3)
			if r.P(2, 3) {
				b.Shape, b.N = r.S("box", "prism"), r.R(4, 8)
			}
			if r.P(1, 3) {
				b.X, b.Y = r.R(-9000, 9000), r.R(-9000, 9000)
			}
			b.Z = z
			z += b.H + r.R(lt+lt/4, 3*lt)
			m.Bodies = append(m.Bodies, b)
		}
	case 0, 1, 2: // one body
		m.Bodies = []Body{genBody(r, h)}
	case 3, 4, 5: // side by side
		x := 0
		for i, k := 0, r.R(2, 3); i < k; i++ {
			b := genBody(r, h)
			b.X = x + b.W/2
			x += b.W + r.R(1500, 5000)
			m.Bodies = append(m.Bodies, b)
		}
	case 6, 7: // mushroom: overhang
		b := Body{Shape: r.S("box", "prism"), W: r.R(4000, 8000), D: r.R(4000, 8000), H: h / 2, N: r.R(4, 8)}
		c := Body{Shape: r.S("box", "prism"), W: b.W + r.R(3000, 8000), D: b.D + r.R(1000, 8000), Z: h / 2, H: h - h/2, N: b.N}
		if r.P(1, 3) {
			c.X = r.R(-2000, 2000)
		}
		m.Bodies = []Body{b, c}
	case 8: // two towers with a bridge
		w := r.R(3000, 6000)
		g := r.R(4000, 9000)
		m.Bodies = []Body{
			{Shape: "box", X: 0, W: w, D: w, H: h * 2 / 3},
			{Shape: "box", X: g + w, W: w, D: w, H: h * 2 / 3},
			{Shape: "box", X: (g + w) / 2, W: g + 2*w, D: w, Z: h * 2 / 3, H: h - h*2/3},
		}
	case 9: // body with cavity below a roof
		b := Body{Shape: "ring", W: r.R(9000, 16000), D: r.R(9000, 16000), H: h * 2 / 3, N: r.R(4, 8), Top: r.R(40, 70)}
		m.Bodies = []Body{b, {Shape: "prism", W: b.W, D: b.D, Z: b.H, H: h - b.H, N: b.N}}
	}
	if r.P(1, 6) {
		for i := range m.Bodies {
			m.Bodies[i].X += r.R(-50000, 50000)
			m.Bodies[i].Z += r.I(5000, -5000, -h/2, -h)
		}
	}
	if r.P(1, 4) {
		m.Dirt = append(m.Dirt, Dirt{"shuffle", r.N(1000), r.N(1000)})
	}
	if r.P(1, 5) {
		for i, k := 0, r.R(1, 6); i < k; i++ {
			m.Dirt = append(m.Dirt, Dirt{r.S("mdegen", "mdup"), r.N(500), r.N(60)})
		}
	}
	m.ASCII = r.P(1, 3)
	m.Header = r.S("", "part", "solid thing", "exported by x", "a b c")
	if !m.ASCII && r.P(1, 4) {
		m.Header = "solid but binary"
	} else if !m.ASCII && r.P(1, 4) {
		m.Header = r.S("   leading blanks", "\r\nlines\n", "\ufeffmark", "SOLID thing", "facet normal 0 0 0", strings.Repeat("\x00", 80), strings.Repeat(" ", 80), strings.Repeat("y", 80), "COLOR=\x01\x02\x03\x04,MATERIAL=")
	}
	if !m.ASCII && r.P(1, 3) {
		m.Attr = r.I(0x2020, 0x0a0d, 0x8000, 0xffff, 1, r.N(65536))
	}
	if r.P(1, 2) {
		m.Norm = r.S("out", "out", "out", "in", "z", "big", "nan")
	}
	if m.ASCII && r.P(1, 2) {
		m.Style = r.S("crlf", "tabs", "exp", "line")
	}
	return m
}

// genHoles is a plate with holes.
func genHoles(r *Rng, lt, h int) []Body {
	nx, ny, cell := r.R(1, 4), r.R(1, 3), r.R(3500, 8000)
	if r.P(1, 10) {
		nx, ny = r.R(4, 8), r.R(3, 6)
	}
	b := Body{Shape: "plate", W: nx * cell, D: ny * (cell + r.R(-500, 1500)), H: h, N: r.I(3, 3, 4, 5, 6, 12), Top: nx*10 + ny, DX: r.R(35, 70), Rot: r.I(0, r.N(90))}
	if r.P(1, 2) {
		b.H = lt * r.R(1, 3)
	}
	l := []Body{b}
	if r.P(1, 3) { // a roof over the holes
		l = append(l, Body{Shape: "box", Z: b.H, W: b.W - 100, D: b.D - 100, H: lt * r.R(1, 3)})
	}
	return l
}

// genBig has many of something: layers, corners, parts per layer, lines per layer.
func genBig(r *Rng, lt int) []Body {
	switch r.N(5) {
	case 0, 1: // many layers, something wider on top
		k := r.R(15, 120)
		if r.P(1, 8) {
			k = r.R(120, 320)
		}
		b := Body{Shape: r.S("box", "prism", "frustum", "ring"), W: r.R(2500, 6000), D: r.R(2500, 6000), H: k * lt, N: r.R(4, 8), Top: 60}
		if b.Shape == "ring" {
			b.W, b.D = b.W+4000, b.D+4000
		}
		l := []Body{b}
		if r.P(1, 2) {
			l = append(l, Body{Shape: "box", W: b.W + r.R(1000, 5000), D: b.D, Z: b.H, H: lt * r.R(1, 4)})
		}
		return l
	case 2: // round
		b := Body{Shape: r.S("prism", "ring", "frustum"), W: r.R(9000, 22000), D: r.R(9000, 22000), H: lt * r.R(2, 5), N: r.R(24, 140), Top: r.R(40, 70)}
		return []Body{b}
	case 3: // wide
		return []Body{{Shape: r.S("box", "prism"), W: r.R(30000, 200000), D: r.R(30000, 200000), H: lt * r.R(2, 3), N: r.R(4, 9), Rot: r.N(90)}}
	}
	return genGrid(r, lt, r.R(3, 5), r.R(3, 5))
}

// genTall has very many layers.
func genTall(r *Rng, lt, k int) ModelSpec {
	b := Body{Shape: r.S("box", "prism"), W: r.R(2500, 4000), D: r.R(2500, 4000), H: k * lt, N: r.R(4, 6)}
	return ModelSpec{Bodies: []Body{b}, ASCII: r.P(1, 2)}
}

// genGrid has many parts per layer.
func genGrid(r *Rng, lt, nx, ny int) []Body {
	var l []Body
	pitch := r.R(3500, 7000)
	for i := 0; i < nx*ny; i++ {
		b := Body{Shape: r.S("box", "box", "prism"), X: i % nx * pitch, Y: i / nx * pitch, W: pitch - r.R(900, 1800), D: pitch - r.R(900, 1800), H: lt * r.R(2, 4), N: r.R(4, 6)}
		l = append(l, b)
	}
	if r.P(1, 3) { // on a plate
		for i := range l {
			l[i].Z = 2 * lt
		}
		l = append(l, Body{Shape: "box", X: (nx - 1) * pitch / 2, Y: (ny - 1) * pitch / 2, W: nx * pitch, D: ny * pitch, H: 2 * lt})
	}
	return l
}

// genPlates are plates of changing size on top of each other, so that what is open above and below changes from layer to layer.
func genPlates(r *Rng, lt int) []Body {
	var l []Body
	z := 0
	for i, k := 0, r.R(3, 5); i < k; i++ {
		b := Body{Shape: r.S("box", "box", "prism"), W: r.R(3000, 12000), D: r.R(3000, 12000), Z: z, H: lt * r.R(1, 3), N: r.R(4, 7)}
		if i == 0 {
			b.H = lt * r.R(3, 6)
		}
		if r.P(1, 3) {
			b.X, b.Y = r.R(-2000, 2000), r.R(-2000, 2000)
		}
		z += b.H
		l = append(l, b)
	}
	return l
}

func clone[T any](v T) T {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var r T
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return r
}
