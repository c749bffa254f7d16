package main

import (
	"math"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/modifier"
)

// What the layers given to the generator contain, in a form that can be compared with the program.

func (i *inst) planned(layers []data.PartitionedLayer) {
	i.cur.Loops = nil
	for _, j := range i.inj {
		if j.How == "custom" {
			return
		}
	}
	width := int(i.opts.Printer.ExtrusionWidth)
	loop := func(n int, typ string, p data.Path) {
		l := Loop{Layer: n, Type: typ}
		length := 0.0
		for k, q := range p {
			o := p[(k+1)%len(p)]
			length += math.Hypot(float64(q.X()-o.X()), float64(q.Y()-o.Y()))
			l.P = append(l.P, [2]int{int(q.X()), int(q.Y())})
		}
		if length >= 1000 && len(p) > 2 && width >= 250 { // lines closer to each other cannot be told apart
			i.cur.Loops = append(i.cur.Loops, l)
		}
	}
	for n, l := range layers {
		if per, err := modifier.Perimeters(l); err == nil {
			for _, part := range per {
				for inset, pieces := range part {
					typ := "WALL-INNER"
					if inset == 0 {
						typ = "WALL-OUTER"
					}
					for _, piece := range pieces {
						loop(n, typ, piece.Outline())
						for _, h := range piece.Holes() {
							loop(n, typ, h)
						}
					}
				}
			}
		}
		if brim, err := modifier.Brim(l); err == nil && n == 0 {
			outlines(brim, func(p data.Path) { loop(n, "SKIRT", p) })
		}
		o := i.opts.Print
		for _, a := range []struct {
			attr, typ string
			spacing   int
		}{
			{"bottom", "FILL", width}, {"top", "FILL", width}, {"infill", "FILL", width * 100 / max(o.InfillPercent, 1)},
			{"support", "SUPPORT", int(o.Support.PatternSpacing.ToMicrometer())}, {"supportInterface", "SUPPORT", width},
		} {
			if a.attr == "infill" && o.InfillPercent <= 0 || a.spacing <= 0 {
				continue
			}
			parts, err := modifier.PartsAttribute(l, a.attr)
			if err != nil {
				continue
			}
			space := max(a.spacing, width)
			for _, part := range parts {
				// a disc of this size is crossed by at least one line near its middle
				r := float64(space)*3/2 + 100
				lo, hi := data.Paths{part.Outline()}.Bounds()
				h := uint64(lo.X())*31 + uint64(lo.Y())*17 + uint64(n)
				for k, found := 0, 0; k < 16 && found < 5; k++ {
					x, y := middle(part.Outline())
					if k > 0 { // anywhere
						h = h*6364136223846793005 + 1442695040888963407
						x = int(lo.X()) + int((h>>33)%uint64(hi.X()-lo.X()+1))
						h = h*6364136223846793005 + 1442695040888963407
						y = int(lo.Y()) + int((h>>33)%uint64(hi.Y()-lo.Y()+1))
					}
					if x-space < int(i.lo.X()) || x+space > int(i.hi.X()) || y-space < int(i.lo.Y()) || y+space > int(i.hi.Y()) {
						continue // patterns end somewhere outside of the model
					}
					if room(part, x, y) < r {
						continue
					}
					found++
					i.cur.Spots = append(i.cur.Spots, Spot{n, a.typ, a.attr, x, y, space*3/5 + 60})
				}
			}
		}
	}
}

func outlines(o clip.OffsetResult, f func(p data.Path)) {
	for _, part := range o {
		for _, inset := range part {
			for _, piece := range inset {
				f(piece.Outline())
			}
		}
	}
}

// middle is the centroid of a polygon.
func middle(p data.Path) (int, int) {
	var a, x, y float64
	if len(p) == 0 {
		return 0, 0
	}
	ox, oy := float64(p[0].X()), float64(p[0].Y())
	for k, q := range p {
		r := p[(k+1)%len(p)]
		qx, qy, rx, ry := float64(q.X())-ox, float64(q.Y())-oy, float64(r.X())-ox, float64(r.Y())-oy
		c := qx*ry - rx*qy
		a += c
		x += (qx + rx) * c
		y += (qy + ry) * c
	}
	if a == 0 {
		return int(ox), int(oy)
	}
	return int(ox + x/(3*a)), int(oy + y/(3*a))
}

// room is the distance of a point inside of a part to its border (negative outside).
func room(part data.LayerPart, x, y int) float64 {
	inside := false
	best := math.MaxFloat64
	edges := func(p data.Path) {
		for k, q := range p {
			r := p[(k+1)%len(p)]
			ax, ay, bx, by := float64(q.X()), float64(q.Y()), float64(r.X()), float64(r.Y())
			best = math.Min(best, lineDist(float64(x), float64(y), ax, ay, bx, by))
			if (ay > float64(y)) != (by > float64(y)) && float64(x) < ax+(float64(y)-ay)/(by-ay)*(bx-ax) {
				inside = !inside
			}
		}
	}
	edges(part.Outline())
	for _, h := range part.Holes() {
		edges(h)
	}
	if !inside {
		return -1
	}
	return best
}
