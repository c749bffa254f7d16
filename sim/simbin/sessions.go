package main

import (
	"fmt"
	"reflect"

	"goslicesim/simrt"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/modifier"
	"github.com/aligator/goslice/slicer"
)

// ---- attribute tampering

// plugLayer is the layer type of a plug-in.
type plugLayer struct {
	data.PartitionedLayer
	attrs map[string]interface{}
}

func (l plugLayer) Attributes() map[string]interface{} { return l.attrs }

type namedParts []data.LayerPart
type otherStruct struct{ A, B int }

var wrongKinds = []string{"string", "int", "nil", "bool", "struct", "func", "paths", "path", "part", "ptr", "named", "ifaces", "map", "parts", "parts2", "offset", "emptyparts", "nilparts", "niloffset"}

// attrValue makes a value of some kind; parts are taken from the layer.
func attrValue(kind string, l data.PartitionedLayer) interface{} {
	p := l.LayerParts()
	switch kind {
	case "string":
		return "infill"
	case "int":
		return 42
	case "nil":
		return nil
	case "bool":
		return true
	case "struct":
		return otherStruct{1, 2}
	case "func":
		return func() {}
	case "paths":
		return data.Paths{}
	case "path":
		return data.Path{data.NewMicroPoint(1, 2)}
	case "part":
		return data.NewBasicLayerPart(nil, nil)
	case "ptr":
		return &p
	case "named":
		return namedParts(p)
	case "ifaces":
		return []interface{}{1}
	case "map":
		return map[string]data.LayerPart{}
	case "parts":
		return append([]data.LayerPart{}, p...)
	case "parts2":
		return [][]data.LayerPart{p}
	case "offset":
		return clip.OffsetResult{{p}}
	case "emptyparts":
		return []data.LayerPart{}
	case "nilparts":
		return []data.LayerPart(nil)
	case "niloffset":
		return clip.OffsetResult(nil)
	}
	panic("attribute kind " + kind)
}

// rightKind tells whether a value of that kind has the type that attribute is documented to have.
func rightKind(attr, kind string) bool {
	switch attr {
	case "perimeters", "brim":
		return kind == "offset" || kind == "niloffset"
	case "overlapPerimeters":
		return kind == "parts2"
	}
	return kind == "parts" || kind == "emptyparts" || kind == "nilparts"
}

// emptyLayer + k as a layer number means the k-th layer without parts.
const emptyLayer = 1000000

func (i *inst) tamper(j Inject, l []data.PartitionedLayer) {
	if len(l) == 0 {
		return
	}
	k := j.Layer % len(l)
	if k < 0 {
		k += len(l)
	}
	if j.Layer >= emptyLayer { // one of the layers without parts, if there is any
		var e []int
		for n := range l {
			if len(l[n].LayerParts()) == 0 {
				e = append(e, n)
			}
		}
		if len(e) > 0 {
			k = e[(j.Layer-emptyLayer)%len(e)]
		}
	}
	a := map[string]interface{}{}
	for n, v := range l[k].Attributes() {
		a[n] = v
	}
	a[j.Attr] = attrValue(j.Val, l[k])
	l[k] = plugLayer{l[k], a}
	i.cur.Injected++
}

// ---- direct use of the accessors

func accessSession(st *Step, r *StepResult) {
	square := func(s int) data.LayerPart {
		v := data.Micrometer(s)
		return data.NewBasicLayerPart(data.Path{data.NewMicroPoint(0, 0), data.NewMicroPoint(v, 0), data.NewMicroPoint(v, v), data.NewMicroPoint(0, v)}, nil)
	}
	bad := func(f string, a ...interface{}) { r.Notes = append(r.Notes, fmt.Sprintf(f, a...)) }
	type acc struct {
		attr string
		call func(l data.PartitionedLayer) (interface{}, bool, error)
	}
	parts := func(f func(data.PartitionedLayer) ([]data.LayerPart, error)) func(l data.PartitionedLayer) (interface{}, bool, error) {
		return func(l data.PartitionedLayer) (interface{}, bool, error) {
			v, err := f(l)
			return v, v == nil, err
		}
	}
	for n, op := range st.Ops {
		base := data.NewPartitionedLayer([]data.LayerPart{square(1000 * (n + 2)), square(500)})
		switch op.I {
		case 3: // a layer without parts
			base = data.NewPartitionedLayer(nil)
		case 4:
			base = data.NewPartitionedLayer([]data.LayerPart{})
		}
		accs := map[string]acc{
			"BottomInfill":       {"bottom", parts(modifier.BottomInfill)},
			"TopInfill":          {"top", parts(modifier.TopInfill)},
			"FullSupport":        {"fullSupport", parts(modifier.FullSupport)},
			"BrimOuterDimension": {"outerBrim", parts(modifier.BrimOuterDimension)},
			"PartsAttribute": {op.S, parts(func(l data.PartitionedLayer) ([]data.LayerPart, error) {
				return modifier.PartsAttribute(l, op.S)
			})},
			"Perimeters": {"perimeters", func(l data.PartitionedLayer) (interface{}, bool, error) {
				v, err := modifier.Perimeters(l)
				return v, v == nil, err
			}},
			"Brim": {"brim", func(l data.PartitionedLayer) (interface{}, bool, error) {
				v, err := modifier.Brim(l)
				return v, v == nil, err
			}},
			"OverlapPerimeters": {"overlapPerimeters", func(l data.PartitionedLayer) (interface{}, bool, error) {
				v, err := modifier.OverlapPerimeters(l)
				return v, v == nil, err
			}},
		}
		a, ok := accs[op.K]
		if !ok {
			panic("accessor " + op.K)
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					bad("%s panics on an attribute %s holding a %s: %v", op.K, a.attr, op.Val(), p)
				}
			}()
			var l data.PartitionedLayer = base
			if op.I > 0 {
				at := map[string]interface{}{}
				if op.I > 1 {
					at[a.attr] = attrValue(op.Val(), base)
				}
				l = plugLayer{base, at}
			}
			v, isNil, err := a.call(l)
			r.Injected++
			typ := a.attr
			if op.K == "PartsAttribute" {
				typ = "infill" // parts, whatever the name
			}
			switch {
			case op.I < 2:
				if err != nil || !isNil {
					bad("%s of a layer without attribute %s: %v, %v", op.K, a.attr, v, err)
				}
			case !rightKind(typ, op.Val()):
				if err == nil {
					bad("%s accepts an attribute %s that holds a %s", op.K, a.attr, op.Val())
				} else if !isNil {
					bad("%s returns a value together with an error", op.K)
				}
			default:
				f, g := &fp{9}, &fp{9}
				f.any(valueOf(v))
				g.any(valueOf(attrValue(op.Val(), base)))
				if err != nil || f.h != g.h {
					bad("%s does not return the attribute %s (%s): %v", op.K, a.attr, op.Val(), err)
				}
			}
		}()
	}
}

// Val is the kind of attribute value of an accessor operation.
func (o Op) Val() string { return wrongKinds[o.J%len(wrongKinds)] }

// ---- code builder

func mpath(p [][2]int) data.Path {
	r := make(data.Path, len(p))
	for i, q := range p {
		r[i] = data.NewMicroPoint(data.Micrometer(q[0]), data.Micrometer(q[1]))
	}
	return r
}

func mparts(q [][][2]int) []data.LayerPart {
	var r []data.LayerPart
	for i := 0; i < len(q); i++ {
		outline := mpath(q[i])
		var holes data.Paths
		for i+1 < len(q) && isHole(q[i+1]) { // clockwise: hole of the part before it
			i++
			holes = append(holes, mpath(q[i]))
		}
		r = append(r, data.NewBasicLayerPart(outline, holes))
	}
	return r
}

func builderSession(h *host, st *Step, r *StepResult) {
	o := st.Opt.Data("", "", &sink{})
	b := gcode.NewGCodeBuilder(&o)
	r.Sess = make([]OpOut, len(st.Ops))
	for n := range st.Ops {
		op := &st.Ops[n]
		out := &r.Sess[n]
		func() {
			defer func() {
				if p := recover(); p != nil {
					out.Pan = fmt.Sprint(p)
				}
			}()
			f := func(i int) float64 {
				if i < len(op.A) {
					return op.A[i]
				}
				return 0
			}
			switch op.K {
			case "movespeed":
				b.SetMoveSpeed(data.Millimeter(f(0)))
			case "speed":
				b.SetExtrudeSpeed(data.Millimeter(f(0)))
			case "override":
				b.SetExtrudeSpeedOverride(data.Millimeter(f(0)))
			case "nooverride":
				b.DisableExtrudeSpeedOverride()
			case "rspeed":
				b.SetRetractionSpeed(data.Millimeter(f(0)))
			case "ramount":
				b.SetRetractionAmount(data.Millimeter(f(0)))
			case "zhop":
				b.SetRetractionZHop(data.Millimeter(f(0)))
			case "extrusion":
				b.SetExtrusion(data.Micrometer(f(0)), data.Micrometer(f(1)))
			case "move":
				b.AddMove(data.NewMicroVec3(data.Micrometer(f(0)), data.Micrometer(f(1)), data.Micrometer(f(2))), data.Millimeter(f(3)))
			case "movespd":
				b.AddMoveSpeed(data.NewMicroVec3(data.Micrometer(f(0)), data.Micrometer(f(1)), data.Micrometer(f(2))), data.Millimeter(f(3)), op.I)
			case "poly":
				p := mpath(op.P)
				keep := mpath(op.P)
				var l data.PartitionedLayer
				var lp []data.LayerPart
				if op.J > 0 {
					lp = mparts(op.Q)
					l = data.NewPartitionedLayer(lp)
				}
				fl := layersFP(sliceOf(data.NewPartitionedLayer(lp)))
				err := b.AddPolygon(l, p, data.Micrometer(f(0)), op.I == 1)
				if err != nil {
					out.Err = err.Error()
				}
				g, k := &fp{4}, &fp{4}
				g.path(p)
				k.path(keep)
				if g.h != k.h {
					r.Notes = append(r.Notes, fmt.Sprintf("operation %d: AddPolygon changed the polygon it was given", n))
				}
				if fl != layersFP(sliceOf(data.NewPartitionedLayer(lp))) {
					r.Notes = append(r.Notes, fmt.Sprintf("operation %d: AddPolygon changed the layer it was given", n))
				}
			case "cmd":
				if len(op.A) > 0 {
					b.AddCommand(op.S, int(op.A[0]))
				} else {
					b.AddCommand(op.S)
				}
			case "comment":
				if len(op.A) > 0 {
					b.AddComment(op.S, int(op.A[0]))
				} else {
					b.AddComment(op.S)
				}
			case "read":
				_ = b.String()
			default:
				panic("builder operation " + op.K)
			}
		}()
		out.Clip = simrt.ClipFired
		r.Text = b.String()
		out.Len = len(r.Text)
	}
}

// ---- polygon operations

type simpleLayer struct{ p data.Paths }

func (l simpleLayer) Polygons() data.Paths { return l.p }

// geomSession runs a history of polygon operations over shared parts; every operation must leave all
// parts (given and computed ones) unchanged and give the same answer when repeated.
func geomSession(st *Step, r *StepResult) {
	var parts []data.LayerPart
	var results []interface{}
	c := clip.NewClipper()
	snap := func() uint64 {
		f := &fp{7}
		for _, p := range parts {
			f.part(p)
		}
		for _, v := range results {
			f.any(valueOf(v))
		}
		return f.h
	}
	sel := func(mask int) []data.LayerPart {
		var s []data.LayerPart
		for i, p := range parts {
			if mask>>uint(i)&1 == 1 {
				s = append(s, p)
			}
		}
		return s
	}
	r.Sess = make([]OpOut, len(st.Ops))
	exec := func(op *Op) interface{} {
		okv := func(v interface{}, ok bool) interface{} { return []interface{}{v, fmt.Sprint(ok)} }
		A, B := sel(op.I), sel(op.J)
		kept := [][]data.LayerPart{A, B, append([]data.LayerPart(nil), A...), append([]data.LayerPart(nil), B...)}
		defer func() {
			for k, l := range kept[:2] {
				for n, q := range l {
					if !reflect.DeepEqual(q, kept[2+k][n]) {
						r.Notes = append(r.Notes, fmt.Sprintf("%s changed the list of parts it was given", op.K))
						return
					}
				}
			}
		}()
		f := func(i int) int {
			if i < len(op.A) {
				return int(op.A[i])
			}
			return 0
		}
		switch op.K {
		case "union":
			v, ok := c.Union(A, B)
			return okv(v, ok)
		case "difference":
			v, ok := c.Difference(A, B)
			return okv(v, ok)
		case "intersection":
			v, ok := c.Intersection(A, B)
			return okv(v, ok)
		case "inset":
			if len(A) == 0 {
				return "none"
			}
			return c.Inset(A[0], data.Micrometer(f(0)), f(1), data.Micrometer(f(2)))
		case "insetlayer":
			return c.InsetLayer(A, data.Micrometer(f(0)), f(1), data.Micrometer(f(2)))
		case "hull":
			if len(A) == 0 {
				return "none"
			}
			v, ok := c.Hull(A)
			return okv(v, ok)
		case "toplevel":
			v, ok := c.TopLevelPolygons(A)
			return okv(v, ok)
		case "crossing":
			x, ok := c.IsCrossingPerimeter(A, mpath(op.P))
			return okv(fmt.Sprint(x), ok)
		case "layerparts":
			var ps data.Paths
			for _, p := range A {
				ps = append(ps, p.Outline())
				ps = append(ps, p.Holes()...)
			}
			v, ok := c.GenerateLayerParts(simpleLayer{ps})
			if !ok || v == nil {
				return okv("", ok)
			}
			return okv(v.LayerParts(), ok)
		case "fill":
			if len(A) == 0 {
				return "none"
			}
			pat := clip.NewLinearPattern(400, data.Micrometer(f(0)), data.NewMicroPoint(-2000, -2000), data.NewMicroPoint(30000, 30000), f(1), f(2) > 0, f(3) > 0)
			v, err := pat.Fill(f(4), A[0])
			return okv(v, err == nil)
		case "smooth":
			if len(A) == 0 {
				return "none"
			}
			return data.DouglasPeucker(A[0].Outline(), data.Micrometer(f(0)))
		case "bounds":
			var ps data.Paths
			for _, p := range A {
				ps = append(ps, p.Outline())
			}
			a, b := ps.Bounds()
			return data.Path{a, b}
		case "cut":
			p := [3]data.MicroVec3{}
			for i := range p {
				p[i] = data.NewMicroVec3(data.Micrometer(f(3*i)), data.Micrometer(f(3*i+1)), data.Micrometer(f(3*i+2)))
			}
			z := data.Micrometer((f(2) + f(5)) / 2)
			if p[1].Z() == p[0].Z() || p[2].Z() == p[0].Z() {
				return "flat"
			}
			slicer.SliceFace(z, p[0], p[1], p[2])
			return fmt.Sprint(p[0].X(), p[0].Y(), p[0].Z(), p[1].X(), p[2].Z())
		}
		panic("geometry operation " + op.K)
	}
	for n := range st.Ops {
		op := &st.Ops[n]
		out := &r.Sess[n]
		func() {
			defer func() {
				if p := recover(); p != nil {
					out.Pan = fmt.Sprint(p)
				}
			}()
			if op.K == "part" {
				var holes data.Paths
				for _, q := range op.Q {
					holes = append(holes, mpath(q))
				}
				parts = append(parts, data.NewBasicLayerPart(mpath(op.P), holes))
				return
			}
			before := snap()
			fired := simrt.ClipFired
			v := exec(op)
			if snap() != before {
				r.Notes = append(r.Notes, fmt.Sprintf("operation %d: %s changed parts it was given or results returned earlier", n, op.K))
			}
			f1 := &fp{8}
			f1.any(valueOf(v))
			out.Val = f1.str()
			results = append(results, v)
			before = snap()
			failed := simrt.ClipFired != fired
			v2 := exec(op)
			f2 := &fp{8}
			f2.any(valueOf(v2))
			if snap() != before {
				r.Notes = append(r.Notes, fmt.Sprintf("operation %d: repeating %s changed parts or results returned earlier", n, op.K))
			}
			if f1.h != f2.h && !failed && simrt.ClipFired == fired {
				r.Notes = append(r.Notes, fmt.Sprintf("operation %d: %s repeated on the same parts gives another answer", n, op.K))
			}
		}()
		out.Clip = simrt.ClipFired
	}
}
