package main

import (
	"io"
	"log"
	"sort"
	"strconv"
	"strings"

	"github.com/aligator/goslice/data"
)

// Opt is a set of options, keyed by the name of the command line flag.
type Opt map[string]string

func um(s string) data.Micrometer { v, _ := strconv.Atoi(s); return data.Micrometer(v) }
func mmf(s string) data.Millimeter {
	v, _ := strconv.ParseFloat(s, 32)
	return data.Millimeter(v)
}
func num(s string) int { v, _ := strconv.Atoi(s); return v }

// Data builds the options value used through the library interface.
func (o Opt) Data(in, out string, w io.Writer) data.Options {
	d := data.DefaultOptions()
	d.GoSlice.InputFilePath = in
	d.GoSlice.OutputFilePath = out
	d.GoSlice.Logger = log.New(w, "", 0)
	for k, v := range o {
		switch k {
		case "meld-distance":
			d.Slicing.MeldDistance = um(v)
		case "join-polygon-snap-distance":
			d.Slicing.JoinPolygonSnapDistance = um(v)
		case "finish-polygon-snap-distance":
			d.Slicing.FinishPolygonSnapDistance = um(v)
		case "initial-layer-speed":
			d.Print.IntialLayerSpeed = mmf(v)
		case "layer-speed":
			d.Print.LayerSpeed = mmf(v)
		case "outer-perimeter-speed":
			d.Print.OuterPerimeterSpeed = mmf(v)
		case "move-speed":
			d.Print.MoveSpeed = mmf(v)
		case "initial-layer-thickness":
			d.Print.InitialLayerThickness = um(v)
		case "layer-thickness":
			d.Print.LayerThickness = um(v)
		case "inset-count":
			d.Print.InsetCount = num(v)
		case "infill-overlap-percent":
			d.Print.InfillOverlapPercent = num(v)
		case "additional-internal-infill-overlap-percent":
			d.Print.AdditionalInternalInfillOverlapPercent = num(v)
		case "infill-percent":
			d.Print.InfillPercent = num(v)
		case "infill-rotation-degree":
			d.Print.InfillRotationDegree = num(v)
		case "infill-zig-zag":
			d.Print.InfillZigZag = v == "true"
		case "number-bottom-layers":
			d.Print.NumberBottomLayers = num(v)
		case "number-top-layers":
			d.Print.NumberTopLayers = num(v)
		case "support-enabled":
			d.Print.Support.Enabled = v == "true"
		case "support-threshold-angle":
			d.Print.Support.ThresholdAngle = num(v)
		case "support-top-gap-layers":
			d.Print.Support.TopGapLayers = num(v)
		case "support-interface-layers":
			d.Print.Support.InterfaceLayers = num(v)
		case "support-pattern-spacing":
			d.Print.Support.PatternSpacing = mmf(v)
		case "support-gap":
			d.Print.Support.Gap = mmf(v)
		case "skirt-count":
			d.Print.BrimSkirt.SkirtCount = num(v)
		case "skirt-distance":
			d.Print.BrimSkirt.SkirtDistance = mmf(v)
		case "brim-count":
			d.Print.BrimSkirt.BrimCount = num(v)
		case "filament-diameter":
			d.Filament.FilamentDiameter = um(v)
		case "initial-bed-temperature":
			d.Filament.InitialBedTemperature = num(v)
		case "initial-hot-end-temperature":
			d.Filament.InitialHotEndTemperature = num(v)
		case "bed-temperature":
			d.Filament.BedTemperature = num(v)
		case "hot-end-temperature":
			d.Filament.HotEndTemperature = num(v)
		case "initial-temperature-layer-count":
			d.Filament.InitialTemperatureLayerCount = num(v)
		case "retraction-speed":
			d.Filament.RetractionSpeed = mmf(v)
		case "retraction-length":
			d.Filament.RetractionLength = mmf(v)
		case "retraction-z-hop":
			d.Filament.RetractionZHop = mmf(v)
		case "fan-speed":
			d.Filament.FanSpeed = data.FanSpeedOptions{LayerToSpeedLUT: fanLUT(v)}
		case "extrusion-multiplier":
			d.Filament.ExtrusionMultiplier = num(v)
		case "extrusion-width":
			d.Printer.ExtrusionWidth = um(v)
		case "center":
			p := strings.Split(v, "_")
			d.Printer.Center = data.NewMicroVec3(um(p[0]), um(p[1]), um(p[2]))
		case "force-safe-gcode":
			d.Printer.ForceSafeStartStopGCode = v == "true"
		case "has-heated-bed":
			d.Printer.HasHeatedBed = v == "true"
		case "start-gcode":
			d.Printer.StartGCode = data.NewGCodeHunk(hunk(v))
		case "end-gcode":
			d.Printer.EndGCode = data.NewGCodeHunk(hunk(v))
		default:
			panic("unknown option " + k)
		}
	}
	return d
}

func fanLUT(v string) map[int]int {
	m := map[int]int{}
	for _, kv := range strings.Split(v, ",") {
		p := strings.Split(kv, "=")
		if len(p) == 2 {
			m[num(p[0])] = num(p[1])
		}
	}
	return m
}

func hunk(v string) []string {
	var r []string
	for _, l := range strings.Split(v, "\n") {
		if strings.TrimSpace(l) != "" {
			r = append(r, raw(l))
		}
	}
	return r
}

// raw replaces the private use characters E080 to E0FF by single bytes: plans are kept as JSON, which has no
// other way to write text that is not UTF-8.
func raw(s string) string {
	if strings.IndexByte(s, 0xee) < 0 {
		return s
	}
	var b strings.Builder
	for _, c := range s {
		if c >= 0xe080 && c <= 0xe0ff {
			b.WriteByte(byte(c - 0xe000))
		} else {
			b.WriteRune(c)
		}
	}
	return b.String()
}

// Args are the command line flags.
func (o Opt) Args() []string {
	var ks []string
	for k := range o {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []string
	for _, k := range ks {
		r = append(r, "--"+k+"="+o[k])
	}
	return r
}

func (o Opt) um(k string, def int) int {
	if v, ok := o[k]; ok {
		return num(v)
	}
	return def
}

// genOpt draws a configuration (swarm style: every run enables another subset).
func genOpt(r *Rng) Opt {
	o := Opt{}
	set := func(n, d int, k string, v string) {
		if r.P(n, d) {
			o[k] = v
		}
	}
	lt := strconv.Itoa(r.I(200, 250, 300, 400))
	o["layer-thickness"] = lt
	if r.P(1, 3) {
		lt = strconv.Itoa(r.I(100, 150, 200, 300, 400, 350))
	}
	o["initial-layer-thickness"] = lt
	set(1, 3, "extrusion-width", strconv.Itoa(r.I(350, 400, 450, 600, 800)))
	set(1, 2, "infill-percent", strconv.Itoa(r.I(0, 10, 15, 30, 50, 100, r.R(5, 99))))
	set(1, 3, "inset-count", strconv.Itoa(r.I(1, 2, 3, r.R(1, 6), r.R(1, 14))))
	set(1, 4, "infill-overlap-percent", strconv.Itoa(r.I(0, 20, 50, 80, 100)))
	set(1, 4, "additional-internal-infill-overlap-percent", strconv.Itoa(r.I(0, 100, 400)))
	set(1, 3, "infill-rotation-degree", strconv.Itoa(r.I(0, 30, 45, 60, 90, 135, r.N(180))))
	set(1, 2, "infill-zig-zag", "true")
	set(1, 2, "number-bottom-layers", strconv.Itoa(r.I(0, 1, 2, 3, 4, r.R(0, 12))))
	set(1, 2, "number-top-layers", strconv.Itoa(r.I(0, 1, 2, 3, 4, r.R(0, 12))))
	if r.P(1, 2) {
		o["support-enabled"] = "true"
		set(1, 2, "support-threshold-angle", strconv.Itoa(r.I(30, 45, 60, 70)))
		set(1, 2, "support-top-gap-layers", strconv.Itoa(r.I(0, 1, 2, 3, r.R(0, 9))))
		set(1, 2, "support-interface-layers", strconv.Itoa(r.I(0, 1, 2, 3, r.R(0, 9))))
		set(1, 3, "support-pattern-spacing", r.S("1.5", "2.0", "3.25"))
		set(1, 3, "support-gap", r.S("0.3", "0.6", "1.0"))
	}
	set(1, 2, "skirt-count", strconv.Itoa(r.I(0, 1, 2, 3, r.R(0, 7))))
	set(1, 4, "skirt-distance", r.S("2", "3.5", "5"))
	set(2, 5, "brim-count", strconv.Itoa(r.I(1, 2, 3, r.R(1, 7))))
	set(1, 3, "initial-layer-speed", strconv.Itoa(r.R(10, 39)))
	set(1, 3, "layer-speed", strconv.Itoa(r.R(40, 90)))
	set(1, 3, "outer-perimeter-speed", strconv.Itoa(r.R(15, 70)))
	set(1, 3, "move-speed", strconv.Itoa(r.R(100, 200)))
	set(1, 4, "filament-diameter", strconv.Itoa(r.I(1750, 2850, 3000, 1735, r.R(100, 600)*2+1)))
	set(1, 4, "extrusion-multiplier", strconv.Itoa(r.R(80, 120)))
	set(1, 3, "retraction-speed", strconv.Itoa(r.I(0, 20, 35, 45)))
	set(1, 3, "retraction-length", r.S("0", "0.5", "1.25", "4", "0.8", "2.75", "6.5"))
	set(1, 3, "retraction-z-hop", r.S("0", "0.2", "0.5", "1", "0.35", "2.25"))
	set(1, 3, "initial-bed-temperature", strconv.Itoa(r.R(50, 90)))
	set(1, 3, "initial-hot-end-temperature", strconv.Itoa(r.R(190, 260)))
	set(1, 3, "bed-temperature", strconv.Itoa(r.I(0, r.R(1, 80), r.R(40, 120))))
	set(1, 3, "hot-end-temperature", strconv.Itoa(r.R(180, 250)))
	set(1, 2, "initial-temperature-layer-count", strconv.Itoa(r.I(0, 1, 2, 3, 4, 5, r.R(4, 40), 100)))
	set(1, 3, "fan-speed", genFan(r))
	set(1, 4, "center", r.S("0_0_0", "50000_60000_0", "110000_90000_0", "25000_25000_0"))
	set(1, 3, "force-safe-gcode", "false")
	set(1, 3, "has-heated-bed", "false")
	set(1, 3, "start-gcode", genHunk(r, true))
	set(1, 3, "end-gcode", genHunk(r, false))
	return o
}

// tweak is a configuration that differs in one value.
func tweak(r *Rng, o Opt) Opt {
	all := [][]string{
		{"infill-rotation-degree", "0", "37", "60", "90"}, {"infill-percent", "15", "40", "100", "0"}, {"infill-zig-zag", "true", "false"},
		{"inset-count", "1", "3", "4"}, {"extrusion-width", "420", "500", "600"}, {"infill-overlap-percent", "0", "35", "80"},
		{"additional-internal-infill-overlap-percent", "0", "250"}, {"number-bottom-layers", "0", "1", "2"}, {"number-top-layers", "0", "1", "2"},
		{"brim-count", "1", "3"}, {"skirt-count", "0", "1", "4"}, {"skirt-distance", "3", "4.5"}, {"support-enabled", "true", "false"},
		{"support-threshold-angle", "35", "55"}, {"support-top-gap-layers", "0", "1", "2"}, {"support-interface-layers", "0", "1", "3"}, {"support-pattern-spacing", "1.75", "3"},
		{"support-gap", "0.4", "0.9"}, {"layer-speed", "43", "71"}, {"initial-layer-speed", "13", "23"}, {"outer-perimeter-speed", "21", "33"}, {"move-speed", "111", "177"},
		{"filament-diameter", "2850", "1735"}, {"extrusion-multiplier", "93", "108"}, {"retraction-speed", "22", "41"}, {"retraction-length", "0.75", "3"}, {"retraction-z-hop", "0.3", "0.7"},
		{"initial-bed-temperature", "51", "77"}, {"initial-hot-end-temperature", "191", "233"}, {"bed-temperature", "49", "63"}, {"hot-end-temperature", "187", "222"},
		{"initial-temperature-layer-count", "1", "2"}, {"fan-speed", "0=7", "1=99,2=3"}, {"center", "61000_71000_0"}, {"force-safe-gcode", "false", "true"}, {"has-heated-bed", "false", "true"},
		{"start-gcode", "M117 tweaked\n"}, {"end-gcode", "M117 the end\n"}, {"layer-thickness", "230", "310"}, {"initial-layer-thickness", "240", "330"},
		{"meld-distance", "40"}, {"join-polygon-snap-distance", "120"}, {"finish-polygon-snap-distance", "900"},
	}
	n := Opt{}
	for k, v := range o {
		n[k] = v
	}
	for {
		t := all[r.N(len(all))]
		if v := t[1+r.N(len(t)-1)]; o[t[0]] != v {
			n[t[0]] = v
			return n
		}
	}
}

// genFan switches the fan at some layers, often ones that exist.
func genFan(r *Rng) string {
	if r.P(1, 2) {
		return r.S("0=0", "1=128", "2=255,4=0", "0=10,1=20,2=30,3=0", "3=255,50=1")
	}
	var l []string
	at := 0
	for i := r.R(1, 5); i > 0; i-- {
		at += r.I(0, 1, 1, 2, r.R(1, 60))
		l = append(l, strconv.Itoa(at)+"="+strconv.Itoa(r.I(0, 255, 1, 254, r.N(256))))
		at++
	}
	return strings.Join(l, ",")
}

func genHunk(r *Rng, start bool) string {
	var l []string
	for i, n := 0, r.R(1, 5); i < n; i++ {
		l = append(l, r.S("G28 ; home", "M107 ; disable fan", "; plain comment", "G92 E0", ";M104 S0 old", "M84 ;steppers off", "M117 Printing 50% done", "M900 K0.05", "G4 P500", "M82", ";{print_temperature}/{print_bed_temperature}", "M117 100%d %s", "M117  two  blanks", "M117 tab\there", "M1040 S1", "M1090 S2", "M1401", "G10 P0 S200", "M300 S440 P200 ; beep; beep", "N10 G21*34", "g90", "", "M117 äöü", "M117 \ue0e4\ue0f6 \ue0b0C", "\ue0ff\ue0fe", "M117 blank at the end  ", "M105\t", "G4 P1\r", "  ; indented", "\tM400", "M118 "+strings.Repeat("long ", r.R(15, 70)), "; "+strings.Repeat("0123456789", r.R(8, 40)), ";{print_temperature} {print_bed_temperature} {print_temperature}"))
	}
	if r.P(1, 3) {
		if start {
			l = append(l, r.S("M109 S{print_temperature} ; heat", "M109 S{print_temperature} ; {print_temperature} {print_bed_temperature}"))
		} else {
			l = append(l, "M104 S0")
		}
	}
	if r.P(1, 3) {
		if start {
			l = append(l, r.S("M190 S{print_bed_temperature}", "M190 S{print_bed_temperature} ; {print_bed_temperature}"))
		} else {
			l = append(l, "M140 S0")
		}
	}
	if r.P(1, 4) {
		l[0] = "  " + l[0]
	}
	return strings.Join(l, "\n") + "\n"
}
