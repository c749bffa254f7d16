#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p("C01","A run reported successful has its complete program at the destination",
 "Whenever a slicing run reports success, the file at the destination (the configured output path, or the input path plus \".gcode\" when none is configured) holds exactly the complete generated program: nothing missing, nothing left over from an older or longer file. If storage refuses or loses any part of it (cannot create, write error, short write, full disk, an error that only appears on close), the run reports failure.",
 ["fault_sequences","inputs","configurations","histories"],
 "every printable model and valid configuration, every prior content of the destination, and every sequence of open/write/close faults the storage can produce at any point of writing",
 "No test writes to a failing or pre-populated destination; the only end-to-end test writes to a healthy disk and never reads the file back.",
 ["writer/writer.go","goslice.go"],[("writer creates/truncates, writes whole string, reports the error","writer/writer.go Write"),("destination choice and error return","goslice.go Process")],
 ["Process() result","bytes of the destination file"])
p("C02","A model is used only if it was read completely and correctly",
 "If the input file cannot be opened, read to its end or parsed as STL (missing, truncated, damaged, read error at any point), the run fails with an error and writes no output. Otherwise the triangles used are exactly those stored in the file, in the file's order and rounded to micrometers, no matter how storage splits or interrupts the reads.",
 ["fault_sequences","inputs","crash_points"],
 "every ASCII or binary STL file, truncated or damaged at any structural point, and every sequence of open/stat/read faults, short reads and interruptions",
 "Tests load no model under faults (the reader package has no tests); they cannot sample truncation offsets and read splits.",
 ["reader/reader.go","goslice.go"],[("file access and STL parsing","reader/reader.go Read"),("float mm to micrometer conversion","reader/reader.go stlTriangleToFace")],
 ["model handed to the optimizer","Process() result","output file"])
p("C03","A failing pipeline stage ends the run with its error and no output",
 "A run executes read, optimize, slice, every modifier (initialised, then applied, in configured order), generate (initialised, then executed) and write exactly once each, each on the result of its predecessors. If any stage fails, the run returns that stage's error, no later stage is executed, and nothing is created or changed at the destination.",
 ["fault_sequences","programs","histories"],
 "every stage and modifier position at which a failure can occur, any number and kind of plugged-in stages, every model",
 "The only pipeline test runs the happy path; stage failures and custom stages are never exercised.",
 ["goslice.go","handler/handler.go"],[("sequential stages with early error return","goslice.go Process")],
 ["sequence of stage calls and the values passed","Process() result","destination file"])
p("C04","A failing renderer or infill pattern aborts code generation",
 "The generator executes every registered renderer exactly once per layer, layers ascending and renderers in registration order, after initialising each once per run. If any renderer or infill pattern reports an error at any layer, nothing further is rendered, that error is what the caller gets together with no program, and no output is written.",
 ["fault_sequences","programs","histories"],
 "every layer and renderer position at which a renderer or pattern can fail, any set of registered renderers, any filled layer attribute, every model",
 "Generator tests use one fake renderer that never fails after layer 0; errors in the middle of a print and pattern errors are not sampled.",
 ["gcode/generator.go","gcode/renderer/infill.go","gcode/renderer/perimeter.go","goslice.go"],[("render loop with error return","gcode/generator.go Generate"),("pattern errors returned","gcode/renderer/infill.go Render")],
 ["Generate() result","renderer call sequence","destination file"])
p("C05","A failing polygon operation is never swallowed",
 "Boolean polygon operations (union, difference, intersection, crossing test, grouping into parts, infill clipping) may report failure. Whenever one fails anywhere in a run, the run either ends with an error before any output is written or still produces exactly the program it would have produced without the failure; it never panics and never reports success with a different or incomplete program.",
 ["fault_sequences","inputs","configurations"],
 "every single or repeated failure of any polygon operation at any point of any run, with every feature (brim, skirt, support, infill, retraction) enabled or not",
 "Polygon operations virtually never fail on test inputs, so no test can reach the failure branches; which call fails at which layer is a fault sequence.",
 ["clip/clip.go","clip/linear.go","modifier/brim.go","modifier/support.go","modifier/infill.go","modifier/internal_infill.go","slicer/slicer.go","gcode/builder.go"],
 [("ok results of the clipper turned into errors","modifier/*.go, slicer/slicer.go, gcode/builder.go, clip/linear.go")],
 ["Process() result","program text","panics"],hook="build-time copy of the polygon library with a failure switch (no change in /repo)")
p("C06","Layer data of an unexpected type is rejected, never silently dropped",
 "Layers carry named attributes that plug-in modifiers may set. If an attribute that a built-in step reads has an unexpected type, that step reports an error and the run fails without writing output; if nothing needs the attribute, the program is exactly the one produced without the tampering. It never panics and never silently loses part of the print.",
 ["programs","fault_sequences","configurations"],
 "every attribute name the built-in steps use, every wrong type including nil, any layer, injected at any point of the modifier sequence, every model and configuration",
 "No test sets wrongly typed attributes on layers in a pipeline; position, layer, attribute and type form a product no example list samples.",
 ["modifier/modifier.go","modifier/perimeter.go","modifier/infill.go","modifier/internal_infill.go","modifier/brim.go","modifier/support.go","gcode/renderer/*.go"],
 [("checked type assertions in the attribute accessors","modifier/*.go")],["Process() result","program text","panics"])
p("C07","Runs executing concurrently in one process do not influence each other",
 "Several slicing runs with their own instances may execute concurrently in one process, even when they share the same options value and logger. Under every interleaving each run yields exactly the result (program bytes or error) it yields when it is alone, and there is no unsynchronised shared access between them.",
 ["schedules","histories","configurations"],
 "every interleaving of two or more runs at statement granularity, with equal or different models and configurations, some of them failing",
 "Tests run one slicing at a time; interference through hidden shared state needs specific interleavings.",
 ["goslice.go","gcode/*.go","gcode/renderer/*.go","modifier/*.go","clip/*.go","slicer/*.go","optimizer/*.go","reader/reader.go","writer/writer.go","data/*.go"],
 [("no package-level mutable state; per-instance stages","whole module")],["per-run program bytes and errors","race reports"])
p("C08","An instance can be used again after any earlier run, failed or not",
 "Using the same slicer instance for a sequence of runs (same or different input files and destinations) gives in every run exactly what a fresh instance would give. This also holds after runs that failed at any stage and for the individual stages (reader, optimizer, slicer, modifiers, generator, writer) used on their own.",
 ["histories","fault_sequences"],
 "every sequence of runs on one instance, with different models, with any of them failing anywhere",
 "Tests create a fresh instance each time; state leaking from one run to the next only shows over histories.",
 ["goslice.go","gcode/generator.go","gcode/renderer/infill.go","gcode/builder.go"],[("builder re-created per Generate","gcode/generator.go init"),("patterns set up again by Init","gcode/renderer/infill.go Init")],
 ["program bytes of each run compared with a fresh instance"])
p("C09","The program depends only on model and options",
 "Slicing the same model with the same options yields byte-identical programs no matter when, where and how the process runs: wall clock and clock jumps, iteration order of hash maps, environment variables and working directory, file names, storage timing, and whether log output can be written, is slow or fails.",
 ["schedules","fault_sequences","configurations"],
 "every clock behaviour, hash seed, environment, file naming and log-sink behaviour for every model and configuration",
 "A test process sees one hash seed, one clock and a working log sink; non-determinism shows up in a fraction of executions only.",
 ["goslice.go","slicer/layer.go","optimizer/optimizer.go","data/option.go","gcode/generator.go"],[("slices instead of map iteration on the output path","slicer, optimizer, modifiers"),("logging separated from the result","goslice.go")],
 ["program bytes across environments"])
p("C10","Processing steps do not alter what they are given",
 "Reading results of one step again gives the same answer: code generation leaves the layers as they were (generating twice yields the same program), asking a model for its faces, extent or size and optimizing, slicing, modifying and generating leave the model as it was, polygon and pattern operations and the code builder leave the paths and parts passed to them unchanged, and no step changes the caller's options.",
 ["histories","inputs","configurations"],
 "every order and repetition of stage and geometry calls on shared values, every model and configuration",
 "Tests compare only return values of single calls; aliasing bugs need a second use of the same value after a specific earlier operation.",
 ["data/2d.go","data/layer.go","clip/clip.go","clip/linear.go","gcode/builder.go","gcode/generator.go","optimizer/optimizer.go"],
 [("copies before rotating","clip/linear.go Fill"),("new paths built by operations","clip/clip.go, data/*.go")],["deep snapshots of inputs before and after each operation","program of repeated generation"])
p("C11","A crashed run never damages the input and a rerun recovers completely",
 "If the process dies or power is lost at any instant of a run, the input file is unchanged and the damage is confined to the destination file. Running the same job again afterwards, whatever state the crash left behind, yields the same result as if the crash had never happened.",
 ["crash_points","histories","fault_sequences"],
 "every crash instant (before, between and inside file operations, any computation step), with unsynced data lost partly or completely, and repeated crashes",
 "Tests never kill a run; crash instants and lost unsynced writes are not samplable by unit tests.",
 ["writer/writer.go","reader/reader.go","goslice.go"],[("destination is always created or truncated from scratch","writer/writer.go Write")],["durable file tree after crash","rerun result"])
p("C12","The command line tool's exit status and messages tell the truth",
 "The command exits with status 0 only if the complete program is at the destination (or only the version or the help text was requested); a missing model argument gives status 1 with a usage message, and any failed run gives a status of 2 with the failure's message printed. A failed run never leaves the impression of success, whatever failed and even if console output cannot be written.",
 ["fault_sequences","configurations","inputs"],
 "every command line, every storage or console fault at any point, every model",
 "There are no tests of the command; exit codes under faults cannot be sampled by package tests.",
 ["cmd/goslice/main.go","data/option.go","goslice.go"],[("error to exit code mapping","cmd/goslice/main.go main")],["exit status","console output","destination file"])
p("C13","A run touches nothing but its input and destination and leaks no handle",
 "A run opens the input for reading only, creates, modifies or removes no file other than its destination, and when it has ended, successfully or not, every file it opened has been closed again.",
 ["fault_sequences","histories","inputs"],
 "every run, successful or failing at any file operation, every model and configuration",
 "Leaks and stray files on error paths are invisible to tests that only look at return values on healthy storage.",
 ["reader/reader.go","writer/writer.go","goslice.go"],[("deferred close","writer/writer.go Write"),("file closed by the STL reader","reader/reader.go Read")],["file-system operation history","open handle table"])
p("C14","Every run ends with an outcome",
 "For every input file and every printable model size, including empty, degenerate, thinner than one layer, open, self-touching, gapped or stacked bodies, and under any storage fault, a run ends within a bounded number of steps by either success or an error. It never panics, hangs or reports success without any layer. A sound model of printable size on healthy storage is always sliced successfully.",
 ["inputs","fault_sequences","configurations"],
 "every byte content of the input file whose coordinates lie within one meter, every valid configuration, any sequence of storage faults",
 "Tests slice one healthy model; unusual bodies combined with features and faults are an unbounded space.",
 ["goslice.go","reader/reader.go","optimizer/optimizer.go","slicer/slicer.go","slicer/layer.go","modifier/*.go","clip/*.go"],
 [("error returns of the stages","all stages")],["Process() result within a step bound"])
p("C15","The code builder turns every sequence of calls into exactly those motions",
 "For every sequence of builder calls (speeds, override, extrusion, retraction settings, moves, open and closed polygons, commands, comments) the emitted commands, executed by a printer, produce exactly the requested motion: position, cumulative extrusion, feed rate and text match the requests; omitted coordinates equal the current ones. A polygon whose perimeter check fails is reported as an error, and moves across a perimeter are retracted while moves inside a part are not.",
 ["histories","fault_sequences","inputs"],
 "every history of builder calls, with polygon-operation failures at any call",
 "Builder tests replay a handful of fixed call lists; modal state (position, feed, extrusion, override) makes correctness depend on the whole history.",
 ["gcode/builder.go","data/2d.go","clip/clip.go"],[("modal state: position, speed, extrusion","gcode/builder.go Builder"),("retraction on crossing","gcode/builder.go AddPolygon")],
 ["emitted text interpreted by a reference printer"],state=[("currentPosition/currentSpeed/extrusionAmount","modal printer state mirrored by the builder","gcode/builder.go")])
p("C16","Heaters, fan and custom code follow the configured protocol in every program",
 "Executed on a printer, every program reported successful heats and waits before the first extrusion (forced codes are added exactly when enabled, for the bed only with a heated bed, and only when the custom start code itself has no such instruction), switches to the normal temperatures at the configured layer, sets the fan exactly at the configured layers, and turns heaters off at the end under the same rules. Custom start and end lines appear once, in order and unaltered except for the temperature placeholders; without a heated bed no bed command appears except in custom lines.",
 ["histories","configurations","inputs","fault_sequences"],
 "every program any run, repeated run or concurrent run reports as successful, every temperature, fan, bed and custom-code configuration, every number of layers",
 "Tests look at single renderers with defaults; the protocol spans renderers, layers and configuration and must hold over the whole command history.",
 ["gcode/renderer/layer.go","data/option.go","gcode/builder.go"],[("start/end code and temperature switching","gcode/renderer/layer.go PreLayer, PostLayer"),("code detection","data/option.go DoesInstructionContainCodes")],["simulated printer heater, fan and command history"])
p("C17","Layers are printed completely, in order and at their height",
 "In every program reported successful, the layers 0..N-1 of the sliced model are each announced exactly once in ascending order; every extrusion of layer n happens at height initial thickness + n * thickness, and the nozzle never moves below the layer being printed. N covers the whole model height. Everything the layers contain when they are handed to code generation (walls, brim, infill, support) and the configured number of skirt lines around the first layer are printed in their layer.",
 ["histories","configurations","inputs","fault_sequences"],
 "every program any run, repeated or concurrent run reports as successful, every model, thickness and z-hop configuration",
 "Tests check tiny fixed generator runs; ordering and height must hold along the whole motion history including hops, retractions and features that print at special layers.",
 ["gcode/generator.go","gcode/builder.go","gcode/renderer/*.go","slicer/slicer.go"],[("z computed per layer","gcode/generator.go Generate"),("layer comments","gcode/renderer/layer.go")],["simulated printer motion history"])
p("C18","Filament accounting is exact over the whole print",
 "In every program reported successful, each extruding move feeds filament in proportion to its length (layer thickness x line width / filament cross section x multiplier, the initial thickness for layer 0), positioning moves feed none, and every retraction has exactly the configured length, is followed by positioning moves only (lifted by the configured hop) and is undone by the same amount before the next extrusion. Nothing is retracted when retraction length or speed is zero and nothing stays retracted at the end.",
 ["histories","configurations","inputs","fault_sequences"],
 "every program any run, repeated or concurrent run reports as successful, every thickness, width, filament, multiplier and retraction configuration",
 "Cumulative extrusion depends on the entire history of moves; tests check a few moves of fixed values.",
 ["gcode/builder.go","gcode/renderer/layer.go"],[("extrusion per mm and running total","gcode/builder.go"),("SetExtrusion per layer","gcode/renderer/layer.go")],["simulated printer extruder and motion history"])
p("C19","Every move runs at the speed configured for it",
 "In every program reported successful, extrusion on layer 0 runs at the initial layer speed; above it outer perimeters run at the outer perimeter speed and everything else at the layer speed; positioning moves run at the move speed and retractions at the retraction speed (whole mm/s settings).",
 ["histories","configurations","inputs","fault_sequences"],
 "every program any run, repeated or concurrent run reports as successful, every speed configuration and mix of features per layer",
 "Speed is modal state leaking between renderers, layers and runs; tests use one renderer or one setting at a time.",
 ["gcode/builder.go","gcode/renderer/layer.go","gcode/renderer/perimeter.go"],[("override on layer 0","gcode/renderer/layer.go"),("speed switch for outer perimeters","gcode/renderer/perimeter.go")],["simulated printer feed-rate history"])
# not claimed: pure functions of the input
p("N01","Sliced outlines equal the cross-section of the model","For every closed mesh each layer's parts equal the geometric cross-section of the mesh at the layer's height within the meld and snap tolerances.",["inputs","configurations"],"every closed mesh","Tests slice one model.",["slicer/slicer.go","slicer/layer.go","slicer/segment.go"],[("face slicing and polygon joining","slicer")],["layer parts"])
p("N02","Perimeters stay inside the part and are nested","Every perimeter lies inside its part at the configured distance and inner perimeters lie inside outer ones.",["inputs","configurations"],"every part outline and inset count","Tests cover no insets.",["modifier/perimeter.go","clip/clip.go"],[("polygon offsetting","clip/clip.go Inset")],["perimeters attribute"])
p("N03","Infill covers exactly the area it has to","Top, bottom and internal infill areas partition the inner area of each layer and the pattern lines stay inside them at the configured spacing.",["inputs","configurations"],"every layer stack","Tests cover no infill geometry.",["modifier/infill.go","modifier/internal_infill.go","clip/linear.go"],[("boolean operations on neighbouring layers","modifier")],["infill attributes and lines"])
p("N04","Support is placed under every overhang beyond the threshold","Every overhang steeper than the threshold has support below it with the configured gaps, and support never overlaps the model or brim.",["inputs","configurations"],"every overhanging model","Tests cover no support geometry.",["modifier/support.go"],[("layer differences","modifier/support.go")],["support attributes"])
p("N05","Brim and skirt surround everything on the first layer","Brim lines are adjacent to the outermost outlines; skirt lines enclose model, brim and support at the configured distance.",["inputs","configurations"],"every first layer","Tests cover no brim or skirt geometry.",["modifier/brim.go","gcode/renderer/skirt.go"],[("hull and offsetting","clip/clip.go")],["first layer paths"])
p("N06","Options are parsed into exactly the values given","Every option text accepted on the command line yields the value it denotes and everything else is rejected.",["inputs"],"every option text","Tests sample a few texts.",["data/option.go"],[("Set methods","data/option.go")],["parsed options"])
p("N07","Model preparation welds points and centers the model","Points within the meld distance become one, duplicate faces are removed and the model is centered at the configured position without distortion.",["inputs","configurations"],"every mesh","Tests cover no meshes.",["optimizer/optimizer.go"],[("point hashing","optimizer/optimizer.go")],["optimized model"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
