#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
note = ("Seeded search over schedules, faults, histories and jobs: the real code of /repo (all packages, the command), its dependencies and the Go standard library "
        "run inside a simulated machine (disk, clock, hash seeds, scheduler, console, exit); every execution is a pure function of its plan and every violation is replayed and minimised from a plan file. "
        "Holds for what the seeds of the tier reached, not for all inputs. Trusted: the simulated disk and its crash model, the scheduler inserted before each statement, the reference oracle. ")
extra = {
 "C01": "Oracle: byte equality with the program of a separate fault-free process, for every run that reports success under injected destination faults.",
 "C02": "Oracle: an independent strict STL reader; faults, short reads and damage at seeded places.",
 "C03": "Oracle: recorded call and value trace of every stage; failures injected at every stage and occurrence.",
 "C04": "Oracle: recorded trace of renderer and pattern calls; failures injected at seeded calls.",
 "C05": "Oracle: equal to the undisturbed program or an error with untouched destination; single and multiple failures over all polygon operations of the run.",
 "C06": "Oracle: error or the undisturbed program; attributes of wrong types injected between stages at seeded layers.",
 "C07": "Oracle: each run equals itself alone; plus the race detector on a part of the schedules.",
 "C08": "Oracle: each run of a history equals the run of a fresh instance in a fresh process.",
 "C09": "Oracle: byte equality with a run in another environment, at another time, with other hash seeds, names, delays and log sinks.",
 "C10": "Oracle: deep fingerprints of inputs before and after each step, and equality of repeated steps.",
 "C11": "Oracle: input intact and only the destination damaged on the durable disk image of a crash; the rerun equals the undisturbed run.",
 "C12": "Oracle: exit status and console compared with the same job run through the library and with the destination.",
 "C13": "Oracle: the disk's log of opened, changed and closed files and a comparison of the whole tree.",
 "C14": "Oracle: success with at least one layer or an error within a bounded number of statements; no panic.",
 "C15": "Oracle: reference model of the builder calls, executed call by call.",
 "C16": "Oracle: reference printer with a protocol monitor.", "C17": "Oracle: reference printer with a layer monitor.",
 "C18": "Oracle: reference printer with filament accounting.", "C19": "Oracle: reference printer with a speed monitor.",
}
na = "A pure function from %s to %s: no schedule, clock, I/O, fault or history takes part in it, so simulation with fault injection has nothing to vary; it needs a geometric oracle over inputs (property-based testing), which is another family of technique."
nawhat = {"N01": ("one mesh", "its outlines"), "N02": ("one outline", "its insets"), "N03": ("the insets of neighbouring layers", "infill areas and lines"), "N04": ("the outlines of neighbouring layers", "support areas"),
          "N05": ("the first layer's outlines", "brim and skirt lines"), "N06": ("an option text", "a value"), "N07": ("one mesh", "its welded and centered copy")}
m = {"version": 1, "setup_cmd": "python3 tools/prep.py >/dev/null && python3 tools/prep.py --race >/dev/null", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seams are the code's interfaces, a build-time copy of /repo's sources with a scheduler call before each statement, and an overlay of a few standard library files. Replays: ./check.sh --replay FILE. Repairs of genuine defects are listed in known-findings.txt."}
for p in props:
    i = p["id"]
    if i[0] == "C":
        m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}", "evidence_file": f"evidence/{i}.json",
                            "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": note + extra[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": na % nawhat[i]})
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
