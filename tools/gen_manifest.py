#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of worlds and properties."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CLAIMS = {
 "C01": ("exploration", T + "seeded delivery schedules of sources (reads of any size, files, encodings) against a model tree",
         "Seeded sample of documents x renderings x read partitions; the tree is compared with the generating model during and after the load. Trusts expat and the generator's rendering."),
 "C02": ("fault_enumeration", T + "seeded read, open, corruption and interruption faults during loads against an independent parse of the delivered prefix",
         "Seeded sample of documents x failure kinds x positions x sequences of loads on one document. Trusts expat's own event stream as the reference for what is malformed."),
 "C03": ("fault_enumeration", T + "saves on a simulated disk failing at seeded byte offsets, plus real limits of the operating system",
         "Seeded sample of documents x disk fault kinds x offsets x default encodings; the file is re-read with an independent parser and compared with the model."),
 "C04": ("exploration", T + "seeded edit/save/crash/reopen histories against a model tree",
         "Seeded histories; saves may fail at any byte, restarts keep only the saved file; the reopened tree is compared with the model at the last successful save."),
 "C05": ("exploration", T + "seeded interleavings of editing and reading clients against a model tree",
         "Seeded histories with readers interleaved after edits; resolved values, navigation and id lookup are recomputed from the model after every step."),
 "C06": ("exploration", T + "seeded edit histories of paths with rejected edits against an executable list model",
         "Seeded histories over paths and subpaths; every operation is followed by a comparison with the model and the linking invariants."),
 "C07": ("fault_enumeration", T + "seeded edit/measure histories with rejected edits, failing accelerators and interrupted measurements",
         "Seeded histories; every measurement is compared with that of a freshly built path holding copies of the same segments."),
 "C08": ("exploration", T + "seeded partitions of path data over the ways to give it, with rejected pieces, against a reference interpreter",
         "Seeded path data x partitions x entry points x malformed pieces; compared with one-shot parsing and a separately written interpreter."),
 "C09": ("exploration", T + "baton scheduler deciding every preemption of reader threads and every step of lazy iterators",
         "Seeded interleavings at line and instruction granularity of the library's code; answers are compared with those given alone."),
 "C10": ("exploration", T + "seeded interleavings of independent client programs under the baton scheduler, against runs in fresh processes",
         "Seeded programs of 2 to 4 clients, sequential and preempted at any line; transcripts are compared with solo transcripts of fresh processes."),
 "C11": ("fault_enumeration", T + "interruptions injected at every or seeded lines executed by a query",
         "For seeded objects and queries of a fixed catalogue, interruption at all (or a seeded sample of) lines executed in the library, then repetition and comparison."),
 "C12": ("fault_enumeration", T + "seeded availability schedules and failures of the accelerators numpy and scipy",
         "Seeded segments and paths x availability schedules x failing calls; results compared across configurations and with closed-form references."),
 "C13": ("exploration", T + "seeded histories of edits and restarts in which a path survives only as text, kept through failing saves or torn",
         "Seeded histories x forms x media x tears; every path read back is compared with the one written. Arc radii are compared with the 6 digits they are written with."),
 "C14": ("exploration", T + "seeded histories of matrix operations by clients sharing matrices, with rejected operands and restarts, against separately composed affine maps",
         "Seeded histories; after every step all matrices are compared with the model. Tolerances follow the size of the numbers involved."),
 "C15": ("exploration", T + "seeded histories of colour edits by clients sharing colours, with refused values and restarts, against four channels kept separately",
         "Seeded histories; after every step every view of every colour is compared with the model. A channel computed from a fraction may be rounded either way."),
 "C16": ("exploration", T + "seeded histories of length arithmetic by clients sharing lengths, with missing context, refused operands and restarts, against measures kept separately",
         "Seeded histories; after every step all lengths are compared with the model. Unit factors may be off by one in ten thousand."),
 "C17": ("exploration", T + "seeded edit histories of paths with rejected edits and accelerator failures, boxes compared with the extreme points of the geometry at that time",
         "Seeded histories; boxes are compared with separately computed extreme points and samples of the curves. Displaced arcs are left out."),
 "C18": ("exploration", T + "seeded histories of transforms, reversals, restarts from descriptions and accelerator failures of an arc, against an ellipse followed separately",
         "Seeded parameterisations x histories x availability of numpy and scipy; points, box, length and curves are compared with the model's ellipse."),
 "C19": ("exploration", T + "seeded histories of view boxes and viewports with malformed boxes and restarts, against the placement rules of SVG",
         "Seeded histories; the transform asked for is compared with the rules at the edges and middles of box and viewport."),
 "C21": ("exploration", T + "seeded histories of point arithmetic by clients sharing points, with refused operands, restarts and a vanishing numpy, against complex numbers kept separately",
         "Seeded histories; after every step all points are compared with the model; angles, hulls and closest points are compared with their definitions."),
}
PURE = ("pure function of its argument: no concurrency, time, I/O, retained state or failing call for a simulator to control, "
        "so only input generation would decide it, which is another family of technique")
NA = {i: PURE for i in ("C20",)}


def main():
    checks, na = [], []
    for pid in sorted(CLAIMS):
        level, tech, note = CLAIMS[pid]
        if os.path.exists(os.path.join(HERE, "sim", "worlds", pid.lower() + ".py")):
            checks.append({"property": pid, "quick_cmd": "bash check.sh %s quick" % pid, "thorough_cmd": "bash check.sh %s thorough" % pid,
                           "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": level, "level_note": note})
        else:
            na.append({"property": pid, "reason": "its check is not built yet"})
    na += [{"property": k, "reason": v} for k, v in sorted(NA.items())]
    json.dump({"version": 1, "setup_cmd": "bash check.sh selftest", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: all seams (streams, open, locks, thread switches, imports) are reached from outside. See DESIGN.md."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
