"""C06: every path edit keeps the segment list exact and connected."""
from .. import env, pathops
from ..core import check

ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 250000}
BATCH = 100
SHRINK = ("ops", "segs", "objs", "tsegs")
RULE = ("a run builds a path (text, list, tuple, appends) and performs 3-40 edits of 27 kinds with positive, negative, boundary and outside indices, linked and "
        "unlinked segments, path data and objects, rejected edits in between; the whole path is compared with the list model after every step; "
        "non-trivial: at least 3 edits were carried out and the path kept at least 2 segments at some time")
MEASURE = "distinct (operation, form, index class, kinds of the neighbouring segments, path length class) combinations carried out"
REAL = ["svgio.path Path, Subpath, segments", "svgio.basic Point and Matrix"]
STUB = []
ASSUMPTIONS = ["paths to be reversed start with a move and every close ends its subpath; a close is never first",
               "extending a path with another path object (not a sum) hands its segments over"]
EXPECT_FAULTS = ("rejected-edit", "segment-source-failed")


def gen(rng):
    return pathops.gen_history(rng, rng.choice([3, 8, 15, 40]))


def execute(plan, ctx):
    sim = pathops.PathSim(plan["init"], ctx)
    pathops.compare(sim.p, sim.m, "built")
    done = 0
    for i, o in enumerate(plan["ops"]):
        where = "step %d (%s %s)" % (i, o["op"], o.get("form") or o.get("how") or "")
        before = "".join(g["k"] for g in sim.m)
        if not sim.apply(o, where):
            continue
        pathops.compare(sim.p, sim.m, where)
        pathops.check_linked(sim.p, where)
        done += o["op"] not in ("bad", "read")
        at = int(o["i"][1] * len(before)) if "i" in o else 0
        ctx.sig(o["op"], o.get("form"), o.get("how"), o.get("i", [""])[0], before[max(0, at - 1):at + 2], min(len(before), 12))
        if done >= 3 and len(sim.m) >= 2:
            ctx.nontrivial = True
        ctx.log(where, len(sim.m))
    sim.check_others("at the end")
    pathops.compare(sim.p, sim.m, "at the end")
