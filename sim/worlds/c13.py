"""C13: a path survives being kept as text."""
import re

from .. import accel, env, faults, pathops
from ..core import Violation, check, describe_exception, weighted

ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 20000, "thorough": 400000}
BATCH = 75
SHRINK = ("ops", "segs", "objs", "tsegs")
RULE = ("a run builds a path, edits and scales it, and again and again keeps it only as text (whole path, subpath, single segments, or what repr shows; absolute, relative or as it came; smooth or not; "
        "in a string, a document in memory, or a document saved to the simulated disk through failing saves) from which it is restored after the restart, whole or torn at any character; every "
        "restored path is compared with the one that was written; non-trivial: at least two restarts with an edit in between")
MEASURE = "distinct (what is written, form, medium, kinds of segments, size class of the numbers, torn or not) combinations"
REAL = ["svgio.path d, str, svg_d, PathLexicalParser, segments", "svgio.basic Point", "svgio.nodes path element, Document.write, load"]
STUB = ["raw file (planned write failures)"]
ASSUMPTIONS = ["a written path starts with a move, its numbers are finite and its curves have all points", "arcs still start and end on their ellipse, whose radii are perpendicular, and are less than a turn",
               "arc radii and rotation are written with 6 significant digits (the repository's own tests say so), points with 12"]
EXPECT_FAULTS = ("restart", "torn", "ENOSPC")

LETTERS = {"M": "M", "L": "L", "Z": "Z", "Q": "QT", "C": "CS", "A": "A"}
COMMAND = re.compile("[MLHVCSQTAZmlhvcsqtaz]")


def gen(rng):
    def extra(rng, g):
        x = rng.random()
        if x < 0.4:
            return {"op": "restart", "what": weighted(rng, [("path", 6), ("subpath", 1.5), ("segs", 1), ("str", 1), ("svg_d", 0.5), ("code", 1)]),
                    "relative": rng.choice([None, True, False]), "smooth": rng.choice([None, None, True, False]),
                    "medium": weighted(rng, [("text", 8), ("element", 1), ("file", 0.6)]), "torn": rng.random() if rng.random() < 0.2 else None,
                    "full": rng.random() if rng.random() < 0.5 else None, "f": rng.random()}
        if x < 0.52:
            return {"op": "scale", "by": rng.choice([1e-9, 1e-6, 1e-3, 1 / 3.0, 0.1, 7.123456789012, 1e3, 1e5, 1e6, 1e9, -1.0]), "turn": rng.random() < 0.3, "off": rng.choice([0, 0, 0.1, 1e6, -1e-7])}
        return None
    plan = pathops.gen_history(rng, rng.choice([2, 5, 10, 18]), extra=extra)
    if plan["init"]["segs"][0]["k"] != "M" and rng.random() < 0.9:
        plan["init"]["segs"].insert(0, {"k": "M", "s": None, "e": [1.0, 2.5]})
    plan["relative"] = rng.random() < 0.3
    plan["ops"].append(extra(rng, None) or {"op": "restart", "what": "path", "relative": rng.choice([None, True, False]), "smooth": None, "medium": "text", "torn": None, "full": None, "f": 0})
    return plan


def CODE():
    """What a description of a path is evaluated with."""
    P = env.path
    return {n: getattr(P, n) for n in ("Path", "Move", "Close", "Line", "QuadraticBezier", "CubicBezier", "Arc", "Point", "Angle")}


def finite(p):
    return p is not None and all(abs(v) < 1e15 for v in p)


def writable(segs, m, fragment=False):
    if not m or m[0]["k"] != "M" and not fragment:
        return False
    big = max([1e-300] + [abs(v) for g in m for p in [g["e"], g["s"]] if p for v in p])
    for s, g in zip(segs, m):
        if not finite(g["e"]) or not all(finite(c) for c in g["c"]) or (g["k"] not in "M" and not finite(g["s"])):
            return False
        if g["k"] == "A":
            if min(abs(s.center - s.prx), abs(s.center - s.pry)) < 1e-8:
                return False  # so small that its points are one point to the library
            if abs(s.center - s.prx) < 1e-3 * big or abs(s.center - s.pry) < 1e-3 * big:
                return False  # too small for the precision of its own coordinates
            r = accel.Ref(s)
            # not an ellipse through its own ends: an edit displaced or sheared it
            if not r.sound() or max(abs(r.point(1e-300) - r.s), abs(r.point(1 - 1e-16) - r.e)) > 1e-8 * (r.a + r.b) or not 1e-6 < abs(r.w) < 6.28 or min(r.a, r.b) < 1e-9 * max(r.a, r.b) or min(r.a, r.b) == 0:
                return False
            if abs(complex(*g["e"]) - complex(*g["s"])) < 1e-3 * min(r.a, r.b):
                return False
    return True


def close_points(a, b, tol):
    return a is not None and b is not None and abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol


def g6(v):
    return abs(float("%G" % v) - v) <= 1e-11 * abs(v)


def compare(new, old_segs, old, tol, where, kind, text):
    """Segments read back against those written."""
    m = pathops.read(new)
    why = lambda i: "%s: segment %d of %r read back is %s, it was %s" % (where, i, text[:300], pathops.show(m[i]), pathops.show(old[i]))
    check(len(m) == len(old), kind, "%s: %d segments were written as %r, %d read back", where, len(old), text[:300], len(m))
    for i, (r, g) in enumerate(zip(m, old)):
        compare_one(new[i], r, old_segs[i], g, tol, i, lambda: why(i), kind)


def compare_one(new, r, seg, g, tol, i, why, kind):
    ok = r["k"] == g["k"] and close_points(r["e"], g["e"], tol) and (i == 0 or close_points(r["s"], g["s"], tol))
    if ok and g["k"] != "A":
        ok = len(r["c"]) == len(g["c"]) and all(close_points(a, b, tol) for a, b in zip(r["c"], g["c"]))
    check(ok, kind, "%s", why())
    if g["k"] == "A":
        a, b = accel.Ref(seg), accel.Ref(new)
        big, aspect = max(a.a, a.b), max(a.a, a.b) / min(a.a, a.b)
        exact = g6(a.a) and g6(a.b) and g6(float(seg.get_rotation().as_degrees))
        lim = big * (1e-5 * aspect if exact else (6e-5 * aspect) ** 0.5 * 1.5) + (tol * big) ** 0.5 + 10 * tol
        for t in (0.25, 0.5, 0.75):
            d = abs(a.point(t) - b.point(t))
            check(d <= lim, kind, "%s (arc radii %g %g, sweep %g: point %g is %g off, read back radii %g %g, sweep %g)", why(), a.a, a.b, a.w, t, d, b.a, b.b, b.w)


def write(p, o, where):
    """-> (text, the segments it stands for)"""
    rel, smooth = o["relative"], o["smooth"]
    what = o["what"]
    P = env.path
    segs = list(p)
    if what == "subpath":
        sp = p.subpath(int(o["f"] * p.count_subpaths()))
        return sp.d(relative=rel, smooth=smooth), list(sp)
    if what == "str":
        return str(p), segs
    if what == "code":
        if o["f"] < 0.2 and p.count_subpaths():
            sp = p.subpath(int(o["f"] * 5 * p.count_subpaths()))
            return repr(sp), list(sp)
        return repr(p), segs
    if what == "svg_d":
        return P.Path.svg_d(segs, relative=rel, smooth=smooth), segs
    if what == "segs":
        # by hand, segment after segment
        at, out = P.Point(0, 0), []
        for s in segs:
            out.append(s.d(at, relative=bool(rel), smooth=False))
            at = s.end
        return " ".join(out), segs
    return p.d(relative=rel, smooth=smooth), segs


def check_letters(text, segs, o, where):
    letters = COMMAND.findall(text.replace("E", "").replace("e", ""))
    check(len(letters) == len(segs), "form", "%s: %d commands for %d segments: %r", where, len(letters), len(segs), text[:300])
    what, rel, smooth = o["what"], o["relative"], o["smooth"]
    if what == "str":
        rel = smooth = None
    for c, s in zip(letters, segs):
        k = pathops.kind_of(s)
        check(c.upper() in LETTERS[k], "form", "%s: a segment %s is written %r: %r", where, k, c, text[:300])
        want = bool(s.relative) if rel is None else rel
        if what == "segs":
            want = bool(rel)
        check(c.islower() == want, "form", "%s: command %r of %r, asked for relative=%r, the segment came %s", where, c, text[:300], rel, "relative" if s.relative else "absolute")
        if smooth is False or what == "segs":
            check(c.upper() not in "ST", "form", "%s: smooth command %r in %r, asked for smooth=%r", where, c, text[:300], smooth)
    return letters


class Media:
    def __init__(self, ctx, disk):
        self.ctx, self.disk = ctx, disk

    def keep(self, text, o, where):
        """The text as it comes back after the restart."""
        if o["medium"] == "text":
            return text
        N = env.nodes
        doc = N.Document()
        root = N.SVG()
        doc.append(root)
        root.parent = doc
        e = N.Path(text)
        root.append(e)
        if o["medium"] == "element":
            check(e.d == text, "text-changed", "%s: a path element of %r has path data %r", where, text[:200], e.d)
            return e
        name = self.disk.path("p.svg")
        if o["full"] is not None:
            self.disk.reset(faults=[{"op": "write", "kind": "ENOSPC", "at": int(o["full"] * len(text)), "sticky": True}])
            try:
                doc.write(name)
            except OSError:
                pass
        self.disk.reset()
        doc.write(name)
        got = N.Document(name)
        e = got[0][0]
        check(e.d == text, "text-changed", "%s: path data %r came back from the file as %r", where, text[:200], e.d)
        return e


def restart(sim, o, media, ctx, where):
    P = env.path
    whole = list(sim.p)
    if not writable(whole, pathops.read(whole), o["what"] == "code"):
        return False
    before = pathops.read(whole)
    text, segs = write(sim.p, o, where)
    check(isinstance(text, str), "form", "%s: path data is a %s", where, type(text).__name__)
    check(pathops.read(sim.p) == before, "path-changed", "%s: writing the path changed it", where)
    old = pathops.read(segs)
    if o["what"] == "code":
        ctx.fault("restart")
        ctx.sig("code", "".join(sorted({g["k"] for g in old})))
        big = max([1e-300] + [abs(v) for g in old for p in [g["e"]] + g["c"] + ([g["s"]] if g["s"] else []) for v in p])
        new = eval(text, CODE())
        check(type(new) is P.Path, "code", "%s: made again from %r, a path is a %s", where, text[:300], type(new).__name__)
        compare(new, segs, old, 1e-12 * big + 2e-12, where, "code", text)
        a, b = old[0]["s"], pathops.read(new)[0]["s"]
        check(a is b is None or close_points(a, b, 1e-12 * big + 2e-12), "code", "%s: made again from %r, the path starts from %s, it started from %s", where, text[:300], b, a)
        if all(g["k"] != "A" for g in old) and len(segs) == len(whole):
            check(new == sim.p and not new != sim.p, "code", "%s: a path made again from %r is not equal to it", where, text[:300])
        sim.p, sim.m = new, pathops.read(new)
        return True
    letters = check_letters(text, segs, o, where)
    big = max([1e-300] + [abs(v) for g in old for p in [g["e"]] + g["c"] + ([g["s"]] if g["s"] else []) for v in p])
    smooth = any(c in "SsTt" for c in letters)
    tol = 1e-9 * big + (1e-10 if smooth else 2e-12)  # points this near are one point to the library
    ctx.fault("restart")
    size = "small" if big < 1e-3 else "large" if big > 1e6 else "usual"
    ctx.sig(o["what"], o["relative"], o["smooth"], o["medium"], "".join(sorted({g["k"] for g in old})), size, o["torn"] is not None)
    if o["torn"] is not None:
        cut = text[:int(o["torn"] * len(text))]
        ctx.fault("torn")
        new = P.Path()
        try:
            new.parse(cut)
        except Exception:
            pass
        n = len(COMMAND.findall(cut.replace("E", "").replace("e", "")))
        m = pathops.read(new)
        check(n - 1 <= len(m) <= n or n == 0 == len(m), "torn-text", "%s: %r (torn) has %d commands, %d segments were read", where, cut[-200:], n, len(m))
        for i in range(n - 1):
            compare_one(new[i], m[i], segs[i], old[i], tol, i, lambda: "%s: torn text %r: segment %d is %s, it was %s" % (where, cut[-200:], i, pathops.show(m[i]), pathops.show(old[i])), "torn-text")
        if len(new) and all(finite(g["e"]) and all(finite(c) for c in g["c"]) for g in m):
            sim.p, sim.m = new, m
        return True
    kept = media.keep(text, o, where)
    if isinstance(kept, str):
        new = P.Path(kept)
    else:
        new = P.Path(kept.segments())
    compare(new, segs, old, tol, where, "text-round-trip", text)
    for c, g in zip(letters, new):
        check(bool(g.relative) == c.islower(), "form", "%s: command %r of %r was read as %s", where, c, text[:300], "relative" if g.relative else "absolute")
    cases = [c.islower() for c in COMMAND.findall(new.d().replace("E", "").replace("e", ""))]
    check(cases == [c.islower() for c in letters], "form", "%s: %r is written again as %r", where, text[:300], new.d()[:300])
    again = new.d(relative=False, smooth=False)
    check(P.Path(again).d(relative=False, smooth=False) == again or "A" in again, "not-stable", "%s: absolute path data read and written again differs: %r", where, again[:300])
    # a segment printed alone stands for itself
    i = int(o["f"] * len(segs))
    if old[i]["k"] not in "MZA":
        alone = P.Path(str(segs[i]))
        check(len(alone) == 2, "alone", "%s: segment %s prints as %r", where, pathops.show(old[i]), str(segs[i]))
        compare_one(alone[1], pathops.read(alone)[1], segs[i], old[i], tol, 1, lambda: "%s: segment %s prints as %r" % (where, pathops.show(old[i]), str(segs[i])), "alone")
    sim.p, sim.m = new, pathops.read(new)
    return True


def execute(plan, ctx):
    disk = faults.SimDisk(ctx)
    try:
        with disk:
            media = Media(ctx, disk)
            sim = pathops.PathSim(plan["init"], ctx)
            if plan["relative"]:
                for i, s in enumerate(sim.p):
                    s.relative = i % 3 != 1
            edits = restarts = since = 0
            for i, o in enumerate(plan["ops"]):
                where = "step %d (%s %s)" % (i, o["op"], o.get("what") or "")
                if o["op"] == "restart":
                    if restart(sim, o, media, ctx, where):
                        ctx.op("restart")
                        restarts += 1
                        if restarts >= 2 and since:
                            ctx.nontrivial = True
                        since = 0
                elif o["op"] == "scale":
                    k = o["by"]
                    m = [0.6 * k, 0.8 * k, -0.8 * k, 0.6 * k, o["off"], o["off"]] if o["turn"] else [k, 0, 0, k, o["off"], -o["off"]]
                    big = max([0] + [abs(v) for g in sim.m for v in g["e"] or ()]) * abs(k)
                    if 1e-10 < big < 1e12:
                        sim.apply({"op": "matrix", "m": m, "str": False}, where)
                        since += 1
                else:
                    since += bool(sim.apply(o, where)) and o["op"] not in ("read", "bad")
                sim.others = []
                ctx.log(where, len(sim.m))
    finally:
        disk.dispose()
