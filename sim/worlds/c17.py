"""C17: bounding boxes hold the geometry of the path as it is now."""
import math
from copy import copy

from .. import accel, env, pathops
from ..core import check, weighted
from . import c18

ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 300000}
BATCH = 75
SHRINK = ("ops", "segs", "objs", "tsegs")
RULE = ("a run edits a path through itself, its subpaths, its drawing methods and single points, with rejected edits and accelerators lost and regained in between, and asks for the bounding boxes of segments, "
        "subpaths and of a path element holding its text; each is compared with the extreme points of the geometry as it is; non-trivial: at least three questions with edits in between")
MEASURE = "distinct (what was asked, kinds of segments, history length class, kind of the last edit, accelerator) combinations"
REAL = ["svgio.path bbox of all segments, Subpath.bbox, Path editing", "svgio.nodes Shape.bbox of path elements"]
STUB = ["import and routines of numpy and scipy (planned availability)"]
ASSUMPTIONS = ["arcs lie on an ellipse through their ends (edits that displace one end leave none)", "moves draw nothing", "a subpath of moves alone has no box or its point"]
EXPECT_FAULTS = ("rejected-edit", "numpy-missing")


def gen(rng):
    def extra(rng, g):
        x = rng.random()
        if x < 0.35:
            return {"op": "box", "f": rng.random(), "numpy": weighted(rng, [("ok", 3), ("missing", 1), ("broken", 0.3)]), "what": weighted(rng, [("seg", 3), ("subpath", 4), ("element", 2)])}
        if x < 0.42:
            return {"op": "point", "f": rng.random(), "which": rng.randrange(3), "to": [rng.choice([0, 1, -5, 30.5, 1000, -0.001]), rng.choice([0, 2, -7, 12.25, 1e-6])], "how": rng.randrange(3)}
        if x < 0.47:
            return {"op": "elevate", "f": rng.random()}
        return None
    plan = pathops.gen_history(rng, rng.choice([3, 6, 10, 16]), extra=extra)
    plan["ops"].append({"op": "box", "f": rng.random(), "numpy": "ok", "what": "subpath"})
    return plan


def roots(a):
    """Where a Bezier polynomial with control values a turns, in (0, 1)."""
    d = [a[i + 1] - a[i] for i in range(len(a) - 1)]
    if len(d) == 2:
        c, b, q = d[0], d[1] - d[0], 0.0
        return [-c / b] if b else []
    if len(d) == 3:
        c, b, q = d[0], 2 * (d[1] - d[0]), d[0] - 2 * d[1] + d[2]
        out = []
        if q:
            s = b * b - 4 * q * c
            if s >= 0:
                k = -0.5 * (b + math.copysign(math.sqrt(s), b))
                out += [k / q] + ([c / k] if k else [])
        if b and abs(q) < 1e-6 * (abs(b) + abs(c)):
            t = -c / b
            for _ in range(5):
                f, g = c + t * (b + q * t), b + 2 * q * t
                t = t - f / g if g else t
            out.append(t)
        return out
    return []


def box_of(seg):
    """Exact box of one segment as it is; None when there is nothing to ask."""
    k = pathops.kind_of(seg)
    if k == "M":
        return ()
    if seg.start is None or seg.end is None:
        return None
    r = accel.Ref(seg)
    if k == "A":
        if seg.sweep == 0 or r.a == 0 or r.b == 0 or not r.sound() or max(r.a, r.b) > 1e4 * min(r.a, r.b):
            return None
        return c18.El(r.center, r.rot * r.a, 1j * r.rot * r.b, r.t0, r.w).box()
    if any(p is None for p in getattr(r, "p", ())):
        return None
    xs, ys = [], []
    for out, f in ((xs, lambda z: z.real), (ys, lambda z: z.imag)):
        a = [f(z) for z in r.p]
        out += [a[0], a[-1]]
        for t in roots(a):
            if 0 < t < 1:
                out.append(f(r.point(t)))
        for i in range(1, 16):
            out.append(f(r.point(i / 16.0)))
    return min(xs), min(ys), max(xs), max(ys)


def join(boxes):
    b = list(zip(*boxes))
    return min(b[0]), min(b[1]), max(b[2]), max(b[3])


def compare(got, want, big, where, what):
    lim = 1e-7 * (1 + big)
    check(got is not None and len(got) == 4, "box", "%s: the box of %s is %s, expected %s", where, what, got, want)
    g = [float(x) for x in got]
    check(g[0] <= g[2] and g[1] <= g[3], "box", "%s: the box of %s is %s: its sides are swapped", where, what, g)
    check(all(abs(a - b) <= lim for a, b in zip(g, want)), "box", "%s: the box of %s is %s, its geometry reaches %s", where, what, g, list(want))


def ask(sim, o, where):
    P = env.path
    p = sim.p
    if not len(p):
        return False
    what = o["what"]
    segs = list(p)
    if what == "seg":
        s = segs[int(o["f"] * len(segs))]
        want = box_of(s)
        if not want:
            return False
        before = pathops.read(segs)
        big = max(map(abs, want))
        compare(s.bbox(), want, big, where, pathops.show(pathops.read([s])[0]))
        check(pathops.read(segs) == before, "changed", "%s: asking for a box changed the segment", where)
        return True
    if what == "subpath":
        n = p.count_subpaths()
        sp = p.subpath(int(o["f"] * n))
        part = list(sp)
        got = None
        f = sp.bbox
    else:
        if segs[0].end is None or pathops.kind_of(segs[0]) != "M" or any(pathops.kind_of(s) == "A" for s in segs):
            return False
        m = pathops.read(segs)
        if any(q is None or not all(map(math.isfinite, q)) for g in m for q in [g["e"]] + g["c"]):
            return False
        e = env.nodes.Path(p.d(smooth=False))
        part = list(P.Path(e.d))
        f = e.bbox
    boxes = [box_of(s) for s in part]
    if None in boxes:
        return False
    drawn = [b for b in boxes if b]
    text = pathops.show_all(pathops.read(part))
    before = pathops.read(part)
    got = f()
    check(pathops.read(part) == before, "changed", "%s: asking for a box changed the path", where)
    if not drawn:
        return True  # moves alone
    want = join(drawn)
    compare(got, want, max(map(abs, want)), where, "%s %s" % (what, text[:300]))
    return True


def move_point(sim, o, where):
    """A point of a segment is set, moved in place, or both."""
    segs = [s for s in sim.p if pathops.kind_of(s) in "QC" or pathops.kind_of(s) == "L"]
    if not segs:
        return False
    s = segs[int(o["f"] * len(segs))]
    k = pathops.kind_of(s)
    name = {"Q": ["control"], "C": ["control1", "control2"], "L": ["end"]}[k][o["which"] % (2 if k == "C" else 1)]
    B = env.basic
    if o["how"] == 0 or getattr(s, name) is None:
        setattr(s, name, B.Point(*o["to"]))
    elif o["how"] == 1:
        q = getattr(s, name)
        q += tuple(o["to"])
        setattr(s, name, q)
    else:
        getattr(s, name)[0] = o["to"][0]
    if k == "L":
        sim.p.validate_connections()
    sim.m = pathops.read(sim.p)
    return True


def elevate(sim, o, where):
    """A quadratic replaced by the equal cubic, whose cubic term vanishes."""
    P = env.path
    for i in range(len(sim.p)):
        s = sim.p[i]
        if isinstance(s, P.QuadraticBezier) and s.start is not None and s.end is not None and s.control is not None:
            sim.p[i] = P.CubicBezier(s.start, s.start + (s.control - s.start) * (2 / 3.0), s.end + (s.control - s.end) * (2 / 3.0), s.end)
            sim.m = pathops.read(sim.p)
            return True
    return False


def execute(plan, ctx):
    acc = accel.Accelerators(ctx)
    sim = pathops.PathSim(plan["init"], ctx)
    asked = since = 0
    last = "init"
    for i, o in enumerate(plan["ops"]):
        where = "step %d (%s)" % (i, o["op"])
        if o["op"] == "box":
            if o["numpy"] != "ok":
                ctx.fault("numpy-" + o["numpy"])
            with acc({"numpy": o["numpy"], "scipy": "ok"}):
                if ask(sim, o, where):
                    asked += 1
                    ctx.op("box")
                    ctx.sig(o["what"], "".join(sorted({g["k"] for g in sim.m})), min(i, 9) // 3, last, o["numpy"])
        elif o["op"] == "point":
            since += bool(move_point(sim, o, where))
        elif o["op"] == "elevate":
            since += bool(elevate(sim, o, where))
        else:
            since += bool(sim.apply(o, where)) and o["op"] not in ("read", "bad")
        if o["op"] != "box":
            last = o["op"]
        sim.others = []
        ctx.log(where, len(sim.m))
        if asked >= 3 and since >= 2:
            ctx.nontrivial = True
