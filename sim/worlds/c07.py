"""C07: measurements of a path are those of a freshly built path with the same
segments, whatever was edited, measured, rejected, interrupted or failed before."""
from copy import copy

from .. import env, pathops
from ..core import Violation, check
from ..interrupts import KINDS, LineInterrupt

ID = "C07"
LEVEL = "fault_enumeration"
RUNS = {"quick": 9000, "thorough": 200000}
BATCH = 75
SHRINK = ("ops", "segs", "objs", "tsegs", "t")
RULE = ("a run builds a path and performs 4-40 steps, each an edit (all kinds of C06, through the path and its subpaths, rejected ones included) or a "
        "measurement (length, point, npoint) that may be interrupted at the k-th executed line or by the accelerator; every completed measurement is compared "
        "with a fresh path of copied segments; non-trivial: an edit was made between two completed measurements that gave different lengths")
MEASURE = "distinct (operation before, measurement, interruption, path length class) combinations"
REAL = ["svgio.path Path, Subpath, segments", "numpy, scipy"]
STUB = ["scipy.integrate.quad / scipy.special.ellipeinc raise an interruption on demand"]
ASSUMPTIONS = ["segments are edited through the path or its subpaths, not behind its back", "all measurements use the default accuracy",
               "point and npoint are asked for positions in [0, 1]"]
EXPECT_FAULTS = ("rejected-edit", "interrupted", "interrupted-accelerator", "segment-source-failed")


def gen(rng):
    def extra(rng, g):
        if rng.random() < 0.5:
            return None
        o = {"op": "measure", "what": rng.choice(["length", "length", "point", "npoint"])}
        o["t"] = sorted(round(rng.random(), 6) for _ in range(rng.choice([1, 2, 5])))
        if rng.random() < 0.15:
            o["t"] += [0.0, 1.0]
        if rng.random() < 0.1:
            o["t"] += [1 - 2.0 ** -53, 0.9999999999999998]
        x = rng.random()
        if x < 0.3:
            o["stop"] = {"how": "line", "at": rng.random(), "exc": rng.choice(list(KINDS))}
        elif x < 0.38:
            o["stop"] = {"how": "accel", "n": rng.choice([0, 0, 1, 3]), "exc": rng.choice(list(KINDS))}
        return o
    return pathops.gen_history(rng, rng.choice([4, 10, 20, 40]), span=10, extra=extra)


class Accel:
    """The scipy functions the library calls raise at the n-th call."""

    def __init__(self, n, exc):
        self.n, self.exc, self.fired = n, exc, False

    def wrap(self, f):
        def call(*a, **k):
            self.n -= 1
            if self.n == -1:
                self.fired = True
                raise self.exc("simulated")
            return f(*a, **k)
        return call

    def __enter__(self):
        import scipy.integrate as i, scipy.special as s
        self.saved = [(i, "quad", i.quad), (s, "ellipeinc", s.ellipeinc)]
        for m, a, f in self.saved:
            setattr(m, a, self.wrap(f))
        return self

    def __exit__(self, *x):
        for m, a, f in self.saved:
            setattr(m, a, f)
        return False


def measure(p, o):
    """-> list of floats, or the class of the exception"""
    try:
        if o["what"] == "length":
            return [float(p.length())]
        if o["what"] == "point":
            out = []
            for t in o["t"]:
                q = p.point(t)
                out += [None] if q is None else [float(q.x), float(q.y)]
            return out
        q = p.npoint(env.numpy.array(o["t"]))
        return [None] if q is None else [float(v) for row in q for v in row]
    except Exception as e:
        return "raised " + type(e).__name__


def fresh(p):
    segs = [copy(s) for s in p]
    return env.path.Path(*segs)


def same(a, b, scale):
    if isinstance(a, str) or isinstance(b, str) or len(a) != len(b):
        return a == b
    return all(x == y or (x is not None and y is not None and (abs(x - y) <= 1e-7 * (1 + scale) or (x != x and y != y))) for x, y in zip(a, b))


def agree(p, o, got, where, kind):
    q = fresh(p)
    want = measure(q, o)
    try:
        scale = abs(q.length())
    except Exception:
        scale = 0
    if same(got, want, scale):
        return want
    # a position at the seam of two subpaths may fall on either side
    if not isinstance(got, str) and not isinstance(want, str) and o["what"] != "length" and len(got) == len(want) == 2 * len(o["t"]):
        ok = True
        for i, t in enumerate(o["t"]):
            g = got[2 * i:2 * i + 2]
            near = [measure(fresh(p), dict(o, t=[x])) for x in (t, max(0.0, t - 1e-9), min(1.0, t + 1e-9))]
            ok = ok and any(same(g, w, scale + 1) for w in near)
        if ok:
            return want
    raise Violation(kind, "%s: %s(%s) is %s, a fresh path of the same segments gives %s; segments %s" % (
        where, o["what"], o["t"] if o["what"] != "length" else "", got, want, pathops.show_all(pathops.read(p))))


def execute(plan, ctx):
    sim = pathops.PathSim(plan["init"], ctx)
    last, edited, prev = None, False, "built"
    for i, o in enumerate(plan["ops"]):
        where = "step %d (%s %s)" % (i, o["op"], o.get("form") or o.get("how") or o.get("what") or "")
        if o["op"] != "measure":
            if sim.apply(o, where):
                edited = edited or o["op"] not in ("bad", "read")
                prev = o["op"]
            continue
        ctx.op(o["what"])
        stop = o.get("stop")
        if stop:
            exc = KINDS[stop["exc"]]
            if stop["how"] == "line":
                # as many lines as the fresh path needs (once measured only a part of them)
                with LineInterrupt() as count:
                    measure(fresh(sim.p), dict(o))
                at = int(stop["at"] ** 1.5 * count.n)
                cm = LineInterrupt(at, exc)
            else:
                cm = Accel(stop["n"], exc)
            got = None
            try:
                with cm:
                    got = measure(sim.p, o)
            except BaseException as e:
                check(cm.fired and type(e) is exc, "foreign-exit", "%s: %r came out of a measurement", where, e)
            if cm.fired:
                ctx.fault("interrupted" if stop["how"] == "line" else "interrupted-accelerator")
            ctx.sig(prev, o["what"], stop["how"], stop["exc"], getattr(cm, "where", ""), min(len(sim.m), 10))
            if got is not None and not cm.fired:
                agree(sim.p, o, got, where, "stale-measurement")
        else:
            got = measure(sim.p, o)
            agree(sim.p, o, got, where, "stale-measurement")
            total = measure(sim.p, {"what": "length"})
            if edited and last is not None and total != last:
                ctx.nontrivial = True
            last, edited = total, False
            ctx.sig(prev, o["what"], min(len(sim.m), 10))
        ctx.log(where, got)
        prev = "measure"
    # everything once more at the end, and the copies and originals are right too
    for p in [sim.p] + [q for q, _ in sim.others]:
        for o in ({"what": "length", "t": []}, {"what": "point", "t": [0.237]}, {"what": "npoint", "t": [0.11, 0.613]}):
            agree(p, o, measure(p, o), "at the end", "stale-measurement")
    pathops.compare(sim.p, sim.m, "at the end")
