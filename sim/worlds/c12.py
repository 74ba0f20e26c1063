"""C12: lengths and points agree whatever happens to numpy and scipy."""
import sys

from .. import accel, env, fresh, pathops
from ..core import Ctx, Violation, check

ID = "C12"
LEVEL = "fault_enumeration"
RUNS = {"quick": 8000, "thorough": 120000}
BATCH = 60
SHRINK = ("ops", "segs", "t", "objs", "tsegs")
RULE = ("a run measures (length, point, npoint of a path, its segments and a subpath) and edits a path while numpy and scipy are importable, missing, broken, lost, regained, an old version "
        "or failing from the n-th call on, in a seeded schedule, which may begin before the library is imported; every answer is compared with an independent "
        "numerical reference and with a fresh equal object under full acceleration; non-trivial: an accelerator was unusable during at least one completed query")
MEASURE = "distinct (question, segment kinds asked, numpy state, scipy state, previous state) combinations"
REAL = ["svgio.path segments and paths", "numpy and scipy where present", "a fresh import of the library where they are missing from the start"]
STUB = ["importability of numpy and scipy (sys.modules, import finder)", "scipy.integrate.quad / scipy.special.ellipeinc raising on demand"]
ASSUMPTIONS = ["numpy either imports or raises ImportError; its own operations do not fail", "scipy routines fail by raising an Exception",
               "every segment asked has a start; positions are in [0, 1]; elliptical arcs still start and end on their ellipse, whose radii are perpendicular"]
EXPECT_FAULTS = ("numpy-missing", "numpy-broken", "scipy-missing", "scipy-broken", "scipy-old", "scipy-call-failed", "lost", "regained", "absent-from-start")


def gen_config(rng):
    x = rng.random()
    s = rng.choice(["ok", "missing", "broken", "old", "missing", ["fail", rng.choice(sorted(accel.EXC)), rng.choice([0, 0, 0, 1, 2])]])
    n = rng.choice(["ok", "ok", "missing", "missing", "broken"])
    if x < 0.15:
        n = s = "ok"
    return {"numpy": n, "scipy": s}


def gen_measure(rng):
    t = [round(rng.random(), 6) for _ in range(rng.choice([1, 2, 5]))]
    if rng.random() < 0.25:
        t += [0.0, 1.0]
    if rng.random() < 0.15:
        # the last positions before the end, which sums of fractions can miss
        t += rng.sample([1 - 2.0 ** -53, 0.9999999999999998, 1 - 1e-12, 5e-324, 1e-12], 2)
    if rng.random() < 0.2:
        t.reverse()
    return {"op": "measure", "of": rng.choice(["path", "path", "seg", "seg", "fresh", "subpath"]), "what": rng.choice(["length", "length", "point", "npoint"]), "t": t,
            "f": rng.random(), "cold": rng.random() < 0.1, "error": rng.choice([1e-3, 1e-4, 1e-4, 1e-4, 1e-4, 1e-5])}


def gen(rng):
    edits = rng.random() < 0.5
    if edits:
        plan = pathops.gen_history(rng, rng.choice([2, 5]), arcs=False, span=4)
        plan["ops"] = [o for o in plan["ops"] if o["op"] not in ("approx",)]
    else:
        g = pathops.SegGen(rng, True, span=4)
        plan = {"init": {"how": rng.choice(["str", "list"]), "segs": g.proper(rng.choice([2, 2, 4, 7]))}, "ops": []}
    ops = list(plan["ops"])
    for _ in range(rng.choice([1, 2, 4])):
        ops.insert(rng.randint(0, len(ops)), {"op": "config", **gen_config(rng)})
    for _ in range(rng.choice([2, 4, 7])):
        ops.insert(rng.randint(0, len(ops)), gen_measure(rng))
    ops.append(gen_measure(rng))
    plan["ops"] = ops
    plan["start"] = gen_config(rng)
    plan["import"] = rng.random() < 0.06
    return plan


def kinds_of(obj):
    try:
        return "".join(sorted({type(s).__name__[0] for s in obj}))
    except Exception:
        return type(obj).__name__


def ask(obj, o, what):
    P = env.path
    kw = {"error": o["error"]}
    try:
        if what == "length":
            v = obj.length(**kw)
            return float(v)
        if what == "point":
            ps = [obj.point(t, **kw) if isinstance(obj, P.Path) else obj.point(t) for t in o["t"]]
        else:
            if isinstance(obj, P.Path) and not o["cold"]:
                obj.length(**kw)  # npoint without numpy measures with the default error: slow
            ps = obj.npoint(list(o["t"]), **kw) if isinstance(obj, P.Path) else obj.npoint(list(o["t"]))
        if ps is None:
            return None
        return [None if p is None else [float(p[0]), float(p[1])] for p in ps]
    except Exception as e:
        return "raised %s: %s" % (type(e).__name__, str(e)[:100])


def subject(sim, o):
    """The object asked and an equal fresh one."""
    P = env.path
    p = sim.p
    if o["of"] == "path":
        return p, P.Path(p)
    if o["of"] == "fresh":
        return P.Path(p), P.Path(p)
    if o["of"] == "subpath":
        i = int(o["f"] * p.count_subpaths())
        return P.Path(p.subpath(i)), P.Path(p.subpath(i))
    i = int(o["f"] * len(p))
    from copy import copy
    return p[i], copy(p[i])


def history(plan, ctx):
    full = accel.Accelerators(ctx)
    cm = accel.Accelerators(ctx)
    OK = {"numpy": "ok", "scipy": "ok"}
    config = dict(plan["start"])
    if plan["import"]:
        ctx.fault("absent-from-start")
    prev = None
    with cm(config):
        sim = pathops.PathSim(plan["init"], ctx)
    for i, o in enumerate(plan["ops"]):
        where = "step %d (%s)" % (i, o["op"])
        if o["op"] == "config":
            new = {"numpy": o["numpy"], "scipy": o["scipy"]}
            for k in new:
                if config[k] == "ok" != new[k]:
                    ctx.fault("lost")
                elif config[k] != "ok" == new[k]:
                    ctx.fault("regained")
            prev, config = config, new
            ctx.op("config")
            continue
        if o["op"] != "measure":
            with cm(config):
                sim.apply(o, where)
            continue
        if not len(sim.p):
            continue
        obj, equal = subject(sim, o)
        what = o["what"]
        ctx.op("%s of %s" % (what, o["of"]))
        with cm(config):
            got = ask(obj, o, what)
        for k in config:
            if config[k] != "ok":
                ctx.nontrivial = True
                if not isinstance(config[k], list):
                    ctx.fault("%s-%s" % (k, config[k]))
        if cm.fired:
            ctx.faults["scipy-call-failed"] += cm.fired
        with full(OK):
            want = ask(equal, o, what)
        state = "numpy %s, scipy %s" % (config["numpy"], config["scipy"])
        segs = list(obj) if isinstance(obj, env.path.Path) else [obj]
        if any(s.start is None and not isinstance(s, env.path.Move) for s in segs):
            continue  # draws from nowhere
        if not all(accel.Ref(s).sound() for s in segs):
            ctx.op("unsound arc")
            continue
        text = "%s: %s(%s) of %s with %s" % (where, what, o["t"] if what != "length" else "", pathops.show_all(pathops.read(segs)), state)
        ctx.sig(what, o["of"], kinds_of(segs), config, prev)
        check(not isinstance(want, str), "raised", "%s: with both accelerators an equal fresh object %s", text, want)
        check(not isinstance(got, str), "raised", "%s %s; with both accelerators it is %s", text, got, repr(want)[:100])
        compare(segs, o, what, got, want, text, isinstance(obj, env.path.Path))
        ctx.log(where, want)


def compare(segs, o, what, got, want, text, is_path):
    if is_path:
        ref = accel.PathRef(segs)
        total = ref.total
    else:
        ref = accel.Ref(segs[0])
        total = ref.length()
    tol = max(1e-3, 10 * o["error"]) * (1 + total)
    if what == "length":
        # of all segments in the path
        check(abs(got - want) <= tol, "length-differs", "%s is %r, with both accelerators %r", text, got, want)
        check(abs(got - total) <= tol, "length-wrong", "%s is %r, numerically %r", text, got, total)
        return
    if want is None:
        check(got is None, "point-differs", "%s is %r, with both accelerators None", text, got)
        return
    check(len(got) == len(want), "point-differs", "%s gives %d points, with both accelerators %d", text, len(got), len(want))
    for t, a, b in zip(o["t"], got, want):
        if total == 0 and is_path:
            cands = []
        else:
            cands = ref.point(t) if is_path else [ref.point(t)]
        near = [c for c in cands if c is not None and a is not None and abs(complex(*a) - c) <= tol]
        if near:
            continue
        # numerically undefined (a seam of subpaths, no length at all): as with both accelerators
        same = a == b or (a is not None and b is not None and abs(complex(*a) - complex(*b)) <= tol)
        if total == 0 and is_path and same:
            continue
        check(total == 0, "point-wrong", "%s at %r is %s, numerically %s", text, t, a, cands)
        check(same, "point-differs", "%s at %r is %s, with both accelerators %s", text, t, a, b)


def reimport(request):
    """In a fresh process: the library is imported under the first configuration."""
    plan = request["plan"]
    ctx = Ctx()
    cm = accel.Accelerators(ctx)
    with cm(plan["start"]):
        for m in [m for m in sys.modules if m == "svgio" or m.startswith("svgio.")]:
            del sys.modules[m]
        sys.pycache_prefix = "/nonexistent/pycache"
        import svgio
        from svgio import basic, nodes, path
    env.svgio, env.basic, env.nodes, env.path = svgio, basic, nodes, path
    try:
        history(plan, ctx)
        v = None
    except Violation as e:
        v = (e.kind, e.message)
    return {"v": v, "faults": dict(ctx.faults), "ops": dict(ctx.ops), "sigs": list(ctx.sigs), "nontrivial": ctx.nontrivial, "log": ctx.digest()}


def execute(plan, ctx):
    server = fresh.server("C12", reimport)
    if not plan["import"]:
        history(plan, ctx)
        return
    r = server.ask({"plan": plan})
    if r == "died":
        raise Violation("process-died", "the process importing the library under %s died" % plan["start"])
    for k, v in r["faults"].items():
        ctx.faults[k] += v
    for k, v in r["ops"].items():
        ctx.ops[k] += v
    ctx.sigs |= set(r["sigs"])
    ctx.nontrivial = r["nontrivial"]
    ctx.log(r["log"])
    if r["v"]:
        raise Violation(*r["v"])


def shrink(plan):
    if plan["import"]:
        yield dict(plan, **{"import": False})
    for k in ("numpy", "scipy"):
        if plan["start"][k] != "ok":
            yield dict(plan, start=dict(plan["start"], **{k: "ok"}))
        for i, o in enumerate(plan["ops"]):
            if o["op"] == "config" and o[k] != "ok":
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, **{k: "ok"})] + plan["ops"][i + 1:])
