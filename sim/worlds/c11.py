"""C11: an interruption during a query reaches the caller as itself and damages
nothing."""
from .. import env, queries as Q
from ..core import check
from ..interrupts import KINDS, LineInterrupt
from .c07 import Accel
from .c09 import short

ID = "C11"
LEVEL = "fault_enumeration"
RUNS = {"quick": 9000, "thorough": 300000}
BATCH = 100
SHRINK = ("asks", "at", "segs", "t", "c", "a")
RULE = ("a run builds an object and asks 1-3 questions of the catalogue or consumes iterations, each interrupted (KeyboardInterrupt, SystemExit, an exit request of the "
        "application) at all or up to 24 seeded lines or single instructions it executes, or inside the accelerator; after every interruption the exception seen, the object and "
        "the repeated question are checked, on one object throughout or on a fresh one each time; non-trivial: at least one interruption was delivered inside the library")
MEASURE = "distinct (object kind, question, function interrupted, interruption) combinations"
REAL = ["svgio.path, svgio.nodes, svgio.basic", "numpy, scipy"]
STUB = ["scipy.integrate.quad / scipy.special.ellipeinc raise an interruption on demand"]
ASSUMPTIONS = ["interruptions arrive between instructions of the library's Python code or inside an accelerator's call"]
EXPECT_FAULTS = ("interrupt-KeyboardInterrupt", "interrupt-SystemExit", "interrupt-Stopped", "interrupt-instruction", "interrupt-accelerator")


def gen(rng):
    o = Q.gen_object(rng, rng.choice([None, None, "path", "seg", "doc"]), size=rng.choice([None, 1, 3, 6]))
    k = o["t"]
    asks = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        q = Q.gen_query(rng, k)
        if k in Q.ITERATIONS and rng.random() < 0.2:
            q["it"] = rng.choice(sorted(Q.ITERATIONS[k]))
        a = {"q": q, "exc": rng.choice(sorted(KINDS)), "opcodes": rng.random() < 0.25}
        x = rng.random()
        if x < 0.15:
            a["all"] = True
        if x > 0.85 and k in ("path", "seg"):
            a["accel"] = rng.choice([0, 0, 0, 1, 2])
            q.pop("it", None)
            q["q"] = rng.choice(["length", "point", "npoint"] if k == "path" else ["length"])
        n = rng.choice([4, 12, 24])
        a["at"] = [round((i + rng.random()) / n, 5) for i in range(n)]
        asks.append(a)
    return {"obj": o, "asks": asks, "same": rng.random() < 0.5}


def ask(obj, kind, q):
    bag = Q.Bag(obj)
    if "it" not in q:
        return Q.ask(obj, bag, kind, q)
    out = []
    try:
        for x in Q.ITERATIONS[kind][q["it"]](bag if kind == "doc" else obj, q):
            out.append(Q.canon(x, bag.w))
            if len(out) > 3000:
                break
    except Exception as e:
        out.append(["raised", type(e).__name__])
    return out


def execute(plan, ctx):
    spec = plan["obj"]
    kind = spec["t"]
    clean = Q.state(Q.build(spec))
    obj = Q.build(spec)
    for a in plan["asks"]:
        q, exc = a["q"], KINDS[a["exc"]]
        name = q.get("it") or q["q"]
        with LineInterrupt(None, opcodes=a["opcodes"]) as t:
            want = ask(Q.build(spec), kind, q)
        ctx.steps += t.n
        if "accel" in a:
            points = [("accel", a["accel"])]
        elif a.get("all"):
            points = [("line", k) for k in (range(t.n) if t.n <= 160 else t.each_place(a["at"][0])[:250])]
        else:
            points = [("line", k) for k in sorted({t.pick(f, i % 4) for i, f in enumerate(a["at"])}) if t.n]
        for how, k in points:
            if not plan["same"]:
                obj = Q.build(spec)
            cm = LineInterrupt(k, exc, opcodes=a["opcodes"]) if how == "line" else Accel(k, exc)
            seen, got = None, None
            before = env.settings()
            try:
                with cm:
                    got = ask(obj, kind, q)
            except BaseException as e:
                seen = e
            left = env.changed_settings(before)
            env.restore_settings()
            ctx.op(kind + ": " + name)
            where = getattr(cm, "where", "accelerator")
            if seen is not None:
                check(type(seen) is exc and cm.fired, "another-exception", "asking %s of a %s interrupted by %s in %s: %r came out", name, kind, a["exc"], where, seen)
            if cm.fired:
                check(seen is not None, "swallowed", "asking %s of a %s: the %s in %s did not reach the caller, who got %s", name, kind, a["exc"], where, repr(got)[:200])
                ctx.fault("interrupt-accelerator" if how == "accel" else "interrupt-" + a["exc"])
                if a["opcodes"] and how == "line":
                    ctx.fault("interrupt-instruction")
                ctx.nontrivial = True
                ctx.sig(kind, name, where, a["exc"], how)
            else:
                check(Q.same(got, want), "wrong-answer-" + kind, "asking %s of a %s after an interruption: %s, expected %s", name, kind, short(got, want), short(want, got))
            seen = None
            check(not left, "settings", "asking %s of a %s interrupted in %s left settings of the whole process changed: %s", name, kind, where, "; ".join(left))
            now = Q.state(obj)
            check(Q.same(now, clean), "changed-" + kind, "asking %s of a %s interrupted in %s changed it: %s, was %s", name, kind, where, short(now, clean), short(clean, now))
            again = ask(obj, kind, q)
            check(Q.same(again, want), "wrong-answer-" + kind, "asking %s of a %s again after an interruption in %s: %s, expected %s", name, kind, where,
                  short(again, want), short(want, again))
        ctx.log(kind, name, t.n, len(points))
    # everything else it is asked is right as well
    other = Q.build(spec)
    for a in plan["asks"]:
        for n in OTHER.get(kind, ()):
            q = dict(a["q"], q=n)
            q.pop("it", None)
            x, y = ask(obj, kind, q), ask(other, kind, q)
            check(Q.same(x, y), "wrong-answer-" + kind, "asking %s of a %s after interruptions: %s, expected %s", n, kind, short(x, y), short(y, x))


OTHER = {"path": ["length", "point", "npoint", "list"], "seg": ["length", "point", "iter"], "doc": ["all geometry", "siblings", "by id"]}
