"""C09: readers of one object, in any interleaving, get the answers they get
alone and leave the object unchanged."""
import math

from .. import env, queries as Q
from ..core import Violation, check
from ..interrupts import LineInterrupt
from ..threads import Scheduler

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 14000, "thorough": 400000}
BATCH = 100
SHRINK = ("tries", "switches", "clients", "items", "t", "segs", "order", "c")
RULE = ("a run builds one object (path, segment, document, matrix, colour, length, view box, point, angle) and lets 2-4 clients read it: questions of a catalogue of "
        "130 and step-wise consumed iterations; either client threads, switched at seeded lines or single instructions of the library, or iterators advanced in "
        "a seeded order in one thread; every answer is compared with the one given alone on an equal object; non-trivial: at least one switch happened inside a question or iteration")
MEASURE = "distinct (function where the switch happened, question interrupted, question running next) combinations"
REAL = ["svgio.path, svgio.nodes, svgio.basic", "CPython threads", "numpy, scipy"]
STUB = ["thread scheduling: one client runs at a time, switches only at traced lines or instructions of the library", "locks created by the library are simulated"]
ASSUMPTIONS = ["switches happen between instructions of the library's Python code, not inside C code", "nobody edits the object meanwhile"]
EXPECT_FAULTS = ("preempted", "preempted-at-instruction", "iterator-left-waiting", "iterator-abandoned")


def gen_item(rng, kind):
    if kind in Q.ITERATIONS and rng.random() < 0.4:
        q = Q.gen_query(rng, kind)
        q["it"] = rng.choice(sorted(Q.ITERATIONS[kind]))
        q["take"] = rng.choice([None, None, 2, 5])
        return q
    return Q.gen_query(rng, kind)


def gen(rng):
    o = Q.gen_object(rng, size=rng.choice([None, 3, 8]))
    k = o["t"]
    n = rng.choice([2, 2, 3, 4])
    same = rng.random()
    if k == "path" and rng.random() < 0.15:  # many readers of what is filled in lazily
        o = dict(Q.gen_object(rng, "path", size=rng.choice([1, 2, 3, 6])), measured=False)
        clients = [{"items": [{"q": rng.choice(Q.HOT["path"]), "f": 0.5, "t": [round(rng.random(), 4)]}]} for _ in range(n)]
        return {"obj": o, "clients": clients, "mode": "threads", "opcodes": rng.random() < 0.35, "cold": False, "tries": tries(rng, n, 8, False)}
    item = gen_item(rng, k)
    clients = []
    for c in range(n):
        m = rng.choice([1, 1, 2, 3])
        items = [gen_item(rng, k) for _ in range(m)]
        if same < 0.45:  # the same question at the same time
            items[0] = dict(item)
        clients.append({"items": items})
    plan = {"obj": o, "clients": clients}
    x = rng.random()
    if x < 0.3:
        plan["mode"] = "steps"
        plan["order"] = [rng.randrange(n) for _ in range(rng.choice([8, 20, 40]))]
    else:
        plan["mode"] = "threads"
        plan["opcodes"] = rng.random() < 0.35
        plan["cold"] = rng.random() < 0.5
        if x < 0.45:
            plan["tries"] = [{"first": rng.randrange(n), "quantum": rng.choice([1, 2, 3, 5, 11, 29])}]
        else:
            plan["tries"] = tries(rng, n, 1 if plan["cold"] else rng.choice([2, 4]), plan["cold"])
    return plan


def tries(rng, n, count, cold):
    """Several schedules of the same clients, their first switches spread over the whole run."""
    out = []
    for k in range(count):
        s = rng.choice([1, 1, 2, 2, 3, 8])
        if cold:
            sw = [[int(math.exp(rng.random() * 7.0)), rng.randrange(n)] for _ in range(s)]
        else:
            sw = [[round((k + rng.random()) / count if j == 0 else rng.random(), 5), rng.randrange(n)] for j in range(s)]
        out.append({"first": rng.randrange(n), "switches": sw})
    return out


class Client:
    """A program: a generator that pauses after every question and every step of an iteration."""

    def __init__(self, obj, kind, items):
        self.obj, self.kind, self.items = obj, kind, items
        self.answers = []
        self.now = None

    def program(self):
        bag = Q.Bag(self.obj)
        for q in self.items:
            self.now = q.get("it") or q["q"]
            if "it" not in q:
                self.answers.append(Q.ask(self.obj, bag, self.kind, q))
                self.now = None
                yield "asked"
                continue
            out = ["items"]
            self.answers.append(out)
            try:
                it = iter(Q.ITERATIONS[self.kind][q["it"]](bag if self.kind == "doc" else self.obj, q))
                yield "opened"
                while (q["take"] is None or len(out) <= q["take"]) and len(out) < 3000:
                    try:
                        x = next(it)
                    except StopIteration:
                        break
                    out.append(Q.canon(x, bag.w))
                    yield "stepped"
            except Exception as e:
                out.append(["raised", type(e).__name__])
            self.now = None

    def all(self):
        for _ in self.program():
            pass


def alone(plan):
    """Answers of each client alone, each on an object of its own."""
    out, events = [], 0
    for c in plan["clients"]:
        cl = Client(Q.build(plan["obj"]), plan["obj"]["t"], c["items"])
        with LineInterrupt(None, opcodes=plan.get("opcodes", False)) as t:
            cl.all()
        events += t.n
        out.append(cl.answers)
    return out, events


def execute(plan, ctx):
    if not plan["clients"]:
        return
    cold = plan.get("cold", False)
    solo = events = None
    if not cold:
        solo, events = alone(plan)
    for t in plan.get("tries", [None]):
        obj = Q.build(plan["obj"])
        clients = [Client(obj, plan["obj"]["t"], c["items"]) for c in plan["clients"]]
        if t is not None:
            threads(plan, t, clients, events, ctx)
        else:
            steps(plan, clients, ctx)
        if solo is None:
            solo, events = alone(plan)
        judge(plan, obj, clients, solo, ctx)
    ctx.log(plan["obj"]["t"], repr(solo)[:2000])


def threads(plan, t, clients, events, ctx):
    sw = t.get("switches", ())
    if events is not None and not plan.get("cold"):
        sw = [[1 + int(f * events), c] for f, c in sw]
    s = Scheduler([c.all for c in clients], t["first"], sw, t.get("quantum"), plan["opcodes"])
    s.run()
    for _, a, b, where in s.fired[:50]:
        ctx.sig(where, names(plan, a), names(plan, b))
        ctx.nontrivial = True
    ctx.faults["preempted-at-instruction" if plan["opcodes"] else "preempted"] += len(s.fired)
    ctx.steps += s.events
    ctx.log("threads", s.events, len(s.fired))


def steps(plan, clients, ctx):
    gens = [c.program() for c in clients]
    live = set(range(len(clients)))
    last = None
    order = list(plan["order"])
    while live:
        i = order.pop(0) % len(clients) if order else min(live)
        if i not in live:
            continue
        if last is not None and last != i and clients[last].now is not None and last in live:
            ctx.fault("iterator-left-waiting")
            ctx.sig("step", clients[last].now, clients[i].now)
            ctx.nontrivial = True
        try:
            next(gens[i])
        except StopIteration:
            live.discard(i)
        last = i
        ctx.steps += 1


def judge(plan, obj, clients, solo, ctx):
    kind = plan["obj"]["t"]
    other = Q.build(plan["obj"])
    for i, c in enumerate(clients):
        for j, q in enumerate(plan["clients"][i]["items"]):
            name = q.get("it") or q["q"]
            ctx.op(kind + ": " + name)
            if q.get("take") is not None and "it" in q:
                ctx.fault("iterator-abandoned")
            a = c.answers[j] if j < len(c.answers) else "no answer"
            check(Q.same(a, solo[i][j]), "disturbed-" + kind, "client %d asking %s: %s, alone %s", i, name, short(a, solo[i][j]), short(solo[i][j], a))
    check(Q.same(Q.state(obj), Q.state(other)), "changed-" + kind, "the object changed though it was only read: %s, was %s",
          short(Q.state(obj), Q.state(other)), short(Q.state(other), Q.state(obj)))
    for i, c in enumerate(plan["clients"]):
        again = Client(obj, kind, c["items"])
        again.all()
        for j, q in enumerate(c["items"]):
            check(Q.same(again.answers[j], solo[i][j]), "afterwards-" + kind, "asking %s afterwards: %s, alone %s", q.get("it") or q["q"],
                  short(again.answers[j], solo[i][j]), short(solo[i][j], again.answers[j]))


def names(plan, i):
    return ",".join(q.get("it") or q["q"] for q in plan["clients"][i]["items"])


def short(a, b):
    """The part of an answer around the first difference."""
    if isinstance(a, list) and isinstance(b, list):
        for k, x in enumerate(a):
            if k >= len(b) or not Q.same(x, b[k]):
                return "[%d] %s" % (k, short(x, b[k] if k < len(b) else None))
        if len(a) != len(b):
            return "%d items" % len(a)
    return repr(a)[:200]
