"""C10: work on separate objects gives what it gives alone in a fresh process,
and leaves originals and other copies alone."""
import shutil

from .. import env, fresh, queries as Q, work
from ..core import check
from ..threads import Scheduler
from .c09 import short

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 3600, "thorough": 90000}
BATCH = 60
SHRINK = ("clients", "items", "ops", "switches", "order", "c", "a", "attrs", "segs", "chunks", "origs")
RULE = ("a run has 2-4 clients, each with 1-3 works: a document (loaded, built, edited, queried, saved), a path (edited and measured), a value (edited in place and queried) "
        "or a copy of a common original (the same); executed one after another, step by step in a seeded order, or as threads preempted at seeded lines or instructions; "
        "every client's transcript is compared with its transcript alone in a freshly forked process; non-trivial: two clients' works overlapped in time or touched the same original")
MEASURE = "distinct (mode, what a client was doing when another went on, what that one was doing) combinations"
REAL = ["svgio.nodes, svgio.path, svgio.basic", "CPython threads", "files on the scratch file system", "fresh processes (fork before any work)"]
STUB = ["thread scheduling: one client runs at a time, switches only at traced lines or instructions of the library", "stream sources", "locks created by the library are simulated"]
ASSUMPTIONS = ["clients share nothing but originals they copy from and do not change"]
EXPECT_FAULTS = ("preempted", "preempted-at-instruction", "step-switch", "earlier-work", "source-failed")


def gen(rng):
    origs = [work.gen_orig(rng) for _ in range(rng.choice([0, 1, 1, 2]))]
    n = rng.choice([2, 2, 3, 4])
    clients = [work.gen_program(rng, origs) for _ in range(n)]
    if rng.random() < 0.3:  # the same work twice: nothing of the first may show in the second
        clients[1] = clients[0]
    plan = {"origs": origs, "clients": clients}
    x = rng.random()
    if x < 0.25:
        plan["mode"] = "one-after-another"
    elif x < 0.5:
        plan["mode"] = "steps"
        plan["order"] = [rng.randrange(n) for _ in range(rng.choice([10, 30, 60]))]
    else:
        plan["mode"] = "threads"
        plan["first"] = rng.randrange(n)
        plan["opcodes"] = rng.random() < 0.25
        if x < 0.65:
            plan["quantum"] = rng.choice([3, 7, 19, 53])
            plan["switches"] = []
        else:
            # how many lines a client will execute is not known in advance: spread logarithmically
            plan["switches"] = [[int(20 * 300 ** rng.random()), rng.randrange(n)] for _ in range(rng.choice([2, 5, 12]))]
    return plan


def execute(plan, ctx):
    server = fresh.server("C10", work.solo)
    if not plan["clients"]:
        return
    scratch = work.scratch_dir()
    before = env.settings()
    try:
        run(plan, ctx, server, scratch)
        left = env.changed_settings(before)
        check(not left, "settings", "work by %s clients left settings of the whole process changed: %s", len(plan["clients"]), "; ".join(left))
    finally:
        env.restore_settings()
        shutil.rmtree(scratch, ignore_errors=True)


def run(plan, ctx, server, scratch):
    solo = [server.ask({"client": c, "origs": plan["origs"]}) for c in plan["clients"]]
    origs = [(Q.build(o), o) for o in plan["origs"]]
    before = [Q.state(v) for v, _ in origs]
    ws = [work.Worker(c, origs, scratch, "client%d" % i) for i, c in enumerate(plan["clients"])]
    n = len(ws)
    mode = plan["mode"]
    if mode == "one-after-another":
        for i, w in enumerate(ws):
            w.all()
            if i:
                ctx.fault("earlier-work")
                ctx.sig(mode, kinds(plan, i - 1), kinds(plan, i))
        ctx.nontrivial = True
    elif mode == "steps":
        gens = [w.program() for w in ws]
        live, last, order = set(range(n)), None, list(plan["order"])
        while live:
            i = order.pop(0) % n if order else min(live)
            if i not in live:
                continue
            if last not in (None, i) and last in live:
                ctx.fault("step-switch")
                ctx.sig(mode, ws[last].doing, ws[i].doing)
                ctx.nontrivial = True
            try:
                next(gens[i])
            except StopIteration:
                live.discard(i)
            last = i
    else:
        s = Scheduler([w.all for w in ws], plan["first"], plan["switches"], plan.get("quantum"), plan["opcodes"])
        # what everybody is doing is noted at each switch
        switch = s.switch_to

        def noting(to, frame=None):
            if to != s.current and frame is not None:
                ctx.sig(mode, frame.f_code.co_name, ws[to].doing)
            switch(to, frame)

        s.switch_to = noting
        s.run()
        ctx.faults["preempted-at-instruction" if plan["opcodes"] else "preempted"] += len(s.fired)
        ctx.nontrivial = bool(s.fired)
        ctx.steps += s.events
        ctx.log("threads", s.events, len(s.fired))
    for i, w in enumerate(ws):
        for k, v in w.ctx.ops.items():
            ctx.ops[k] += v
        ctx.steps += w.ctx.steps
        if any(k.startswith("read-") for k in w.ctx.faults):
            ctx.fault("source-failed")
        check(Q.same(w.log, solo[i]), "not-independent", "client %d (%s): its transcript has %s, alone it has %s", i, kinds(plan, i), short(w.log, solo[i]), short(solo[i], w.log))
    for (v, o), b in zip(origs, before):
        check(Q.same(Q.state(v), b), "original-changed", "the original %s changed: %s, was %s", o["t"], short(Q.state(v), b), short(b, Q.state(v)))
    ctx.log(repr(solo)[:2000])


def kinds(plan, i):
    return ",".join(it["w"] + (" " + it["obj"]["t"] if "obj" in it else "") for it in plan["clients"][i]["items"])
