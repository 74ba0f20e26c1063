"""Seeded search over simulated runs: batches in forked workers, minimisation,
replay files and evidence."""
import gc, hashlib, json, os, pickle, select, signal, struct, sys, time, traceback
from collections import Counter

from . import env, faults
from .core import Ctx, HarnessError, Violation, describe_exception, rng_of

WATCHDOG_S = 60.0        # wall time without progress before a run is examined for a hang
STEP_CAP = 120_000_000    # library jumps a single run may take (bounded progress)
KNOWN = os.path.join(env.VERIF, "known_findings.json")


class StepCap(BaseException):
    pass


# ---------------------------------------------------------------- one run

def execute_plan(world, plan, trace=False):
    """Runs one plan; returns (ctx, violation or None). Raises HarnessError."""
    ctx = Ctx()
    if trace:
        ctx.trace = []
    try:
        world.execute(plan, ctx)
        v = None
    except Violation as e:
        v = {"kind": e.kind, "message": e.message[:2000]}
    except HarnessError:
        raise
    except StepCap:
        v = {"kind": "no-progress", "message": "the run did not finish within %d steps of the library" % STEP_CAP}
    except Exception as e:  # the library returned or raised something no model step allows
        v = {"kind": "unexpected-" + type(e).__name__, "message": describe_exception(e) + " at " + _where(e)}
    if v is not None:
        ctx.log("VIOLATION", v["kind"])
    return ctx, v


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " < ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in reversed(tb[-4:]))


def install_step_cap(limit=STEP_CAP):
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "stepcap")
    left = [limit]

    def cb(code, a, b=None):
        if not env.is_svgio(code.co_filename):
            return mon.DISABLE
        left[0] -= 1
        if left[0] <= 0:
            left[0] = 1000
            raise StepCap()

    mon.register_callback(tool, mon.events.JUMP, cb)
    mon.register_callback(tool, mon.events.PY_START, lambda code, off: cb(code, off))
    mon.set_events(tool, mon.events.JUMP | mon.events.PY_START)


# ---------------------------------------------------------------- forked execution

def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


class Child:
    """A forked worker running a function that may send progress objects."""

    def __init__(self, fn, tag=None):
        self.tag = tag
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                os.setpgid(0, 0)
                fn(lambda obj: _send(w, obj))
            except BaseException:
                try:
                    _send(w, ("crash", traceback.format_exc()))
                except BaseException:
                    pass
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.pid, self.fd, self.buf = pid, r, b""
        self.messages = []
        self.last = time.monotonic()
        self.eof = False

    def pump(self):
        data = os.read(self.fd, 1 << 20)
        if not data:
            self.eof = True
            os.close(self.fd)
            os.waitpid(self.pid, 0)
            return
        self.last = time.monotonic()
        self.buf += data
        while len(self.buf) >= 8:
            (n,) = struct.unpack("<Q", self.buf[:8])
            if len(self.buf) < 8 + n:
                break
            self.messages.append(pickle.loads(self.buf[8:8 + n]))
            self.buf = self.buf[8 + n:]

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        if not self.eof:
            os.close(self.fd)
            self.eof = True
            os.waitpid(self.pid, 0)


def run_isolated(world, plans, timeout=WATCHDOG_S, step_cap=False, trace=False):
    """Executes plans one after another in one fresh fork of the pristine
    process; stops at the first violation. Returns (index, violation, digest,
    trace), violation None if all passed. None if it timed out."""

    def work(send):
        if step_cap:
            install_step_cap()
        for i, plan in enumerate(plans):
            try:
                ctx, v = execute_plan(world, plan, trace=trace)
            except HarnessError as e:
                send(("harness", i, str(e)))
                return
            send(("done", i, v, ctx.digest(), ctx.trace))
            if v is not None:
                return

    c = Child(work)
    deadline = timeout
    while not c.eof:
        r, _, _ = select.select([c.fd], [], [], 0.5)
        if r:
            c.pump()
        elif time.monotonic() - c.last > deadline:
            c.kill()
            return None
    last = None
    for m in c.messages:
        if m[0] == "crash":
            raise HarnessError("worker crashed: " + m[1])
        if m[0] == "harness":
            raise HarnessError(m[2])
        last = m
    if last is None:
        raise HarnessError("worker ended without a result")
    if last[2] is None and last[1] != len(plans) - 1:
        raise HarnessError("worker ended early")
    return last[1], last[2], last[3], last[4]


# ---------------------------------------------------------------- search

def plan_for(world, seed, index):
    return world.gen(rng_of(world.ID, seed, index))


def batch_work(world, seed, indices, send):
    agg = {"runs": 0, "ops": Counter(), "faults": Counter(), "steps": 0, "sigs": set(),
           "nontrivial": set(), "digests": [], "viol": None, "harness": None}
    gc.disable()
    gc.collect()
    gc.freeze()
    for i in indices:
        send(("at", i))
        plan = plan_for(world, seed, i)
        try:
            ctx, v = execute_plan(world, plan)
        except HarnessError as e:
            agg["harness"] = (i, str(e))
            break
        gc.collect() if agg["runs"] % 10 == 9 else None
        agg["runs"] += 1
        agg["ops"].update(ctx.ops)
        agg["faults"].update(ctx.faults)
        agg["steps"] += ctx.steps
        agg["sigs"] |= ctx.sigs
        if ctx.nontrivial:
            agg["nontrivial"].add(hashlib.blake2b(json.dumps(plan, sort_keys=True).encode(), digest_size=8).digest())
        agg["digests"].append((i, ctx.digest()))
        if v is not None:
            agg["viol"] = (i, v)
            break
    send(("batch", agg))


def search(world, seed, n_runs, jobs, first=0):
    batch = getattr(world, "BATCH", 25)
    todo = [list(range(a, min(a + batch, first + n_runs))) for a in range(first, first + n_runs, batch)]
    todo.reverse()
    total = {"runs": 0, "ops": Counter(), "faults": Counter(), "steps": 0, "sigs": set(), "nontrivial": set(), "digests": {}}
    violations, hangs = [], []
    live = []
    while todo or live:
        while todo and len(live) < jobs and not violations:
            idx = todo.pop()
            live.append(Child(lambda send, idx=idx: batch_work(world, seed, idx, send), tag=idx))
        if violations and not live:
            break
        r, _, _ = select.select([c.fd for c in live], [], [], 0.5)
        for c in list(live):
            if c.fd in r and not c.eof:
                c.pump()
                for m in c.messages:
                    if m[0] == "crash":
                        raise HarnessError("worker crashed: " + m[1])
                    if m[0] == "at":
                        c.at = m[1]
                    if m[0] == "batch":
                        a = m[1]
                        if a["harness"]:
                            raise HarnessError("run %d: %s" % a["harness"])
                        total["nontrivial"] |= a["nontrivial"]
                        for k in ("runs", "steps"):
                            total[k] += a[k]
                        total["ops"].update(a["ops"])
                        total["faults"].update(a["faults"])
                        total["sigs"] |= a["sigs"]
                        total["digests"].update(dict(a["digests"]))
                        if a["viol"]:
                            i, v = a["viol"]
                            violations.append((i, v, [j for j in c.tag if j <= i]))
                        c.finished = True
                c.messages = []
                if c.eof:
                    live.remove(c)
                    if not getattr(c, "finished", False):
                        # the worker died without a word (crash of the interpreter)
                        i = getattr(c, "at", c.tag[0])
                        violations.append((i, {"kind": "process-died", "message": "the process running the library died"}, [j for j in c.tag if j <= i]))
            elif not c.eof and time.monotonic() - c.last > WATCHDOG_S:
                c.kill()
                live.remove(c)
                i = getattr(c, "at", c.tag[0])
                if violations:
                    continue
                hangs.append(i)
                rest = [j for j in c.tag if j > i]
                res = run_isolated(world, [plan_for(world, seed, i)], timeout=400, step_cap=True)
                if res is None:
                    raise HarnessError("run %d neither finished nor reached the step bound" % i)
                if res[1] is not None:
                    violations.append((i, res[1], [i]))
                else:
                    total["runs"] += 1
                if rest:
                    todo.append(rest)
                for other in live:
                    other.last = time.monotonic()  # nobody listened in the meantime
    violations.sort(key=lambda x: x[0])
    return total, violations, hangs


# ---------------------------------------------------------------- minimisation

def ddmin(items, test, budget):
    """Classic list minimisation; `test(list)` says whether it still fails."""
    n = 2
    items = list(items)
    while len(items) >= 1 and budget.left():
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and budget.left():
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items


class Budget:
    def __init__(self, execs, seconds):
        self.execs, self.until = execs, time.monotonic() + seconds

    def left(self):
        return self.execs > 0 and time.monotonic() < self.until


def get_at(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def set_at(plan, path, value):
    plan = json.loads(json.dumps(plan))
    cur = plan
    for k in path[:-1]:
        cur = cur[k]
    cur[path[-1]] = value
    return plan


def list_paths(world, plan):
    """Paths of the lists of a plan that may be shortened."""
    keys = set(getattr(world, "SHRINK", ("ops", "faults")))
    out = []

    def walk(x, p):
        if isinstance(x, dict):
            for k in x:
                if k in keys and isinstance(x[k], list) and x[k]:
                    out.append(p + [k])
                walk(x[k], p + [k])
        elif isinstance(x, list):
            for i, y in enumerate(x):
                if isinstance(y, (dict, list)):
                    walk(y, p + [i])

    walk(plan, [])
    return out


def minimise(world, plans, kind, seconds=45, execs=500):
    """plans: list of plans run in one process, the last of which fails."""
    budget = Budget(execs, seconds)

    def fails(ps):
        if not ps:
            return False
        budget.execs -= 1
        try:
            res = run_isolated(world, ps, timeout=8)
        except HarnessError:
            return False
        return res is not None and res[1] is not None and res[1]["kind"] == kind

    if len(plans) > 1:
        head = ddmin(plans[:-1], lambda h: fails(h + plans[-1:]), budget)
        plans = head + plans[-1:]
    for which in range(len(plans) - 1, -1, -1):
        changed = True
        while changed and budget.left():
            changed = False
            done = set()
            while budget.left():
                paths = [p for p in list_paths(world, plans[which]) if json.dumps(p) not in done]
                if not paths:
                    break
                p = paths[0]
                done.add(json.dumps(p))
                cur = get_at(plans[which], p)
                new = ddmin(cur, lambda items: fails(plans[:which] + [set_at(plans[which], p, items)] + plans[which + 1:]), budget)
                if len(new) < len(cur):
                    plans = plans[:which] + [set_at(plans[which], p, new)] + plans[which + 1:]
                    changed = True
            for cand in getattr(world, "shrink", lambda plan: ())(plans[which]):
                if not budget.left():
                    break
                if fails(plans[:which] + [cand] + plans[which + 1:]):
                    plans = plans[:which] + [cand] + plans[which + 1:]
                    changed = True
                    break
    return plans


def write_replay(world, seed, plans, v, note, extra=None):
    os.makedirs(env.OUT, exist_ok=True)
    name = "%s-%s.json" % (world.ID, v["kind"].replace("/", "_")[:40])
    path = os.path.join(env.OUT, name)
    data = {"property": world.ID, "seed": seed, "kind": v["kind"], "message": v["message"], "note": note, "plans": plans}
    data.update(extra or {})
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def replay(world, path):
    """Re-executes a replay file in a fresh fork; prints what happens."""
    data = json.load(open(path))
    res = run_isolated(world, data["plans"], timeout=400, step_cap=data["kind"] == "no-progress", trace=True)
    if res is None:
        print("replay: no result")
        return 2
    i, v, digest, trace = res
    for line in trace or ():
        print("  " + line[:400])
    if v is None:
        print("replay: the property held; the failure did not occur")
        return 0
    print("replay: run %d of %d: %s: %s" % (i + 1, len(data["plans"]), v["kind"], v["message"]))
    if "digest" in data:
        print("replay: execution %s the recorded one" % ("is identical to" if digest == data["digest"] else "DIFFERS from"))
    print("VIOLATION property=%s replay=%s" % (world.ID, path))
    return 1


# ---------------------------------------------------------------- a whole check

def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    return [e for e in json.load(open(KNOWN))["findings"] if e.get("property") == pid and e.get("status") == "known"]


def is_known(known, v):
    for e in known:
        m = e["match"]
        if v["kind"] == m["kind"] and m.get("contains", "") in v["message"]:
            return e
    return None


def run_check(world, tier, seed):
    t0 = time.monotonic()
    jobs = max(1, min(8, os.cpu_count() or 1))
    n = world.RUNS[tier]
    scale = float(os.environ.get("SIM_SCALE", "1"))
    n = max(1, int(n * scale))
    known = load_known(world.ID)
    status = 0
    # known findings: shown by their own probe, nothing else
    for e in known:
        res = run_isolated(world, e["plans"])
        if res is not None and res[1] is not None and is_known([e], res[1]):
            print("KNOWN-FINDING: property=%s %s" % (world.ID, e["what"]))
    total, violations, hangs = search(world, seed, n, jobs)
    search_s = time.monotonic() - t0
    fresh = [x for x in violations if not is_known(known, x[1])]
    reported = []
    seen = set()
    for i, v, upto in fresh:
        if v["kind"] in seen or len(reported) >= 3:
            continue
        seen.add(v["kind"])
        status = 1
        print("run %d (seed %d): %s: %s" % (i, seed, v["kind"], v["message"][:600]))
        plans = [plan_for(world, seed, i)]
        note = "minimised"
        cap = v["kind"] == "no-progress"
        if v["kind"] in ("process-died", "no-progress"):
            note = "not minimised"
        else:
            res = run_isolated(world, plans, step_cap=cap)
            if res is None or res[1] is None or res[1]["kind"] != v["kind"]:
                if res is not None and res[1] is not None:
                    v = res[1]
                else:  # needs what ran before it in the same process
                    plans = [plan_for(world, seed, j) for j in upto]
                    res = run_isolated(world, plans)
                    if res is None or res[1] is None:
                        note = "did not recur in isolation; all runs of its process recorded"
            if not note.startswith("did not"):
                plans = minimise(world, plans, v["kind"])
        extra = {}
        if v["kind"] != "process-died":
            try:
                res = run_isolated(world, plans, step_cap=cap, timeout=400 if cap else 120)
                if res is not None and res[1] is not None:
                    extra["digest"] = res[2]
                    v = res[1]
            except HarnessError:
                pass
        path = write_replay(world, seed, plans, v, note, extra)
        print("minimised to %s" % json.dumps(plans)[:1500])
        print("%s: %s" % (v["kind"], v["message"][:600]))
        print("VIOLATION property=%s replay=%s" % (world.ID, path))
        reported.append({"run": i, "kind": v["kind"], "message": v["message"][:400], "replay": path})
    # repeatability of the simulation itself: same seeds again in other processes
    repeat = {"runs": 0, "differing": 0}
    if status == 0:
        m = min(n, world.REPEAT if hasattr(world, "REPEAT") else 40)
        again, v2, _ = search(world, seed, m, jobs)
        for i, d in again["digests"].items():
            repeat["runs"] += 1
            if total["digests"].get(i) != d:
                repeat["differing"] += 1
    wall = time.monotonic() - t0
    faults.remove_leftovers()
    samples = []
    for i in (0, 1):
        if i < n:
            s = json.dumps(plan_for(world, seed, i))
            samples.append(json.loads(s) if len(s) < 1500 else s[:1500] + "...")
    missing = [k for k in getattr(world, "EXPECT_FAULTS", ()) if total["faults"].get(k, 0) == 0]
    cov = {
        "evaluations": total["runs"],
        "distinct_nontrivial": len(total["sigs"]) if getattr(world, "NONTRIVIAL_BY_SIG", False) else len(total["nontrivial"]),
        "rule": world.RULE,
        "samples": samples,
        "seeds": {"base": seed, "runs": "seed(%s, base, 0..%d)" % (world.ID, n - 1)},
        "runs_per_hour": int(total["runs"] / max(search_s, 1e-6) * 3600),
        "simulated_steps": total["steps"],
        "simulated_time": "logical: %d operations and scheduling points (the library reads no clock and sets no timer)" % total["steps"],
        "faults_injected": dict(sorted(total["faults"].items())),
        "fault_kinds_never_fired": missing,
        "operations": dict(sorted(total["ops"].items())),
        "distinct_states_or_interleavings": len(total["sigs"]),
        "distinct_measure": world.MEASURE,
        "components_real": world.REAL,
        "components_stubbed": world.STUB,
        "repeatability": repeat,
        "slow_runs_reexamined": len(hangs),
        "known_findings": [e["what"] for e in known],
    }
    ev = {"property": world.ID, "tier": tier, "seed": seed, "level": world.LEVEL, "coverage": cov,
          "assumptions": world.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": reported}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", world.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d steps, %d distinct, faults %s, %.1fs%s" % (
        world.ID, tier, total["runs"], total["steps"], len(total["sigs"]),
        dict(total["faults"].most_common(6)), wall,
        "" if not repeat["differing"] else "; %d runs not repeatable" % repeat["differing"]))
    return status
