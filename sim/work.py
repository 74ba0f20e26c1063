"""Client programs on objects of their own: generated as plain data, executed
step by step, leaving a transcript of everything they saw."""
import io
import os
import tempfile

from . import docgen, env, faults, pathops, queries as Q, treeops, values
from .core import Ctx, Violation, weighted

COPYABLE = ["path", "path", "seg", "matrix", "color", "point", "length", "viewbox", "angle"]


# ---------------------------------------------------------------- generation

def gen_program(rng, origs):
    """One client's list of works."""
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = weighted(rng, [("tree", 3), ("path", 2.5), ("value", 3), ("copy", 3 if origs else 0)])
        out.append(globals()["gen_" + k](rng, origs))
    return {"items": out}


def gen_tree(rng, origs):
    g = treeops.OpGen(rng, docroots=True)
    doc = docgen.gen_doc(rng, size=rng.choice([1, 4, 10]))
    for e, _ in docgen.preorder(doc):
        for a in e["a"]:
            if a[0] in ("fill", "stroke"):
                a[1] = rng.choice(treeops.PAINTS)
    style = docgen.gen_style(rng)
    text, data = docgen.render(doc, dict(style))
    ops = []
    for _ in range(rng.choice([1, 3, 8])):
        x = rng.random()
        if x < 0.35:
            ops.append(dict(Q.gen_query(rng, "doc"), op="ask"))
        elif x < 0.5:
            ops.append({"op": "save"})
        else:
            ops.append(g.op())
    fault = {"kind": rng.choice(["oserror", "kbd", "value", "memory", "bare"]), "at": rng.choice([0, 1, 2, 4])} if rng.random() < 0.15 else None
    return {"w": "tree", "doc": doc, "style": style, "chunks": faults.gen_chunks(rng, len(data)), "fault": fault,
            "start": rng.choice(["stream", "stream", "file", "build"]), "ops": ops}


def gen_path(rng, origs):
    def extra(rng, g):
        return {"op": "ask", "q": dict(Q.gen_query(rng, "path"))} if rng.random() < 0.4 else None
    return dict(pathops.gen_history(rng, rng.choice([2, 5, 12]), span=10, extra=extra), w="path")


def gen_steps(rng, kind):
    ops = []
    for _ in range(rng.choice([1, 2, 5, 9])):
        ops.append(values.gen_edit(rng, kind) if rng.random() < 0.6 else Q.gen_query(rng, kind))
    return ops


def gen_value(rng, origs):
    o = Q.gen_object(rng, rng.choice(["color", "matrix", "length", "viewbox", "point", "angle", "seg", "path"]), size=rng.choice([2, 5]))
    return {"w": "value", "obj": o, "ops": gen_steps(rng, o["t"])}


def gen_copy(rng, origs):
    i = rng.randrange(len(origs))
    k = origs[i]["t"]
    return {"w": "copy", "orig": i, "how": rng.randrange(len(values.COPIES[k])), "ops": gen_steps(rng, k)}


def gen_orig(rng):
    return Q.gen_object(rng, rng.choice(COPYABLE), size=rng.choice([2, 4, 8]))


# ---------------------------------------------------------------- execution

class Worker:
    def __init__(self, program, origs, scratch, name):
        self.items, self.origs, self.scratch, self.name = program["items"], origs, scratch, name
        self.ctx = Ctx()
        self.log = []
        self.doing = None
        self.keep = []     # everything lives as long as the client

    def program(self):
        for k, it in enumerate(self.items):
            try:
                for _ in getattr(self, "do_" + it["w"])(it):
                    yield
            except Violation as e:
                self.log.append(["violation", e.kind])
            except Exception as e:
                self.log.append(["raised", type(e).__name__])
            self.doing = None
            yield

    def all(self):
        for _ in self.program():
            pass

    def file(self):
        return os.path.join(self.scratch, self.name + ".svg")

    # ------------------------------------------------------------ works

    def do_tree(self, it):
        N = env.nodes
        text, data = docgen.render(it["doc"], dict(it["style"]))
        self.doing = "load"
        if it["start"] == "build":
            doc = N.Document()
            root = treeops.build_root(doc, [["id", "root"], ["fill", "red"]])
        else:
            doc = N.Document()
            if it["fault"]:
                src = faults.SimStream(data, it["chunks"], it["fault"], None, self.ctx)
                failed = N.Document()
                try:
                    failed.parse(src)
                    self.log.append("loaded")
                except BaseException as e:
                    if not src.fired:
                        raise
                    self.log.append(["failed", type(e).__name__])
                self.log.append(Q.state(failed))
                self.keep.append(failed)
                yield
            if it["start"] == "file":
                with open(self.file(), "wb") as f:
                    f.write(data)
                doc = N.Document(self.file())
            else:
                doc.parse(faults.SimStream(data, it["chunks"], None, None, self.ctx))
            root = treeops.from_plain(it["doc"])
            treeops.bind(root, doc[0])
        self.keep.append(doc)
        self.log.append(Q.state(doc))
        yield
        tree = treeops.Tree(doc, [root], self.ctx)
        for o in it["ops"]:
            self.doing = o["op"]
            if o["op"] == "ask":
                self.ctx.op("ask doc")
                self.log.append(Q.ask(doc, Q.Bag(doc), "doc", o))
            elif o["op"] == "save":
                self.ctx.op("save")
                try:
                    doc.write(self.file())
                    with open(self.file(), "rb") as f:
                        self.log.append(f.read())
                except Exception as e:
                    self.log.append(["raised", type(e).__name__])
            else:
                self.log.append(len(tree.apply(o)))
            yield
        self.log.append(Q.state(doc))

    def do_path(self, it):
        self.doing = "build"
        sim = pathops.PathSim(it["init"], self.ctx)
        self.keep.append(sim)
        yield
        for o in it["ops"]:
            self.doing = o["op"]
            if o["op"] == "ask":
                self.ctx.op("ask path")
                if len(sim.p):
                    self.log.append(Q.ask(sim.p, Q.Bag(sim.p), "path", o["q"]))
            else:
                self.log.append(bool(sim.apply(o, o["op"])))
                self.log.append(Q.canon(sim.p))
            yield
        pathops.compare(sim.p, sim.m, "at the end")
        sim.check_others("at the end")
        self.log.append(Q.state(sim.p))

    def steps(self, v, kind, ops):
        self.keep.append(v)
        self.log.append(Q.state(v))
        yield
        for o in ops:
            if "v" in o:
                self.doing = o["v"]
                self.ctx.op("edit " + kind)
                v, e = values.edit(v, kind, o)
                self.log.append([e, Q.canon(v)])
            else:
                self.doing = o["q"]
                self.ctx.op("ask " + kind)
                self.log.append(Q.ask(v, Q.Bag(v), kind, o))
            yield
        self.log.append(Q.state(v))

    def do_value(self, it):
        self.doing = "build"
        yield from self.steps(Q.build(it["obj"]), it["obj"]["t"], it["ops"])

    def do_copy(self, it):
        self.doing = "copy"
        v, spec = self.origs[it["orig"]]
        c = values.COPIES[spec["t"]][it["how"] % len(values.COPIES[spec["t"]])](v)
        self.log.append(c is v)
        yield from self.steps(c, spec["t"], it["ops"])


def scratch_dir():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix=faults.PREFIX, dir=base)


def solo(request):
    """One client alone in this (fresh) process: its transcript."""
    import shutil
    d = scratch_dir()
    try:
        w = Worker(request["client"], [(Q.build(o), o) for o in request["origs"]], d, "solo")
        w.all()
        return w.log
    finally:
        shutil.rmtree(d, ignore_errors=True)
