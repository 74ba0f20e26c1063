"""C04: edit, save and reopen histories lose nothing."""
import io, os
import xml.etree.ElementTree as ET

from .. import docgen, env, faults, treeops
from ..core import Violation, check, weighted, describe_exception
from . import c03

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 70000}
BATCH = 40
SHRINK = ("ops", "c", "a", "attrs", "chunks", "faults")
RULE = ("a run starts from a built or loaded document and performs 4-40 steps: edits, saves (under disk faults, then repeated), text exports, restarts that keep "
        "only the saved file, reopenings in every way; each reopened document is compared with the model of what was saved and saved again; "
        "non-trivial: at least one reopening after at least two edits")
MEASURE = "distinct (edit kinds since the last reopening, way of reopening, element names at the root, saves failed) combinations"
REAL = ["svgio.nodes builders, list operations, serialisation, Document.write, load", "xml.etree", "the scratch file system"]
STUB = ["raw file (planned write, close and open failures)", "fragment sources (SimStream)", "the platform's default text encoding"]
ASSUMPTIONS = ["a restart keeps exactly what the last successful save wrote", "names and values are legal in XML"]
EXPECT_FAULTS = ("restart", "ENOSPC", "fragment-failed", "short-write")


def gen(rng):
    g = treeops.OpGen(rng, orphans=True)
    start = rng.choice(["build", "load", "load"])
    plan = {"start": start, "root": weighted(rng, [("svg", 8), ("g", 1), ("text", 0.5)])}
    if start == "load":
        plan["doc"], plan["style"] = docgen.gen_doc(rng, size=rng.choice([1, 6, 20, 50]), big=rng.random() < 0.05), docgen.gen_style(rng)
    else:
        plan["attrs"] = []
        for _ in range(rng.choice([0, 1, 3])):
            k, v = treeops.gen_attr(rng)
            plan["attrs"].append([k, v])
    ops = []
    for _ in range(rng.choice([4, 10, 20, 40])):
        r = rng.random()
        if r < 0.22:
            s = c03.gen_step(rng)
            s = {k: s[k] for k in ("faults", "short", "enc", "path")}
            s["op"] = "save"
            s["repeat"] = rng.choice([1, 1, 2])
            ops.append(s)
        elif r < 0.4:
            ops.append({"op": "reopen", "how": weighted(rng, [("restart", 4), ("text", 2), ("read", 1), ("stream", 1)]), "enc": rng.choice([None, "cp1252", "ascii"]),
                        "chunk": rng.choice([1, 7, 100, 16384])})
        else:
            ops.append(g.op())
    ops.append({"op": "save", "faults": [], "short": 0, "enc": None, "path": "str", "repeat": 1})
    ops.append({"op": "reopen", "how": "restart", "enc": None, "chunk": 16384})
    plan["ops"] = ops
    return plan


class World:
    def __init__(self, plan, ctx, disk):
        self.ctx, self.disk = ctx, disk
        if plan["start"] == "load":
            doc = env.nodes.Document(io.BytesIO(docgen.render(plan["doc"], plan["style"])[1]))
            root = treeops.from_plain(plan["doc"])
            treeops.bind(root, doc[0])
        else:
            doc = env.nodes.Document()
            root = treeops.build_root(doc, plan["attrs"], plan["root"])
        self.tree = treeops.Tree(doc, [root], ctx)
        self.saved = None          # model of what the file holds
        self.file = disk.path("doc.svg")
        self.since = []
        self.size = 200
        self.failed = 0
        self.edits = 0
        self.reopened = 0

    def write(self, s, where, faulty):
        doc = self.tree.doc
        fl = []
        if faulty:
            for f in s["faults"]:
                f = dict(f)
                if "frac" in f:
                    f["at"] = int(f.pop("frac") * (self.size - 1))
                fl.append(f)
        self.disk.reset(faults=fl, short=s["short"] and max(s["short"], self.size // 100), encoding=s["enc"])
        arg = self.file
        if s["path"] == "pathlike":
            import pathlib
            arg = pathlib.Path(arg)
        elif s["path"] == "bytes":
            arg = os.fsencode(arg)
        before, text = docgen.snapshot(doc), str(doc[0])
        exc = None
        try:
            doc.write(arg)
        except Violation:
            raise
        except BaseException as e:
            if not [k for k in self.disk.fired if k != "short-write"]:
                raise Violation("unexpected-error", "%s raised %s" % (where, describe_exception(e)))
            exc = e
        check(docgen.snapshot(doc) == before and str(doc[0]) == text, "document-changed", "%s changed the document", where)
        self.disk.reset()
        return exc is None

    def save(self, s, where):
        ok = self.write(s, where, True)
        if not ok:
            # the file is in doubt until the repeated save succeeds
            self.failed += 1
            for _ in range(s["repeat"]):
                self.write(s, where + " (repeated)", False)
        self.saved = self.tree.docm.c[0].plain()
        self.size = os.path.getsize(self.file)
        self.ctx.op("save")

    def reopen(self, o, where):
        how = o["how"]
        self.disk.reset(encoding=o["enc"], read_chunk=o["chunk"] if self.size // o["chunk"] < 3000 else 4096)
        if how == "text":
            model = self.tree.docm.c[0].plain()
            doc = env.nodes.Document(io.StringIO(str(self.tree.doc[0])))
        else:
            if self.saved is None:
                return
            model = self.saved
            self.ctx.fault("restart")
            if how == "restart":
                doc = env.nodes.Document(self.file)
            elif how == "read":
                doc = env.nodes.Document()
                doc.read(self.file)
            else:
                with self.disk._real_open(self.file, "rb") as f:
                    data = f.read()
                doc = env.nodes.Document()
                doc.parse(faults.SimStream(data, [max(o["chunk"], len(data) // 3000)], None, None, self.ctx))
        self.disk.reset()
        check(len(doc) == 1, "roots", "%s: %d roots", where, len(doc))
        model["l"] = None
        self.compare(doc, model, where)
        # saving the reopened document again gives an equal document
        again = self.disk.path("again.svg")
        self.disk.reset(encoding=o["enc"])
        doc.write(again)
        self.disk.reset()
        with self.disk._real_open(again, "rb") as f:
            data = f.read()
        try:
            got = docgen.et_to_model(ET.fromstring(data))
        except Exception as e:
            raise Violation("not-well-formed", "%s: the document saved again does not parse: %s" % (where, e))
        docgen.compare_models(got, model, where + " (saved again)")
        root = treeops.from_plain(model)
        treeops.bind(root, doc[0])
        self.tree = treeops.Tree(doc, [root], self.ctx)
        self.ctx.op("reopen-" + how)
        self.ctx.sig(",".join(sorted(set(self.since))), how, model["t"], ",".join(sorted({c["t"] for c in model["c"]})), min(self.failed, 3))
        self.since = []
        self.reopened += 1
        if self.edits >= 2:
            self.ctx.nontrivial = True
        if how != "text":
            self.saved = docgen.copy_model(model)

    def compare(self, doc, model, where):
        docgen.check_prefix(list(list.__iter__(doc)), model, where, complete=True)
        docgen.compare_models(docgen.model_of_text(str(doc[0])), model, where)


def execute(plan, ctx):
    disk = faults.SimDisk(ctx)
    try:
        with disk:
            w = World(plan, ctx, disk)
            for i, o in enumerate(plan["ops"]):
                where = "step %d (%s)" % (i, o["op"] + ("-" + o["how"] if o["op"] == "reopen" else ""))
                if o["op"] == "save":
                    w.save(o, where)
                elif o["op"] == "reopen":
                    w.reopen(o, where)
                else:
                    w.tree.apply(o)
                    w.since.append(o["op"])
                    w.edits += 1
                ctx.log(where, len(w.tree.elements()))
            w.tree.check_structure("at the end")
    finally:
        disk.dispose()
