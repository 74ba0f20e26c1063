"""C03: saving writes the whole document or reports the failure."""
import gc, io, os
import xml.etree.ElementTree as ET

from .. import docgen, env, faults
from ..core import Violation, check, weighted, describe_exception

ID = "C03"
LEVEL = "fault_enumeration"
RUNS = {"quick": 5000, "thorough": 90000}
BATCH = 50
SHRINK = ("c", "a", "steps", "faults")
RULE = ("a run loads a generated document, gives it values of many types, then saves it 1-6 times to one or two targets, each save under a seeded disk "
        "(errors at byte offsets, sticky or not, short writes, failing open/close/rename, real file size limits and full devices, platform encodings) or with "
        "values that cannot be serialised, with edits in between, and finally saves without faults; non-trivial: at least one fault fired or one save was refused")
MEASURE = "distinct (fault kinds fired, outcome, existed before, encoding, relative offset class) combinations"
REAL = ["svgio.nodes.Document.write and serialisation", "buffered and text file objects", "the scratch file system, RLIMIT_FSIZE and /dev/full"]
STUB = ["raw file (FaultyRaw: planned write, close and open failures)", "os.replace/os.rename failures", "the platform's default text encoding"]
ASSUMPTIONS = ["what a raw write returned as written is in the file", "the standard XML parser decides what is well-formed"]
EXPECT_FAULTS = ("ENOSPC", "EIO", "EDQUOT", "kbd", "short-write", "close-error", "open-EACCES", "open-EMFILE", "unserialisable", "file-size-limit", "full-device", "missing-parent", "target-is-directory")

HARD = ("close-error",)


class Unprintable:
    def __init__(self, exc):
        self.exc = exc

    def __str__(self):
        raise self.exc("simulated")
    __repr__ = object.__repr__


def make_value(spec):
    k, v = spec
    if k == "str":
        return v
    if k == "num":
        return v
    if k == "color":
        return env.basic.Color(v)
    if k == "length":
        return env.basic.Length(v)
    if k == "matrix":
        return env.basic.Matrix(v)
    if k == "surrogate":
        return "a\ud800b"
    if k == "nul":
        return "a\x00b"
    if k == "ctl":
        return "\x0b"
    if k == "fffe":
        return "\ufffe"
    if k == "raise":
        return Unprintable(ValueError)
    if k == "kbd":
        return Unprintable(KeyboardInterrupt)
    raise AssertionError(k)


BADKINDS = ("surrogate", "nul", "ctl", "fffe", "raise", "kbd", "name")


def gen_step(rng):
    s = {"op": "write", "to": rng.choice(["a.svg", "a.svg", "a.svg", "b.svg"]), "path": rng.choice(["str", "str", "pathlike", "bytes"]),
         "faults": [], "short": rng.choice([0, 0, 0, 1, 7, 100, 4096]),
         "enc": weighted(rng, [(None, 4), ("cp1252", 2), ("ascii", 2), ("utf-16", 1), ("cp932", 1), ("latin-1", 1)])}
    k = weighted(rng, [("none", 3), ("write", 8), ("open", 2), ("close", 2), ("value", 4), ("real", 2), ("rename", 0.5), ("roots", 0.7)])
    if k == "write":
        # offset as a fraction of the document's size (resolved when executed)
        s["faults"].append({"op": "write", "kind": weighted(rng, [("ENOSPC", 3), ("EIO", 2), ("EDQUOT", 1), ("EFBIG", 1), ("EINTR", 1), ("kbd", 2), ("memory", 0.5)]),
                            "frac": rng.choice([0.0, 0.0, 1.0, rng.random(), rng.random()]), "sticky": rng.random() < 0.6})
        if rng.random() < 0.2:
            s["faults"].append({"op": "close", "kind": "EIO"})
    elif k == "open":
        s["faults"].append({"op": "open", "kind": rng.choice(["EACCES", "EMFILE", "EROFS", "ENOSPC"])})
    elif k == "close":
        s["faults"].append({"op": "close", "kind": "EIO"})
    elif k == "rename":
        s["faults"].append({"op": rng.choice(["replace", "rename"]), "kind": rng.choice(["EACCES", "ENOSPC"])})
    elif k == "value":
        s["value"] = [rng.choice(BADKINDS), rng.random()]
    elif k == "real":
        s["real"] = rng.choice(["limit", "limit", "full", "parent", "directory"])
        s["frac"] = rng.random()
    elif k == "roots":
        s["roots"] = rng.choice(["add", "none"])
    return s


def gen(rng):
    big = rng.random() < 0.3
    doc = docgen.gen_doc(rng, big=big, size=rng.choice([200, 400]) if big and rng.random() < 0.4 else None, wide=rng.random() < 0.01)
    steps = []
    for _ in range(weighted(rng, [(1, 4), (2, 3), (4, 2), (6, 1)])):
        if rng.random() < 0.3:
            steps.append({"op": rng.choice(["shrink", "attr", "attr"]), "at": rng.random(), "v": rng.choice(docgen.WORDS)})
        steps.append(gen_step(rng))
    values = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        values.append([rng.random(), rng.choice(["x", "data-v", "fill", "width", "\u540d"]),
                       rng.choice([["num", 3], ["num", 0.125], ["num", 1e-9], ["color", "#10203040"], ["color", "red"], ["length", "2.5cm"],
                                   ["matrix", "rotate(30) scale(2)"], ["str", "\u00e9\u4e2d\U0001F600"], ["num", True], ["num", None]])])
    return {"doc": doc, "style": docgen.gen_style(rng), "values": values, "steps": steps, "xmlns": rng.random() < 0.15, "xlink": rng.random() < 0.15,
            "final": {"to": "a.svg", "enc": weighted(rng, [(None, 2), ("cp1252", 1), ("ascii", 1)])}}


def set_attr(e, k, v):
    for a in e["a"]:
        if a[0] == k:
            a[1] = v
            return
    e["a"].append([k, v])


def state(doc):
    return docgen.snapshot(doc), [docgen.real_preorder([doc]).__len__()]


def read_file(disk, name):
    with disk._real_open(name, "rb") as f:
        return f.read()


def check_file(disk, name, model, where):
    data = read_file(disk, name)
    try:
        tree = ET.fromstring(data)
        got = docgen.et_to_model(tree)
    except Exception as e:
        raise Violation("not-well-formed", "%s: returned normally but the file (%d bytes) does not parse: %s; it ends with %r" % (where, len(data), e, data[-60:]))
    docgen.compare_models(got, model, where + " (file)")
    check(model["t"] != "svg" or tree.tag == "{%s}svg" % docgen.SVG_NS, "namespace", "%s: the file's root is %r, which is no SVG element", where, tree.tag)
    return len(data)


def execute(plan, ctx):
    disk = faults.SimDisk(ctx)
    try:
        with disk:
            model = plan["doc"]
            model = docgen.copy_model(model)
            doc = env.nodes.Document(io.BytesIO(docgen.render(model, plan["style"])[1]))
            if plan["xmlns"]:
                doc[0].attributes["xmlns"] = docgen.SVG_NS
            if plan["xlink"]:
                doc[0].attributes["xmlns:xlink"] = "http://www.w3.org/1999/xlink"
            pairs = list(zip([n for n, _ in docgen.real_preorder([doc[0]])], [e for e, _ in docgen.preorder(model)]))
            for frac, k, spec in plan["values"]:
                n, e = pairs[int(frac * len(pairs))]
                v = make_value(spec)
                n.attributes[k] = v
                set_attr(e, k, str(v))
            size = [len(docgen.render(model, plan["style"])[1])]
            for si, s in enumerate(plan["steps"] + [dict(plan["final"], op="write", path="str", faults=[], short=0)]):
                if s["op"] == "attr":
                    pairs = list(zip([n for n, _ in docgen.real_preorder([doc[0]])], [e for e, _ in docgen.preorder(model)]))
                    n, e = pairs[int(s["at"] * len(pairs))]
                    n.attributes["data-e"] = s["v"]
                    set_attr(e, "data-e", s["v"])
                    ctx.op("edit")
                elif s["op"] == "shrink":
                    if len(doc[0]):
                        i = int(s["at"] * len(doc[0]))
                        del doc[0][i]
                        del model["c"][i]
                        ctx.op("edit")
                else:
                    save(disk, doc, model, s, si, size, ctx)
    finally:
        disk.dispose()


def save(disk, doc, model, s, si, size, ctx):
    where = "save %d to %s" % (si, s["to"])
    target = disk.path(s["to"])
    undo = None
    bad = s.get("value")
    if bad:
        pairs = [n for n, _ in docgen.real_preorder([doc[0]])]
        n = pairs[int(bad[1] * len(pairs))]
        key, value = ("a b", "1") if bad[0] == "name" else ("data-bad", make_value([bad[0], None]))
        n.attributes[key] = value
        undo = lambda: n.attributes.pop(key)
        ctx.fault("unserialisable")
    roots = s.get("roots")
    held = None
    if roots == "add":
        doc.svg()
        ctx.fault("several-roots")
    elif roots == "none":
        held = doc[0]
        del doc[0]
        ctx.fault("no-root")
    existed = os.path.exists(target)
    old = read_file(disk, target) if existed else None
    fl = []
    for f in s["faults"]:
        f = dict(f)
        if "frac" in f:
            f["at"] = int(f.pop("frac") * (size[0] - 1))
        fl.append(f)
    real = s.get("real")
    limit = None
    link = None
    if real == "limit":
        limit = int(s["frac"] * size[0])
        ctx.fault("file-size-limit")
    elif real == "full":
        target = link = disk.path("full.svg")
        if not os.path.lexists(link):
            os.symlink("/dev/full", link)
        ctx.fault("full-device")
    elif real == "parent":
        target = disk.path("nodir/x.svg")
        ctx.fault("missing-parent")
    elif real == "directory":
        target = disk.path("dir.svg")
        os.makedirs(target, exist_ok=True)
        ctx.fault("target-is-directory")
    arg = target
    if s["path"] == "pathlike":
        import pathlib
        arg = pathlib.Path(target)
    elif s["path"] == "bytes":
        arg = os.fsencode(target)
    disk.reset(faults=fl, short=s["short"] and max(s["short"], size[0] // 200), encoding=s["enc"])
    before = docgen.snapshot(doc)
    exc = caught = None
    try:
        if limit is not None:
            with faults.file_size_limit(limit):
                doc.write(arg)
        else:
            doc.write(arg)
    except Violation:
        raise
    except BaseException as e:
        exc, caught = (type(e), describe_exception(e)), e
    # also while whoever called handles the failure
    check(disk.all_closed() and not disk.open_fds(), "file-left-open", "%s: the file was left open (%s)", where, exc and exc[1])
    caught = None
    gc.collect()
    fired = [k for k in disk.fired if k not in ("short-write",)]
    check(docgen.snapshot(doc) == before, "document-changed", "%s: the save changed the document", where)
    refused = bool(bad) or bool(roots)
    if exc is None:
        check(not refused, "failure-not-reported", "%s: the document cannot be written (%s) but the save returned normally", where, bad or roots)
        if real == "full" and not os.path.islink(target):
            link = None  # replaced as a whole: the file is judged below
            ctx.fault("device-replaced")
        check(real not in ("parent", "directory") and link is None, "failure-not-reported", "%s: the target cannot be written (%s) but the save returned normally", where, real)
        for k in HARD:
            check(k not in fired, "failure-not-reported", "%s: %s was not reported", where, k)
        size[0] = max(2, check_file(disk, target, model, where))
    else:
        check(fired or refused or real, "unexpected-error", "%s: nothing was wrong but the save raised %s", where, exc[1])
        if fired == ["kbd"] * len(fired) and fired or (not fired and bad and bad[0] == "kbd"):
            check(issubclass(exc[0], KeyboardInterrupt), "interrupt-changed", "%s: a KeyboardInterrupt arrived as %s", where, exc[1])
        else:
            check(issubclass(exc[0], Exception), "unexpected-interrupt", "%s: raised %s", where, exc[1])
        if refused or any(k.startswith("open-") for k in fired):
            now = read_file(disk, target) if os.path.isfile(target) and not os.path.islink(target) else None
            if link is None and real is None:
                check(now == old, "old-file-damaged", "%s: the save failed before writing (%s) but the existing file changed from %s to %s bytes",
                      where, exc[1], len(old) if old is not None else "no", len(now) if now is not None else "no")
            ctx.nontrivial = True
        ctx.nontrivial = True
        # once the fault is gone the same save works
        if not refused and real is None and len(fired) and si % 2:
            disk.reset(encoding=s["enc"])
            doc.write(arg)
            check_file(disk, target, model, where + " (repeated)")
    if real == "full" and os.path.lexists(target) and not os.path.islink(target):
        os.unlink(target)
    if undo:
        undo()
    if roots == "add":
        del doc[-1]
    elif roots == "none":
        doc.append(held)
    disk.reset()
    ctx.op("save-failed" if exc is not None else "save")
    at = [min(9, int(10 * f.get("at", 0) / max(1, size[0]))) for f in fl]
    ctx.sig(sorted(set(fired)), exc and exc[0].__name__, existed, s["enc"], at, real, bad and bad[0], roots, min(9, size[0] // 2000))
    ctx.log(where, fired, exc and exc[0].__name__, size[0])
