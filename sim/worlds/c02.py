"""C02: a failed load is reported and leaves a consistent prefix."""
import gc, os
import xml.etree.ElementTree as ET

from .. import docgen, env, faults
from ..core import Violation, check, weighted, describe_exception

ID = "C02"
LEVEL = "fault_enumeration"
RUNS = {"quick": 5000, "thorough": 90000}
BATCH = 50
SHRINK = ("c", "a", "attempts", "chunks")
RULE = ("a run performs 1-4 loads into one document (Document, parse, read, fragment into an element), each with its own generated source and at most "
        "one planned failure (read error, interruption or early end at read k, corrupted bytes at a seeded position, missing or unopenable file), then a "
        "clean load, edits and a save; non-trivial: at least one failure fired after at least one element had been delivered")
MEASURE = "distinct (source kind, entry point, failure kind, elements attached before the failure, attempt number) combinations"
REAL = ["svgio.nodes load, edit, serialise, save", "xml.etree iterparse / expat", "file objects over scratch files"]
STUB = ["byte and character sources (SimStream with planned failures)", "open() and raw reads of scratch files (planned failures)"]
ASSUMPTIONS = ["expat's own event stream over the delivered bytes decides what is well-formed"]
EXPECT_FAULTS = ("read-oserror", "read-kbd", "read-exit", "read-eof", "read-memory", "cut", "garbage", "open-EMFILE", "open-EACCES", "missing-file", "directory")

GARBAGE = ["<", "&", "</x>", "&nosuch;", "<a", "]]>", "\x01", '"', ">", "</g>", "<svg>", "&#0;", "<!", "<?", "--", "=", "<g a=\"1\" a=\"2\"/>", "<q:z/>", "/"]
BADBYTES = ["ff", "c0af", "ed a0 80".replace(" ", ""), "fe", "80", "00", "d800"]


def gen_corrupt(rng):
    k = weighted(rng, [("cut", 4), ("garbage", 4), ("bytes", 2), ("delete", 2), ("swap", 1)])
    return {"kind": k, "at": rng.random(), "len": rng.choice([1, 1, 2, 5, 20]),
            "text": rng.choice(GARBAGE), "hex": rng.choice(BADBYTES)}


def gen_attempt(rng):
    doc = docgen.gen_doc(rng, texts=rng.random() < 0.5)
    style = docgen.gen_style(rng)
    text, data = docgen.render(doc, style)
    a = {"doc": doc, "style": style, "src": weighted(rng, [("stream", 7), ("textstream", 2), ("file", 4), ("pathlike", 1)]),
         "via": weighted(rng, [("Document", 1), ("parse", 4), ("read", 2), ("node", 3)]),
         "chunks": faults.gen_chunks(rng, len(data)), "watch": rng.random() < 0.3, "corrupt": None, "fault": None, "open": None}
    k = weighted(rng, [("fault", 5), ("corrupt", 5), ("open", 1), ("none", 2)])
    if k == "corrupt":
        a["corrupt"] = gen_corrupt(rng)
    elif k == "fault":
        n = max(1, len(data) // max(1, a["chunks"][0]))
        at = rng.choice([0, 1, 2, rng.randint(0, 40), rng.randint(0, max(1, min(n, 400))), rng.randint(0, len(a["chunks"]) + 1)])
        a["fault"] = {"kind": weighted(rng, [("oserror", 3), ("timeout", 1), ("bare", 1), ("eoferror", 0.7), ("memory", 1), ("value", 1), ("kbd", 2), ("exit", 1), ("eof", 2)]), "at": at}
    elif k == "open":
        a["src"] = "file"
        a["open"] = rng.choice(["missing", "directory", "EMFILE", "EACCES", "EIO", "parent"])
    return a


def gen(rng):
    return {"attempts": [gen_attempt(rng) for _ in range(weighted(rng, [(1, 5), (2, 3), (4, 1)]))],
            "final": dict(gen_attempt(rng), fault=None, corrupt=None, open=None, via=rng.choice(["parse", "read", "node"])),
            "edit": rng.random() < 0.6}


def corrupted(data, c):
    """Applies a corruption to bytes or characters."""
    if c is None:
        return data
    n = len(data)
    i = min(int(c["at"] * n), n)
    if c["kind"] == "cut":
        return data[:i]
    if c["kind"] == "delete":
        return data[:i] + data[i + c["len"]:]
    if c["kind"] == "swap":
        return data[:i] + data[i + 1:i + 2] + data[i:i + 1] + data[i + 2:]
    if isinstance(data, str):
        return data[:i] + c["text"] + data[i:]
    ins = c["text"].encode("utf-8") if c["kind"] == "garbage" else bytes.fromhex(c["hex"])
    return data[:i] + ins + data[i:]


def reference(data):
    """What the delivered data holds: (elements in order as (model, parent),
    error or None), by the parser's own events."""
    out, stack = [], []
    p = ET.XMLPullParser(("start", "end"))

    def drain():
        for ev, el in p.read_events():
            if ev == "start":
                m = docgen.et_to_model(el)
                m["c"], m["x"], m["l"] = [], None, None
                out.append((m, stack[-1] if stack else -1))
                if stack:
                    out[stack[-1]][0]["c"].append(m)
                stack.append(len(out) - 1)
            else:
                stack.pop()
    err = None
    try:
        p.feed(data)
        drain()
        p.close()
        drain()
    except Exception as e:
        err = e
    return out, err


def check_against(roots, ref, where, complete):
    check(len(roots) <= 1, "roots", "%s: %d roots", where, len(roots))
    got = docgen.real_preorder(roots)
    check(len(got) <= len(ref), "extra-elements", "%s: %d elements, the delivered data holds %d", where, len(got), len(ref))
    if complete:
        check(len(got) == len(ref), "missing-elements", "%s: %d elements, the source has %d", where, len(got), len(ref))
    for i, (node, parent) in enumerate(got):
        m, mp = ref[i]
        check(parent == mp, "nesting", "%s: element %d <%s> is nested under %d, expected %d", where, i, m["t"], parent, mp)
        docgen.check_element(node, m, "%s element %d" % (where, i))
        if parent >= 0:
            check(node.parent is got[parent][0], "parent-link", "%s: element %d <%s> has a wrong parent", where, i, m["t"])
    return len(got)


def check_lookup(doc, ids, where):
    attached = {id(n): n for n, _ in docgen.real_preorder([doc])}
    for i in ids:
        got = doc.get_element_by_id(i)
        if got is not None:
            check(id(got) in attached, "id-of-lost-element", "%s: id %r finds an element that is not in the tree", where, i)
            check(got.attributes.get("id") == i, "id-lookup", "%s: id %r finds an element with id %r", where, i, got.attributes.get("id"))


def attempt(plan, a, k, doc, disk, ctx, ids):
    """One load. Returns the document it went into (None if it was lost)."""
    where = "load %d (%s, %s)" % (k, a["src"], a["via"])
    text, data = docgen.render(a["doc"], a["style"])
    payload = text if a["src"] == "textstream" else data
    payload = corrupted(payload, a["corrupt"])
    if isinstance(payload, str):
        try:
            payload.encode("utf-8")
        except UnicodeEncodeError:
            payload = text
    ref, err = reference(payload)
    for m, _ in ref:
        ids.update(v for n, v in m["a"] if n == "id")
    via = a["via"]
    if doc is None and via != "Document":
        doc = env.nodes.Document()
    if via == "Document":
        target = None
    elif via == "node":
        if len(doc) == 0:
            doc.svg(**{"data-host": "1"})
            doc[0].g()
        target = doc[0]
        while len(target) and k % 2:
            target = target[-1]
    else:
        target = doc
    before = 0 if target is None else len(target)
    old = docgen.snapshot(doc) if doc is not None else []
    old_n = len(old)

    def on_read(stream):
        if target is not None:
            check_against(list(list.__iter__(target))[before:], ref, where + " during the load", False)

    fault = a["fault"]
    stream = None
    disk.reset()
    if a["src"] in ("stream", "textstream"):
        stream = source = faults.SimStream(payload, a["chunks"], fault, on_read if a["watch"] else None, ctx)
    else:
        name = source = disk.path("in%d.svg" % k)
        rf = [fault] if fault else []
        of = []
        op = a["open"]
        if op == "missing":
            name = source = disk.path("missing.svg")
            ctx.fault("missing-file")
        elif op == "parent":
            name = source = disk.path("nodir/in.svg")
            ctx.fault("missing-file")
        elif op == "directory":
            source = disk.dir
            ctx.fault("directory")
        else:
            with disk._real_open(name, "wb") as f:
                f.write(payload)
            if op:
                of = [{"op": "open", "kind": op, "read": True}]
        disk.reset(faults=of, read_faults=rf, read_chunk=a["chunks"][0])
        if a["src"] == "pathlike":
            import pathlib
            source = pathlib.Path(source)
    exc = held = None
    try:
        if via == "Document":
            doc2 = env.nodes.Document(source)
        elif via == "read":
            doc.read(source)
        else:
            target.parse(source)
    except Violation:
        raise
    except BaseException as e:
        exc, held = (type(e), describe_exception(e)), e
    if a["src"] in ("file", "pathlike"):
        # also while whoever called handles the failure
        check(disk.all_closed() and not disk.open_fds(), "file-left-open", "%s: the source file was left open (%s)", where, exc and exc[1])
    held = None
    gc.collect()
    kinds = []
    if stream is not None:
        fired = stream.fired
        cut = fired and fault["kind"] == "eof"
    else:
        kinds = [x for x in disk.fired if x.startswith("read-") or x.startswith("open-")]
        fired = bool(kinds)
        cut = fired and fault is not None and fault["kind"] == "eof"
    interrupted = fired and fault is not None and fault["kind"] in faults.INTERRUPTS
    if a["open"] in ("missing", "parent", "directory") or (a["open"] and any(x.startswith("open-") for x in kinds)):
        must = True
    elif cut:
        # the data ended where the read failed: what was delivered decides
        must = None
    elif fired:
        must = True
    else:
        must = err is not None
    if a["corrupt"] is not None:
        ctx.fault(a["corrupt"]["kind"] if err is not None else "benign-corruption")
    if must:
        check(exc is not None, "failure-not-reported", "%s: the source failed (%s) but the load returned normally", where,
              a["open"] or (fault and fault["kind"]) or (err and "malformed: %s" % err))
    elif must is None:
        pass
    else:
        check(exc is None, "unexpected-error", "%s: a sound source raised %s", where, exc and exc[1])
    if exc is not None:
        if interrupted:
            want = {"kbd": KeyboardInterrupt, "exit": SystemExit}[fault["kind"]]
            check(issubclass(exc[0], want), "interrupt-changed", "%s: %s arrived as %s", where, want.__name__, exc[1])
        else:
            check(issubclass(exc[0], Exception), "unexpected-interrupt", "%s: raised %s", where, exc[1])
    # the tree
    if via == "Document":
        if exc is None:
            doc = doc2
            new = list(list.__iter__(doc))
            if must is not None:
                check_against(new, ref, where, True)
        else:
            new = []
    else:
        children = list(list.__iter__(target))
        check(len(children) >= before, "lost-elements", "%s: elements present before the load are gone", where)
        new = children[before:]
    n = check_against(new, ref, where, exc is None and must is not None)
    if must is None and exc is None:
        # an early end may go unnoticed only if nothing was missing
        p = ET.XMLPullParser(("start",))
        check(n == len(ref) and err is None and len(new) == 1, "failure-not-reported", "%s: the data ended early but the load returned normally", where)
    if via != "Document" or exc is None:
        if new:
            check(new[0].parent is (target if target is not None else doc), "parent-link", "%s: the new root's parent is wrong", where)
        for node, _ in docgen.real_preorder(new):
            check(node.document is doc, "document-link", "%s: a new element is not linked to its document", where)
        if via != "Document":
            # what was there before is untouched
            now = docgen.snapshot(doc)
            fresh = {id(x) for x, _ in docgen.real_preorder(new)}
            kept = [s for s in now if s[0] not in fresh]
            check([(s[0], s[2], s[3], s[4]) for s in kept] == [(s[0], s[2], s[3], s[4]) for s in old], "damaged-elements",
                  "%s: elements loaded before were changed", where)
        check_lookup(doc, ids, where)
    disk.reset()
    what = (a["open"] or (fault and fired and fault["kind"]) or (err is not None and a["corrupt"] and a["corrupt"]["kind"]) or "none")
    if exc is not None and n:
        ctx.nontrivial = True
    ctx.op("load-failed" if exc is not None else "load")
    ctx.steps += n
    ctx.sig(a["src"], via, what, min(n, 30), k)
    ctx.log(where, what, n, exc and exc[0].__name__)
    return doc


def execute(plan, ctx):
    disk = faults.SimDisk(ctx)
    ids = {"id%d" % i for i in range(1, 90)}
    try:
        with disk:
            doc = None
            for k, a in enumerate(plan["attempts"]):
                doc = attempt(plan, a, k, doc, disk, ctx, ids)
            if plan["edit"] and doc is not None:
                # usable: edit, print, save
                nodes = [n for n, _ in docgen.real_preorder([doc])][1:]
                for n in nodes[:: max(1, len(nodes) // 5)]:
                    n.attributes["data-touch"] = "1"
                    n.g(id="extra")
                    check(len(n) and n[-1].parent is n, "edit-after-failure", "an element added after the failed load is not in its parent")
                    check(doc.get_element_by_id("extra") is n[-1], "edit-after-failure", "an element added after the failed load is not found by its id")
                    del n[-1]
                for r in list.__iter__(doc):
                    m = docgen.model_of_text(str(r))
                    check(len(docgen.preorder(m)) == len(docgen.real_preorder([r])), "edit-after-failure", "the text of the edited tree has another number of elements")
                if len(doc) == 1:
                    name = disk.path("out.svg")
                    disk.reset()
                    doc.write(name)
                    m = docgen.et_to_model(ET.parse(name).getroot())
                    check(len(docgen.preorder(m)) == len(docgen.real_preorder([doc[0]])), "save-after-failure", "the saved tree has another number of elements")
                ctx.op("edit")
            attempt(plan, plan["final"], len(plan["attempts"]), doc, disk, ctx, ids)
    finally:
        disk.dispose()
