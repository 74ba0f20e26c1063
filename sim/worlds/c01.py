"""C01: loading mirrors the source, however it is delivered."""
import io, os

from .. import docgen, env, faults
from ..core import Violation, check, weighted

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 60000}
BATCH = 50
SHRINK = ("c", "a", "loads", "chunks")
RULE = ("a run generates 1-3 documents (1-80 elements, some of 300-1500, all element kinds, foreign elements, mixed text), renders each in a random XML style "
        "and delivers it in random reads; non-trivial: at least 3 elements and at least 2 reads, or a file/encoding other than one utf-8 read")
MEASURE = "distinct (delivery kind, entry point, encoding, namespace style, element-name multiset, number-of-reads class) combinations"
REAL = ["svgio.nodes load and serialise", "xml.etree iterparse / expat", "file objects over scratch files"]
STUB = ["byte and character sources (SimStream)", "open() of scratch files (fault-free pass-through with short reads)"]
ASSUMPTIONS = ["sources are well-formed XML of the generated grammar; expat is trusted to parse XML"]
EXPECT_FAULTS = ("short-read",)

VIA = [("Document", 4), ("parse", 3), ("read", 2), ("node", 2)]
SRC = [("stream", 6), ("textstream", 2), ("bytesio", 1), ("stringio", 1), ("file", 2), ("pathlike", 1)]


def gen_load(rng):
    wide = rng.random() < 0.006
    doc = docgen.gen_doc(rng, dup_ids=rng.random() < 0.1, big=rng.random() < 0.1, wide=wide)
    style = docgen.gen_style(rng)
    text, data = docgen.render(doc, style)
    return {"doc": doc, "style": style, "via": weighted(rng, VIA), "src": weighted(rng, SRC),
            "chunks": [rng.choice([1000, 16384, 70000])] if wide else faults.gen_chunks(rng, len(data)), "watch": not wide and rng.random() < 0.5}


def gen(rng):
    return {"loads": [gen_load(rng) for _ in range(weighted(rng, [(1, 6), (2, 2), (3, 1)]))],
            "same": rng.random() < 0.4}


def make_source(load, ctx, disk, on_read=None, fault=None):
    text, data = docgen.render(load["doc"], load["style"])
    kind = load["src"]
    if kind in ("textstream", "stringio"):
        return faults.SimStream(text, load["chunks"], fault, on_read, ctx) if kind == "textstream" else io.StringIO(text)
    if kind == "stream":
        return faults.SimStream(data, load["chunks"], fault, on_read, ctx)
    if kind == "bytesio":
        return io.BytesIO(data)
    name = disk.path("in%d.svg" % len(os.listdir(disk.dir)))
    with disk._real_open(name, "wb") as f:
        f.write(data)
    disk.reset(read_chunk=load["chunks"][0])
    if kind == "pathlike":
        import pathlib
        return pathlib.Path(name)
    return name


def check_ids(doc, roots, models, where):
    """Every attached element with a unique id is found by it; what is found is
    attached and has that id."""
    real = []
    for r in roots:
        real += [n for n, _ in docgen.real_preorder([r])]
    byid = {}
    for n in real:
        i = n.attributes.get("id")
        if i is not None:
            byid.setdefault(i, []).append(n)
    names = set(byid)
    for m in models:
        names |= {v for e, _ in docgen.preorder(m) for k, v in e["a"] if k == "id"}
    for i in names:
        got = doc.get_element_by_id(i)
        if i in byid:
            check(any(got is n for n in byid[i]), "id-lookup", "%s: id %r finds %r", where, i, type(got).__name__)
            if "(" not in i:
                u = doc.get_element_by_url("url(#%s)" % i)
                check(u is got, "id-lookup", "%s: url(#%s) finds another element than the id", where, i)
        else:
            check(got is None, "id-lookup", "%s: id %r finds an element that is not in the tree", where, i)
    check(doc.get_element_by_id("no such id") is None, "id-lookup", "%s: an unknown id finds something", where)


def execute(plan, ctx):
    disk = faults.SimDisk(ctx)
    try:
        with disk:
            doc = None
            models = []
            for li, load in enumerate(plan["loads"]):
                model = load["doc"]
                where = "load %d" % li
                via = load["via"]
                fresh = doc is None or not plan["same"]
                if fresh:
                    doc = None if via == "Document" else env.nodes.Document()
                    models = []
                elif via == "Document":
                    via = "parse"
                target = doc
                host = None
                if via == "node":
                    if len(doc) == 0:
                        doc.svg(**{"data-host": "1"})
                        models.append(None)
                        host = doc[-1]
                        host.g()
                        target = host[0]
                    else:
                        target = doc[0]
                before = 0 if target is None else len(target)

                def on_read(stream, target=target, before=before, model=model, where=where):
                    if target is not None:
                        docgen.check_prefix(list(list.__iter__(target))[before:], model, where + " (during the load)")
                src = make_source(load, ctx, disk, on_read if load["watch"] else None)
                if via == "Document":
                    doc = env.nodes.Document(src)
                    target = doc
                elif via == "read":
                    doc.read(src)
                else:
                    target.parse(src)
                roots = list(list.__iter__(target))[before:]
                check(len(roots) == 1, "roots", "%s: %d new roots", where, len(roots))
                n = docgen.check_prefix(roots, model, where, complete=True)
                check(roots[0].parent is target, "parent-link", "%s: the root's parent is wrong", where)
                for node, _ in docgen.real_preorder(roots):
                    check(node.document is doc and node.owner_document is doc, "document-link", "%s: an element is not linked to its document", where)
                # character data, read back from the element's own XML text
                docgen.compare_models(docgen.model_of_text(str(roots[0])), model, where + " (as text)")
                if via != "node":
                    models.append(model)
                    check_ids(doc, list(doc), [m for m in models if m], where)
                else:
                    check_ids(doc, list(doc), [model], where)
                reads = getattr(src, "reads", 1)
                if reads > 2:
                    ctx.fault("short-read")
                if load["src"] in ("file", "pathlike"):
                    check(disk.all_closed(), "open-file", "%s: the source file was left open", where)
                    if load["chunks"][0] < 2000:
                        ctx.fault("short-read")
                ctx.op("load-" + load["src"])
                ctx.steps += n
                if n >= 3 and (reads > 2 or load["src"] not in ("bytesio", "stringio") or load["style"]["enc"] != "utf-8"):
                    ctx.nontrivial = True
                tags = sorted({docgen.qname(e) for e, _ in docgen.preorder(model)})
                ctx.sig(load["src"], via, load["style"]["enc"], load["style"]["ns"], ",".join(tags), min(reads, 8))
                ctx.log(where, n, reads)
    finally:
        disk.dispose()
