"""C05: resolved values, navigation and id lookup follow the current tree."""
import base64
import io

from .. import docgen, env, faults, treeops
from ..core import Violation, check, weighted

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 70000}
BATCH = 50
SHRINK = ("ops", "c", "a", "attrs", "chunks")
RULE = ("a run starts from a built or loaded document and interleaves 1-3 editing clients with reading clients for 5-60 steps (builders, list operations, moves, "
        "attribute changes, fragments whose load may fail); every read compares resolved values, paint, navigation and id lookup with the model; "
        "non-trivial: at least 3 edits that changed something before the last read")
MEASURE = "distinct (preceding edit kind, element kind, depth, which ancestor sets the value, property) combinations reached by reads"
REAL = ["svgio.nodes tree, builders, cascade, paint properties, navigation, id index, fragment load"]
STUB = ["fragment sources (SimStream)"]
ASSUMPTIONS = ["clients moving an element with list operations set its parent, as the list interface requires",
               "colour texts are parsed by the library's own Color (its parsing is property C15)"]
EXPECT_FAULTS = ("fragment-failed",)

GEOM = {"rect": {"x": "x", "y": "y", "width": "width", "height": "height", "rx": "rx", "ry": "ry"},
        "circle": {"r": "r", "cx": "cx", "cy": "cy"}, "ellipse": {"rx": "rx", "ry": "ry", "cx": "cx", "cy": "cy"},
        "line": {"x1": "x1", "y1": "y1", "x2": "x2", "y2": "y2"}, "polyline": {"points": "points"}, "polygon": {"points": "points"},
        "path": {"d": "d"}, "image": {"x": "x", "y": "y", "width": "width", "height": "height"},
        "use": {"x": "x", "y": "y", "width": "width", "height": "height"}, "svg": {"x": "x", "y": "y", "width": "width", "height": "height", "viewBox": "viewBox"},
        "text": {k: k for k in ("x", "y", "width", "height", "dx", "dy")}, "tspan": {k: k for k in ("x", "y", "width", "height", "dx", "dy")}}
for _t in ("mask", "pattern"):
    GEOM[_t] = {k: k for k in ("x", "y", "width", "height")}
GEOM["image"].update(viewBox="viewBox", preserveAspectRatio="preserveAspectRatio")
GEOM["svg"].update(preserveAspectRatio="preserveAspectRatio")
GEOM["clipPath"] = {"unit_type": "clipPathUnits"}
LINKED = ("image", "a", "pattern", "script")
XLINK = "{%s}href" % docgen.XLINK
PAINTED = ("rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "text", "tspan", "image")
TRANSFORMED = PAINTED[:8] + ("g", "svg")
RAW = {"fill_opacity": "fill-opacity", "stroke_opacity": "stroke-opacity", "stroke_width": "stroke-width"}


def gen(rng):
    g = treeops.OpGen(rng, docroots=True)
    start = rng.choice(["build", "load", "load"])
    plan = {"start": start}
    if start == "load":
        doc = docgen.gen_doc(rng, size=rng.choice([1, 6, 20]), texts=False)
        # paint values of generated documents are colours, so that paint is defined
        for e, _ in docgen.preorder(doc):
            for a in e["a"]:
                if a[0] in ("fill", "stroke"):
                    a[1] = rng.choice(treeops.PAINTS)
        plan["doc"], plan["style"] = doc, docgen.gen_style(rng)
    else:
        plan["attrs"] = [["id", "root"]]
        for _ in range(rng.choice([0, 1, 3])):
            k, v = treeops.gen_attr(rng)
            plan["attrs"].append([k, v])
    ops = []
    for _ in range(rng.choice([5, 15, 30, 60])):
        if rng.random() < 0.35:
            ops.append({"op": "read", "at": rng.random(), "poke": rng.random() < 0.3})
        else:
            ops.append(fix_paint(rng, g.op()))
    plan["ops"] = ops
    return plan


def fix_paint(rng, o):
    if o["op"] == "fragment":
        for e, _ in docgen.preorder(o["doc"]):
            for a in e["a"]:
                if a[0] in ("fill", "stroke"):
                    a[1] = rng.choice(treeops.PAINTS)
    return o


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def resolve(m, key):
    """-> (is it set, value, distance to the element that sets it)"""
    d = 0
    while m is not None:
        if key in m.a:
            return True, m.a[key], d
        m = m.parent
        d += 1
    return False, None, -1


def expected_paint(m, key):
    ok, v, _ = resolve(m, key)
    if not ok or v is None:
        return None
    c = env.basic.Color(v)
    ok, o, _ = resolve(m, key + "-opacity")
    if ok and o is not None and c.value is not None:
        try:
            c.opacity = float(o)
        except (ValueError, OverflowError):
            pass
    return c


def paint_key(c):
    return None if c is None else (c.value,)


def check_values(m, where, ctx, last):
    real = m.real
    values = env.nodes.Document.get_values(real)
    exp = {}
    chain = []
    x = m
    while x is not None:
        chain.append(x)
        x = x.parent
    for x in reversed(chain):
        exp.update(x.a)
    if "id" not in m.a:
        values = {k: v for k, v in values.items() if k != "id"}
        exp.pop("id", None)
    check(set(values) == set(exp), "resolved-value", "%s <%s>: properties %r, expected %r", where, m.t, sorted(map(str, values)), sorted(map(str, exp)))
    for k, v in exp.items():
        check(same(values[k], v), "resolved-value", "%s <%s>: %s resolves to %r, expected %r", where, m.t, k, values[k], v)
    depth = len(chain)
    if not m.n and m.t in PAINTED:
        for key in ("fill", "stroke"):
            before = [repr(x.a.get(key)) for x in chain]
            got = getattr(real, key)
            want = expected_paint(m, key)
            check(paint_key(got) == paint_key(want), "paint", "%s <%s>: %s is %r, expected %r", where, m.t, key, got, want)
            ok, v, d = resolve(m, key)
            ok2, v2, d2 = resolve(m, key + "-opacity")
            ctx.sig(last, m.t, min(depth, 8), key, d, d2)
            if got is not None and got.value is not None and want is not None:
                if ok2:
                    try:
                        f = float(v2)
                    except ValueError:
                        f = None
                    if f is not None and 0 <= f <= 1:
                        check(abs(got.opacity - f) <= 0.5 / 255 + 1e-9, "paint", "%s <%s>: %s has opacity %r, expected %r", where, m.t, key, got.opacity, f)
                # what was handed out is the reader's own
                got.red = (got.red + 100) % 256
                again = getattr(real, key)
                check(paint_key(again) == paint_key(want), "paint", "%s <%s>: changing the returned %s changed the element", where, m.t, key)
            check([repr(x.a.get(key)) for x in chain] == before, "paint", "%s <%s>: reading %s changed an attribute", where, m.t, key)
        for prop, key in RAW.items():
            ok, v, d = resolve(m, key)
            got = getattr(real, prop)
            check(same(got, v if ok else None), "resolved-value", "%s <%s>: %s is %r, expected %r", where, m.t, prop, got, v)
            ctx.sig(last, m.t, min(depth, 8), prop, d)
    if not m.n and m.t in TRANSFORMED:
        ok, v, d = resolve(m, "transform")
        check(same(real.transform, v), "resolved-value", "%s <%s>: transform is %r, expected %r", where, m.t, real.transform, v)
    if not m.n:
        for prop, key in GEOM.get(m.t, {}).items():
            if key in m.a:
                got = getattr(real, prop)
                check(same(got, m.a[key]), "resolved-value", "%s <%s>: %s is %r, its own value is %r", where, m.t, prop, got, m.a[key])
            elif m.t not in ("rect", "clipPath") and not any(key in x.a for x in chain):
                got = getattr(real, prop)
                check(got is None, "resolved-value", "%s <%s>: %s is %r, it is set nowhere", where, m.t, prop, got)
        if m.t == "image" and isinstance(real.href, str):
            want = real.href.split(",")[1] if real.href in treeops.DATA else None
            if want is not None or not real.href.startswith("data:image"):
                got = real.data
                check(got == (None if want is None else base64.b64decode(want)), "resolved-value", "%s <image>: the data of %r is %r", where, real.href, got)
        if m.t in LINKED:
            got = real.href
            other = any(XLINK in x.a for x in chain)
            if XLINK in m.a:
                check(same(got, m.a[XLINK]), "resolved-value", "%s <%s>: href is %r, its own value is %r", where, m.t, got, m.a[XLINK])
            elif "href" in m.a and not other:
                check(same(got, m.a["href"]), "resolved-value", "%s <%s>: href is %r, its own value is %r", where, m.t, got, m.a["href"])
            elif not other and not any("href" in x.a for x in chain):
                check(got is None, "resolved-value", "%s <%s>: href is %r, it is set nowhere", where, m.t, got)


def check_navigation(tree, m, where):
    real, p = m.real, m.parent
    i = p.c.index(m)
    kids = [c.real for c in m.c]

    def want(prop, expected):
        got = getattr(real, prop)
        check(got is expected, "navigation", "%s <%s> child %d of %d of <%s>: %s is wrong: %s", where, m.t, i, len(p.c), p.t, prop,
              "None" if got is None else type(got).__name__)

    want("parent", p.real)
    want("parent_node", p.real)
    want("parent_element", p.real)
    if not m.undocumented:
        want("document", tree.doc)
        want("owner_document", tree.doc)
    want("first_child", kids[0] if kids else None)
    want("last_child", kids[-1] if kids else None)
    nxt = p.c[i + 1].real if i + 1 < len(p.c) else None
    prv = p.c[i - 1].real if i else None
    want("next_sibling", nxt)
    want("previous_sibling", prv)
    check(real.has_child_nodes() == bool(kids), "navigation", "%s <%s>: has_child_nodes is wrong", where, m.t)
    check(real.is_connected is True, "navigation", "%s <%s>: is_connected is wrong", where, m.t)
    check(real.is_same_node(real), "navigation", "%s <%s>: is_same_node is wrong", where, m.t)
    if isinstance(real, env.nodes.Element):
        want("next_element_sibling", nxt)
        want("previous_element_sibling", prv)
        want("first_element_child", kids[0] if kids else None)
        want("last_element_child", kids[-1] if kids else None)
        check(real.child_element_count == len(kids), "navigation", "%s <%s>: child_element_count is wrong", where, m.t)
        check([id(x) for x in real.children] == [id(x) for x in kids], "navigation", "%s <%s>: children is wrong", where, m.t)
        check(real.id == m.a.get("id"), "navigation", "%s <%s>: id is %r", where, m.t, real.id)
    chain, x = [], m
    while x is not None:
        chain.append(x.real)
        x = x.parent
    got = list(env.nodes.Document.get_ancestors(real))
    check(len(got) == len(chain) and all(a is b for a, b in zip(got, chain)), "navigation", "%s <%s>: ancestors are wrong", where, m.t)


def check_ids(tree, where):
    for i, m in tree.registered.items():
        if tree.attached(m):
            got = tree.doc.get_element_by_id(i)
            check(got is m.real, "id-lookup", "%s: id %r of an attached <%s> finds %s", where, i, m.t, "nothing" if got is None else "another " + type(got).__name__)
            if str(i).isalnum():
                check(tree.doc.get_element_by_url("url(#%s)" % i) is got, "id-lookup", "%s: url(#%s) finds another element", where, i)


def execute(plan, ctx):
    if plan["start"] == "load":
        doc = env.nodes.Document(io.BytesIO(docgen.render(plan["doc"], plan["style"])[1]))
        root = treeops.from_plain(plan["doc"])
        treeops.bind(root, doc[0])
    else:
        doc = env.nodes.Document()
        root = treeops.build_root(doc, plan["attrs"])
    tree = treeops.Tree(doc, [root], ctx)
    last = plan["start"]
    edits = 0
    for i, o in enumerate(plan["ops"]):
        where = "step %d (%s)" % (i, o["op"])
        if o["op"] == "read":
            m = tree.pick(o["at"])
            ctx.op("read")
            where = "step %d (read after %s)" % (i, last)
            check_values(m, where, ctx, last)
            check_navigation(tree, m, where)
            check_ids(tree, where)
            if o["poke"]:
                # a resolved set of values belongs to the reader
                v = env.nodes.Document.get_values(m.real)
                v.clear()
                v["fill"] = "poked"
                check_values(m, where + " after changing the returned values", ctx, last)
        else:
            touched = tree.apply(o)
            last = o["op"]
            edits += 1
            for m in touched[:2] + touched[-1:]:
                if m is not tree.docm and tree.attached(m):
                    check_values(m, where, ctx, last)
                    check_navigation(tree, m, where)
        ctx.log(where, len(tree.elements()))
    tree.check_structure("at the end")
    for m in tree.elements():
        check_values(m, "at the end", ctx, last)
        check_navigation(tree, m, "at the end")
    check_ids(tree, "at the end")
    ctx.nontrivial = edits >= 3
