"""Edit histories of documents: every operation is carried out on the library's
tree and on a model tree; the two are compared by the worlds that use this."""
import base64
import io

from . import docgen, env, faults
from .core import Violation, HarnessError, check, weighted

# builder name -> tag of the element it makes
BUILDERS = {k: k for k in docgen.KINDS}
BUILDERS.update({"clip_path": "clipPath", "lineargradient": "linearGradient", "radialgradient": "radialGradient"})

PAINTS = ["red", "#00ff00", "#abc", "rgb(1,2,3)", "none", "currentColor", "#11223344", "hsl(120,50%,50%)", "blue", "transparent"]
INHERITED = ["fill", "stroke", "stroke-width", "fill-opacity", "stroke-opacity", "transform", "style", "class", "opacity", "data-k"]


class M:
    """Model element."""
    __slots__ = ("t", "n", "a", "x", "l", "c", "parent", "real", "regid", "undocumented")

    def __init__(self, t, n="", a=(), x=None, l=None):
        self.t, self.n, self.a, self.x, self.l = t, n, dict(a), x, l
        self.c, self.parent, self.real = [], None, None
        self.regid = None
        self.undocumented = False  # or built, or loaded, under such an element: its document is not set

    def walk(self):
        yield self
        for c in self.c:
            yield from c.walk()

    def add(self, child, at=None):
        child.parent = self
        self.c.insert(len(self.c) if at is None else at, child)

    def plain(self):
        return {"t": self.t, "n": self.n, "a": [[str(k), str(v)] for k, v in self.a.items()], "x": self.x, "c": [c.plain() for c in self.c], "l": self.l}


def from_plain(e):
    m = M(e["t"], e["n"], [(k, v) for k, v in e["a"]], e["x"], e["l"])
    for c in e["c"]:
        m.add(from_plain(c))
    return m


def bind(m, real):
    """Links model elements to the real ones of an equally shaped tree."""
    m.real = real
    kids = list(list.__iter__(real))
    if len(kids) != len(m.c):
        raise Violation("children", "<%s> has %d children, expected %d" % (m.t, len(kids), len(m.c)))
    for c, r in zip(m.c, kids):
        bind(c, r)


def make_value(spec):
    if not isinstance(spec, list):
        return spec
    k, v = spec
    b = env.basic
    return {"color": lambda: b.Color(v), "length": lambda: b.Length(v), "matrix": lambda: b.Matrix(v), "num": lambda: v, "float": lambda: docgen.FLOATS[v]}[k]()


DATA = ["data:image/%s;base64,%s" % (k, base64.b64encode(b).decode()) for k in ("png", "jpg", "jpeg", "svg+xml") for b in (b"", b"\x89PNG\r\n", b"<svg/>", bytes(range(64)))]


def gen_attr(rng):
    r = rng.random()
    if r < 0.5:
        k = rng.choice(INHERITED)
    else:
        k = rng.choice([a for a in docgen.ATTRS if a not in ("tag",)])
    if k in ("fill", "stroke"):
        v = rng.choice(PAINTS) if rng.random() < 0.85 else ["color", rng.choice(["red", "#10203040", "blue"])]
    elif k.endswith("opacity"):
        v = rng.choice(["0.5", "1", "0", "0.25", ".75", "2", "-1", "half", ["num", 0.3], ["num", 1], ["num", 0], ["num", 0.0]])
    elif k == "transform":
        v = rng.choice(["translate(1,2)", "rotate(30)", ["matrix", "scale(2)"]])
    elif k.endswith("}space"):
        v = "preserve"
    elif k.endswith("href") and rng.random() < 0.3:
        v = rng.choice(DATA)
    elif k == "d":
        v = rng.choice(["M0,0L1,1z", "M1 1h2v3", ""])
    elif k == "points":
        v = rng.choice(["0,0 1,1 2,0", "1 2 3 4"])
    else:
        v = docgen.gen_value(rng)
        if rng.random() < 0.1:
            v = rng.choice([["num", 3], ["num", 2.5], ["length", "2cm"], ["num", 0]])
        elif rng.random() < 0.1:
            v = ["float", rng.randrange(len(docgen.FLOATS))]
    return k, v


class OpGen:
    """Generates operations as plain data. Elements are named by fractions, so
    that an operation keeps its meaning when others are removed."""

    def __init__(self, rng, docroots=False, prefix="n", orphans=False):
        self.orphans = orphans
        self.rng, self.docroots, self.nid, self.prefix = rng, docroots, 0, prefix
        self.upper = set()

    def id(self):
        if self.nid and self.rng.random() < 0.12:
            # differs from another one in letter case only
            i = self.rng.randint(1, self.nid)
            if i not in self.upper:
                self.upper.add(i)
                return "%s%d" % (self.prefix.upper(), i)
        self.nid += 1
        return "%s%d" % (self.prefix, self.nid)

    def op(self):
        rng = self.rng
        k = weighted(rng, [("build", 8), ("set", 6), ("unset", 3), ("del", 2), ("move", 3), ("clear", 0.3), ("reverse", 0.5),
                           ("slice", 1), ("fragment", 2), ("rebuild", 0.7), ("add", 1 if self.docroots else 0), ("docattr", 0.6 if self.docroots else 0),
                           ("insert", 0.7), ("replace", 0.7), ("rename", 0.7)])
        o = {"op": k, "at": rng.random()}
        if k in ("build", "add", "rebuild", "insert", "replace"):
            o["tag"] = rng.choice(sorted(BUILDERS))
            attrs = []
            if rng.random() < 0.5:
                attrs.append(["id", self.id()])
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                kk, v = gen_attr(rng)
                if kk not in [a[0] for a in attrs]:
                    attrs.append([kk, v])
            o["attrs"] = attrs
            o["pos"] = rng.random() < 0.3
            o["loop"] = rng.choice([1, 1, 1, 2, 5])
            o["to"] = rng.random()
            o["docset"] = rng.random() < 0.6
            o["orphan"] = self.orphans and rng.random() < 0.3
            o["reuse"] = rng.random() if rng.random() < 0.25 else None
            o["known"] = k == "add" and rng.random() < 0.4
        elif k in ("set", "docattr"):
            kk, v = gen_attr(rng)
            o.update(key=kk, value=v)
        elif k == "rename":
            o["id"] = self.id() if rng.random() < 0.7 else None
        elif k == "unset":
            o["which"] = rng.random()
        elif k in ("del", "slice"):
            o["how"] = rng.choice(["del", "pop", "delslice", "popneg"])
            o["len"] = rng.choice([1, 2, 3])
        elif k == "move":
            o.update(to=rng.random(), index=rng.random(), neg=rng.random() < 0.2)
        elif k == "fragment":
            d = docgen.DocGen(rng, rng.choice([1, 3, 8, 20]), depth=5)
            d.nid = 1000000
            doc = d.element(4)
            ren = {}
            for e, _ in docgen.preorder(doc):
                for a in e["a"]:
                    if a[0] == "id":
                        a[1] = ren.setdefault(a[1], self.id())
            o["doc"] = doc
            o["style"] = docgen.gen_style(rng)
            text, data = docgen.render(doc, o["style"])
            o["chunks"] = faults.gen_chunks(rng, len(data))
            o["fault"] = None
            if rng.random() < 0.4:
                o["fault"] = {"kind": rng.choice(["oserror", "kbd", "value", "memory", "bare", "eoferror"]), "at": rng.choice([1, 2, 3, 5, 20, 60])}
            o["cut"] = rng.random() if rng.random() < 0.2 else None
            o["reuse"] = rng.random() if rng.random() < 0.4 else None
            o["ondoc"] = rng.choice(["read", "parse"]) if self.docroots and rng.random() < 0.15 else None
        return o


# positional arguments of builders (tag -> attributes they set)
POSITIONAL = {"rect": ["x", "y", "width", "height", "rx", "ry"], "ellipse": ["cx", "cy", "rx", "ry"], "circle": ["cx", "cy", "r"], "line": ["x1", "y1", "x2", "y2"],
              "polyline": ["points"], "polygon": ["points"], "path": ["d"]}


class Tree:
    """A document with its model, edited in lockstep."""

    def __init__(self, doc, roots, ctx):
        self.doc, self.ctx = doc, ctx
        self.docm = M("#document")
        self.docm.real = doc
        for r in roots:
            self.docm.add(r)
        self.registered = {}       # id -> model element it was last given to by load, builder or add
        self.removed = 0
        for r in roots:
            self.register(r)

    def register(self, m):
        for e in m.walk():
            if "id" in e.a and not e.undocumented:
                self.registered[e.a["id"]] = e
                e.regid = e.a["id"]

    def elements(self):
        return [e for r in self.docm.c for e in r.walk()]

    def pick(self, frac, pred=None):
        els = self.elements()
        if pred:
            els = [e for e in els if pred(e)]
        return els[int(frac * len(els))] if els else None

    def attached(self, m):
        while m.parent is not None:
            m = m.parent
        return m is self.docm

    # -------------------------------------------------------------- apply
    def apply(self, o):
        """Carries the operation out; returns the model elements touched."""
        k = o["op"]
        self.ctx.op(k)
        return getattr(self, "op_" + k)(o) or []

    def construct(self, o, parent, cls=None):
        """Builds through a builder of parent, or stand-alone."""
        tag = BUILDERS[o["tag"]]
        attrs = {k: make_value(v) for k, v in o["attrs"]}
        args = []
        if o.get("pos") and tag in POSITIONAL:
            names = POSITIONAL[tag]
            for i, n in enumerate(names):
                args.append({"points": "0,0 1,1", "d": "M0,0L1,1"}.get(n, i + 1))
            for n in names:
                attrs.pop(n, None)
        real = cls(*args, **attrs) if cls else getattr(parent.real, o["tag"])(*args, **attrs)
        m = M(tag, "", attrs)
        for n, v in zip(POSITIONAL.get(tag, []), args):
            m.a[n] = v
        return m, real

    def check_new(self, m, real, parent, what):
        check(isinstance(real, getattr(env.nodes, docgen.KINDS[m.t])), "builder-result", "%s gave %r for <%s>", what, type(real).__name__, m.t)
        kids = list(list.__iter__(parent.real))
        check(len(kids) == len(parent.c) + 1 and kids[-1] is real, "builder-result", "%s of <%s>: the new element is not the last child of its parent", what, m.t)
        check(real.tag() == m.t, "builder-result", "%s of <%s> gave tag %r", what, m.t, real.tag())
        check(dict(real.attributes) == m.a, "builder-result", "%s of <%s>: attributes %r, expected %r", what, m.t, dict(real.attributes), m.a)

    def op_build(self, o):
        parent = self.pick(o["at"]) or None
        if parent is None:
            return
        out = []
        again = self.reuse(o)
        if again is not None:
            o = dict(o, attrs=[["id", again]] + [a for a in o["attrs"] if a[0] != "id"])
        for _ in range(o["loop"]):
            oo = o
            if out:
                oo = dict(o, attrs=[a for a in o["attrs"] if a[0] != "id"])
            m, real = self.construct(oo, parent)
            self.check_new(m, real, parent, "builder")
            m.real = real
            m.undocumented = parent.undocumented
            parent.add(m)
            self.register(m)
            out.append(m)
        return out

    def op_rebuild(self, o):
        """Deletes an element and builds another one with the same id."""
        old = self.pick(o["at"], lambda e: e.regid is not None and "id" in e.a and e.a["id"] == e.regid and not e.c and e.parent is not self.docm)
        if old is None:
            return
        self.remove(old, "del")
        o = dict(o, attrs=[["id", old.regid]] + [a for a in o["attrs"] if a[0] != "id"], at=o["to"], loop=1)
        return self.op_build(o)

    def reuse(self, o):
        """The id of an element that is gone from the document, to be given again."""
        f = o.get("reuse")
        if f is None:
            return None
        gone = sorted((i for i, m in self.registered.items() if not self.attached(m)), key=repr)
        return gone[int(f * len(gone))] if gone else None

    def readd(self, o):
        """An element of the tree made a child of the document itself."""
        m = self.pick(o["to"], lambda e: e.parent is not self.docm)
        if m is None:
            return
        self.remove(m, "pop")
        self.doc.add(m.real)
        kids = list(list.__iter__(self.doc))
        check(len(kids) == len(self.docm.c) + 1 and kids[-1] is m.real, "builder-result", "<%s> added to the document is not its last child", m.t)
        self.docm.add(m)
        m.undocumented = False
        if "id" in m.a:
            self.registered[m.a["id"]] = m
            m.regid = m.a["id"]
        return list(m.walk())

    def op_add(self, o):
        if o.get("known"):
            return self.readd(o)
        again = self.reuse(o)
        if again is not None:
            o = dict(o, attrs=[["id", again]] + [a for a in o["attrs"] if a[0] != "id"])
        cls = getattr(env.nodes, docgen.KINDS[BUILDERS[o["tag"]]])
        m, real = self.construct(o, None, cls)
        self.doc.add(real)
        self.check_new(m, real, self.docm, "add")
        m.real = real
        self.docm.add(m)
        self.register(m)
        return [m]

    def standalone(self, o):
        o = dict(o, attrs=[a for a in o["attrs"] if a[0] != "id"])
        cls = getattr(env.nodes, docgen.KINDS[BUILDERS[o["tag"]]])
        m, real = self.construct(o, None, cls)
        if o.get("docset", True):
            real.document = self.doc
        else:
            m.undocumented = True
        m.real = real
        return m, real

    def op_insert(self, o):
        """A stand-alone element inserted with the list methods."""
        parent = self.pick(o["at"])
        if parent is None:
            return
        m, real = self.standalone(o)
        i = int(o["to"] * (len(parent.c) + 1))
        real.parent = None if o.get("orphan") else parent.real
        parent.real.insert(i, real)
        parent.add(m, i)
        return [m]

    def op_replace(self, o):
        old = self.pick(o["at"], lambda e: e.parent is not self.docm)
        if old is None:
            return
        p = old.parent
        i = p.c.index(old)
        m, real = self.standalone(o)
        real.parent = None if o.get("orphan") else p.real
        p.real[i] = real
        p.c[i] = m
        m.parent = p
        old.parent = None
        return [m]

    def op_set(self, o):
        m = self.pick(o["at"])
        if m is None:
            return
        v = make_value(o["value"])
        m.real.attributes[o["key"]] = v
        m.a[o["key"]] = v
        return [m]

    def op_rename(self, o):
        """The id attribute is set or removed; lookup knows the id given before."""
        m = self.pick(o["at"])
        if m is None:
            return
        if o["id"] is None:
            m.real.attributes.pop("id", None)
            m.a.pop("id", None)
        else:
            m.real.attributes["id"] = o["id"]
            m.a["id"] = o["id"]
        return [m]

    def op_docattr(self, o):
        v = make_value(o["value"])
        self.doc.attributes[o["key"]] = v
        self.docm.a[o["key"]] = v

    def op_unset(self, o):
        m = self.pick(o["at"], lambda e: any(k != "id" for k in e.a))
        if m is None:
            return
        ks = [k for k in m.a if k != "id"]
        k = ks[int(o["which"] * len(ks))]
        del m.real.attributes[k]
        del m.a[k]
        return [m]

    def remove(self, m, how):
        p = m.parent
        i = p.c.index(m)
        if how == "pop":
            got = p.real.pop(i)
            check(got is m.real, "children", "popping child %d of <%s> gave another element", i, p.t)
        elif how == "popneg":
            got = p.real.pop(i - len(p.c))
            check(got is m.real, "children", "popping child %d of <%s> gave another element", i - len(p.c), p.t)
        else:
            del p.real[i]
        del p.c[i]
        m.parent = None
        self.removed += 1

    def op_del(self, o):
        m = self.pick(o["at"], lambda e: e.parent is not self.docm or len(self.docm.c) > 1)
        if m is None:
            return
        p = m.parent
        self.remove(m, o["how"])
        return [p] if p is not self.docm else []

    def op_slice(self, o):
        p = self.pick(o["at"], lambda e: len(e.c) > 1)
        if p is None:
            return
        i = int(o["at"] * 7919 % 1 * len(p.c))
        j = min(len(p.c), i + o["len"])
        if o["how"] == "del":
            del p.real[i:j]
            for c in p.c[i:j]:
                c.parent = None
            del p.c[i:j]
        else:
            p.real[i:j] = [c.real for c in reversed(p.c[i:j])]
            p.c[i:j] = list(reversed(p.c[i:j]))
        return [p] + p.c

    def op_reverse(self, o):
        p = self.pick(o["at"], lambda e: len(e.c) > 1)
        if p is None:
            return
        p.real.reverse()
        p.c.reverse()
        return [p] + p.c

    def op_clear(self, o):
        p = self.pick(o["at"], lambda e: e.c)
        if p is None:
            return
        p.real.clear()
        for c in p.c:
            c.parent = None
        p.c = []
        return [p]

    def op_move(self, o):
        m = self.pick(o["at"], lambda e: e.parent is not self.docm)
        if m is None:
            return
        inside = set(map(id, m.walk()))
        to = self.pick(o["to"], lambda e: id(e) not in inside)
        self.remove(m, "pop")
        i = int(o["index"] * (len(to.c) + 1))
        if o["neg"] and to.c:
            to.real.insert(-1, m.real)
            i = len(to.c) - 1
        elif i == len(to.c):
            to.real.append(m.real)
        else:
            to.real.insert(i, m.real)
        m.real.parent = to.real
        to.add(m, i)
        return [m] + to.c

    def op_fragment(self, o):
        parent = self.docm if o.get("ondoc") else self.pick(o["at"])
        if parent is None:
            return
        again = self.reuse(o)
        if again is not None:
            # the first element of the fragment takes over the id
            e = dict(o["doc"], a=[["id", again]] + [a for a in o["doc"]["a"] if a[0] != "id"])
            o = dict(o, doc=e)
        text, data = docgen.render(o["doc"], o["style"])
        if o["cut"] is not None:
            data = data[:int(len(data) * o["cut"])]
        src = faults.SimStream(data, o["chunks"], o["fault"], None, self.ctx)
        failed = None
        try:
            if o.get("ondoc") == "read":
                self.doc.read(src)
            else:
                parent.real.parse(src)
        except Violation:
            raise
        except BaseException as e:
            failed = e
            if not (src.fired or o["cut"] is not None):
                raise
        if src.fired and failed is None:
            raise Violation("failure-not-reported", "a fragment whose source failed was accepted")
        new = list(list.__iter__(parent.real))[len(parent.c):]
        n = docgen.check_prefix(new, o["doc"], "fragment", complete=failed is None)
        if new:
            check(new[0].parent is parent.real, "parent-link", "fragment: the new element's parent is wrong")
            if failed is None:
                m = from_plain(o["doc"])
                m.l = None
                bind(m, new[0])
            else:
                # what was attached is a prefix; its character data is taken as found
                plain = docgen.model_of_text(str(new[0]))
                m = from_plain(plain)
                bind(m, new[0])
                self.ctx.fault("fragment-failed")
            for x in m.walk():
                x.undocumented = parent.undocumented
            parent.add(m)
            self.register(m)
            return list(m.walk())
        return [parent]

    # -------------------------------------------------------------- checks
    def check_structure(self, where):
        """The real tree is the model tree, object for object."""
        stack = [self.docm]
        while stack:
            m = stack.pop()
            kids = list(list.__iter__(m.real))
            check(len(kids) == len(m.c) and all(a is b.real for a, b in zip(kids, m.c)), "children", "%s: <%s> has children %r, expected %r", where, m.t,
                  [type(k).__name__ for k in kids], [c.t for c in m.c])
            stack.extend(m.c)


def build_root(doc, attrs, tag="svg"):
    real = getattr(doc, tag)(**{k: make_value(v) for k, v in attrs})
    m = M(tag, "", {k: make_value(v) for k, v in attrs})
    m.real = real
    return m
