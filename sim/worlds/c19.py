"""C19: a view box maps onto its viewport by the SVG rules, as both are now."""
from copy import copy

from .. import env, faults
from ..core import check, weighted

ID = "C19"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 400000}
BATCH = 75
SHRINK = ("ops",)
RULE = ("a run is a history of several clients over shared view boxes and viewports: boxes made from text, attributes and other boxes, set again, given other alignments, copied; viewports resized, moved, left without "
        "a size; kept only as text through restarts (a string or a saved document, saves fail); malformed boxes are refused in between; transforms are asked for and applied to points of the box; non-trivial: at "
        "least three transforms with a refusal or restart")
MEASURE = "distinct (operation, alignment, meet or slice, wide or tall box, wide or tall viewport, previous operation) combinations"
REAL = ["svgio.basic Viewbox, Length, Matrix", "svgio.nodes viewBox attribute, Document.write, load"]
STUB = ["raw file (planned write failures)"]
ASSUMPTIONS = ["sizes are positive", "texts of transforms carry 12 decimals"]
EXPECT_FAULTS = ("restart", "refused")
REGS = 3
ALIGN = ["none"] + ["x%sY%s" % (a, b) for a in ("Min", "Mid", "Max") for b in ("Min", "Mid", "Max")]
BAD = ["", "1 2 3", "10 20", "7", "a b c d", "none", "5,6,,"]


def gen_box(rng):
    n = lambda: rng.choice([0, 0, 1, -1, 10, -5.5, 100, -0.25, 333.3])
    s = lambda: rng.choice([1, 10, 100, 480, 360, 0.5, 24, 1000, 33.3])
    return {"v": [n(), n(), s(), s()], "sep": rng.choice([" ", ",", ", ", "  ", "\n"]), "pad": rng.choice(["", "", " "]), "e": rng.random() < 0.2}


def text(b):
    return b["pad"] + b["sep"].join(("%e" % v if b["e"] and float("%e" % v) == v else "%r" % v) for v in b["v"]) + b["pad"]


def gen_aspect(rng):
    if rng.random() < 0.25:
        return None
    a = rng.choice(ALIGN)
    m = rng.choice(["", "", "meet", "slice", "slice"])
    return a + (rng.choice([" ", " ", "  "]) + m if m else "")


def gen(rng):
    n = lambda: rng.choice([0, 0, 5, -3, 100, 0.5])
    s = lambda: rng.choice([1, 100, 200, 1000, 37.5, 0.25])
    ops = [{"op": "make", "r": r, "q": 0, "t": 0, "f": rng.random(), "box": gen_box(rng), "aspect": gen_aspect(rng)} for r in range(REGS)]
    for _ in range(rng.choice([4, 8, 15, 25])):
        k = weighted(rng, [("make", 2), ("set", 3), ("aspect", 3), ("values", 2), ("object", 1), ("copy", 1), ("alias", 0.5), ("edit", 1), ("resize", 3), ("unsized", 0.7), ("transform", 8), ("restart", 2), ("refuse", 2)])
        o = {"op": k, "r": rng.randrange(REGS), "q": rng.randrange(REGS), "t": rng.randrange(REGS), "f": rng.random(), "box": gen_box(rng), "aspect": gen_aspect(rng), "e": [n(), n(), s(), s()], "i": rng.randrange(4),
             "bad": rng.choice(BAD), "medium": rng.choice(["str", "file"])}
        ops.append(o)
    return {"ops": ops}


class Port:
    """A viewport: anything with a place and a size."""

    def __init__(self, v):
        self.x, self.y, self.width, self.height = v


class Sim:
    def __init__(self, ctx, disk):
        self.ctx, self.disk = ctx, disk
        self.regs = [None] * REGS  # pairs (view box, [numbers or None, aspect])
        self.ports = [[0, 0, 100, 100] for _ in range(REGS)]
        self.real = [Port(p) for p in self.ports]
        self.last = [""] * REGS

    def check(self, where):
        for i, p in enumerate(self.regs):
            if p:
                b, (v, a) = p
                got = [b.x, b.y, b.width, b.height]
                check(got == (v or [None] * 4), "box", "%s: box %d is %s, expected %s", where, i, got, v)
                check(b.preserve_aspect_ratio == a, "box", "%s: the alignment of box %d is %r, expected %r", where, i, b.preserve_aspect_ratio, a)
        for r, p in zip(self.real, self.ports):
            check([r.x, r.y, r.width, r.height] == p, "box", "%s: a viewport was changed", where)

    def op_make(self, o, where):
        V = env.basic.Viewbox
        v, a = [float(x) for x in o["box"]["v"]], o["aspect"]
        how = int(o["f"] * 5)
        s = text(o["box"])
        if how == 0:
            b, a = V(s), None
        elif how == 1:
            d = {"viewBox": s, "width": "5", "x": "1"}
            if a is not None:
                d["preserveAspectRatio"] = a
            b = V(d)
        elif how == 2 and self.regs[o["q"]]:
            c, (v, a) = self.regs[o["q"]]
            b = V(c)
            v = v and list(v)
        elif how == 3 and o["f"] < 0.65:
            b, v = V(None, a), None
        else:
            b = V(s, a)
        self.regs[o["r"]] = (b, [v, a])
        return how,

    def op_set(self, o, where):
        b, m = self.regs[o["r"]]
        b.set_viewbox(text(o["box"]))
        m[0] = [float(x) for x in o["box"]["v"]]
        return ()

    def op_aspect(self, o, where):
        b, m = self.regs[o["r"]]
        b.preserve_aspect_ratio = m[1] = o["aspect"]
        return ()

    def op_values(self, o, where):
        b, m = self.regs[o["r"]]
        d = {}
        if o["f"] < 0.7:
            d["viewBox"] = text(o["box"])
            m[0] = [float(x) for x in o["box"]["v"]]
        if o["f"] > 0.4 and o["aspect"] is not None:
            d["preserveAspectRatio"] = m[1] = o["aspect"]
        b.property_by_values(d)
        return len(d),

    def op_object(self, o, where):
        (b, m), (c, n) = self.regs[o["r"]], self.regs[o["q"]]
        b.property_by_object(c)
        m[:] = [n[0] and list(n[0]), n[1]]
        return b is c,

    def op_copy(self, o, where):
        b, m = self.regs[o["r"]]
        self.regs[o["t"]] = (copy(b), [m[0] and list(m[0]), m[1]])
        return ()

    def op_alias(self, o, where):
        self.regs[o["t"]] = self.regs[o["r"]]
        return ()

    def op_edit(self, o, where):
        b, m = self.regs[o["r"]]
        if m[0] is None:
            return None
        v = abs(o["e"][o["i"]]) if o["i"] > 1 else o["e"][o["i"]]
        setattr(b, ["x", "y", "width", "height"][o["i"]], v)
        m[0][o["i"]] = v
        return o["i"],

    def op_resize(self, o, where):
        self.ports[o["r"]] = list(o["e"])
        if o["f"] < 0.5:
            self.real[o["r"]] = Port(o["e"])
        else:
            r = self.real[o["r"]]
            r.x, r.y, r.width, r.height = o["e"]
        return ()

    def op_unsized(self, o, where):
        self.ports[o["r"]][o["i"]] = None
        setattr(self.real[o["r"]], ["x", "y", "width", "height"][o["i"]], None)
        return ()

    def op_transform(self, o, where):
        V, M = env.basic.Viewbox, env.basic.Matrix
        b, (v, a) = self.regs[o["r"]]
        e = self.ports[o["q"]]
        if o["f"] < 0.7:
            s = b.transform(self.real[o["q"]])
        else:
            s = V.viewbox_transform(*(list(e) + (v or [None] * 4) + [a]))
        w = "%s: the transform of %s %s onto %s is %r" % (where, v, a, e, s)
        if v is None or None in e:
            check(s == "", "transform", "%s, expected none", w)
            return "none",
        m = M(s)
        got = [m.a, m.b, m.c, m.d, m.e, m.f]
        check(got[1] == got[2] == 0 and got[0] > 0 and got[3] > 0, "transform", "%s: not upright", w)
        align, _, rest = (a or "xMidYMid").partition(" ")
        mode = rest.strip() or "meet"
        # 12 decimals of the scale, taken that far
        lim = 1e-11 * (1 + max(map(abs, v + e))) + 1e-9 * max(map(abs, e)) + 1e-9 * max(abs(got[4]), abs(got[5]))
        X = lambda x: got[0] * x + got[4]
        Y = lambda y: got[3] * y + got[5]
        size = (got[0] * v[2], got[3] * v[3])
        near = lambda p, q: abs(p - q) <= lim
        if align == "none":
            ok = near(X(v[0]), e[0]) and near(X(v[0] + v[2]), e[0] + e[2]) and near(Y(v[1]), e[1]) and near(Y(v[1] + v[3]), e[1] + e[3])
            check(ok, "transform", "%s: the corners do not meet", w)
        else:
            check(abs(got[0] - got[3]) <= 2e-12 + 1e-9 * got[0], "transform", "%s: stretched", w)
            fits = [near(size[0], e[2]), near(size[1], e[3])]
            check(any(fits), "transform", "%s: neither side fits, size %s", w, size)
            if mode == "slice":
                check(size[0] >= e[2] - lim and size[1] >= e[3] - lim, "transform", "%s: the viewport is not covered, size %s", w, size)
            else:
                check(size[0] <= e[2] + lim and size[1] <= e[3] + lim, "transform", "%s: the viewport is exceeded, size %s", w, size)
            for f, i, t in ((X, 0, align[1:4]), (Y, 1, align[5:8])):
                k = {"Min": 0, "Mid": 0.5, "Max": 1}[t]
                check(near(f(v[i] + k * v[i + 2]), e[i] + k * e[i + 2]), "transform", "%s: not aligned to %s, %s comes to %s", w, align, v[i] + k * v[i + 2], f(v[i] + k * v[i + 2]))
        return align, mode, (v[2] > v[3]) - (v[2] < v[3]), (e[2] > e[3]) - (e[2] < e[3])

    def op_restart(self, o, where):
        """Only the text survives."""
        V, N = env.basic.Viewbox, env.nodes
        b, (v, a) = self.regs[o["r"]]
        if v is None:
            return None
        self.ctx.fault("restart")
        if o["medium"] == "str":
            new, a = V(str(b)), None
        else:
            doc = N.Document()
            root = N.SVG()
            doc.append(root)
            root.parent = doc
            root.attributes["viewBox"] = str(b)
            if a is not None:
                root.attributes["preserveAspectRatio"] = a
            name = self.disk.path("v.svg")
            self.disk.reset(faults=[{"op": "write", "kind": "ENOSPC", "at": int(o["f"] * 60), "sticky": True}])
            try:
                doc.write(name)
            except OSError:
                pass
            self.disk.reset()
            doc.write(name)
            d = N.Document(name)[0]
            check(V(d.viewBox).width == b.width, "box", "%s: the viewBox of a saved document is %r", where, d.viewBox)
            new = V(d.attributes)
        check([new.x, new.y, new.width, new.height] == v, "box", "%s: %s came back from %r as %r", where, v, str(b), str(new))
        self.regs[o["t"]] = (new, [list(v), a])
        return o["medium"],

    def op_refuse(self, o, where):
        """A text that names no box changes nothing."""
        b, m = self.regs[o["r"]]
        self.ctx.fault("refused")
        if o["f"] < 0.6:
            b.set_viewbox(o["bad"])
        elif o["f"] < 0.8:
            b.property_by_values({"viewBox": o["bad"]})
        else:
            b.set_viewbox(None)
        return o["bad"],


def execute(plan, ctx):
    disk = faults.SimDisk(ctx)
    try:
        with disk:
            sim = Sim(ctx, disk)
            asked = special = 0
            for i, o in enumerate(plan["ops"]):
                if o["op"] != "make" and None in (sim.regs[o["r"]], sim.regs[o["q"]]):
                    continue
                where = "step %d (%s)" % (i, o["op"])
                r = getattr(sim, "op_" + o["op"])(o, where)
                if r is None:
                    continue
                ctx.op(o["op"])
                asked += o["op"] == "transform"
                special += o["op"] in ("restart", "refuse")
                sim.check(where)
                ctx.sig(o["op"], r, sim.last[o["r"]])
                sim.last[o["r"]] = o["op"]
                ctx.log(where, [p and p[1] for p in sim.regs])
            if asked >= 3 and special:
                ctx.nontrivial = True
    finally:
        disk.dispose()
