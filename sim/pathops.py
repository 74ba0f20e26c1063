"""Edit histories of geometric paths, carried out on the library's path and on
an executable list model."""
from copy import copy

from . import env
from .core import Violation, HarnessError, check, weighted

TOL = 1e-7

# A model segment: {"k": kind, "s": start or None, "e": end or None,
#                   "c": control points (Q: 1, C: 2, A: centre, prx, pry), "w": sweep of an arc}


def kind_of(seg):
    P = env.path
    for k, cls in (("M", P.Move), ("Z", P.Close), ("L", P.Line), ("Q", P.QuadraticBezier), ("C", P.CubicBezier), ("A", P.Arc)):
        if isinstance(seg, cls):
            return k
    return "?" + type(seg).__name__


def pt(p):
    return None if p is None else (float(p.x), float(p.y))


def read(segs):
    """Model segments as found in real ones."""
    out = []
    for s in segs:
        k = kind_of(s)
        c, w = [], None
        if k == "Q":
            c = [pt(s.control)]
        elif k == "C":
            c = [pt(s.control1), pt(s.control2)]
        elif k == "A":
            c, w = [pt(s.center), pt(s.prx), pt(s.pry)], float(s.sweep)
        out.append({"k": k, "s": pt(s.start), "e": pt(s.end), "c": c, "w": w})
    return out


def clone(model):
    return [dict(g, c=list(g["c"])) for g in model]


def fold(model):
    """Links a list of segments: each starts where the previous one ends, each
    close returns to the last move, or to the end of the first segment."""
    z = prev = None
    for g in model:
        if prev is None or g["k"] == "M":
            z = g["e"]
        if prev is not None:
            g["s"] = prev["e"]
        if g["k"] == "Z":
            g["e"] = z
        prev = g
    return model


def close_to(a, b):
    if a is None or b is None:
        return a is b
    return abs(a[0] - b[0]) <= TOL * (1 + abs(b[0])) and abs(a[1] - b[1]) <= TOL * (1 + abs(b[1]))


def same_ellipse(c1, c2):
    """Centre and axes; a sheared ellipse has other axes than the sheared axes."""
    if None in c1 or None in c2:
        return all(close_to(a, b) for a, b in zip(c1, c2))
    def form(c):
        ux, uy, vx, vy = c[1][0] - c[0][0], c[1][1] - c[0][1], c[2][0] - c[0][0], c[2][1] - c[0][1]
        return ux * ux + vx * vx, ux * uy + vx * vy, uy * uy + vy * vy
    f, g = form(c1), form(c2)
    lim = 10 * TOL * (g[0] + g[2] + 1 + max(map(abs, c2[0])))
    return close_to(c1[0], c2[0]) and all(abs(x - y) <= lim for x, y in zip(f, g))


def show(g):
    f = lambda p: "-" if p is None else "%g,%g" % p
    return "%s(%s -> %s%s)" % (g["k"], f(g["s"]), f(g["e"]), "".join(" [%s]" % f(p) for p in g["c"]))


def show_all(m):
    return " ".join(show(g) for g in m)


def compare(path, model, where, starts=True, kind="segments"):
    real = read(path)
    check(len(real) == len(model), kind, "%s: %d segments, expected %d: %s, expected %s", where, len(real), len(model), show_all(real), show_all(model))
    for i, (r, g) in enumerate(zip(real, model)):
        check(r["k"] == g["k"], kind, "%s: segment %d is %s, expected %s", where, i, show(r), show(g))
        ok = close_to(r["e"], g["e"]) and (not starts or close_to(r["s"], g["s"])) and len(r["c"]) == len(g["c"]) and (same_ellipse(r["c"], g["c"]) if g["k"] == "A" else all(close_to(a, b) for a, b in zip(r["c"], g["c"])))
        check(ok, kind, "%s: segment %d of %d is %s, expected %s", where, i, len(real), show(r), show(g))
        if g["k"] == "A":
            check(abs(r["w"] - g["w"]) <= TOL * 10, kind, "%s: segment %d: arc sweep %g, expected %g", where, i, r["w"], g["w"])


def check_linked(path, where):
    """The linking invariants, from the real segments alone."""
    z = prev = None
    for i, s in enumerate(path):
        if prev is None or isinstance(s, env.path.Move):
            z = s.end
        if prev is not None:
            check(close_to(pt(s.start), pt(prev.end)), "not-connected", "%s: segment %d starts at %s but the previous one ends at %s", where, i, s.start, prev.end)
        if isinstance(s, env.path.Close):
            check(close_to(pt(s.end), pt(z)), "close-not-returning", "%s: close %d ends at %s, its subpath starts at %s", where, i, s.end, z)
        prev = s


# ------------------------------------------------------------------ making

def make(d):
    """A real segment from plain data."""
    P = env.path
    s = tuple(d["s"]) if d.get("s") else None
    k = d["k"]
    if k == "M":
        return P.Move(s, d["e"]) if s else P.Move(d["e"])
    if k == "L":
        return P.Line(s, d["e"])
    if k == "Z":
        return P.Close(s, d.get("e"))
    if k == "Q":
        return P.QuadraticBezier(s, d["p"][0], d["e"])
    if k == "C":
        return P.CubicBezier(s, d["p"][0], d["p"][1], d["e"])
    return P.Arc(s, d["r"][0], d["r"][1], d["r"][2], d["r"][3], d["r"][4], tuple(d["e"]))


def text_of(ds):
    """Absolute path data."""
    out = []
    for d in ds:
        k = d["k"]
        f = lambda p: "%r,%r" % (p[0], p[1])
        if k == "Z":
            out.append("z")
        elif k in "ML":
            out.append(k + f(d["e"]))
        elif k in "QC":
            out.append(k + " ".join(f(p) for p in list(d["p"]) + [d["e"]]))
        else:
            out.append("A%r,%r %r %d,%d %s" % (d["r"][0], d["r"][1], d["r"][2], d["r"][3], d["r"][4], f(d["e"])))
    return " ".join(out)


class SegGen:
    def __init__(self, rng, arcs=True, span=20):
        self.rng, self.arcs, self.span = rng, arcs, span

    def point(self):
        r = self.rng
        if r.random() < 0.15:
            # now and then next to a point that others are at
            return [0.0, 0.0] if r.random() < 0.85 else [r.choice([0.0, 1e-4, -2e-4]), r.choice([0.0, 1e-4])]
        return [r.randint(-2 * self.span, 2 * self.span) / 2.0, r.randint(-2 * self.span, 2 * self.span) / 2.0]

    def seg(self, kinds=None, start=None, linked=0.3):
        r = self.rng
        k = kinds and r.choice(kinds) or weighted(r, [("M", 2), ("L", 6), ("Z", 2), ("Q", 2), ("C", 2), ("A", 1 if self.arcs else 0)])
        d = {"k": k, "e": self.point(), "s": None}
        if r.random() < linked or k == "A":
            d["s"] = start or self.point()
        if k == "Z":
            d["e"] = self.point() if r.random() < 0.4 else None
        if k == "Q":
            d["p"] = [self.point()]
        if k == "C":
            d["p"] = [self.point(), self.point()]
        if k == "A":
            if d["e"] == d["s"]:
                d["e"] = [d["s"][0] + 3.0, d["s"][1] - 1.5]
            d["r"] = [float(r.randint(1, 12)), float(r.randint(1, 12)), float(r.choice([0, 0, 30, 90, -45, 0.05])), r.randint(0, 1), r.randint(0, 1)]
        return d

    def proper(self, n):
        """Segments of a path starting with a move whose closes end subpaths."""
        out = [self.seg("M", linked=0.1)]
        cur = z = out[0]["e"]
        while len(out) < n:
            last = out[-1]["k"]
            if last == "Z":
                d = self.seg("M", linked=0)
            else:
                d = self.seg("MLLLLQCZ" + ("A" if self.arcs else ""), start=cur, linked=0)
            if d["k"] == "A":
                d["s"] = cur
                if d["e"] == cur:
                    d["e"] = [cur[0] + 2.0, cur[1] + 1.0]
            if d["k"] == "M":
                z = d["e"]
            out.append(d)
            cur = z if d["k"] == "Z" else d["e"]
            if d["k"] == "Z":
                d["e"] = None
        return out

    def text_segs(self, n):
        """Segments that can be given as path data of their own."""
        r = self.rng
        if r.random() < 0.5:
            return self.proper(n)
        out = []
        cur = None
        for i in range(n):
            d = self.seg("LLQC" if cur is None else "MLLQCZ", linked=0)
            if i == 0 and d["k"] in "QC":
                d = self.seg("L", linked=0)
            d["s"] = None
            out.append(d)
            cur = d["e"]
        return out

    def index(self):
        r = self.rng
        return weighted(r, [("pos", 5), ("neg", 3), ("out", 0.7), ("end", 0.7)]), r.random()

    def matrix(self):
        r = self.rng
        return r.choice([[1, 0, 0, 1, 3.5, -2], [2, 0, 0, 2, 0, 0], [0.5, 0, 0, 1.5, 1, 1], [0.8, 0.6, -0.6, 0.8, 0, 0], [-1, 0, 0, -1, 4, 0], [1, 0, 0.5, 1, 0, 0], [0, 1, 1, 0, 0, 0], [1, 0, 0, -1, 0, 3], [0.6, 0.8, 0.8, -0.6, 1, 0],
                         [0, -1, 1, 0, 0, 2], [1, 1.5, 1, 1, 0, 0]])


def gen_source(rng):
    """A source of segments that reads the path meanwhile, or fails."""
    return {"read": weighted(rng, [(None, 1), ("length", 2), ("point", 1), ("d", 0.5)]), "fail": rng.choice([None, 0, 1, 2]), "linked": rng.random() < 0.5}


BAD_DATA = ["M 1", "L 3", "M1,1 C 1 2 3", "H", "L1,1 2", "M 1,1 A 1 1 0", "M0,0 Q 1,1", "L a"]


def gen_op(rng, g, measure=False):
    k = weighted(rng, [("append", 4), ("insert", 4), ("set", 4), ("setslice", 2), ("del", 3), ("delslice", 1.5), ("extend", 1.5), ("iadd", 2), ("add", 1),
                       ("radd", 0.7), ("pop", 1.5), ("remove", 0.5), ("clear", 0.1), ("reverse", 2), ("direct_close", 0.7), ("sub_reverse", 2),
                       ("sub_matrix", 1.5), ("sub_set", 1), ("sub_del", 1), ("matrix", 1), ("matmul", 0.5), ("approx", 1), ("copy", 1), ("self_add", 0.2),
                       ("bad", 2), ("read", 1.5), ("linkedset", 1),
                       ("sub_slice", 2), ("sub_iadd", 1), ("sub_sum", 0.7), ("sub_bad", 0.7), ("draw", 2), ("ends", 0.5)])
    o = {"op": k}
    if k in ("append", "insert", "set", "sub_set", "linkedset"):
        o["seg"] = g.seg()
        o["form"] = "obj" if o["seg"]["k"] == "A" or rng.random() < 0.7 else "str"
        if o["form"] == "str":
            o["seg"] = dict(g.seg("MLLZ", linked=0), s=None)
    if k in ("insert", "set", "del", "pop", "sub_set", "sub_del", "linkedset", "remove"):
        o["i"] = list(g.index())
    if k in ("append",) and rng.random() < 0.2:
        o["form"], o["segs"] = "multi", g.text_segs(rng.choice([2, 3, 5]))
    if k in ("setslice", "delslice"):
        o["i"], o["j"], o["step"] = list(g.index()), list(g.index()), weighted(rng, [(None, 6), (2, 1), (-1, 1), (3, 0.5)])
        o["fit"] = rng.random() < 0.8
        o["n"] = rng.choice([0, 1, 2, 3])
        o["segs"] = [g.seg() for _ in range(8)]
        o["form"] = rng.choice(["list", "str", "tuple", "iter", "gen"])
        o["gen"] = gen_source(rng)
        o["tsegs"] = g.text_segs(rng.choice([1, 2, 4]))
    if k in ("extend", "iadd", "add", "radd"):
        o["form"] = rng.choice({"extend": ["list", "iter", "str", "path", "gen", "gen"], "iadd": ["str", "path", "seg", "subpath"],
                                "add": ["str", "path", "seg", "subpath"], "radd": ["str", "seg"]}[k])
        o["segs"] = g.text_segs(rng.choice([1, 2, 4]))
        o["gen"] = gen_source(rng)
        o["seg"] = g.seg()
        o["objs"] = [g.seg() for _ in range(rng.choice([0, 1, 3]))]
        o["keep"] = rng.random() < 0.5
    if k == "sub_slice":
        o["i"], o["j"], o["step"] = list(g.index()), list(g.index()), weighted(rng, [(None, 6), (2, 1), (-1, 1)])
        o["lo"], o["hi"] = rng.random() < 0.2, rng.random() < 0.2
        o["how"] = rng.choice(["set", "set", "del", "del", "get"])
        o["n"], o["segs"] = rng.choice([0, 1, 2, 3]), [g.seg() for _ in range(8)]
    if k in ("sub_iadd", "sub_sum"):
        o["form"] = rng.choice(["str", "path", "seg"])
        o["how"] = rng.choice(["add", "radd", "mul"])
        o["segs"], o["seg"], o["m"] = g.text_segs(rng.choice([1, 2, 4])), g.seg(), g.matrix()
    if k == "sub_bad":
        o["how"], o["i"] = rng.choice(["get", "set", "del"]), list(g.index())
        o["seg"] = g.seg("ML", linked=0)
    if k == "draw":
        o["how"] = rng.choice(["move", "line", "horizontal", "vertical", "quad", "smooth_quad", "cubic", "smooth_cubic", "arc", "closed", "parse"])
        o["n"] = rng.choice([1, 1, 2, 3])
        o["pts"] = [g.point() for _ in range(3 * o["n"])]
        o["r"] = [float(rng.randint(1, 9)), float(rng.randint(1, 9)), rng.choice([0, 30]), rng.randint(0, 1), rng.randint(0, 1)]
        o["segs"] = g.text_segs(rng.choice([1, 2, 4]))
    if k in ("sub_reverse", "sub_matrix", "sub_set", "sub_del", "sub_slice", "sub_iadd", "sub_sum", "sub_bad"):
        o["sub"] = rng.random()
    if k in ("sub_matrix", "matrix", "matmul"):
        o["m"] = g.matrix()
        o["str"] = rng.random() < 0.4
    if k == "approx":
        o["to"] = rng.choice(["cubics", "quads"])
        o["error"] = rng.choice([0.1, 0.05, 0.25])
    if k == "bad":
        o["how"] = rng.choice(["index", "delindex", "data", "insertdata", "appenddata", "many", "size", "popindex", "stepsize", "extenddata", "slicedata", "noseg", "noseg"])
        o["wrong"], o["into"] = rng.choice([None, 5, [1, 2], [], "point", "text"]), rng.choice(["set", "slice", "insert", "append", "extend", "subset"])
        o["data"] = rng.choice(BAD_DATA)
        o["i"] = list(g.index())
        o["seg"] = g.seg("ML", linked=0)
    if k == "read":
        o["i"], o["j"] = list(g.index()), list(g.index())
    if k == "copy":
        o["how"] = rng.choice(["copy", "path", "subpath", "segcopies"])
        o["use"] = rng.random() < 0.5
    return o


def resolve_index(spec, n):
    """An index for a list of n: positive, negative, at the end or outside."""
    how, frac = spec
    i = int(frac * n) if n else 0
    if how == "neg":
        return i - n if n else -1
    if how == "out":
        return n + int(frac * 3) if frac < 0.5 else -n - 1 - int(frac * 3)
    if how == "end":
        return n
    return i


def subpaths(model):
    """[start, end] of each subpath."""
    out, last = [], 0
    for i, g in enumerate(model):
        if i != last and g["k"] == "M":
            out.append([last, i - 1])
            last = i
    if model:
        out.append([last, len(model) - 1])
    return out


def reversible(model):
    return bool(model) and model[0]["k"] == "M" and all(g["k"] != "Z" or i + 1 == len(model) or model[i + 1]["k"] == "M" for i, g in enumerate(model))


def rev_seg(g):
    g = dict(g, s=g["e"], e=g["s"], c=list(g["c"]))
    if g["k"] == "C":
        g["c"].reverse()
    if g["k"] == "A":
        g["w"] = -g["w"]
    return g


def rev_sub(sub):
    """Reversal of one subpath M ... [Z]."""
    body = [g for g in sub[1:] if g["k"] != "Z"]
    closed = sub[-1]["k"] == "Z"
    m = dict(sub[0], c=[])
    if body:
        m["e"] = body[-1]["e"]
    out = [m] + [rev_seg(g) for g in reversed(body)]
    if closed:
        out.append({"k": "Z", "s": out[-1]["e"], "e": m["e"], "c": [], "w": None})
    return out


def xf(m, p):
    return None if p is None else (m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5])


def transform(model, m, a=0, b=None):
    for g in model[a:b]:
        g["s"], g["e"], g["c"] = xf(m, g["s"]), xf(m, g["e"]), [xf(m, p) for p in g["c"]]
        if g["k"] == "A" and m[0] * m[3] - m[1] * m[2] < 0:
            g["w"] = -g["w"]
    return model


MAXLEN = 40


class PathSim:
    """A path and its model."""

    def __init__(self, init, ctx):
        self.ctx = ctx
        P = env.path.Path
        if init["how"] == "str":
            self.p = P(text_of(init["segs"]))
            self.m = read(P(text_of(init["segs"])))
        else:
            segs = [make(d) for d in init["segs"]]
            self.m = fold(read(segs))
            if init["how"] == "list":
                self.p = P(segs)
            elif init["how"] == "tuple":
                self.p = P(tuple(segs))
            else:
                self.p = P()
                for s in segs:
                    self.p.append(s)
        self.others = []          # (path, its model): originals and copies that must not change

    def keep(self, path, where):
        mine = {id(s) for s in self.p}
        check(not any(id(s) in mine for s in path), "shared-segment", "%s: a segment object is shared by the copy and the original", where)
        self.others.append((path, read(path)))

    def check_others(self, where):
        for k, (p, m) in enumerate(self.others):
            compare(p, m, "%s: path %d that was copied or summed before" % (where, k), kind="other-path-changed")

    def matrix_arg(self, o):
        M = env.basic.Matrix
        return "matrix(%r,%r,%r,%r,%r,%r)" % tuple(o["m"]) if o["str"] else M(*o["m"])

    # ------------------------------------------------------------- apply
    def apply(self, o, where):
        """Carries the operation out if it is in the domain; returns whether."""
        r = getattr(self, "op_" + o["op"])(o, where)
        if r is False:
            return False
        self.ctx.op(o["op"])
        return True

    def settle(self, new):
        """Whether the model may become `new` (domain: no leading close, bounded)."""
        return not (new and new[0]["k"] == "Z") and len(new) <= MAXLEN and all(g["e"] is not None or g["k"] == "Z" for g in new)

    def value(self, o):
        """-> (argument for the library, model segments)"""
        if o["form"] == "obj":
            s = make(o["seg"])
            return s, read([s])
        ds = o["segs"] if o["form"] == "multi" else [o["seg"]]
        t = text_of(ds)
        return t, read(env.path.Path(t))

    def op_append(self, o, where):
        arg, ms = self.value(o)
        new = clone(self.m) + ms
        if not self.settle(new):
            return False
        self.p.append(arg)
        self.m = fold(new)

    def op_insert(self, o, where):
        i = resolve_index(o["i"], len(self.m))
        arg, ms = self.value(o)
        new = clone(self.m)
        new.insert(i, ms[0])
        if not self.settle(new):
            return False
        self.p.insert(i, arg)
        self.m = fold(new)

    def op_set(self, o, where):
        i = resolve_index(o["i"], len(self.m))
        arg, ms = self.value(o)
        new = clone(self.m)
        try:
            new[i] = ms[0]
        except IndexError:
            return self.reject(lambda: self.p.__setitem__(i, arg), where)
        if not self.settle(new):
            return False
        self.p[i] = arg
        self.m = fold(new)

    def op_linkedset(self, o, where):
        """A segment already linked where it goes replaces another."""
        if len(self.m) < 2 or o["form"] != "obj" or o["seg"]["k"] == "A":
            return False
        i = resolve_index(["pos", o["i"][1]], len(self.m))
        d = dict(o["seg"], s=self.m[i]["s"] or o["seg"]["s"])
        return self.op_set(dict(o, seg=d, i=["pos", o["i"][1]]), where)

    def slice_of(self, o):
        n = len(self.m)
        i, j = resolve_index(o["i"], n), resolve_index(o["j"], n)
        return slice(i, j, o["step"])

    def source(self, segs, o):
        """Yields the segments, reading the path in between; may fail."""
        for i, s in enumerate(segs):
            if o["fail"] is not None and o["fail"] <= i:
                break
            try:
                if o["read"] == "length":
                    self.p.length()
                elif o["read"] == "point":
                    self.p.point(0.3)
                elif o["read"] == "d":
                    self.p.d()
            except Exception:
                pass
            yield s
        if o["fail"] is not None:
            self.ctx.fault("segment-source-failed")
            raise OSError("simulated failure of the source of segments")

    def op_setslice(self, o, where):
        sl = self.slice_of(o)
        n = len(self.m[sl])
        if o["form"] == "str":
            t = text_of(o["tsegs"])
            arg, ms = t, read(env.path.Path(t))
        else:
            want = n if sl.step is not None and o["fit"] else o["n"]
            segs = [make(d) for d in (o["segs"] * 6)[:want]]
            ms = read(segs)
            if o["form"] == "gen":
                arg = self.source(segs, o["gen"])
                if o["gen"]["fail"] is not None:
                    return self.reject(lambda: self.p.__setitem__(sl, arg), where)
            else:
                arg = {"list": list, "tuple": tuple, "iter": iter}[o["form"]](segs)
        new = clone(self.m)
        try:
            new[sl] = ms
        except ValueError:
            return self.reject(lambda: self.p.__setitem__(sl, arg), where)
        if not self.settle(new):
            return False
        self.p[sl] = arg
        self.m = fold(new)

    def op_del(self, o, where):
        i = resolve_index(o["i"], len(self.m))
        new = clone(self.m)
        try:
            del new[i]
        except IndexError:
            return self.reject(lambda: self.p.__delitem__(i), where)
        if not self.settle(new):
            return False
        del self.p[i]
        self.m = fold(new)

    def op_delslice(self, o, where):
        sl = self.slice_of(o)
        new = clone(self.m)
        del new[sl]
        if not self.settle(new):
            return False
        del self.p[sl]
        self.m = fold(new)

    def op_pop(self, o, where):
        if not self.m:
            return self.reject(lambda: self.p.pop(), where)
        i = -1 if o["i"][0] == "end" else resolve_index(o["i"], len(self.m))
        new = clone(self.m)
        try:
            g = new.pop(i)
        except IndexError:
            return self.reject(lambda: self.p.pop(i), where)
        if not self.settle(new):
            return False
        got = self.p.pop(i)
        check(read([got])[0]["k"] == g["k"], "segments", "%s: pop(%d) gave %s, expected %s", where, i, show(read([got])[0]), show(g))
        self.m = fold(new)

    def op_remove(self, o, where):
        if not self.m:
            return False
        i = resolve_index(["pos", o["i"][1]], len(self.m))
        seg = self.p[i]
        for j, s in enumerate(self.p):
            if s is seg or s == seg:
                break
        new = clone(self.m)
        del new[j]
        if not self.settle(new):
            return False
        self.p.remove(seg)
        self.m = fold(new)

    def op_clear(self, o, where):
        self.p.clear()
        self.m = []

    def other(self, o):
        """-> (argument, model segments, the other path or None)"""
        P = env.path.Path
        f = o["form"]
        if f in ("list", "iter", "gen"):
            segs = [make(d) for d in o["objs"]]
            if f == "gen":
                if o["gen"]["linked"] and self.m:  # as they will be linked
                    at = self.m[-1]["e"]
                    for s in segs:
                        if not isinstance(s, env.path.Arc):
                            s.start = env.path.Point(at)
                        at = s.end or at
                return self.source(segs, o["gen"]), read(segs), None
            return (segs if f == "list" else iter(segs)), read(segs), None
        if f == "seg":
            s = make(o["seg"])
            return s, read([s]), None
        t = text_of(o["segs"])
        if f == "str":
            return t, read(P(t)), None
        q = P(t)
        if f == "subpath":
            sp = q.subpath(-1)
            return sp, read(list(sp)), q
        return q, read(q), q

    def op_extend(self, o, where):
        arg, ms, q = self.other(o)
        if o["form"] == "gen" and o["gen"]["fail"] is not None:
            return self.reject(lambda: self.p.extend(arg), where)
        new = clone(self.m) + ms
        if not self.settle(new):
            return False
        self.p.extend(arg)
        self.m = fold(new)

    def op_iadd(self, o, where):
        arg, ms, q = self.other(o)
        if o["form"] == "str":
            if not self.m:
                return False
            # read as a continuation of this path (C08 decides its meaning)
            ms = read(env.path.Path(self.tail_text() + " " + arg))[self.tail_n:]
        new = clone(self.m) + ms
        if not self.settle(new):
            return False
        before = self.p
        self.p += arg
        check(self.p is before, "segments", "%s: += gave another path", where)
        self.m = fold(new)
        if q is not None:
            self.keep(q, where)

    def tail_text(self):
        e = self.m[-1]["e"]
        self.tail_n = 1
        return "M%r,%r" % e

    def op_add(self, o, where):
        arg, ms, q = self.other(o)
        if o["form"] == "str":
            if not self.m:
                return False
            ms = read(env.path.Path(self.tail_text() + " " + arg))[self.tail_n:]
        new = clone(self.m) + ms
        if not self.settle(new):
            return False
        old = self.p
        self.p = old + arg
        compare(old, self.m, where + ": the summand")
        self.m = fold(new)
        self.keep(old, where)
        if q is not None:
            self.keep(q, where)

    def op_radd(self, o, where):
        arg, ms, q = self.other(o)
        if o["form"] == "seg" and ms[0]["k"] == "Z":
            return False
        new = ms + clone(self.m)
        if not self.settle(new):
            return False
        old = self.p
        self.p = arg + old if o["form"] == "str" else old.__radd__(arg)
        compare(old, self.m, where + ": the summand")
        self.m = fold(new)
        self.keep(old, where)

    def op_self_add(self, o, where):
        new = clone(self.m) + clone(self.m)
        if not self.settle(new) or not self.m:
            return False
        self.p += self.p
        self.m = fold(new)

    def op_reverse(self, o, where):
        if not reversible(self.m):
            return False
        pre = self.m[0]["s"]
        out = []
        for a, b in reversed(subpaths(self.m)):
            out += rev_sub(clone(self.m[a:b + 1]))
        out[0]["s"] = pre
        check(self.p.reverse() is self.p, "returned", "%s: reversing does not give back the path", where)
        self.m = fold(out)
        self.m[0]["s"] = pre

    def op_sub_reverse(self, o, where):
        if not reversible(self.m):
            return False
        subs = subpaths(self.m)
        k = int(o["sub"] * len(subs))
        a, b = subs[k]
        new = clone(self.m)
        new[a:b + 1] = rev_sub(new[a:b + 1])
        new[0]["s"] = self.m[0]["s"]
        sp = self.p.subpath(k)
        check(sp.reverse() is sp, "returned", "%s: reversing a subpath does not give it back", where)
        self.m = fold(new)

    def op_direct_close(self, o, where):
        if not self.m:
            return False
        new = []
        for g in clone(self.m):
            if g["k"] == "Z":
                d = abs(complex(g["s"][0] - g["e"][0], g["s"][1] - g["e"][1]))
                if 0 < d < 1e-6:
                    return False
                if d:
                    new.append({"k": "L", "s": g["s"], "e": g["e"], "c": [], "w": None})
            new.append(g)
        for s in self.p:
            if isinstance(s, env.path.Close) and 0 < abs(s.start - s.end) < 1e-6:
                return False
        if not self.settle(new):
            return False
        self.p.direct_close()
        self.m = fold(new)

    def op_sub_matrix(self, o, where):
        if not self.m:
            return False
        subs = subpaths(self.m)
        k = int(o["sub"] * len(subs))
        a, b = subs[k]
        sp = self.p.subpath(k)
        sp *= self.matrix_arg(o)
        self.m = fold(transform(clone(self.m), o["m"], a, b + 1))

    def op_sub_set(self, o, where):
        if not self.m:
            return False
        subs = subpaths(self.m)
        k = int(o["sub"] * len(subs))
        a, b = subs[k]
        n = b - a + 1
        i = int(o["i"][1] * n)
        arg, ms = self.value(o)
        new = clone(self.m)
        new[a + i] = ms[0]
        if not self.settle(new):
            return False
        sp = self.p.subpath(k)
        sp[i - n if o["i"][0] == "neg" else i] = arg
        self.m = fold(new)

    def op_sub_del(self, o, where):
        if not self.m:
            return False
        subs = subpaths(self.m)
        k = int(o["sub"] * len(subs))
        a, b = subs[k]
        n = b - a + 1
        i = int(o["i"][1] * n)
        new = clone(self.m)
        del new[a + i]
        if not self.settle(new):
            return False
        sp = self.p.subpath(k)
        del sp[i - n if o["i"][0] == "neg" else i]
        check(len(sp) == n - 1, "segments", "%s: the subpath has length %d after deleting one of %d", where, len(sp), n)
        self.m = fold(new)

    def sub_of(self, o):
        """-> (index of the subpath, its first and last segment)"""
        subs = subpaths(self.m)
        k = int(o["sub"] * len(subs))
        return [k] + subs[k]

    def check_window(self, sp, want, where):
        check(len(sp) == len(want), "segments", "%s: the subpath has length %d after its own edit, expected %d", where, len(sp), len(want))
        compare(list(sp), want, where + ": the subpath after its own edit")

    def op_sub_slice(self, o, where):
        if not self.m:
            return False
        k, a, b = self.sub_of(o)
        n = b - a + 1
        i = None if o["lo"] else resolve_index(o["i"], n)
        j = None if o["hi"] else resolve_index(o["j"], n)
        sl = slice(i, j, o["step"])
        sp = self.p.subpath(k)
        sub = clone(self.m)[a:b + 1]
        if o["how"] == "get":
            return compare(sp[sl], sub[sl], where + ": a slice of the subpath")
        if o["how"] == "set":
            want = len(sub[sl]) if sl.step is not None else o["n"]
            segs = [make(d) for d in (o["segs"] * 6)[:want]]
            sub[sl] = read(segs)
        else:
            del sub[sl]
        new = clone(self.m)
        new[a:b + 1] = sub
        if not self.settle(new):
            return False
        if o["how"] == "set":
            sp[sl] = segs
        else:
            del sp[sl]
        self.m = fold(new)
        self.check_window(sp, self.m[a:a + len(sub)], where)

    def op_sub_iadd(self, o, where):
        if not self.m:
            return False
        k, a, b = self.sub_of(o)
        arg, ms, q = self.other(o)
        new = clone(self.m)
        new[b + 1:b + 1] = ms
        if not self.settle(new):
            return False
        sp = self.p.subpath(k)
        sp += arg
        self.m = fold(new)
        self.check_window(sp, self.m[a:b + 1 + len(ms)], where)
        if q is not None:
            self.keep(q, where)

    def op_sub_sum(self, o, where):
        """Sums and products of a subpath leave its path alone."""
        if not self.m:
            return False
        k, a, b = self.sub_of(o)
        sub = clone(self.m)[a:b + 1]
        sp = self.p.subpath(k)
        if sub[0]["k"] == "Z":
            return False
        if o["how"] == "mul":
            res, want = sp * self.matrix_arg(dict(o, str=False)), transform(sub, o["m"])
        elif o["how"] == "add":
            arg, ms, q = self.other(o)
            res, want = sp + arg, sub + ms
        else:
            arg, ms, q = self.other(o if o["form"] == "seg" else dict(o, form="str"))
            if ms and ms[0]["k"] == "Z":
                return False
            res, want = arg + sp, ms + sub
        if not self.settle(want):
            return False
        mine = {id(s) for s in self.p}
        check(not any(id(s) in mine for s in res), "shared-segment", "%s: a segment of the subpath is shared by its %s", where, o["how"])
        compare(self.p, self.m, where + ": the path of the subpath")
        # a result that is itself a window keeps the start it has in its path
        want = fold(want)
        got = read(list(res))
        check([x["k"] for x in got] == [x["k"] for x in want], "segments", "%s: %s gave %s, expected %s", where, o["how"], show_all(got), show_all(want))
        if sub[0]["k"] == "M" and all(x["k"] != "Z" for x in want):
            compare(list(res), want, "%s: %s" % (where, o["how"]), starts=False)

    def op_sub_bad(self, o, where):
        if not self.m:
            return False
        k, a, b = self.sub_of(o)
        n = b - a + 1
        out = n + int(o["i"][1] * 3) if o["i"][0] != "neg" else -n - 1 - int(o["i"][1] * 3)
        sp = self.p.subpath(k)
        if o["how"] == "get":
            return self.reject(lambda: sp[out], where)
        if o["how"] == "del":
            return self.reject(lambda: sp.__delitem__(out), where)
        return self.reject(lambda: sp.__setitem__(out, make(o["seg"])), where)

    def op_ends(self, o, where):
        """Where the path begins and is now: points of the caller's own."""
        if not self.m:
            return False
        first, cur = self.p.first_point, self.p.current_point
        check(close_to(pt(cur), self.m[-1]["e"]), "ends", "%s: the current point is %s, the last segment ends at %s", where, cur, self.m[-1]["e"])
        want = pt(self.p[0].end if self.p[0].start is None else self.p[0].start)
        check(close_to(pt(first), want), "ends", "%s: the first point is %s, the first segment begins at %s", where, first, want)
        for own in (first, cur):
            if own is not None:
                own *= "translate(17, -23)"
                own.x += 5
        compare(self.p, self.m, where + ": the path whose first and current point were read")

    def op_draw(self, o, where):
        """The drawing methods append what they say."""
        if not self.m:
            return False
        h = o["how"]
        new = clone(self.m)
        cur = new[-1]["e"]
        z = new[0]["e"]
        for g in new:
            if g["k"] == "M":
                z = g["e"]
        P = env.path
        pts, args = [tuple(x) for x in o["pts"]], None
        T = lambda *ps: tuple(P.Point(*x) for x in ps)
        if h == "closed":
            new.append({"k": "Z", "s": cur, "e": z, "c": [], "w": None})
            args = ()
        elif h in ("move", "line"):
            ps = pts[:o["n"]]
            new += [{"k": "M" if h == "move" and i == 0 else "L", "s": None, "e": x, "c": [], "w": None} for i, x in enumerate(ps)]
            args = ps
        elif h in ("horizontal", "vertical"):
            args = [x[0] for x in pts[:o["n"]]]
            for v in args:
                cur = (v, cur[1]) if h == "horizontal" else (cur[0], v)
                new.append({"k": "L", "s": None, "e": cur, "c": [], "w": None})
        elif h in ("quad", "cubic"):
            w = 2 if h == "quad" else 3
            args = pts[:w * o["n"]]
            new += [{"k": "Q" if w == 2 else "C", "s": None, "e": args[i + w - 1], "c": args[i:i + w - 1], "w": None} for i in range(0, len(args), w)]
        elif h in ("smooth_quad", "smooth_cubic"):
            w = 1 if h == "smooth_quad" else 2
            kind = "Q" if w == 1 else "C"
            args = pts[:w * o["n"]]
            for i in range(0, len(args), w):
                last, cur = new[-1], new[-1]["e"]
                c = (2 * cur[0] - last["c"][-1][0], 2 * cur[1] - last["c"][-1][1]) if last["k"] == kind else cur
                new.append({"k": kind, "s": None, "e": args[i + w - 1], "c": [c] + args[i:i + w - 1], "w": None})
        elif h == "arc":
            e = pts[0] if pts[0] != cur else (cur[0] + 1, cur[1] + 2)
            a = P.Arc(cur, o["r"][0], o["r"][1], o["r"][2], o["r"][3], o["r"][4], e)
            new += read([a])
            args = list(o["r"]) + [e]
        else:
            t = text_of(o["segs"])
            new += read(P.Path(self.tail_text() + " " + t))[self.tail_n:]
            args = [t]
        if not self.settle(new):
            return False
        check(h == "parse" or getattr(self.p, h)(*args) is self.p, "returned", "%s: %s does not give back the path to go on drawing with", where, h)
        if h == "parse":
            self.p.parse(*args)
        self.m = fold(new)

    def op_matrix(self, o, where):
        self.p @= self.matrix_arg(o)
        self.m = transform(clone(self.m), o["m"])

    def op_matmul(self, o, where):
        old = self.p
        self.p = old @ self.matrix_arg(o)
        compare(old, self.m, where + ": the original")
        self.m = transform(clone(self.m), o["m"])
        self.keep(old, where)

    def op_approx(self, o, where):
        """Arcs become curves with the same ends, close to the arc."""
        arcs = [s for s in self.p if isinstance(s, env.path.Arc)]
        for s in arcs:
            if abs(s.sweep) < 1e-6 or s.rx < 1e-9 or s.ry < 1e-9:
                return False
            # an arc moved away from its ellipse by relinking has no geometry to keep
            a, b = s.point_at_t(s.get_start_t()), s.point_at_t(s.get_start_t() + s.sweep)
            if abs(a - s.start) > 1e-6 or abs(b - s.end) > 1e-6:
                return False
        kinds = "".join(g["k"] for g in self.m)
        if kinds[:1] == "A" and "Z" in kinds.split("M")[0]:
            return False  # a close without a move returns to the end of the first segment, which changes
        import math
        counts = [int(math.ceil(abs(s.sweep) / (math.tau * o["error"]))) for s in arcs]
        if len(self.m) + sum(counts) > 3 * MAXLEN:
            return False
        ref = [copy(s) for s in arcs]
        getattr(self.p, "approximate_arcs_with_" + o["to"])(o["error"])
        real = read(self.p)
        new, i, ai = [], 0, 0
        for g in clone(self.m):
            if g["k"] != "A":
                new.append(g)
                i += 1
                continue
            n, arc = counts[ai], ref[ai]
            ai += 1
            # the number of curves sits on a rounding boundary for half turns and the like
            want = [m for m in (n, n + 1, n - 1) if 0 < m <= len(real) - i
                    and all(x["k"] == ("C" if o["to"] == "cubics" else "Q") for x in real[i:i + m])
                    and close_to(real[i]["s"], g["s"]) and close_to(real[i + m - 1]["e"], g["e"])]
            check(want, "segments", "%s: an arc %s became %s, expected about %d curves", where, show(g), show_all(real[i:i + n + 1]), n)
            n = want[0]
            part = real[i:i + n]
            scale = max(abs(arc.rx), abs(arc.ry))
            for x, real_seg in zip(part, list(self.p)[i:i + n]):
                q = real_seg.point(0.5)
                t = arc.t_at_point(q)
                d = abs(arc.point_at_t(t) - q)
                check(d <= 0.08 * scale + 1e-6, "segments", "%s: a curve of an arc is %g away from the arc (radius %g)", where, d, scale)
            new += part
            i += n
        self.m = fold(new)
        while len(self.m) > MAXLEN:
            self.m.pop()
            self.p.pop()

    def op_copy(self, o, where):
        P = env.path.Path
        if o["how"] == "copy":
            c, cm = copy(self.p), clone(self.m)
        elif o["how"] == "path":
            c, cm = P(self.p), clone(self.m)
        elif o["how"] == "segcopies":
            c, cm = P([copy(s) for s in self.p]), fold(clone(self.m))
        else:
            if not self.m:
                return False
            k = int(len(self.m) * 0.37) % len(subpaths(self.m))
            a, b = subpaths(self.m)[k]
            c, cm = P(self.p.subpath(k)), clone(self.m)[a:b + 1]
            if cm[0]["k"] == "Z":
                return False
        compare(c, cm, where + ": the copy")
        if o["use"] and o["how"] != "subpath":
            old, self.p = self.p, c
            self.keep(old, where)
        else:
            self.keep(c, where)

    def op_bad(self, o, where):
        n = len(self.m)
        h = o["how"]
        seg = make(o["seg"])
        t1 = text_of([dict(o["seg"], s=None)])
        out = n + 1 + int(o["i"][1] * 5)
        if o["i"][0] == "neg":
            out = -n - 1 - int(o["i"][1] * 5)
        inside = int(o["i"][1] * n)
        p = self.p
        if h == "index":
            return self.reject(lambda: p.__setitem__(out, seg), where)
        if h == "delindex":
            return self.reject(lambda: p.__delitem__(out), where)
        if h == "popindex":
            return self.reject(lambda: p.pop(out), where)
        if h == "insertdata":
            return self.reject(lambda: p.insert(inside, o["data"]), where)
        if h == "appenddata":
            return self.reject(lambda: p.append(o["data"]), where)
        if h == "extenddata":
            return self.reject(lambda: p.extend(o["data"]), where)
        if h == "slicedata":
            return self.reject(lambda: p.__setitem__(slice(inside, inside + 1), o["data"]), where)
        if h == "noseg":
            # What is no segment, alone or after one that is.
            w = o["wrong"]
            w = env.basic.Point(1, 2) if w == "point" else ["L1,2"] if w == "text" else tuple(w) if isinstance(w, list) else w
            into = o["into"]
            if into == "insert":
                return self.reject(lambda: p.insert(inside, w), where)
            if into == "append":
                return self.reject(lambda: p.append(w), where)
            if into == "extend":
                return self.reject(lambda: p.extend([seg, w]), where)
            if into == "slice":
                return self.reject(lambda: p.__setitem__(slice(inside, inside + 1), [seg, w]), where)
            if n == 0:
                return False
            if into == "set":
                return self.reject(lambda: p.__setitem__(inside, w), where)
            sp = p.subpath(0)
            return self.reject(lambda: sp.__setitem__(0, w), where)
        if n == 0:
            return False
        if h == "data":
            return self.reject(lambda: p.__setitem__(inside, o["data"]), where)
        if h == "many":
            return self.reject(lambda: p.__setitem__(inside, t1 + " L1,2"), where)
        if h == "stepsize":
            if n < 3:
                return False
            return self.reject(lambda: p.__setitem__(slice(0, n, 2), [make(o["seg"]) for _ in range(n)]), where)
        if h == "size":
            if n < 3:
                return False
            return self.reject(lambda: p.__setitem__(slice(None, None, 2), "M0,0" + " L1,1" * (n + 1)), where)

    def reject(self, f, where):
        try:
            f()
        except Exception:
            pass
        else:
            raise Violation("not-rejected", "%s: an edit that cannot be made was accepted" % where)
        self.ctx.fault("rejected-edit")
        compare(self.p, self.m, where + ": after a rejected edit", kind="rejected-edit-changed-path")

    def equality(self, i, where):
        """Paths and subpaths are equal when all their segments are."""
        P, p = env.path, self.p
        q = P.Path(*[copy(s) for s in p])
        for x, y in [(p, q)] + [(sp, P.Path(*[copy(s) for s in sp])) for sp in p.as_subpaths()][:3]:
            check(x == y and not x != y and y == x and not y != x, "equality", "%s: a %s of %d segments is not equal to a path of the same ones", where, type(x).__name__, len(y))
        s = q[i]
        names = [k for k in ("end", "control", "control1", "control2", "center") if getattr(s, k, None) is not None]
        k = names[(i + len(q)) % len(names)]
        e = getattr(s, k)
        setattr(s, k, env.basic.Point(e.x, e.y - 0.25) if i % 2 else env.basic.Point(e.x + 0.5, e.y))
        check(not p == q and p != q and not q == p and q != p, "equality", "%s: paths are equal whose segments %d differ in %s", where, i, k)
        setattr(s, k, e)
        check(p == q, "equality", "%s: not equal after the difference is undone", where)
        del q[-1]
        check(not p == q and p != q and q != p, "equality", "%s: equal to a shorter path", where)

    def op_read(self, o, where):
        """Reading access agrees with list semantics."""
        p, m = self.p, self.m
        n = len(m)
        check(len(p) == n, "segments", "%s: len is %d, expected %d", where, len(p), n)
        if n:
            i = resolve_index([o["i"][0] if o["i"][0] in ("pos", "neg") else "pos", o["i"][1]], n)
            compare([p[i]], [m[i]], "%s: [%d]" % (where, i))
            self.equality(i, where)
            sl = slice(resolve_index(o["i"], n), resolve_index(o["j"], n))
            compare(p[sl], m[sl], where + ": slice")
            compare(p[i::-1], m[i::-1], where + ": slice backwards")
            compare(list(reversed(p)), m[::-1], where + ": reversed")
            check(close_to(pt(p.current_point), m[-1]["e"]), "segments", "%s: current point %s, expected %s", where, p.current_point, m[-1]["e"])
            f = m[0]["s"] or m[0]["e"]
            check(close_to(pt(p.first_point), f), "segments", "%s: first point %s, expected %s", where, p.first_point, f)
            z = m[0]["e"]
            for g in m:
                if g["k"] == "M":
                    z = g["e"]
            check(close_to(pt(p.z_point), z), "segments", "%s: z point %s, expected %s", where, p.z_point, z)
            subs = subpaths(m)
            check(p.count_subpaths() == len(subs), "segments", "%s: %d subpaths, expected %d", where, p.count_subpaths(), len(subs))
            for k, sp in enumerate(p.as_subpaths()):
                a, b = subs[k]
                compare(list(sp), m[a:b + 1], "%s: subpath %d" % (where, k))
                check(len(sp) == b - a + 1, "segments", "%s: subpath %d has length %d", where, k, len(sp))
                compare([sp[-1], sp[0]], [m[b], m[a]], "%s: subpath %d ends" % (where, k))
                for sl in (slice(None, None, -1), slice(i, None, -1), slice(None, None, 2), slice(None, i), slice(-2, None)):
                    compare(sp[sl], m[a:b + 1][sl], "%s: subpath %d %s" % (where, k, sl))


def gen_history(rng, n, arcs=True, span=20, extra=None):
    g = SegGen(rng, arcs, span)
    how = rng.choice(["str", "str", "list", "tuple", "append"])
    k = rng.choice([1, 2, 4, 8, 14])
    if how == "str" or rng.random() < 0.6:
        segs = g.proper(k)
    else:
        segs = [g.seg("MLQC")] + [g.seg() for _ in range(k - 1)]
    ops = []
    for _ in range(n):
        o = extra(rng, g) if extra else None
        ops.append(o or gen_op(rng, g))
    return {"init": {"how": how, "segs": segs}, "ops": ops}
