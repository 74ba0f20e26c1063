"""C14: transforms compose, apply and invert over any history."""
import math
from copy import copy

from .. import env, faults, pathops
from ..core import Violation, check, weighted

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 400000}
BATCH = 75
SHRINK = ("ops", "text")
RULE = ("a run is a history of several clients over shared transform matrices: built from text, components, other matrices; extended before and after by every function, in place or derived; inverted, reset, "
        "edited by item, used to transform points, segments, subpaths and paths; kept only as text through restarts (a string or a saved document, saves fail); malformed texts, wrong operands and singular "
        "inverses are rejected in between; after every step every matrix is compared with an affine map composed separately; non-trivial: at least six steps with one rejection or restart")
MEASURE = "distinct (operation, form of the operand, previous operation on that matrix, rejected or not) combinations"
REAL = ["svgio.basic Matrix, Point, Angle, Length (transform texts)", "svgio.path segments, Subpath, Path", "svgio.nodes transform attribute, Document.write, load"]
STUB = ["raw file (planned write failures)"]
ASSUMPTIONS = ["angles in text are degrees, rad, grad or turn; distances unitless or px", "matrices that are nearly singular or very large are not inverted",
               "matrix texts carry 12 decimals (the library's number format)"]
EXPECT_FAULTS = ("restart", "rejected-operand", "singular")
REGS = 4

ANGLES = [0, 30, 45, 90, 180, -90, 270, 360, 12.5, -33, 60, 405]
SKEWS = [0, 10, 30, 45, -20, 12.5, 60]
NUMS = [0, 1, -1, 2, 0.5, -2, 3, 10, -7.5, 0.25, 1e-3, 100]
SCALES = [1, -1, 2, 0.5, -2, 3, 0.25, 1.5, -0.75]
UNITS = {"": math.tau / 360, "deg": math.tau / 360, "rad": 1.0, "grad": math.tau / 400, "turn": math.tau}


# ------------------------------------------------------------- reference maps
ONE = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


def then(p, q):
    """p applied first, then q."""
    a, b, c, d, e, f = p
    A, B, C, D, E, F = q
    return (A * a + C * b, B * a + D * b, A * c + C * d, B * c + D * d, A * e + C * f + E, B * e + D * f + F)


def at(m, p):
    return (m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5])


def det(m):
    return m[0] * m[3] - m[1] * m[2]


def inv(m):
    k = det(m)
    a, b, c, d = m[3] / k, -m[1] / k, -m[2] / k, m[0] / k
    return (a, b, c, d, -(a * m[4] + c * m[5]), -(b * m[4] + d * m[5]))


def tr(x, y):
    return (1.0, 0.0, 0.0, 1.0, x, y)


def around(m, x, y):
    return then(then(tr(-x, -y), m), tr(x, y))


def rot(t):
    return (math.cos(t), math.sin(t), -math.sin(t), math.cos(t), 0.0, 0.0)


def skew(s, t):
    return (1.0, math.tan(t), math.tan(s), 1.0, 0.0, 0.0)


def map_of(f):
    """Affine map of one transform function {"f": name, "n": numbers, "u": units of the angles}."""
    n = f["n"]
    k = f["f"]
    ang = lambda i: n[i] * UNITS[f["u"]]
    if k == "matrix":
        return tuple(float(v) for v in n)
    if k == "translate":
        return tr(n[0], n[1] if len(n) > 1 else 0)
    if k == "translatex":
        return tr(n[0], 0)
    if k == "translatey":
        return tr(0, n[0])
    if k == "scale":
        return (n[0], 0.0, 0.0, n[1] if len(n) > 1 else n[0], 0.0, 0.0)
    if k == "scalex":
        return (n[0], 0.0, 0.0, 1.0, 0.0, 0.0)
    if k == "scaley":
        return (1.0, 0.0, 0.0, n[0], 0.0, 0.0)
    if k == "rotate":
        return around(rot(ang(0)), *n[1:]) if len(n) > 1 else rot(ang(0))
    if k == "skewx":
        return around(skew(ang(0), 0), *n[1:]) if len(n) > 1 else skew(ang(0), 0)
    if k == "skewy":
        return around(skew(0, ang(0)), *n[1:]) if len(n) > 1 else skew(0, ang(0))
    if k == "skew":
        return around(skew(ang(0), ang(1)), *n[2:]) if len(n) > 2 else skew(ang(0), ang(1))
    raise KeyError(k)


def number(v, style):
    s = "%r" % v
    if style == 1 and s.startswith("0."):
        s = s[1:]
    if style == 2 and v >= 0:
        s = "+" + s
    if style == 3:
        s = "%e" % v
        if float(s) != v:
            s = "%r" % v
    return s


CASES = {"translatex": "translateX", "translatey": "translateY", "scalex": "scaleX", "scaley": "scaleY", "skewx": "skewX", "skewy": "skewY"}


def text_of(fs):
    """A transform text; the last function is the first to be applied."""
    out = []
    for f in fs:
        n = []
        angles = {"rotate": 1, "skewx": 1, "skewy": 1, "skew": 2}.get(f["f"], 0)
        for i, v in enumerate(f["n"]):
            unit = ""
            if i < angles:
                unit = f["u"]
            elif f["px"] and f["f"] in ("translate", "translatex", "translatey", "rotate", "skew", "skewx", "skewy"):
                unit = "px"
            n.append(number(v, f["style"]) + unit)
        name = CASES.get(f["f"], f["f"])
        out.append(name + f["gap"] + "(" + f["pad"] + f["sep"].join(n) + f["pad"] + ")")
    return fs[0]["join"].join(out) if fs else ""


def map_of_text(fs):
    m = ONE
    for f in fs:
        m = then(map_of(f), m)
    return m


def gen_fun(rng):
    k = weighted(rng, [("matrix", 2), ("translate", 2), ("translatex", 0.6), ("translatey", 0.6), ("scale", 2), ("scalex", 0.6), ("scaley", 0.6), ("rotate", 3), ("skewx", 1), ("skewy", 1), ("skew", 1)])
    num = lambda: rng.choice(NUMS)
    u = rng.choice(["", "", "deg", "rad", "grad", "turn"])
    def ang(pool):
        v = rng.choice(pool)
        return {"": v, "deg": v, "rad": round(math.radians(v), 6), "grad": v / 0.9, "turn": v / 360.0}[u]
    if k == "matrix":
        n = rng.choice([[1, 0, 0, 1, num(), num()], [0.6, 0.8, -0.8, 0.6, num(), num()], [2, 0.5, -1, 1.5, num(), num()], [0, 1, 1, 0, 0, num()], [-1, 0, 0, 1, num(), 0], [1, 2, 0.5, 3, 0, 0]])
    elif k == "translate":
        n = [num() for _ in range(rng.choice([1, 2, 2]))]
    elif k in ("translatex", "translatey"):
        n = [num()]
    elif k == "scale":
        n = [rng.choice(SCALES) for _ in range(rng.choice([1, 2, 2]))]
    elif k in ("scalex", "scaley"):
        n = [rng.choice(SCALES)]
    elif k == "rotate":
        n = [ang(ANGLES)] + ([num(), num()] if rng.random() < 0.5 else [])
    elif k == "skew":
        n = [ang(SKEWS), ang(SKEWS[:4])] + ([num(), num()] if rng.random() < 0.4 else [])
    else:
        n = [ang(SKEWS)] + ([num(), num()] if rng.random() < 0.4 else [])
    return {"f": k, "n": n, "u": u, "px": rng.random() < 0.2, "style": rng.randrange(4), "sep": rng.choice([",", " ", ", ", " ,  "]), "gap": rng.choice(["", "", "", " "]),
            "pad": rng.choice(["", "", " "]), "join": rng.choice([" ", "", ",", "\n", " , "])}


BAD = ["matrix(1,2,3)", "rotate()x matrix(1)", "matrix(1 2 3 4 5)", "scale(2) matrix(1,2)", "scale(1,2,3,4,5)", "translate(3,4) skewX(a)", "rotate(x)", "skewY(q)", "translateX(,)", "scaleY(deg)"]


HELPERS = [(when + name, n) for when in ("post_", "pre_") for name, n in [("scale", 1), ("scale", 2), ("scale", 4), ("scale_x", 3), ("scale_y", 3), ("rotate", 1), ("rotate", 3), ("rotate", 3),
                                                                           ("skew", 2), ("skew", 4), ("skew_x", 3), ("skew_y", 3), ("translate", 2), ("translate_x", 1), ("translate_y", 1)]]
# Lengths that cannot be resolved without a context.
LENGTHS = ["translate(20%,3)", "translate(3, 20%)", "translate(2mm)", "translateY(1em)", "translate(1vw 2vh)", "scale(2) translate(5in,0)", "rotate(90,10%,10%)"]


def gen(rng):
    ops = []
    for _ in range(rng.choice([3, 8, 15, 25])):
        k = weighted(rng, [("new", 2), ("text", 2), ("post", 4), ("pre", 4), ("cat", 2.5), ("imul", 2), ("mul", 2), ("mul_text", 1), ("inverse", 1.5), ("invert", 1.2), ("parse", 1.5), ("reset", 0.2),
                           ("item", 0.5), ("copy", 0.7), ("vector", 0.5), ("undo", 1), ("use", 5), ("restart", 1.5), ("bad", 1.5), ("singular", 0.6), ("flags", 0.7)])
        o = {"op": k, "r": rng.randrange(REGS), "q": rng.randrange(REGS), "t": rng.randrange(REGS), "f": rng.random(), "h": rng.random()}
        if k in ("text", "parse", "post", "pre", "cat", "imul", "mul_text", "use", "new", "restart"):
            o["text"] = [gen_fun(rng) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        if k in ("cat", "imul", "use"):
            o["form"] = rng.choice(["matrix", "text", "register", "register", "components"])
        if k == "item":
            o["i"], o["v"] = rng.randrange(6), rng.choice(SCALES)
        if k == "bad":
            o["s"], o["how"] = rng.choice(BAD), rng.choice(["imul", "mul", "rmul", "new", "post_cat", "pre_cat", "point", "seg", "path", "subpath", "number", "none", "parse", "helper", "helper", "helper", "lengths", "lengths"])
            if o["how"] == "helper":
                o["name"], n = rng.choice(HELPERS)
                o["args"] = [rng.choice(NUMS) for _ in range(n)]
                o["i"], o["wrong"] = rng.randrange(n), rng.choice(["q", "", [1], {}])
            if o["how"] == "lengths":
                o["s"], o["on"] = rng.choice(LENGTHS), rng.randrange(9)
        if k == "use":
            g = pathops.SegGen(rng)
            o["on"] = weighted(rng, [("point", 3), ("vector", 1), ("inverse", 2), ("seg", 3), ("path", 2), ("subpath", 1.5), ("roundtrip", 1)])
            o["segs"] = g.text_segs(rng.choice([1, 2, 3]))
            o["p"] = [rng.choice(NUMS), rng.choice(NUMS)]
        if k == "restart":
            o["medium"] = rng.choice(["repr", "repr", "components", "file"])
        ops.append(o)
    return {"ops": ops}


class Sim:
    def __init__(self, ctx, disk):
        self.ctx, self.disk = ctx, disk
        M = env.basic.Matrix
        self.real = [M() for _ in range(REGS)]
        self.model = [ONE] * REGS
        self.cond = [1.0] * REGS  # accumulated size of the numbers that made it
        self.last = [""] * REGS

    def fits(self, m):
        return max(map(abs, m)) < 1e5 and abs(det(m)) > 1e-6

    def check(self, where):
        for i in range(REGS):
            self.same(self.real[i], self.model[i], self.cond[i], "%s: matrix %d" % (where, i))

    def same(self, r, m, cond, where, kind="matrix"):
        check(isinstance(r, env.basic.Matrix), kind, "%s is a %s", where, type(r).__name__)
        v = [r.a, r.b, r.c, r.d, r.e, r.f]
        ok = all(isinstance(x, (int, float)) and abs(x - y) <= 1e-10 * cond for x, y in zip(v, m))
        check(ok, kind, "%s is %s, expected %s", where, v, list(m))

    def set(self, i, m, cond=None):
        self.model[i] = tuple(float(v) for v in m)
        self.cond[i] = max(self.cond[i] if cond is None else cond, 1.0, *map(abs, m)) * 1.5

    def near(self, a, b, lim, what, *args):
        ok = a is not None and abs(a[0] - b[0]) <= lim and abs(a[1] - b[1]) <= lim
        check(ok, "applied", what + ": %s, expected %s", *(args + ((None if a is None else (a[0], a[1])), b)))

    # ---- one step; False when not taken
    def step(self, o, where):
        r = getattr(self, "op_" + o["op"])(o, where)
        return r is not False

    def op_new(self, o, where):
        M = env.basic.Matrix
        m = map_of_text(o["text"])
        r = o["r"]
        if not self.fits(m):
            return False
        how = int(o["f"] * 5)
        k, u = o["text"][0], UNITS[o["text"][0]["u"]]
        if how == 0:
            self.real[r] = M(*m)
        elif how == 1:
            self.real[r] = M(list(m))
        elif how == 2:
            self.real[r] = M(M(*m))
        elif how == 3 and len(k["n"]) < 3 and k["f"] != "matrix":
            # the constructors named after the functions
            name = {"translatex": "translate_x", "translatey": "translate_y", "scalex": "scale_x", "scaley": "scale_y", "skewx": "skew_x", "skewy": "skew_y"}.get(k["f"], k["f"])
            n = [x * u for x in k["n"]] if k["f"] in ("rotate", "skew", "skewx", "skewy") else k["n"]
            self.real[r] = getattr(M, name)(*n)
            m = map_of(k)
        else:
            self.real[r] = M()
            m = ONE
        self.set(r, m, 1.0)

    def op_text(self, o, where):
        m = map_of_text(o["text"])
        if not self.fits(m):
            return False
        s = text_of(o["text"])
        self.real[o["r"]] = env.basic.Matrix(s)
        self.set(o["r"], m, self.size(o["text"]))
        self.same(self.real[o["r"]], m, self.cond[o["r"]], "%s: transform %r" % (where, s), "text")
        check(self.real[o["r"]] == s and not self.real[o["r"]] != s, "text", "%s: a matrix read from %r is not equal to that text", where, s)

    def size(self, fs):
        m, big = ONE, 1.0
        for f in fs:
            m = then(map_of(f), m)
            big = max([big] + [abs(v) for v in m] + [abs(v) for v in map_of(f)] + [abs(v) for v in f["n"]])
        return big * big

    def extend(self, o, where, post):
        k = o["text"][0]
        m = map_of(k)
        r = o["r"]
        new = then(self.model[r], m) if post else then(m, self.model[r])
        if not self.fits(new):
            return False
        name = {"translatex": "translate_x", "translatey": "translate_y", "scalex": "scale_x", "scaley": "scale_y", "skewx": "skew_x", "skewy": "skew_y", "matrix": "cat"}.get(k["f"], k["f"])
        if not post and name in ("translate_x", "translate_y"):
            pass
        n = list(k["n"])
        na = {"rotate": 1, "skewx": 1, "skewy": 1, "skew": 2}.get(k["f"], 0)
        for i in range(na):
            a = env.basic.Angle.parse("%r%s" % (n[i], k["u"])) if o["f"] < 0.3 else n[i] * UNITS[k["u"]]
            n[i] = a
        if k["f"] == "scale" and o["f"] > 0.7:
            x, y = [k["n"][0], 3.0][:2]
            n = [k["n"][0], k["n"][-1], x, y]
            m = around(map_of(dict(k, n=[k["n"][0], k["n"][-1]])), x, y)
            new = then(self.model[r], m) if post else then(m, self.model[r])
            if not self.fits(new):
                return False
        if len(n) > na and o["h"] < 0.1 and na:
            n[na:] = [None] * (len(n) - na)  # no centre
            m = map_of(dict(k, n=k["n"][:na]))
            new = then(self.model[r], m) if post else then(m, self.model[r])
        res = getattr(self.real[r], ("post_" if post else "pre_") + name)(*n)
        del res
        self.set(r, new, max(self.cond[r], self.size([k])))
        return True

    def op_post(self, o, where):
        return self.extend(o, where, True)

    def op_pre(self, o, where):
        return self.extend(o, where, False)

    def operand(self, o):
        """-> (operand, its map, size) as a matrix, a text or another register"""
        if o["form"] == "register":
            return self.real[o["q"]], self.model[o["q"]], self.cond[o["q"]]
        m = map_of_text(o["text"])
        if o["form"] == "text":
            return text_of(o["text"]), m, self.size(o["text"])
        return env.basic.Matrix(*m), m, self.size(o["text"])

    def op_cat(self, o, where):
        x, m, big = self.operand(o)
        r = o["r"]
        new = then(self.model[r], m) if o["f"] < 0.5 else then(m, self.model[r])
        if not self.fits(new):
            return False
        f = self.real[r].post_cat if o["f"] < 0.5 else self.real[r].pre_cat
        if o["form"] == "components":
            f(*m)
        else:
            f(x)
        self.set(r, new, max(self.cond[r], big))

    def op_imul(self, o, where):
        x, m, big = self.operand(o)
        r = o["r"]
        new = then(self.model[r], m)
        if not self.fits(new):
            return False
        v = self.real[r]
        if o["f"] < 0.5:
            v *= x
        else:
            v @= x
        check(v is self.real[r], "matrix", "%s: multiplying in place made another matrix", where)
        self.set(r, new, max(self.cond[r], big))

    def op_mul(self, o, where):
        a, b, t = o["r"], o["q"], o["t"]
        new = then(self.model[a], self.model[b])
        if not self.fits(new):
            return False
        v = self.real[a] * self.real[b] if o["f"] < 0.5 else self.real[a] @ self.real[b]
        check(v is not self.real[a] and v is not self.real[b], "matrix", "%s: the product is one of its factors", where)
        c = max(self.cond[a], self.cond[b])
        self.real[t] = v
        self.set(t, new, c)

    def op_mul_text(self, o, where):
        s, m = text_of(o["text"]), map_of_text(o["text"])
        r, t = o["r"], o["t"]
        new = then(self.model[r], m) if o["f"] < 0.5 else then(m, self.model[r])
        if not self.fits(new):
            return False
        v = self.real[r] * s if o["f"] < 0.25 else self.real[r] @ s if o["f"] < 0.5 else s * self.real[r] if o["f"] < 0.75 else s @ self.real[r]
        c = max(self.cond[r], self.size(o["text"]))
        self.real[t] = v
        self.set(t, new, c)

    def op_inverse(self, o, where):
        r = o["r"]
        new = inv(self.model[r])
        if not self.fits(new):
            return False
        got = self.real[r].inverse()
        check(got is self.real[r], "matrix", "%s: inverse() returned another matrix", where)
        self.set(r, new, self.cond[r] * max(1.0, *map(abs, new)))
        self.settle(r, where)

    def settle(self, r, where):
        """Rounding has grown: go on from what is there."""
        self.same(self.real[r], self.model[r], self.cond[r], where)
        if self.cond[r] > 1e4:
            v = self.real[r]
            self.model[r] = tuple(float(x) for x in (v.a, v.b, v.c, v.d, v.e, v.f))
            self.cond[r] = max(1.0, *map(abs, self.model[r]))

    def op_invert(self, o, where):
        r, t = o["r"], o["t"]
        new = inv(self.model[r])
        if not self.fits(new):
            return False
        v = ~self.real[r]
        check(v is not self.real[r], "matrix", "%s: ~ returned the matrix itself", where)
        c = self.cond[r] * max(1.0, *map(abs, new))
        self.real[t] = v
        self.set(t, new, c)
        self.settle(t, where)

    def op_undo(self, o, where):
        """Composed with its own inverse, on either side, nothing is left."""
        r = o["r"]
        new = inv(self.model[r])
        if not self.fits(new):
            return False
        c = self.cond[r] * max(1.0, *map(abs, new)) * max(1.0, *map(abs, self.model[r]))
        for v in (self.real[r] * ~self.real[r], ~self.real[r] * self.real[r]):
            self.same(v, ONE, c, "%s: a matrix composed with its inverse" % where, "inverse")

    def op_parse(self, o, where):
        r = o["r"]
        new = then(map_of_text(o["text"]), self.model[r])
        if not self.fits(new):
            return False
        s = text_of(o["text"])
        self.real[r].parse(s)
        self.set(r, new, max(self.cond[r], self.size(o["text"])))

    def op_reset(self, o, where):
        self.real[o["r"]].reset()
        self.set(o["r"], ONE, 1.0)
        check(self.real[o["r"]].is_identity(), "matrix", "%s: a reset matrix is not the identity", where)

    def op_item(self, o, where):
        m = list(self.model[o["r"]])
        m[o["i"]] = o["v"]
        if not self.fits(m):
            return False
        if o["f"] < 0.5:
            self.real[o["r"]][o["i"]] = o["v"]
        else:
            setattr(self.real[o["r"]], "abcdef"[o["i"]], o["v"])
        self.set(o["r"], m)

    def op_copy(self, o, where):
        v = copy(self.real[o["r"]])
        check(v is not self.real[o["r"]] and v == self.real[o["r"]], "matrix", "%s: a copy is not equal to its original", where)
        c, m = self.cond[o["r"]], self.model[o["r"]]
        self.real[o["t"]] = v
        self.set(o["t"], m, c)

    def op_vector(self, o, where):
        v = self.real[o["r"]].vector()
        c, m = self.cond[o["r"]], self.model[o["r"]]
        self.real[o["t"]] = v
        self.set(o["t"], m[:4] + (0.0, 0.0), c)

    def op_flags(self, o, where):
        r, q = o["r"], o["q"]
        v, m = self.real[r], self.model[r]
        lim = 1e-9 * self.cond[r] * max(1.0, *map(abs, m))
        check(abs(v.determinant - det(m)) <= lim, "flags", "%s: determinant %g, expected %g", where, v.determinant, det(m))
        d = max(abs(x - y) for x, y in zip(m, self.model[q]))
        big = 1e-10 * (self.cond[r] + self.cond[q])
        if d > 1e-11 + 2 * big:
            check(v != self.real[q] and not v == self.real[q], "flags", "%s: two matrices %s and %s are equal", where, m, self.model[q])
        n = copy(v)
        i = int(o["f"] * 6)
        n[i] = n[i] + (1 + abs(n[i])) * 10 ** -(3 + 4 * o["h"])
        check(v != n and not v == n, "flags", "%s: two matrices %r and %r are equal", where, list(v), list(n))
        check(v == v and (not v.is_identity() or max(abs(x - y) for x, y in zip(m, ONE)) <= 1e-12 + big), "flags", "%s: %s is the identity", where, m)
        for name, x in (("value_trans_x", m[4]), ("value_trans_y", m[5]), ("value_scale_x", m[0]), ("value_scale_y", m[3]), ("value_skew_x", m[1]), ("value_skew_y", m[2])):
            got = getattr(v, name)()
            check(abs(got - x) <= 1e-10 * self.cond[r], "flags", "%s: %s() is %g, expected %g", where, name, got, x)

    def op_restart(self, o, where):
        """Only the text of a matrix survives."""
        M = env.basic.Matrix
        r = o["r"]
        self.ctx.fault("restart")
        v, m = self.real[r], self.model[r]
        if o["medium"] == "components":
            new = M("matrix(%s)" % ",".join("%.15g" % x for x in v))
        elif o["medium"] == "repr":
            new = M(repr(v))
        else:
            # the transform list an element carries, saved to a disk that fails first
            N = env.nodes
            doc = N.Document()
            root = N.SVG()
            doc.append(root)
            root.parent = doc
            s, m = text_of(o["text"]), map_of_text(o["text"])
            if not self.fits(m):
                return False
            e = N.Group(transform=s)
            root.append(e)
            e.parent = root
            name = self.disk.path("t.svg")
            self.disk.reset(faults=[{"op": "write", "kind": "ENOSPC", "at": int(o["f"] * 60), "sticky": True}])
            try:
                doc.write(name)
            except OSError:
                pass
            self.disk.reset()
            doc.write(name)
            g = N.Document(name)[0][0]
            check(" ".join(g.transform.split()) == " ".join(s.split()), "text", "%s: a transform %r came back as %r", where, s, g.transform)
            new = M(g.transform)
            self.real[r] = new
            self.set(r, m, self.size(o["text"]))
            return
        lim = 1e-11 * max(1.0, *map(abs, m)) + 1e-10 * self.cond[r]
        got = [new.a, new.b, new.c, new.d, new.e, new.f]
        check(all(abs(x - y) <= lim for x, y in zip(got, m)), "text", "%s: a matrix %s came back from %r as %s", where, list(m), repr(v), got)
        self.real[r] = new
        self.model[r] = tuple(float(x) for x in got)

    def op_singular(self, o, where):
        m = env.basic.Matrix(1, 2, 2, 4, 3, o["r"])
        self.ctx.fault("singular")
        for f in (lambda: m.inverse(), lambda: ~m, lambda: m.point_in_inverse_space((1, 2))):
            try:
                f()
            except Exception:
                pass
            else:
                raise Violation("singular", "%s: a singular matrix was inverted" % where)
            check([m.a, m.b, m.c, m.d, m.e, m.f] == [1, 2, 2, 4, 3, o["r"]], "rejected-changed", "%s: a rejected inversion changed the matrix to %r", where, m)

    def op_bad(self, o, where):
        B, P = env.basic, env.path
        v = self.real[o["r"]]
        s = o["s"]
        how = o["how"]
        self.ctx.fault("rejected-operand")
        before = list(v)
        p, seg, path = B.Point(1, 2), P.CubicBezier((0, 0), (1, 2), (3, 4), (5, 6)), P.Path("M1,2 L3,4 Q5,6 7,8z")
        sub = path.subpath(0)
        def imul(x, y):
            x *= y
        def imatmul(x, y):
            x @= y
        f = {"imul": lambda: imul(v, s), "mul": lambda: v * s, "rmul": lambda: s * v, "new": lambda: B.Matrix(s), "post_cat": lambda: v.post_cat(s), "pre_cat": lambda: v.pre_cat(s),
             "point": lambda: imul(p, s), "seg": lambda: imul(seg, s), "path": lambda: imatmul(path, s), "subpath": lambda: imul(sub, s),
             "number": lambda: v.post_cat(1, 2, 3), "none": lambda: v.__imatmul__(None), "parse": lambda: v.parse(s)}.get(how)
        if how == "helper":
            args = list(o["args"])
            args[o["i"]] = o["wrong"]
            s = (o["name"], args)
            f = lambda: getattr(v, o["name"])(*args)
        if how == "lengths":
            m = B.Matrix(s)
            things = [B.Point(0, 0), B.Point(0, 5), B.Point(5, 0), P.Line((0, 0), (1, 2)), P.CubicBezier((0, 1), (1, 2), (3, 4), (0, 0)), P.Move((0, 0)), P.Path("M0,0 L0,4 Q5,6 7,0z"), P.Path("M0,0 L0,4 Q5,6 7,0z").subpath(0), [0.0, 0.0]]
            thing = things[o["on"]]
            f = (lambda: imul(thing, m)) if o["on"] not in (6, 8) else (lambda: imatmul(thing, m)) if o["on"] == 6 else (lambda: m.transform_point(thing))
            was = repr(list(thing))
        try:
            f()
        except Exception:
            pass
        else:
            raise Violation("accepted", "%s: %r was accepted as a transform (%s)" % (where, s, how))
        check(list(v) == before, "rejected-changed", "%s: a rejected operand (%s of %r) changed a matrix from %s to %s", where, how, s, before, list(v))
        ok = p == (1, 2) and seg == P.CubicBezier((0, 0), (1, 2), (3, 4), (5, 6)) and path.d() == P.Path("M1,2 L3,4 Q5,6 7,8z").d()
        if how == "lengths":
            ok = ok and repr(list(thing)) == was
        check(ok, "rejected-changed", "%s: a rejected transform %r changed what it was applied to", where, s)

    def op_use(self, o, where):
        """Applied to points, segments, subpaths and paths."""
        B, P = env.basic, env.path
        x, m, big = self.operand(o)
        p = tuple(o["p"])
        if not self.fits(m):
            return False
        on = o["on"]
        M = x if isinstance(x, B.Matrix) else B.Matrix(x)
        lim = 1e-9 * big * (1 + max(map(abs, p)))
        want = at(m, p)
        if on == "point":
            q = B.Point(*p)
            for name, got in (("point * matrix", q * x), ("point_in_matrix_space", M.point_in_matrix_space(q)), ("point_in_matrix_space of a pair", M.point_in_matrix_space(p)),
                              ("transform_point", M.transform_point(list(p)))):
                self.near(got, want, lim, "%s: %s with %s of %s" % (where, name, m, p))
            check(q == p, "operand-changed", "%s: transforming a point changed the original to %s", where, q)
            q *= x
            self.near(q, want, lim, "%s: point *= %s of %s" % (where, m, p))
            r = B.Point(*p)
            M.transform_point(r)
            self.near(r, want, lim, "%s: transform_point in place, %s of %s" % (where, m, p))
        elif on == "vector":
            want = at(m[:4] + (0, 0), p)
            self.near(M.transform_vector(list(p)), want, lim, "%s: transform_vector %s of %s" % (where, m, p))
            self.near(M.vector().point_in_matrix_space(p), want, lim, "%s: vector() %s of %s" % (where, m, p))
        elif on == "inverse":
            i = inv(m)
            if not self.fits(i):
                return False
            lim *= max(1.0, *map(abs, i)) * max(1.0, *map(abs, m))
            self.near(M.point_in_inverse_space(p), at(i, p), lim, "%s: point_in_inverse_space %s of %s" % (where, m, p))
            self.near(M.point_in_inverse_space(want), p, lim, "%s: %s of %s and back" % (where, m, p))
        elif on == "roundtrip":
            i = inv(m)
            if not self.fits(i) or max(map(abs, i)) * big > 1e4:
                return False
            path = P.Path(pathops.text_of(o["segs"]))
            if any(isinstance(s, P.Arc) for s in path):
                return False
            old = pathops.read(path)
            pathops.compare((path @ x) @ ~M, old, where + ": transformed and back", kind="applied")
            path @= x
            path @= ~M
            pathops.compare(path, old, where + ": transformed in place and back", kind="applied")
        else:
            path = P.Path(pathops.text_of(o["segs"]))
            old = pathops.read(path)
            if on == "path":
                want = pathops.transform(pathops.clone(old), m)
                got = path @ x
                pathops.compare(got, want, "%s: path @ %s" % (where, m), kind="applied")
                pathops.compare(path, old, where + ": the original of a transformed path", kind="operand-changed")
                path @= x
                pathops.compare(path, want, "%s: path @= %s" % (where, m), kind="applied")
            elif on == "subpath":
                sub = path.subpath(0)
                want = pathops.transform(pathops.clone(old), m)
                if o["f"] < 0.5:
                    got = sub * x if o["f"] < 0.25 else x * sub if isinstance(x, str) else sub * x
                    pathops.compare(list(got), want[:len(list(sub))], "%s: subpath * %s" % (where, m), kind="applied", starts=False)
                    pathops.compare(path, old, where + ": the original of a transformed subpath", kind="operand-changed")
                elif len(list(sub)) == len(old):
                    sub *= x
                    pathops.compare(path, want, "%s: subpath *= %s" % (where, m), kind="applied")
            else:
                for s, g in zip(list(path), old):
                    want = pathops.transform([dict(g, c=list(g["c"]))], m)
                    got = s * x if o["f"] < 0.5 or not isinstance(x, str) else x * s
                    pathops.compare([got], want, "%s: segment * %s" % (where, m), kind="applied")
                    pathops.compare([s], [g], where + ": the original of a transformed segment", kind="operand-changed")
                    got *= ""
                    s *= x
                    pathops.compare([s], want, "%s: segment *= %s" % (where, m), kind="applied")


def execute(plan, ctx):
    disk = faults.SimDisk(ctx)
    try:
        with disk:
            sim = Sim(ctx, disk)
            taken = special = 0
            for i, o in enumerate(plan["ops"]):
                where = "step %d (%s)" % (i, o["op"])
                if not sim.step(o, where):
                    continue
                ctx.op(o["op"])
                taken += 1
                special += o["op"] in ("bad", "singular", "restart")
                sim.check(where)
                ctx.sig(o["op"], o.get("form") or o.get("how") or o.get("medium") or (o["text"][0]["f"] if o.get("text") else ""), sim.last[o["r"]], o.get("on"))
                sim.last[o["r"]] = o["op"]
                ctx.log(where, [["%.9g" % x for x in m] for m in sim.model])
                for r in range(REGS):
                    sim.settle(r, where)
            if taken >= 6 and special:
                ctx.nontrivial = True
    finally:
        disk.dispose()
