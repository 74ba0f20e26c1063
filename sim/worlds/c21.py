"""C21: points and angles are exact vectors and turns over any history."""
import math
from copy import copy

from .. import accel, env, faults
from ..core import check, weighted

ID = "C21"
LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 300000}
BATCH = 60
SHRINK = ("ops",)
RULE = ("a run is a history of several clients over shared points: made from pairs, complex numbers, texts and other points; added, subtracted and multiplied with points, pairs, lists, complex and real numbers on either "
        "side, in place or into new ones, operated on themselves, moved towards others, reflected, moved along an angle, transformed, set by name or index; kept only as text, repr, complex or in a saved document whose "
        "earlier saves failed; operands that cannot be used are refused in between; accelerators come and go; after every step every point is compared with a complex number kept separately; distances, angles, equality, "
        "orientation, convex hulls, closest points on lines and conversions of angles are compared with their definitions; non-trivial: at least six steps with one refusal or restart")
MEASURE = "distinct (operation, way of doing it, form of the operand, operated on itself or not, outcome) combinations"
REAL = ["svgio.basic Point, Angle", "svgio.path Line and Close: closest point", "svgio.nodes: an attribute, Document.write, load"]
STUB = ["raw file (planned write failures)", "numpy import (absent, leaving, returning)"]
ASSUMPTIONS = ["texts of points carry 12 digits, representations 12 decimals", "integer coordinates where orientation decides"]
EXPECT_FAULTS = ("restart", "refused")
REGS = 4
BIG = 1e7
COORD = [0, 1, -1, 2, 0.5, 10, -7.25, 3, 100, 1e-7, 1e5, -0.1, 12.345678901]
FORMS = [("register", 4), ("point", 1.5), ("pair", 1.5), ("list", 1), ("complex", 1.5), ("number", 1.5)]
ANGLES = [0, 30, 45, 90, 180, 270, 360, -90, 720, 1e-9, 400, 123.4, -0.5, 57.29577951308232, -450, -1000.25]


def gen(rng):
    def xy():
        return [rng.choice(COORD), rng.choice(COORD)] if rng.random() < 0.7 else [rng.uniform(-50, 50), rng.uniform(-50, 50)]
    ops = [{"op": "new", "r": r, "q": 0, "t": 0, "f": rng.random(), "v": xy(), "form": weighted(rng, [("pair", 1), ("complex", 1), ("point", 1), ("two", 1), ("text", 1)])} for r in range(REGS)]
    for _ in range(rng.choice([3, 8, 15, 25])):
        k = weighted(rng, [("new", 2), ("add", 4), ("sub", 4), ("mul", 4), ("matrix", 2), ("towards", 2), ("reflect", 2), ("polar", 2), ("set", 2), ("copy", 1), ("alias", 1), ("conjugate", 1), ("power", 0.7), ("measure", 4),
                           ("equal", 2), ("hull", 1.5), ("orient", 1), ("closest", 2), ("angle", 3), ("restart", 2), ("refuse", 2.5), ("lib", 1)])
        o = {"op": k, "r": rng.randrange(REGS), "q": rng.randrange(REGS), "t": rng.randrange(REGS), "f": rng.random(), "v": xy(), "how": weighted(rng, [("in", 2.5), ("new", 3), ("swap", 2)]),
             "form": weighted(rng, FORMS)}
        if k == "new":
            o["form"] = weighted(rng, [("pair", 1), ("list", 1), ("complex", 1), ("point", 1), ("two", 1), ("text", 1.5), ("register", 1), ("number", 0.5)])
        if k in ("towards", "closest"):
            o["n"] = rng.choice([0, 1, 0.5, 0.25, rng.random(), 2, -1])
        if k == "matrix":
            o["m"] = [rng.choice([1, 0.5, -1, 0, 2]) for _ in range(4)] + xy()
        if k in ("polar", "angle"):
            o["a"] = [rng.choice(ANGLES), rng.choice(ANGLES)]
            o["d"] = rng.choice([0, 1, 5, -2, 0.5])
            o["u"] = rng.choice(["deg", "grad", "rad", "turn", "%", ""])
        if k in ("hull", "orient"):
            n = rng.choice([1, 2, 3, 4, 6, 10, 20]) if k == "hull" else 3
            w = rng.choice([2, 5, 30])
            o["ps"] = [[rng.randrange(-w, w + 1), rng.randrange(-w, w + 1)] for _ in range(n)]
            if rng.random() < 0.2:
                o["ps"] = [[2 * x, 3 * x + 1] for x, _ in o["ps"]]
        if k == "closest":
            o["seg"] = [xy(), xy()] if rng.random() < 0.85 else [[3, 4], [3, 4]]
        if k == "restart":
            o["medium"] = rng.choice(["str", "str", "repr", "complex", "tuple", "file"])
        if k == "refuse":
            o["what"] = rng.choice(["add", "iadd", "sub", "isub", "radd", "rsub", "imul", "new", "item", "set", "towards"])
            o["bad"] = rng.randrange(5)
        if k == "lib":
            o["cfg"] = rng.choice(["ok", "missing"])
        ops.append(o)
    return {"ops": ops}


def close(a, b, scale=0.0, rel=1e-12):
    return abs(a - b) <= rel * (1 + abs(a) + abs(b) + scale)


class Sim:
    def __init__(self, ctx, disk, acc):
        self.ctx, self.disk, self.acc, self.numpy = ctx, disk, acc, "ok"
        self.regs = [None] * REGS  # pairs (point, [complex]); aliases share both

    def same(self, p, z, where, rel=1e-12, scale=0.0):
        P = env.basic.Point
        check(isinstance(p, P), "value", "%s is a %s, expected the point %r", where, type(p).__name__, z)
        ok = isinstance(p.x, (int, float)) and isinstance(p.y, (int, float)) and close(p.x, z.real, scale, rel) and close(p.y, z.imag, scale, rel)
        check(ok, "value", "%s is (%r, %r), expected (%r, %r)", where, p.x, p.y, z.real, z.imag)

    def check(self, where):
        for i, pair in enumerate(self.regs):
            if pair:
                p, cell = pair
                self.same(p, cell[0], "%s: point %d" % (where, i))
                cell[0] = complex(p.x, p.y)
                views = [complex(p), complex(p.real, p.imag), complex(p[0], p[1]), complex(*p)]
                check(all(v == cell[0] for v in views) and len(p) == 2, "views", "%s: point %d (%r, %r) reads as %s", where, i, p.x, p.y, views)

    def put(self, o, p, z, where):
        self.same(p, z, where, scale=abs(z))
        check(all(pair is None or p is not pair[0] for pair in self.regs), "shared", "%s: the result is not a point of its own", where)
        self.regs[o["t"]] = (p, [complex(p.x, p.y)])

    def operand(self, o):
        """-> what is given, the complex number it stands for"""
        P = env.basic.Point
        x, y = o["v"]
        f = o["form"]
        if f == "register":
            p, c = self.regs[o["q"]]
            return p, c[0]
        if f == "point":
            return P(x, y), complex(x, y)
        if f == "pair":
            return (x, y), complex(x, y)
        if f == "list":
            return [x, y], complex(x, y)
        if f == "complex":
            return complex(x, y), complex(x, y)
        return x, complex(x, 0)

    def op_new(self, o, where):
        P = env.basic.Point
        x, y = o["v"]
        f = o["form"]
        if f in ("two", "text"):
            given, z = None, complex(x, y)
            if f == "two":
                p = P(x, y)
            else:
                sep = [",", " ", ", ", " ,  "][int(o["f"] * 4)]
                p = P("%r%s%r" % (x, sep, y))
        else:
            given, z = self.operand(o)
            p = P(given)
            check(p is not given, "shared", "%s: the point made from a point is that point", where)
        o = dict(o, t=o["r"])
        self.put(o, p, z, where)
        return f,

    def arith(self, o, where, name, f):
        p, cell = self.regs[o["r"]]
        other, w = self.operand(o)
        z = cell[0]
        want = {"add": z + w, "sub": z - w, "mul": z * w}[name]
        if o["how"] == "swap" and name == "sub":
            want = w - z
        if not abs(want) < BIG:
            return None
        scale = abs(z) + abs(w) if name != "mul" else abs(z) * abs(w)
        if o["how"] == "in":
            q = f(p, other, True)
            check(q is p, "identity", "%s: the operation in place gave another object", where)
            self.same(p, want, "%s with %s" % (where, o["form"]), scale=scale)
            cell[0] = complex(p.x, p.y)
        else:
            q = f(other, p, False) if o["how"] == "swap" else f(p, other, False)
            self.put(o, q, want if scale < 1 else complex(q.x, q.y) if close(q.x, want.real, scale) and close(q.y, want.imag, scale) else want, "%s with %s" % (where, o["form"]))
        if not isinstance(other, env.basic.Point):
            back = complex(*other) if isinstance(other, (tuple, list)) else complex(other)
            check(back == w, "operand", "%s: the operand became %r", where, other)
        return o["how"], o["form"], o["form"] == "register" and self.regs[o["q"]][0] is p

    def op_add(self, o, where):
        def f(a, b, inplace):
            if inplace:
                a += b
                return a
            return a + b
        return self.arith(o, where, "add", f)

    def op_sub(self, o, where):
        def f(a, b, inplace):
            if inplace:
                a -= b
                return a
            return a - b
        return self.arith(o, where, "sub", f)

    def op_mul(self, o, where):
        def f(a, b, inplace):
            if inplace:
                a *= b
                return a
            return a * b
        return self.arith(o, where, "mul", f)

    def op_matrix(self, o, where):
        p, cell = self.regs[o["r"]]
        a, b, c, d, e, f = o["m"]
        z = cell[0]
        want = complex(a * z.real + c * z.imag + e, b * z.real + d * z.imag + f)
        if not abs(want) < BIG:
            return None
        m = env.basic.Matrix(a, b, c, d, e, f)
        form = "matrix"
        if o["f"] < 0.3:
            m, form = "matrix(%r,%r,%r,%r,%r,%r)" % (a, b, c, d, e, f), "text"
        scale = 3 * abs(z) + abs(complex(e, f))
        how = o["how"]
        if how == "in":
            if o["f"] > 0.6:
                q = p.matrix_transform(m)
            else:
                q = p
                q *= m
            check(q is p, "identity", "%s: the operation in place gave another object", where)
            self.same(p, want, where, scale=scale)
            cell[0] = complex(p.x, p.y)
        else:
            q = m * p if how == "swap" and form == "text" else p * m
            self.same(q, want, where, scale=scale)
            self.put(o, q, complex(q.x, q.y), where)
        return how, form

    def op_towards(self, o, where):
        P = env.basic.Point
        p, cell = self.regs[o["r"]]
        if o["form"] == "number":
            o = dict(o, form="pair")
        other, w = self.operand(o)
        z, n = cell[0], o["n"]
        want = z + n * (w - z)
        scale = abs(z) + abs(w) * 3
        if o["how"] == "in":
            p.move_towards(other, n) if n != 1 else p.move_towards(other)
            self.same(p, want, where, scale=scale)
            cell[0] = complex(p.x, p.y)
        else:
            if isinstance(other, complex):
                other = P(other)
            q = P.towards(p, other, n)
            self.same(q, want, where, scale=scale)
            self.put(o, q, complex(q.x, q.y), where)
        return o["how"], o["form"]

    def op_reflect(self, o, where):
        p, cell = self.regs[o["r"]]
        if o["form"] in ("number", "list", "pair"):
            o = dict(o, form="register")
        other, w = self.operand(o)
        want = w + w - cell[0]
        if not abs(want) < BIG:
            return None
        q = p.reflected_across(other)
        self.same(q, want, where, scale=abs(w) * 2 + abs(cell[0]))
        self.put(o, q, complex(q.x, q.y), where)
        return o["form"],

    def op_polar(self, o, where):
        B = env.basic
        p, cell = self.regs[o["r"]]
        a = B.Angle.degrees(o["a"][0])
        d = o["d"]
        rad = math.radians(o["a"][0])
        want = cell[0] + complex(math.cos(rad) * d, math.sin(rad) * d)
        if o["how"] == "in":
            q = p.polar_to(a, d)
            check(q is p, "identity", "%s: polar_to gave another object", where)
            self.same(p, want, where, scale=10)
            cell[0] = complex(p.x, p.y)
        else:
            q = B.Point.polar(p, a if o["f"] < 0.5 else float(a), d)
            self.same(q, want, where, scale=10)
            self.put(o, q, complex(q.x, q.y), where)
        return o["how"], o["a"][0] % 90 == 0

    def op_set(self, o, where):
        p, cell = self.regs[o["r"]]
        x, y = o["v"]
        z = cell[0]
        k = int(o["f"] * 4)
        if k == 0:
            p.x = x
        elif k == 1:
            p[0] = x
        elif k == 2:
            p.y = y
        else:
            p[1] = y
        cell[0] = complex(x, z.imag) if k < 2 else complex(z.real, y)
        return k,

    def op_copy(self, o, where):
        p, cell = self.regs[o["r"]]
        self.put(o, copy(p), cell[0], where)
        return ()

    def op_alias(self, o, where):
        self.regs[o["t"]] = self.regs[o["r"]]
        return o["t"] == o["r"],

    def op_conjugate(self, o, where):
        p, cell = self.regs[o["r"]]
        self.put(o, p.conjugate(), cell[0].conjugate(), where)
        return ()

    def op_power(self, o, where):
        """Of whole coordinates, as powers are rounded to whole ones."""
        P = env.basic.Point
        x, y = [int(round(v)) for v in o["v"]]
        n = 1 + int(o["f"] * 3)
        if not x and not y or max(abs(x), abs(y)) > 1000:
            return None
        want = complex(x, y) ** n
        self.same(P(x, y) ** n, complex(round(want.real), round(want.imag)), "%s: (%d, %d) to the power %d" % (where, x, y, n))
        return n,

    def op_measure(self, o, where):
        P = env.basic.Point
        p, cell = self.regs[o["r"]]
        if o["form"] == "number":
            o = dict(o, form="list")
        other, w = self.operand(o)
        z = cell[0]
        check(close(abs(p), abs(z)), "measure", "%s: abs of %s is %r", where, z, abs(p))
        got = {"distance_to": p.distance_to(other)}
        if not isinstance(other, complex):
            got["distance"] = P.distance(p, other)
            got["distance back"] = P.distance(other, p)
        for k, v in got.items():
            check(close(v, abs(w - z), abs(z) + abs(w)), "measure", "%s: %s of %s and %s is %r", where, k, z, w, v)
        if abs(w - z) > 1e-6 * (abs(z) + abs(w)) + 1e-12:
            want = math.atan2(w.imag - z.imag, w.real - z.real)
            got = {"angle_to": p.angle_to(other)}
            if not isinstance(other, complex):
                got["angle"] = P.angle(p, other)
            for k, v in got.items():
                check(close(math.cos(v), math.cos(want), rel=1e-9) and close(math.sin(v), math.sin(want), rel=1e-9) and isinstance(v, env.basic.Angle), "measure", "%s: %s from %s to %s is %r", where, k, z, w, v)
        if z != 0 and math.isfinite(abs(z)):
            v, want = p.argz(), math.atan2(z.imag, z.real)
            check(close(math.cos(v), math.cos(want), rel=1e-9) and close(math.sin(v), math.sin(want), rel=1e-9), "measure", "%s: argz of %s is %r", where, z, v)
        return o["form"],

    def op_equal(self, o, where):
        P = env.basic.Point
        p, cell = self.regs[o["r"]]
        z = cell[0]
        if o["form"] == "number":
            return None
        other, w = self.operand(o)
        near = abs(z.real - w.real) <= 1e-13 and abs(z.imag - w.imag) <= 1e-13
        far = abs(z.real - w.real) > 1e-9 or abs(z.imag - w.imag) > 1e-9
        if near or far:
            for eq, ne in ((p == other, p != other), (other == p, other != p)):
                check(eq is near and ne is far, "equal", "%s: %s == %r is %r, != is %r", where, z, other, eq, ne)
        twin = [P(p), copy(p), (p.x, p.y), complex(p.x, p.y)]
        check(all(p == t and not p != t and t == p for t in twin), "equal", "%s: %s does not equal its copies", where, z)
        check(hash(P(p)) == hash(p), "equal", "%s: equal points hash differently", where)
        for bad in (None, "junk", object(), ()):
            check(not p == bad and p != bad, "equal", "%s: %s equals %r", where, z, bad)
        return o["form"], near, far

    def op_orient(self, o, where):
        P = env.basic.Point
        a, b, c = [P(*v) for v in o["ps"]] if o["f"] < 0.5 else [tuple(v) for v in o["ps"]]
        (ax, ay), (bx, by), (cx, cy) = o["ps"]
        v = (by - ay) * (cx - bx) - (bx - ax) * (cy - by)
        got = P.orientation(a, b, c)
        check(got == (0 if v == 0 else 1 if v > 0 else 2), "orientation", "%s: orientation of %s is %r", where, o["ps"], got)
        return got,

    def op_hull(self, o, where):
        P = env.basic.Point
        ps = [tuple(v) for v in o["ps"]]
        given = [P(*v) for v in ps] if o["f"] < 0.5 else list(ps)
        hull = []
        for p in P.convex_hull(given):
            hull.append((p[0], p[1]))
            check(len(hull) <= len(ps), "hull", "%s: the hull of %s goes on as %s", where, ps, hull)
        check([(p[0], p[1]) for p in given] == ps, "operand", "%s: the hull changed its points", where)
        check(len(set(hull)) == len(hull) and set(hull) <= set(ps), "hull", "%s: the hull of %s is %s", where, ps, hull)

        def side(a, b, c):
            return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        # the corners, by Andrew's chain
        def chain(s):
            out = []
            for p in s:
                while len(out) > 1 and side(out[-2], out[-1], p) <= 0:
                    out.pop()
                out.append(p)
            return out[:-1]
        s = sorted(set(ps))
        corners = s if len(s) < 2 else chain(s) + chain(s[::-1])
        check(set(corners) <= set(hull), "hull", "%s: the hull of %s is %s, its corners are %s", where, ps, hull, corners)
        for i in range(len(hull)):
            a, b = hull[i], hull[(i + 1) % len(hull)]
            if len(corners) > 2:
                check(all(side(a, b, c) >= 0 for c in ps), "hull", "%s: a point of %s lies outside of the hull %s", where, ps, hull)
        return len(corners), len(hull) > len(corners)

    def op_closest(self, o, where):
        B, G = env.basic, env.path
        (ax, ay), (bx, by) = o["seg"]
        a, b = complex(ax, ay), complex(bx, by)
        kind = "line" if o["f"] < 0.7 else "close"
        seg = (G.Line if kind == "line" else G.Close)((ax, ay), (bx, by))
        p, cell = self.regs[o["r"]]
        z = cell[0]
        bounded = o["n"] != 0.5
        if 0 < abs(b - a) < 1e-3 * (1 + abs(z)):
            return None
        with self.acc({"numpy": self.numpy, "scipy": "ok"}):
            got = seg.closest_segment_point(p if o["f"] < 0.9 else (z.real, z.imag), respect_bounds=bounded)
        n = 0 if a == b else ((z - a) * (b - a).conjugate()).real / abs(b - a) ** 2
        if bounded:
            n = min(1, max(0, n))
        want = a + n * (b - a)
        try:
            g = complex(got[0], got[1])
        except (TypeError, IndexError):
            g = None
        check(g is not None and close(g, want, abs(a) + abs(b) + abs(z), 1e-9), "closest", "%s: the point of the %s from %s to %s closest to %s is %r, expected %r", where, kind, a, b, z, got, want)
        return kind, self.numpy, bounded, a == b, n in (0, 1)

    def op_angle(self, o, where):
        A = env.basic.Angle
        deg = o["a"][0]
        u = o["u"]
        n = {"deg": deg, "": deg, "grad": deg / 0.9, "rad": math.radians(deg), "turn": deg / 360, "%": deg / 3.6}[u]
        text = "%r%s" % (n, u.upper() if o["f"] < 0.3 else u)
        make = {"deg": A.degrees, "grad": A.gradians, "rad": A.radians, "turn": A.turns}.get(u)
        rad = math.radians(deg)
        for a in [A.parse(text)] + ([make(n)] if make else []):
            check(isinstance(a, A) and close(float(a), rad, rel=1e-12), "angle", "%s: %s is %r, expected %r radians", where, text, a, rad)
            back = [a.as_radians, math.radians(a.as_degrees), a.as_gradians * math.pi / 200, a.as_turns * 2 * math.pi]
            check(all(close(float(v), rad, rel=1e-11) for v in back), "angle", "%s: %s converts to %s", where, text, back)
            v = a.as_positive_degrees
            check(v >= 0 and (v == a.as_degrees if deg >= 0 else v <= 360 and abs((v - deg + 180) % 360 - 180) < 1e-9), "angle", "%s: %s in positive degrees is %r", where, text, v)
            v = float(a.normalized())
            check(0 <= v <= 2 * math.pi + 1e-12 and abs((v - rad + math.pi) % (2 * math.pi) - math.pi) < 1e-9, "angle", "%s: %s normalized is %r", where, text, v)
            b = A.degrees(o["a"][1])
            d = abs((o["a"][0] - o["a"][1] + 180) % 360 - 180)
            if d < 1e-12 or d > 1e-8:
                check((a == b) is (d < 1e-12) and (a != b) is (d > 1e-8), "angle", "%s: %s and %r degrees: == is %r, != is %r", where, text, o["a"][1], a == b, a != b)
            whole = A.turns(n // 1) if u == "turn" else a
            for t in (copy(a), A(float(a) + 2 * math.pi), A(float(a) - 2 * math.pi), whole):
                check(t == a and not t != a and a == t, "angle", "%s: %r does not equal %r which is whole turns away", where, t, a) if t is not whole or n == n // 1 else None
            check(not a == None and a != None and not a == "junk", "angle", "%s: %s equals what is no angle", where, text)  # noqa: E711
            if deg == int(deg) and deg % 90:
                check(not a.is_orthogonal(), "angle", "%s: %s is orthogonal", where, text)
        if deg % 90 == 0 and deg >= 0:
            check(A.degrees(deg).is_orthogonal(), "angle", "%s: %s degrees are not orthogonal", where, deg)
        return u, deg, o["f"] < 0.3

    def op_restart(self, o, where):
        P, N = env.basic.Point, env.nodes
        p, cell = self.regs[o["r"]]
        z = cell[0]
        self.ctx.fault("restart")
        m = o["medium"]
        if m == "str":
            q = P(str(p))
        elif m == "repr":
            q = eval(repr(p), {"Point": P})
        elif m == "complex":
            q = P(complex(p))
        elif m == "tuple":
            q = P(tuple(p))
        else:
            doc = N.Document()
            root = N.SVG()
            doc.append(root)
            root.parent = doc
            e = N.Polyline(points=str(p))
            root.append(e)
            e.parent = root
            name = self.disk.path("p.svg")
            self.disk.reset(faults=[{"op": "write", "kind": "ENOSPC", "at": int(o["f"] * 60), "sticky": True}])
            try:
                doc.write(name)
            except OSError:
                pass
            self.disk.reset()
            doc.write(name)
            q = P(N.Document(name)[0][0].points)
        exact = m in ("complex", "tuple")
        lim = 0 if exact else 6e-13 if m == "repr" else None
        for g, w in ((q.x, z.real), (q.y, z.imag)):
            check(abs(g - w) <= (lim + 1e-15 * abs(w) * bool(lim) if lim is not None else 6e-12 * abs(w)), "restart", "%s: the point (%r, %r) came back from %s as (%r, %r)", where, z.real, z.imag, m, q.x, q.y)
        self.put(dict(o, t=o["r"]), q, complex(q.x, q.y), where)
        return m,

    def op_refuse(self, o, where):
        """What cannot be used is refused, and nothing changes."""
        P = env.basic.Point
        p, cell = self.regs[o["r"]]
        bad = [None, "junk", ("a", 3), (3, "a"), object()][o["bad"]]
        k = o["what"]

        def f():
            q = p
            if k == "add":
                p + bad
            elif k == "iadd":
                q += bad
            elif k == "sub":
                p - bad
            elif k == "isub":
                q -= bad
            elif k == "radd":
                bad + p
            elif k == "rsub":
                bad - p
            elif k == "imul":
                q *= [None, "junk(", ("a", 3), (3, "a"), object()][o["bad"]]
            elif k == "new":
                P([object(), "junk", object(), object(), object()][o["bad"]])
            elif k == "item":
                p[2 + o["bad"]]
            elif k == "set":
                p[2 + o["bad"]] = 1
            else:
                p.move_towards(["x", "junk", object(), ("a", 3), (3, "a")][o["bad"]], 0.5)
        try:
            f()
        except (TypeError, ValueError, IndexError, AttributeError):
            self.ctx.fault("refused")
        else:
            check(k == "imul" and o["bad"] == 1, "refused", "%s: %s with operand %d was taken", where, k, o["bad"])
        return k, o["bad"], "refused"

    def op_lib(self, o, where):
        self.ctx.fault("numpy " + o["cfg"])
        self.numpy = o["cfg"]
        return o["cfg"],

    def step(self, o, where):
        return getattr(self, "op_" + o["op"])(o, where)


def execute(plan, ctx):
    disk = faults.SimDisk(ctx)
    try:
        with disk:
            sim = Sim(ctx, disk, accel.Accelerators(ctx))
            taken = special = 0
            for i, o in enumerate(plan["ops"]):
                if o["op"] != "new" and None in (sim.regs[o["r"]], sim.regs[o["q"]]):
                    continue
                if o["op"] == "new" and o["form"] == "register" and sim.regs[o["q"]] is None:
                    continue
                where = "step %d (%s)" % (i, o["op"])
                r = sim.step(o, where)
                if r is None:
                    continue
                ctx.op(o["op"])
                taken += 1
                special += o["op"] in ("restart", "refuse")
                sim.check(where)
                ctx.sig(o["op"], r)
                ctx.log(where, ["%.9g,%.9g" % (p[1][0].real, p[1][0].imag) if p else None for p in sim.regs])
            if taken >= 6 and special:
                ctx.nontrivial = True
    finally:
        disk.dispose()
