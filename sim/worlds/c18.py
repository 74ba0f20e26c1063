"""C18: an arc stays on its ellipse through any history."""
import cmath
import math
from copy import copy

from .. import accel, env, pathops
from ..core import Violation, check, weighted

ID = "C18"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 200000}
BATCH = 50
SHRINK = ("ops",)
RULE = ("a run makes an arc through one of its parameterisations and takes it through a history of transforms (alone, in a subpath, in a path), reversals, copies, restarts from its own description (svg, native or text) "
        "and cuttings into curves, with the accelerators present, missing, lost or regained; after every step the arc is compared with an ellipse arc followed separately; non-trivial: at least four steps with a "
        "transform and a restart or reversal")
MEASURE = "distinct (parameterisation, operation, previous operation, mirrored or not, more than half a turn or not) combinations"
REAL = ["svgio.path Arc, Path, Subpath", "svgio.basic Point, Matrix, Angle"]
STUB = ["import and routines of numpy and scipy (planned availability)"]
ASSUMPTIONS = ["radii are positive with a ratio under 1000, the centre within 1000 radii of the origin", "curves are cut in slices of a twelfth of a turn or less",
               "the library's text of an arc holds 6 digits of radii and rotation", "arcs of half a turn may be read back either way round when their text loses digits"]
EXPECT_FAULTS = ("numpy-missing", "scipy-missing", "restart")
TAU = math.tau
HOWS = [("svg", 5), ("complex", 2), ("named", 1), ("text", 2), ("drawn", 1), ("centre", 2), ("control", 2), ("r", 1.5), ("bulge", 1), ("sagitta", 1), ("quarter", 1.5), ("native", 3), ("start_sweep", 1), ("end_sweep", 1), ("box", 1)]


class El:
    """c + u cos x + v sin x for x from t0 to t0 + w."""

    def __init__(self, c, u, v, t0, w):
        self.c, self.u, self.v, self.t0, self.w = c, u, v, t0, w

    def at(self, x):
        return self.c + self.u * math.cos(x) + self.v * math.sin(x)

    def point(self, t):
        return self.at(self.t0 + self.w * t)

    def radii(self):
        # singular values of the matrix [u v]
        a, b = abs(self.u) ** 2 + abs(self.v) ** 2, 2 * abs((self.u.conjugate() * self.v).imag)
        p, q = math.sqrt(max(0, a + b)), math.sqrt(max(0, a - b))
        return (p + q) / 2, (p - q) / 2

    def turn_sign(self):
        return 1 if (self.u.conjugate() * self.v).imag > 0 else -1

    def apply(self, m):
        l = lambda z: complex(m[0] * z.real + m[2] * z.imag, m[1] * z.real + m[3] * z.imag)
        return El(l(self.c) + complex(m[4], m[5]), l(self.u), l(self.v), self.t0, self.w)

    def reversed(self):
        return El(self.c, self.u, self.v, self.t0 + self.w, -self.w)

    def box(self):
        xs, ys = [], []
        for f, out in ((lambda z: z.real, xs), (lambda z: z.imag, ys)):
            x0 = math.atan2(f(self.v), f(self.u))
            out += [f(self.point(0)), f(self.point(1))]
            for k in range(-10, 11):
                x = x0 + k * math.pi
                if self.w and 0 <= (x - self.t0) / self.w <= 1:
                    out.append(f(self.at(x)))
        return min(xs), min(ys), max(xs), max(ys)

    def length(self):
        n = accel.NP
        f = lambda t: abs(self.w) * n.abs(-self.u * n.sin(self.t0 + self.w * t) + self.v * n.cos(self.t0 + self.w * t))
        return accel.integrate(f)


def svg_arc(s, e, rx, ry, rot, large, sweep):
    """Endpoint to centre parameterisation, in the unit circle's frame."""
    rx, ry = abs(rx), abs(ry)
    r = cmath.rect(1, math.radians(rot))
    f = lambda z: complex((z / r).real / rx, (z / r).imag / ry)
    a, b = f(s), f(e)
    d = abs(b - a) / 2
    if d > 1:
        rx, ry = rx * d, ry * d
        a, b = a / d, b / d
        d = 1.0
    h = math.sqrt(max(0.0, 1 - d * d))
    side = 1j * (b - a) / abs(b - a)
    c = (a + b) / 2 + (side * h if bool(large) != bool(sweep) else -side * h)
    t0, t1 = cmath.phase(a - c), cmath.phase(b - c)
    w = (t1 - t0) % TAU
    if not sweep:
        w -= TAU
    # the flags decide between nearly half turns
    g = lambda z: complex(z.real * rx, z.imag * ry) * r
    return El(g(c), r * rx, 1j * r * ry, t0, w)


def near(w):
    """too near to nothing, half or a whole turn to tell the flags apart"""
    w = abs(w)
    return min(w, abs(w - math.pi), abs(w - TAU)) < 1e-3


def gen(rng):
    num = lambda: rng.choice([0, 1, -1, 2.5, -3, 4, 7.5, 10, -12, 100, 0.25, rng.uniform(-20, 20)])
    rad = lambda: rng.choice([1, 2, 5, 3.5, 12, 0.5, 40, rng.uniform(0.2, 30)])
    def arc():
        return {"how": weighted(rng, HOWS), "s": [num(), num()], "e": [num(), num()], "rx": rad(), "ry": rad(), "rot": rng.choice([0, 0, 30, 45, 90, -60, 180, 12.5, 270, 0.04, 89.9]),
                "large": rng.randrange(2), "sweep": rng.randrange(2), "sign": rng.random() < 0.1, "t0": rng.uniform(-3, 3), "w": rng.choice([0.5, -0.5, 1, 2, -3, 4, -5, 6, 1.5707963, rng.uniform(-6.2, 6.2), 8, -15]), "x": rng.random(),
                "ccw": rng.choice([None, True, False]), "scooped": rng.random() < 0.3}
    ops = []
    first = arc()
    if rng.random() < 0.1:
        first["ry"] = first["rx"] * rng.choice([1.001, 0.999, 1.00002, 1.01])  # almost a circle
    if rng.random() < 0.1:
        k = rng.choice([1e-5, 1e-3, 0.01, 1e4])
        for x in ("s", "e"):
            first[x] = [v * k for v in first[x]]
        first["rx"], first["ry"] = first["rx"] * k, first["ry"] * k
    for _ in range(rng.choice([2, 4, 8, 14])):
        k = weighted(rng, [("matrix", 5), ("reverse", 2), ("copy", 1), ("native", 1), ("svg", 1.5), ("text", 1.5), ("repr", 1), ("path", 2), ("look", 3), ("curves", 2), ("accelerators", 1.5)])
        o = {"op": k, "f": rng.random(), "h": rng.random()}
        if k in ("matrix", "path"):
            t = rng.uniform(-3, 3)
            o["m"] = rng.choice([[1, 0, 0, 1, num(), num()], [2, 0, 0, 2, 0, 0], [0.5, 0, 0, 1.5, 0, 1], [math.cos(t), math.sin(t), -math.sin(t), math.cos(t), 0, num()], [1, 0, 0, -1, 0, 0], [-1, 0, 0, 1, 3, 0],
                                 [-1, 0, 0, -1, 0, 2], [0, 1, 1, 0, 0, 0], [0, -1, 1, 0, 5, 0], [1, 0, 0.5, 1, 0, 0], [1, -0.75, 0, 1, 0, 0], [1, 1.5, 1, 1, 0, 0], [0.6, 0.8, 0.8, -0.6, 1, 1], [3, 0, 0, 0.5, 0, 0],
                                 [rng.uniform(-2, 2) for _ in range(6)]])
            o["how"] = rng.choice(["imul", "mul", "text", "rmul"])
        if k == "curves":
            o["to"], o["n"] = rng.choice(["quads", "cubics"]), rng.choice([None, None, 1, 2, 3, 7])
        if k == "accelerators":
            o["numpy"], o["scipy"] = weighted(rng, [("ok", 1), ("missing", 2), ("broken", 0.5)]), weighted(rng, [("ok", 1), ("missing", 2), ("old", 0.5)])
        ops.append(o)
    return {"arc": first, "ops": ops}


C = lambda p: complex(float(p[0]), float(p[1]))
pair = lambda z: (z.real, z.imag)


def circle(s, e, m):
    """centre of the circle through three points, or None"""
    a, b = e - s, m - s
    k = 2 * (a.real * b.imag - a.imag * b.real)
    if abs(k) < 1e-3 * abs(a) * abs(b):
        return None
    z = complex(b.imag * abs(a) ** 2 - a.imag * abs(b) ** 2, a.real * abs(b) ** 2 - b.real * abs(a) ** 2) / k
    return s + z


def round_arc(c, s, e, w):
    return El(c, complex(abs(s - c)), 1j * abs(s - c), cmath.phase(s - c), w)


def make(a):
    """-> (the library's arc, the model), or None when the values describe no arc"""
    P, B = env.path, env.basic
    A = P.Arc
    how = a["how"]
    s, e = C(a["s"]), C(a["e"])
    rx, ry, rot = a["rx"], a["ry"], a["rot"]
    if how in ("svg", "complex", "named", "text", "drawn"):
        d = abs(s - e)
        if d < 1e-3 * min(rx, ry):
            return None
        m = svg_arc(s, e, rx, ry, rot, a["large"], a["sweep"])
        if near(m.w) and abs(abs(m.w) - math.pi) > 1e-6:
            return None
        if a["sign"] and how != "complex":
            rx = -rx
        if how == "svg":
            return A(a["s"] if a["x"] < 0.5 else s, rx, ry, rot, a["large"], a["sweep"], a["e"] if a["x"] < 0.7 else e), m
        if how == "complex":
            return A(s, complex(rx, ry), rot, a["large"], a["sweep"], e), m
        if how == "named":
            return A(start=s, radius=complex(rx, ry), rotation=rot, arc_flag=a["large"], sweep_flag=a["sweep"], end=e), m
        if how == "text":
            if a["x"] < 0.5:
                return P.Path("M%r,%rA%r,%r %r %d,%d %r,%r" % (s.real, s.imag, rx, ry, rot, a["large"], a["sweep"], e.real, e.imag))[1], m
            r = e - s
            m = svg_arc(s, s + r, rx, ry, rot, a["large"], a["sweep"])
            return P.Path("M%r,%ra%r %r %r %d%d%r,%r" % (s.real, s.imag, rx, ry, rot, a["large"], a["sweep"], r.real, r.imag))[1], m
        p = P.Path().move(s)
        p.arc(rx, ry, rot, a["large"], a["sweep"], e)
        return p[1], m
    c = C(a["s"])
    r = cmath.rect(1, math.radians(rot))
    if how == "native":
        m = El(c, r * rx, 1j * r * ry, a["t0"], a["w"])
        return A(pair(m.point(0)), pair(m.point(1)), pair(c), pair(c + m.u), pair(c + m.v), a["w"]) if a["x"] < 0.5 else A(start=m.point(0), end=m.point(1), center=c, prx=c + m.u, pry=c + m.v, sweep=a["w"]), m
    if how in ("start_sweep", "end_sweep"):
        m = El(c, r * rx, 1j * r * ry, a["t0"], a["w"])
        k = {"start": m.point(0)} if how == "start_sweep" else {"end": m.point(1)}
        if a["x"] < 0.5:
            return A(center=c, rx=rx, ry=ry, rotation=math.radians(rot), sweep=a["w"], **k), m
        if a["x"] < 0.75:
            return A(center=c, prx=c + m.u, pry=c + m.v, sweep=a["w"], **k), m
        m = El(c, complex(rx), 1j * rx, a["t0"], a["w"])
        k = {"start": m.point(0)} if how == "start_sweep" else {"end": m.point(1)}
        return A(center=c, sweep=a["w"], **k), m
    ccw = {} if a["ccw"] is None else {"ccw": a["ccw"]}
    if how == "box":
        m = El(c, complex(rx), 1j * ry, a["t0"], (a["w"] % TAU) * (-1 if a["ccw"] else 1))
        if near(m.w):
            return None
        return A(start=m.point(0), end=m.point(1), left=c.real - rx, right=c.real + rx, top=c.imag - ry, bottom=c.imag + ry, **ccw), m
    if how == "centre":
        w = (a["w"] % TAU) * (-1 if a["ccw"] else 1)
        if near(w):
            return None
        m = El(c, complex(rx), 1j * rx, a["t0"], w)
        return A(start=m.point(0), end=m.point(1), center=c, **ccw), m
    if how == "control":
        w = max(-6, min(6, a["w"]))
        m = El(c, complex(rx), 1j * rx, a["t0"], w)
        x = 0.1 + 0.8 * a["x"]
        if near(w):
            return None
        return A(start=m.point(0), end=m.point(1), control=m.point(x)), m
    d = abs(s - e)
    if d < 0.1:
        return None
    if how == "r":
        R = d / 2 * (1.05 + a["x"] * 3)
        h = math.sqrt(R * R - d * d / 4)
        side = 1j * (e - s) / d
        w = 2 * math.asin(d / 2 / R)
        k = -1 if a["ccw"] else 1
        return A(start=s, end=e, r=R, **ccw), round_arc((s + e) / 2 + k * side * h, s, e, k * w)
    if how in ("bulge", "sagitta"):
        b = (0.1 + 1.5 * a["x"]) * (-1 if a["large"] else 1)
        w = 4 * math.atan(b)
        h = d / 2 / math.tan(w / 2)
        c = (s + e) / 2 + 1j * (e - s) / d * h
        m = round_arc(c, s, e, w)
        if near(w):
            return None
        return (A(start=s, end=e, bulge=b) if how == "bulge" else A(start=s, end=e, sagitta=b * d / 2)), m
    if how == "quarter":
        if min(abs((s - e).real), abs((s - e).imag)) < 0.1:
            return None
        qx, qy = abs((s - e).real), abs((s - e).imag)
        k = dict(ccw)
        if a["scooped"]:
            k["scooped"] = True
        neg = bool(a["ccw"]) or a["scooped"]
        for c in (complex(s.real, e.imag), complex(e.real, s.imag)):
            m = El(c, complex(qx), 1j * qy, 0, 0)
            g = lambda z: math.atan2((z - c).imag / qy, (z - c).real / qx)
            m.t0 = g(s)
            w = (g(e) - m.t0) % TAU
            m.w = w - TAU if w > math.pi else w
            if (m.w < 0) == neg:
                return A(start=s, end=e, rx=qx, ry=qy, **k), m
    raise KeyError(how)


def cx(p):
    return complex(float(p[0]), float(p[1]))


class Sim:
    def __init__(self, ctx, arc, m):
        self.ctx, self.arc, self.m = ctx, arc, m
        self.rough = 1e-7
        self.scipy = "ok"

    def big(self):
        return self.m.radii()[0]

    def lim(self):
        p, q = self.m.radii()
        return self.rough * p + 1e-12 * abs(self.m.c) * p / q

    def usable(self, m):
        p, q = m.radii()
        return 1e-2 < q <= p < 1e4 and p < 300 * q and abs(m.c) < 1e3 * q

    def same(self, arc, m, where, kind="ellipse"):
        lim = self.lim()
        check(isinstance(arc, env.path.Arc), kind, "%s: an arc is now %r", where, arc)
        for t in (0, 0.13, 0.37, 0.5, 0.71, 1):
            p = arc.point(t)
            check(p is not None and abs(cx(p) - m.point(t)) <= lim, kind, "%s: point %g of the arc is %s, expected %s (ellipse about %s, radii %g and %g, sweep %g)", where, t, p, m.point(t), m.c, *m.radii(), m.w)
        check(abs(cx(arc.start) - m.point(0)) <= lim and abs(cx(arc.end) - m.point(1)) <= lim, kind, "%s: the arc runs from %s to %s, expected %s to %s", where, arc.start, arc.end, m.point(0), m.point(1))
        check(abs(cx(arc.center) - m.c) <= lim, kind, "%s: centre %s, expected %s", where, arc.center, m.c)
        w = m.w * m.turn_sign()
        check(abs(arc.sweep - w) <= max(1e-6, 100 * self.rough), kind, "%s: sweep %g, expected %g", where, arc.sweep, w)
        a, b = sorted([float(arc.rx), float(arc.ry)])
        p, q = m.radii()
        check(abs(a - q) <= lim * 30 and abs(b - p) <= lim * 30, kind, "%s: radii %g and %g, expected %g and %g", where, a, b, q, p)
        u, v = cx(arc.prx) - cx(arc.center), cx(arc.pry) - cx(arc.center)
        check(abs((u * v.conjugate()).real) <= 1e-6 * abs(u) * abs(v) + lim * abs(u), kind, "%s: the axes %s and %s are not perpendicular", where, arc.prx, arc.pry)

    def op_matrix(self, o, where):
        m = self.m.apply(o["m"])
        if not self.usable(m):
            return False
        M = env.basic.Matrix(*o["m"])
        text = "matrix(%s)" % ",".join("%.17g" % x for x in o["m"])
        if o["how"] == "imul" or o["how"] == "text":
            a = self.arc
            a *= M if o["how"] == "imul" else text
            check(a is self.arc, "ellipse", "%s: transforming in place made another arc", where)
        else:
            old = self.arc
            new = old * M if o["how"] == "mul" else text * old
            self.same(old, self.m, where + ": the original")
            self.arc = new
        self.m = m

    def op_reverse(self, o, where):
        self.arc.reverse()
        self.m = self.m.reversed()

    def op_copy(self, o, where):
        new = copy(self.arc)
        check(new is not self.arc and new == self.arc and not new != self.arc, "ellipse", "%s: a copied arc is not equal to the original", where)
        self.arc *= "scale(2) rotate(30)"
        self.arc.reverse()
        self.arc = new

    def op_native(self, o, where):
        """Made again from its own native description."""
        a = self.arc
        self.ctx.fault("restart")
        P = env.path
        if o["f"] < 0.3:
            self.arc = P.Arc(*list(a), a.sweep)
        elif o["f"] < 0.6:
            self.arc = P.Arc(a.start, a.end, a.center, a.prx, a.pry, a.sweep)
        else:
            k = {"center": a.center, "prx": a.prx, "pry": a.pry, "sweep": a.sweep}
            k["start" if o["h"] < 0.5 else "end"] = a.start if o["h"] < 0.5 else a.end
            self.arc = P.Arc(**k)

    def svg_able(self):
        w = abs(self.m.w)
        return w < 6.2 and not near(w) and abs(self.m.point(0) - self.m.point(1)) > 1e-3 * self.m.radii()[1]

    def op_svg(self, o, where):
        """Made again from radii, rotation and flags."""
        if not self.svg_able():
            return False
        a = self.arc
        self.ctx.fault("restart")
        deg = float(env.basic.Angle(a.get_rotation()).as_degrees)
        large, sweep = abs(a.sweep) > math.pi, a.sweep > 0
        if o["f"] < 0.5:
            new = env.path.Arc(a.start, a.rx, a.ry, deg, large, sweep, a.end)
        else:
            r = a.radius
            new = env.path.Arc(cx(a.start), complex(r.x, r.y), deg, large, sweep, cx(a.end))
        self.loosen(new, where, 1e-10)

    def loosen(self, new, where, digits):
        """A description with few digits: compared loosely, then followed as it is."""
        p, q = self.m.radii()
        big = p
        lim = self.lim() + big * (60 * digits * p / q) ** 0.5
        for t in (0.25, 0.5, 0.75):
            d = abs(cx(new.point(t)) - self.m.point(t))
            check(d <= lim, "described", "%s: made again, point %g of the arc is %g off (radii %g and %g, sweep %g)", where, t, d, p, q, self.m.w)
        check(abs(cx(new.start) - self.m.point(0)) <= self.lim() and abs(cx(new.end) - self.m.point(1)) <= self.lim(), "described", "%s: made again, the arc runs from %s to %s, expected %s to %s",
              where, new.start, new.end, self.m.point(0), self.m.point(1))
        r = accel.Ref(new)
        check(r.sound(), "described", "%s: made again, the arc %r is not an ellipse through its ends", where, new)
        self.arc = new
        self.m = El(r.center, r.u, 1j * r.rot * r.b, r.t0, r.w)

    def op_text(self, o, where):
        if not self.svg_able() or abs(abs(self.m.w) - math.pi) < 0.1:
            return False
        self.ctx.fault("restart")
        P = env.path
        text = P.Path(P.Move(self.arc.start), copy(self.arc)).d(relative=o["f"] < 0.5) if o["h"] < 0.7 else str(self.arc)
        self.loosen(P.Path(text)[1], where, 1e-5)

    def op_repr(self, o, where):
        self.ctx.fault("restart")
        scope = {"Arc": env.path.Arc, "Point": env.basic.Point, "Angle": env.basic.Angle, "np": accel.NP}
        new = eval(repr(self.arc), scope)
        self.loosen(new, where, 1e-9)

    def op_path(self, o, where):
        """Transformed as part of a path or subpath."""
        m = self.m.apply(o["m"])
        if not self.usable(m):
            return False
        P = env.path
        p = P.Path(P.Move(self.arc.start), self.arc, P.Line(self.arc.end, (1, 2)))
        M = env.basic.Matrix(*o["m"])
        if o["f"] < 0.3:
            p @= M
        elif o["f"] < 0.5:
            p = p @ M
        elif o["f"] < 0.75:
            s = p.subpath(0)
            s *= M
        else:
            p = P.Path(p.subpath(0) * M)
        self.m = m
        if o["h"] < 0.4:
            p.pop()
            p.reverse()
            self.m = m.reversed()
        self.arc = p[1]

    def op_accelerators(self, o, where):
        pass

    def op_look(self, o, where):
        a, m = self.arc, self.m
        lim = self.lim()
        ts = [0, o["f"], o["h"], 0.5, 1]
        got = a.npoint(ts)
        check(len(got) == len(ts), "points", "%s: %d points for %d positions", where, len(got), len(ts))
        for t, p in zip(ts, got):
            check(abs(cx(p) - m.point(t)) <= lim, "points", "%s: npoint %g is %s, expected %s", where, t, p, m.point(t))
        want = m.box()
        box = [float(x) for x in a.bbox()]
        check(all(abs(x - y) <= lim * 3 for x, y in zip(box, want)), "bbox", "%s: bounding box %s, expected %s (%r)", where, box, list(want), a)
        slow = self.scipy != "ok" and o["f"] > 0.1  # thousands of steps in Python
        L = m.length()
        # the default tolerance is left where the fallback would take more than 20000 steps to reach it
        coarse = max(m.radii()) * abs(m.w) ** 3 / 24 / 2e4 ** 3
        got = L if slow else float(a.length(error=coarse)) if self.scipy != "ok" and coarse > 1e-12 else float(a.length())
        check(abs(got - L) <= 1e-4 * L + lim * 10, "length", "%s: length %g, expected %g", where, got, L)
        p, q = m.radii()
        big = p / q
        # a point of the ellipse and its t name each other
        t = a.get_start_t() + a.sweep * o["f"]
        z = a.point_at_t(t)
        check(abs(cx(z) - m.point(o["f"])) <= lim, "points", "%s: the point at t=%g is %s, expected %s", where, t, z, m.point(o["f"]))
        back = a.point_at_t(a.t_at_point(z))
        check(abs(cx(back) - cx(z)) <= lim * 10 * big, "points", "%s: %s has t=%g, which is the point %s", where, z, a.t_at_point(z), back)
        ang = a.angle_at_point(z)
        back = a.point_at_angle(ang)
        check(abs(cx(back) - cx(z)) <= lim * 10 * big, "points", "%s: %s is at angle %g, where the point %s is", where, z, ang, back)
        for name, t, x in (("start", a.get_start_t(), 0), ("end", a.get_end_t(), 1)):
            check(abs(cx(a.point_at_t(t)) - m.point(x)) <= lim * 10 * big, "points", "%s: the %s has t=%g, which is the point %s, expected %s", where, name, t, a.point_at_t(t), m.point(x))
        check(abs(float(a.delta) - math.degrees(a.sweep)) < 1e-6, "points", "%s: delta %g of sweep %g", where, a.delta, a.sweep)
        check(not a.is_circular() or p - q <= lim * 30, "ellipse", "%s: radii %g and %g are circular", where, p, q)
        self.same(a, m, where + ": after looking")

    def op_curves(self, o, where):
        """Cut into curves, which may be put back in a path and follow the arc."""
        a, m = self.arc, self.m
        n = o["n"]
        least = int(math.ceil(abs(m.w) / (TAU / 12) - 1e-9))
        if least == 0:
            return False
        if n is not None:
            n = max(n, least)
        P = env.path
        cs = list(a.as_quad_curves(n) if o["to"] == "quads" else a.as_cubic_curves(n))
        want = n if n is not None else least
        check(len(cs) == want or (n is None and abs(len(cs) - want) <= 1), "curves", "%s: %d curves, expected %d (sweep %g)", where, len(cs), want, m.w)
        lim = self.lim() * 10 + self.big() * (8e-3 if o["to"] == "quads" else 2e-5)
        at = m.point(0)
        for i, s in enumerate(cs):
            check(isinstance(s, P.QuadraticBezier if o["to"] == "quads" else P.CubicBezier), "curves", "%s: curve %d is a %s", where, i, type(s).__name__)
            check(abs(cx(s.start) - at) <= self.lim() * 10, "curves", "%s: curve %d starts at %s, expected %s", where, i, s.start, at)
            at = m.point((i + 1) / len(cs))
            check(abs(cx(s.end) - at) <= self.lim() * 10, "curves", "%s: curve %d ends at %s, expected %s", where, i, s.end, at)
            for t in (0.25, 0.5, 0.75):
                d = abs(cx(s.point(t)) - m.point((i + t) / len(cs)))
                check(d <= lim + self.big() * 2e-3, "curves", "%s: curve %d of %d is %g away from the arc at %g (radii %g and %g)", where, i, len(cs), d, t, *m.radii())
        self.same(a, m, where + ": after cutting")


def execute(plan, ctx):
    acc = accel.Accelerators(ctx)
    a = plan["arc"]
    got = make(a)
    if got is None:
        return
    sim = Sim(ctx, *got)
    if not sim.usable(sim.m):
        return
    config = {"numpy": "ok", "scipy": "ok"}
    where = "made by %s" % a["how"]
    sim.same(sim.arc, sim.m, where, "made")
    sim.op_look({"f": 0.3, "h": 0.8}, where)
    last, taken, moved, again = a["how"], 0, 0, 0
    for i, o in enumerate(plan["ops"]):
        where = "step %d (%s, %s)" % (i, o["op"], a["how"])
        if o["op"] == "accelerators":
            new = {"numpy": o["numpy"], "scipy": o["scipy"]}
            for k in new:
                if new[k] != "ok":
                    ctx.fault("%s-%s" % (k, new[k]))
                elif config[k] != "ok":
                    ctx.fault("regained")
            config = new
            sim.scipy = config["scipy"]
        with acc(config):
            if getattr(sim, "op_" + o["op"])(o, where) is False:
                continue
            sim.same(sim.arc, sim.m, where)
        ctx.op(o["op"])
        taken += 1
        moved += o["op"] in ("matrix", "path")
        again += o["op"] in ("reverse", "native", "svg", "text", "repr", "path")
        ctx.sig(a["how"], o["op"], last, sim.m.turn_sign(), abs(sim.m.w) > math.pi)
        last = o["op"]
        ctx.log(where, "%.6g %.6g %.6g" % (sim.m.w, *sim.m.radii()))
    if taken >= 4 and moved and again:
        ctx.nontrivial = True
