"""Availability and health of the optional accelerators, decided by the
simulator: importable, missing, broken, lost and regained, failing calls."""
import sys

from . import env

EXC = {"RuntimeError": RuntimeError, "ValueError": ValueError, "MemoryError": MemoryError, "OSError": OSError, "TypeError": TypeError,
       "FloatingPointError": FloatingPointError, "AttributeError": AttributeError, "ImportError": ImportError, "ZeroDivisionError": ZeroDivisionError}
NP = env.numpy


class Finder:
    """A broken installation: importing the package raises."""

    def __init__(self):
        self.raising = {}

    def find_spec(self, name, path=None, target=None):
        exc = self.raising.get(name.split(".")[0])
        if exc is not None:
            raise exc("simulated broken installation of " + name)
        return None


def mine(root):
    return [m for m in list(sys.modules) if m == root or m.startswith(root + ".")]


class Accelerators:
    """config: {"numpy": "ok"|"missing"|"broken", "scipy": "ok"|"missing"|"broken"|"old"|["fail", exception, first failing call]}."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fired = 0

    def __call__(self, config):
        self.config = config
        return self

    def wrap(self, f, exc, first):
        def call(*a, **k):
            self.calls += 1
            if self.calls > first:
                self.fired += 1
                raise exc("simulated")
            return f(*a, **k)
        return call

    def __enter__(self):
        import scipy.integrate as si
        import scipy.special as ss
        self.saved = {}
        self.patched = []
        self.finder = None
        self.calls = 0
        self.fired = 0
        n, s = self.config["numpy"], self.config["scipy"]
        if isinstance(s, list):
            for m, a in ((si, "quad"), (ss, "ellipeinc")):
                f = getattr(m, a)
                self.patched.append((m, a, f))
                setattr(m, a, self.wrap(f, EXC[s[1]], s[2]))
        if s == "old":  # a version without the routines
            for m, a in ((si, "quad"), (ss, "ellipeinc")):
                self.patched.append((m, a, getattr(m, a)))
                delattr(m, a)
        for root, how in (("scipy", s), ("numpy", n)):
            if how == "missing" or how == "broken" or (isinstance(how, list) and how[0] == "broken"):
                self.saved.update({m: sys.modules.pop(m) for m in mine(root)})
                if how == "missing":
                    sys.modules[root] = None
                else:
                    if self.finder is None:
                        self.finder = Finder()
                        sys.meta_path.insert(0, self.finder)
                    self.finder.raising[root] = ImportError
        return self

    def __exit__(self, *exc):
        if self.finder is not None:
            sys.meta_path.remove(self.finder)
        if self.saved:
            for root in ("numpy", "scipy"):
                if any(m == root or m.startswith(root + ".") for m in self.saved):
                    for m in mine(root):
                        del sys.modules[m]
            sys.modules.update(self.saved)
        for m, a, f in self.patched:
            setattr(m, a, f)
        return False


# ---------------------------------------------------------------- reference

_nodes = NP.polynomial.legendre.leggauss(12) if NP is not None else None


def integrate(speed, pieces=400):
    """Composite Gauss-Legendre over [0, 1]."""
    x, w = _nodes
    h = 1.0 / pieces
    t = ((NP.arange(pieces)[:, None] + 0.5 + x[None, :] / 2) * h).ravel()
    return float((NP.tile(w, pieces) * speed(t)).sum() * h / 2)


class Ref:
    """Points and length of one segment, from its defining numbers."""

    def __init__(self, seg):
        P = env.path
        self.k = {P.Move: "M", P.Close: "Z", P.Line: "L", P.QuadraticBezier: "Q", P.CubicBezier: "C", P.Arc: "A"}[type(seg)]
        c = lambda p: complex(float(p.x), float(p.y))
        self.s = None if seg.start is None else c(seg.start)
        self.e = None if seg.end is None else c(seg.end)
        if self.k == "Q":
            self.p = [self.s, c(seg.control), self.e]
        elif self.k == "C":
            self.p = [self.s, c(seg.control1), c(seg.control2), self.e]
        elif self.k in "LZ":
            self.p = [self.s, self.e]
        elif self.k == "A":
            self.center, self.w = c(seg.center), float(seg.sweep)
            u, v = c(seg.prx) - self.center, c(seg.pry) - self.center
            self.u, self.v = u, v
            self.a, self.b = abs(u), abs(v)
            rot = u / self.a
            d = (self.s - self.center) / rot
            import math
            self.t0 = math.atan2(d.imag * self.a, d.real * self.b)
            # the second radius as the library draws it: a quarter turn on from the first
            self.rot = rot

    def sound(self):
        """Edits that displace an end of an arc, or shear it, leave numbers that are no ellipse through its ends."""
        if self.k != "A":
            return True
        import math
        tol = 1e-6 * (1 + self.a + self.b)
        at = lambda x: self.center + self.rot * complex(self.a * math.cos(x), self.b * math.sin(x))
        dot = (self.u * self.v.conjugate()).real
        return (abs(dot) <= 1e-6 * self.a * self.b and abs(at(self.t0) - self.s) <= tol
                and abs(at(self.t0 + self.w) - self.e) <= tol)

    def point(self, t):
        if self.k == "M":
            return self.e
        if any(p is None for p in (self.s, self.e)):
            return None
        if self.k == "A":
            import math
            if t == 0:
                return self.s
            if t == 1:
                return self.e
            x = self.t0 + self.w * t
            return self.center + self.rot * complex(self.a * math.cos(x), self.b * math.sin(x))
        n = len(self.p) - 1
        q = list(self.p)
        for r in range(n):
            q = [q[i] * (1 - t) + q[i + 1] * t for i in range(len(q) - 1)]
        return q[0]

    def length(self):
        if self.k == "M" or self.s is None or self.e is None:
            return 0.0
        if self.k in "LZ":
            return abs(self.e - self.s)
        if self.k == "A":
            f = lambda t: abs(self.w) * NP.sqrt((self.a * NP.sin(self.t0 + self.w * t)) ** 2 + (self.b * NP.cos(self.t0 + self.w * t)) ** 2)
        elif self.k == "Q":
            a, b = self.p[1] - self.p[0], self.p[2] - self.p[1]
            f = lambda t: NP.abs(2 * (a * (1 - t) + b * t))
        else:
            a, b, c = (self.p[i + 1] - self.p[i] for i in range(3))
            f = lambda t: NP.abs(3 * (a * (1 - t) ** 2 + 2 * b * t * (1 - t) + c * t * t))
        return integrate(f)


class PathRef:
    def __init__(self, path):
        self.refs = [Ref(s) for s in path]
        self.lengths = [r.length() for r in self.refs]
        self.total = sum(self.lengths)

    def point(self, t):
        """Candidates: positions at a seam belong to either neighbour."""
        out, at, eps = [], 0.0, 1e-5
        if t <= 0:
            out.append(self.refs[0].point(0.0))
        if t >= 1:
            out.append(self.refs[-1].point(1.0))
        for r, l in zip(self.refs, self.lengths):
            d = l / self.total
            if d > 0 and at - eps <= t <= at + d + eps:
                out.append(r.point(min(1.0, max(0.0, (t - at) / d))))
            if d == 0 and abs(t - at) <= eps:
                out += [r.point(0.0), r.point(1.0)]
            at += d
        return out
