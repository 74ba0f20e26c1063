"""C16: lengths keep their measure over any history."""
from copy import copy

from .. import env, faults
from ..core import check, weighted

ID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 400000}
BATCH = 75
SHRINK = ("ops",)
RULE = ("a run is a history of several clients over shared lengths: read from text, made from numbers, pairs and other lengths; added, subtracted, scaled, divided, negated in place or into new ones, with operands given as "
        "lengths, texts or numbers; compared, sorted, summed, resolved with and without the context they need, converted, used in lazily rendered transforms; kept only as text through restarts (a string or a saved "
        "document, saves fail); incompatible operands and missing context are refused in between; after every step every length is compared with a measure kept separately; non-trivial: at least six steps with one "
        "refusal or restart")
MEASURE = "distinct (operation, unit of the left side, unit of the right side, form of the operand, refused or not) combinations"
REAL = ["svgio.basic Length, Matrix.render, Viewbox", "svgio.nodes width attribute, Document.write, load"]
STUB = ["raw file (planned write failures)"]
ASSUMPTIONS = ["the library's unit factors (1.3333, 0.0393701) may be off by one in ten thousand", "texts of lengths carry 12 decimals", "a length of nothing has every unit"]
EXPECT_FAULTS = ("restart", "refused")
REGS = 4
TOL = 1e-4

# dimension and size of one unit
UNITS = {"": ("px", 1.0), "px": ("px", 1.0), "pt": ("px", 4 / 3.0), "pc": ("px", 16.0), "mm": ("in", 1 / 25.4), "cm": ("in", 1 / 2.54), "in": ("in", 1.0),
         "em": ("em", 1.0), "ex": ("ex", 1.0), "%": ("%", 1.0), "vw": ("vw", 1.0), "vh": ("vh", 1.0), "vmin": ("vmin", 1.0), "vmax": ("vmax", 1.0)}
UNIT = [("px", 3), ("", 3), ("pt", 2), ("pc", 2), ("mm", 3), ("cm", 3), ("in", 3), ("em", 1), ("ex", 0.7), ("%", 2), ("vw", 0.7), ("vh", 0.7), ("vmin", 0.7), ("vmax", 0.7)]
AMOUNTS = [0, 1, -1, 2, 0.5, 10, -7.5, 3, 100, 12, 0.25, 25.4, -40]
KIN = [["px", "", "pt", "pc"], ["mm", "cm", "in"]]


def number(v, style):
    s = "%r" % v
    if style == 1 and s.startswith("0."):
        s = s[1:]
    if style == 2 and v >= 0:
        s = "+" + s
    if style == 3 and float("%e" % v) == v:
        s = "%e" % v
    return s


def gen(rng):
    first = weighted(rng, UNIT)
    kin = next((k for k in KIN if first in k), [first])

    def length(related=0.75):
        u = rng.choice(kin) if rng.random() < related else weighted(rng, UNIT)
        return {"n": rng.choice(AMOUNTS), "u": u, "style": rng.randrange(4)}
    ops = [{"op": "new", "r": r, "q": 0, "t": 0, "f": rng.random(), "l": length(), "how": 0} for r in range(REGS)]
    for _ in range(rng.choice([3, 8, 15, 25])):
        k = weighted(rng, [("new", 2), ("add", 6), ("sub", 5), ("scale", 3), ("percent", 1), ("divide", 2), ("ratio", 2), ("unary", 1.5), ("copy", 1), ("alias", 0.7), ("compare", 4), ("equal", 3), ("order", 1),
                           ("value", 6), ("convert", 3), ("pixels", 2), ("restart", 1.5), ("matrix", 2), ("refuse", 2)])
        o = {"op": k, "r": rng.randrange(REGS), "q": rng.randrange(REGS), "t": rng.randrange(REGS), "f": rng.random(), "l": length(),
             "how": weighted(rng, [("in", 3), ("new", 3), ("swap", 1.5)]), "form": weighted(rng, [("register", 3), ("length", 1), ("text", 2), ("number", 1)]), "n": rng.choice([2, -1, 0.5, 3, 10, 0.1])}
        if k in ("value", "convert", "matrix"):
            o["ctx"] = {"ppi": rng.choice([None, 96.0, 72, 1000.0]), "rel": rng.choice([None, 100, 640.0, -80, "1in", "20px", "30%", "-2cm"]), "fs": rng.choice([None, 16, 12.5]), "fh": rng.choice([None, 8]),
                        "vb": rng.choice([None, "0 0 200 100", "5,-5,30,400", "-7 5 400 30"]), "obj": rng.random() < 0.3, "reg": rng.randrange(REGS) if rng.random() < 0.35 else None}
            o["to"] = rng.choice(["mm", "cm", "inch"])
            o["l2"] = length(0.3)
            o["wh"] = [rng.choice([100, 640.0]), rng.choice([50, 333.0])]
            o["sc"] = [rng.choice([2, -1, 0.5]), rng.choice([3, 1, -2])]
            o["known"] = rng.randrange(64) if rng.random() < 0.5 else None
        if k == "restart":
            o["medium"] = rng.choice(["str", "str", "repr", "pair", "file"])
        ops.append(o)
    return {"ops": ops}


class Measure:
    """amount of a unit, with the error the factors may have brought"""

    def __init__(self, n, u, err=0.0):
        self.n, self.u, self.err = float(n), u, err

    def dim(self):
        return UNITS[self.u][0]

    def size(self):
        return self.n * UNITS[self.u][1]

    def lim(self):
        return self.err + 1e-11 * (1 + abs(self.n))

    def into(self, u):
        k = UNITS[self.u][1] / UNITS[u][1]
        e = self.err * k
        if u != self.u and {u, self.u} != {"", "px"}:
            e += TOL * abs(self.n * k)
        return self.n * k, e


def text(l):
    return number(l["n"], l["style"]) + l["u"]


class Sim:
    def __init__(self, ctx, disk):
        self.ctx, self.disk = ctx, disk
        self.regs = [None] * REGS  # pairs (length, measure)

    def same(self, x, m, where):
        L = env.basic.Length
        check(isinstance(x, L), "measure", "%s is a %s, expected %r%s", where, type(x).__name__, m.n, m.u)
        ok = x.units == m.u and isinstance(x.amount, (int, float)) and abs(x.amount - m.n) <= m.lim()
        check(ok, "measure", "%s is %r %s, expected %r %s", where, x.amount, x.units, m.n, m.u)

    def check(self, where):
        for i, p in enumerate(self.regs):
            if p:
                self.same(p[0], p[1], "%s: length %d" % (where, i))
                # what rounding decides is taken from the library: nothing or almost nothing
                if abs(p[1].n) <= p[1].lim():
                    p[1].n = float(p[0].amount)

    def step(self, o, where):
        return getattr(self, "op_" + o["op"])(o, where)

    def op_new(self, o, where):
        L = env.basic.Length
        l = o["l"]
        how = int(o["f"] * 4)
        m = Measure(l["n"], l["u"])
        if how == 0 and l["u"] in ("", "px"):
            m.u = ""
            x = L(l["n"])
        elif how == 1:
            x = L(l["n"], l["u"])
        elif how == 2:
            x = L(L(text(l)))
        else:
            x = L(text(l))
        self.regs[o["r"]] = (x, m)
        return l["u"]

    def operand(self, o):
        L = env.basic.Length
        l = o["l"]
        if o["form"] == "register":
            return self.regs[o["q"]]
        if o["form"] == "number":
            return l["n"], Measure(l["n"], "")
        return (text(l) if o["form"] == "text" else L(text(l))), Measure(l["n"], l["u"])

    def sum(self, a, b, sign):
        """a + sign b, or None when refused"""
        if a.u == b.u or ({a.u, b.u} == {"", "px"}):
            return Measure(a.n + sign * b.n, a.u if a.u == b.u or a.n != 0 else b.u, a.err + b.err)
        if a.n == 0:
            return Measure(sign * b.n, b.u, b.err)
        if b.n == 0:
            return Measure(a.n, a.u, a.err)
        if a.dim() != b.dim():
            return None
        n, e = b.into(a.u)
        return Measure(a.n + sign * n, a.u, a.err + e + 1e-15 * (abs(a.n) + abs(n)))

    def refused(self, f, where, what, errors=(ValueError, TypeError)):
        before = [(p[0].amount, p[0].units) for p in self.regs if p]
        try:
            got = f()
        except errors:
            pass
        else:
            check(False, "accepted", "%s: %s was accepted and gave %r", where, what, got)
        self.ctx.fault("refused")
        check([(p[0].amount, p[0].units) for p in self.regs if p] == before, "changed", "%s: %s was refused and changed a length", where, what)

    def addsub(self, o, where, sign):
        x, a = self.regs[o["r"]]
        y, b = self.operand(o)
        if o["how"] == "swap":
            m = self.sum(b, a, sign) if sign > 0 or not isinstance(y, (str, int, float)) else None
            if isinstance(y, (str, int, float)):
                # the length on the right side decides the unit
                m = self.sum(a, b, 1) if sign > 0 else self.sum(Measure(-a.n, a.u, a.err), b, 1)
            f = (lambda: y + x) if sign > 0 else (lambda: y - x)
        elif o["how"] == "in":
            m = self.sum(a, b, sign)

            def f():
                z = x
                if sign > 0:
                    z += y
                else:
                    z -= y
                return z
        else:
            m = self.sum(a, b, sign)
            f = (lambda: x + y) if sign > 0 else (lambda: x - y)
        what = "%r %s%s %r" % (x, "+" if sign > 0 else "-", {"in": "=", "new": "", "swap": " (swapped)"}[o["how"]], y)
        if m is None:
            self.refused(f, where, what)
            return a.u, b.u, o["form"], "refused"
        if abs(m.n) > 1e9:
            return None
        z = f()
        if o["how"] == "in":
            check(z is x, "identity", "%s: %s gave another length", where, what)
            a.n, a.u, a.err = m.n, m.u, m.err
            self.same(x, m, "%s: %s" % (where, what))
        else:
            check(z is not x and z is not y, "identity", "%s: %s gave its operand", where, what)
            self.same(z, m, "%s: %s" % (where, what))
            self.regs[o["t"]] = (z, m)
        return a.u, b.u, o["form"], o["how"]

    def op_add(self, o, where):
        return self.addsub(o, where, 1)

    def op_sub(self, o, where):
        return self.addsub(o, where, -1)

    def put(self, o, x, z, m, where, what):
        a = self.regs[o["r"]][1]
        if o["how"] == "in":
            check(z is x, "identity", "%s: %s gave another length", where, what)
            a.n, a.u, a.err = m.n, m.u, m.err
            self.same(x, m, "%s: %s" % (where, what))
        else:
            check(z is not x, "identity", "%s: %s gave its operand", where, what)
            self.same(z, m, "%s: %s" % (where, what))
            self.regs[o["t"]] = (z, m)

    def op_scale(self, o, where):
        x, a = self.regs[o["r"]]
        k = o["n"]
        if abs(a.n * k) > 1e9:
            return None
        if o["how"] == "in":
            z = x
            z *= k
        else:
            z = x * k if o["how"] == "new" else k * x
        self.put(o, x, z, Measure(a.n * k, a.u, a.err * abs(k)), where, "%r times %r" % (x, k))
        return a.u, o["how"]

    def op_percent(self, o, where):
        """a share of a length"""
        L = env.basic.Length
        x, a = self.regs[o["r"]]
        if a.n == 0 or a.u == "%" or abs(a.n) <= a.lim():
            return None
        p = "%r%%" % abs(o["n"] * 10)
        k = abs(o["n"]) / 10
        if o["how"] == "in":
            z = x
            z *= p if o["f"] < 0.5 else L(p)
        elif o["how"] == "new":
            z = x * (p if o["f"] < 0.5 else L(p))
        else:
            z = L(p) * x
        self.put(o, x, z, Measure(a.n * k, a.u, a.err * k), where, "%s of %r" % (p, x))
        return a.u, o["how"]

    def op_divide(self, o, where):
        x, a = self.regs[o["r"]]
        k = o["n"]
        if abs(a.n / k) > 1e9:
            return None
        z = x / k if o["f"] < 0.6 else x // k
        self.put(dict(o, how="new"), x, z, Measure(a.n / k, a.u, a.err / abs(k)), where, "%r by %r" % (x, k))
        return a.u,

    def op_ratio(self, o, where):
        x, a = self.regs[o["r"]]
        y, b = self.operand(dict(o, form="register" if o["form"] == "number" else o["form"]))
        if abs(a.n) <= a.lim() or abs(b.n) <= 10 * b.lim():
            return None
        f = (lambda: x / y) if o["f"] < 0.6 else (lambda: x // y)
        if a.dim() != b.dim():
            self.refused(f, where, "%r by %r" % (x, y))
            return a.u, b.u, "refused"
        got, want = f(), a.size() / b.size()
        n, e = b.into(a.u)
        lim = abs(want) * (a.lim() / abs(a.n) + (e + b.lim()) * 2 / abs(n) + 1e-12)
        check(isinstance(got, float) and abs(got - want) <= lim, "ratio", "%s: %r by %r is %r, expected %r", where, x, y, got, want)
        return a.u, b.u, o["form"]

    def op_unary(self, o, where):
        x, a = self.regs[o["r"]]
        z = -x if o["f"] < 0.5 else abs(x)
        self.put(dict(o, how="new"), x, z, Measure(-a.n if o["f"] < 0.5 else abs(a.n), a.u, a.err), where, "minus or size of %r" % x)
        return a.u,

    def op_copy(self, o, where):
        x, a = self.regs[o["r"]]
        self.put(dict(o, how="new"), x, copy(x), Measure(a.n, a.u, a.err), where, "copy of %r" % x)
        return a.u,

    def op_alias(self, o, where):
        self.regs[o["t"]] = self.regs[o["r"]]
        return ()

    def op_compare(self, o, where):
        x, a = self.regs[o["r"]]
        y, b = self.operand(o)
        m = self.sum(a, b, -1)
        if m is None:
            for f in (lambda: x < y, lambda: x <= y, lambda: x > y, lambda: x >= y):
                self.refused(f, where, "comparing %r with %r" % (x, y))
            return a.u, b.u, "refused"
        if abs(m.n) <= 2 * m.lim():
            if not self.identical(x, y, a, b):
                return None
            want = (False, True, False, True)
        else:
            want = (m.n < 0, m.n < 0, m.n > 0, m.n > 0)
        got = (x < y, x <= y, x > y, x >= y)
        check(got == want, "compare", "%s: <, <=, >, >= of %r and %r are %s, expected %s", where, x, y, got, want)
        return a.u, b.u, o["form"]

    def op_equal(self, o, where):
        """Equal when the same amount of the same unit; not when they measure something else."""
        x, a = self.regs[o["r"]]
        y, b = self.operand(o)
        if o["form"] == "length" and o["f"] < 0.7:
            # almost the same
            b = Measure(x.amount * (1 + 10 ** -(1 + o["f"] * 10)), a.u)
            y = env.basic.Length(b.n, b.u)
        got = (x == y, x != y)
        check(got[0] is not got[1], "equal", "%s: %r == %r is %s and != is %s", where, x, y, got[0], got[1])
        n = 0.0 if a.dim() != b.dim() else abs(a.size() - b.size())
        if self.identical(x, y, a, b):
            want = True
        elif a.n == 0 or b.n == 0 or min(abs(a.n), abs(b.n)) <= 2 * max(a.lim(), b.lim()):
            return None
        elif a.dim() != b.dim():
            want = False
        else:
            k = UNITS[a.u][1]
            if n <= (1e-9 if a.u == b.u else 1e-6) + (a.err * k + b.err * UNITS[b.u][1]) * 2 + (TOL * 2 if a.u != b.u else 1e-11) * (abs(a.size()) + abs(b.size())):
                return None
            want = False
        check(got[0] is want, "equal", "%s: %r == %r is %s", where, x, y, got[0])
        check((x == None) is False, "equal", "%s: %r == None", where, x)  # noqa: E711
        return a.u, b.u, o["form"], want

    def identical(self, x, y, a, b):
        L = env.basic.Length
        return a.u == b.u and isinstance(x, L) and isinstance(y, L) and x.amount == y.amount

    def op_order(self, o, where):
        kin = [p for p in self.regs if p[1].dim() == self.regs[o["r"]][1].dim()]
        s = sorted(p[1].size() for p in kin)
        lim = sum(p[1].lim() * UNITS[p[1].u][1] for p in kin) + TOL * sum(abs(v) for v in s)
        got = sorted(p[0] for p in kin)
        for x, v in zip(got, s):
            check(abs(x.amount * UNITS[x.units][1] - v) <= 2 * lim, "compare", "%s: sorted are %s, sizes %s", where, got, s)
        big = max(p[0] for p in kin)
        check(abs(big.amount * UNITS[big.units][1] - s[-1]) <= 2 * lim, "compare", "%s: the largest of %s is %r", where, got, big)
        if len({p[1].u for p in kin}) == 1 and kin[0][1].u:
            t = sum(p[0] for p in kin)
            want = sum(p[1].n for p in kin)
            check((t.units == kin[0][1].u or abs(want) < 1e-6) and abs(t.amount - want) <= sum(p[1].lim() for p in kin) * 2, "measure", "%s: the sum of %s is %r", where, got, t)
        return len(kin), self.regs[o["r"]][1].u

    def solve(self, a, c):
        """-> (number, error) | (None, None) when context is missing | a Measure still unresolved"""
        n, u = a.n, a.u
        d = a.dim()
        if d == "px":
            return a.into("px")
        if d == "in":
            if c["ppi"] is None:
                return None, None
            v, e = a.into("in")
            return v * c["ppi"], (e + TOL * abs(v)) * c["ppi"]
        if u == "%":
            r = c["rel"]
            if r is None:
                return None, None
            if isinstance(r, (int, float)):
                return n / 100 * r, a.err * r
            if isinstance(r, Measure):
                if r.u == "%" or r.n == 0:
                    return "skip", None
                v, e = self.solve(Measure(n / 100 * r.n, r.u, a.err / 100 * abs(r.n) + abs(n) / 100 * r.lim()), c)
                return ("skip" if v is None else v), e  # partly resolved: both answers are sound
            num, unit = (float(r[:-2]), r[-2:]) if not r.endswith("%") else (float(r[:-1]), "%")
            if unit == "%":
                return "skip", None
            return self.solve(Measure(n / 100 * num, unit, a.err * num), c) if c["ppi"] is not None or unit == "px" else ("skip", None)
        if u == "em":
            return (None, None) if c["fs"] is None else (n * c["fs"], a.err * c["fs"])
        if u == "ex":
            return (None, None) if c["fh"] is None else (n * c["fh"], a.err * c["fh"])
        if c["vb"] is None:
            return None, None
        w, h = [float(v) for v in c["vb"].replace(",", " ").split()][2:]
        k = {"vw": w, "vh": h, "vmin": min(w, h), "vmax": max(w, h)}[u] / 100
        return n * k, a.err * k

    def solved(self, a, c):
        v = self.solve(a, c)
        if isinstance(v[0], tuple):
            v = v[0]
        return v

    def context(self, o):
        """The context, with the measure of the register that is the reference."""
        c = o["ctx"]
        return c if c["reg"] is None or o["op"] == "matrix" else dict(c, rel=self.regs[c["reg"]][1])

    def kwargs(self, o):
        c = o["ctx"]
        vb = c["vb"]
        rel = c["rel"]
        if c["reg"] is not None:
            rel = self.regs[c["reg"]][0]
        if c["obj"]:
            vb = env.basic.Viewbox(vb) if vb else vb
            rel = env.basic.Length(rel) if isinstance(rel, str) else rel
        return dict(ppi=c["ppi"], relative_length=rel, font_size=c["fs"], font_height=c["fh"], viewbox=vb)

    def op_value(self, o, where):
        x, a = self.regs[o["r"]]
        want, err = self.solved(a, self.context(o))
        if want == "skip" or (a.u == "%" and a.n == 0):
            return None
        if a.n == 0 and want is None:
            return None
        got = x.value(**self.kwargs(o))
        if want is None:
            check(isinstance(got, env.basic.Length), "value", "%s: %r was resolved to %r without its context %s", where, x, got, o["ctx"])
            self.same(got, a, "%s: unresolved %r" % (where, x))
        else:
            check(isinstance(got, (int, float)) and abs(got - want) <= err + TOL * abs(want) * (a.u not in ("", "px")) + 1e-9 * (1 + abs(want)), "value",
                  "%s: %r with %s is %r, expected %r", where, x, o["ctx"], got, want)
        return a.u, want is None, o["ctx"]["obj"]

    def op_convert(self, o, where):
        x, a = self.regs[o["r"]]
        c = dict(self.context(o), ppi=o["ctx"]["ppi"] or 96.0)
        want, err = self.solved(a, c)
        if want == "skip" or a.n == 0:
            return None
        u = {"mm": "mm", "cm": "cm", "inch": "in"}[o["to"]]
        kw = self.kwargs(dict(o, ctx=c))
        if o["ctx"]["ppi"] is None:
            del kw["ppi"]
        f = lambda: getattr(x, "to_" + o["to"])(**kw)
        if want is None:
            before = (x.amount, x.units)
            try:
                z = f()
            except (ValueError, TypeError):
                self.ctx.fault("refused")
            else:
                self.same(z, a, "%s: %r converted to %s without its context" % (where, x, u))
            check((x.amount, x.units) == before, "changed", "%s: converting %r changed it", where, x)
            return a.u, u, "refused"
        z = f()
        n = want / c["ppi"] / UNITS[u][1]
        self.same(z, Measure(n, u, 3 * TOL * abs(n) + err / c["ppi"] / UNITS[u][1] + 1e-11), "%s: %r converted to %s" % (where, x, u))
        return a.u, u

    def op_pixels(self, o, where):
        x, a = self.regs[o["r"]]
        for name, dim in (("in_pixels", "px"), ("in_inches", "in")):
            got = getattr(x, name)()
            if a.dim() != dim:
                check(got is None, "value", "%s: %s of %r is %r", where, name, x, got)
            else:
                v, e = a.into(dim)
                check(got is not None and abs(got - v) <= e + 1e-9 * (1 + abs(v)), "value", "%s: %s of %r is %r, expected %r", where, name, x, got, v)
        check(x.value_in_units == x.amount, "value", "%s: value_in_units of %r is %r", where, x, x.value_in_units)
        return a.u,

    def op_restart(self, o, where):
        """Only the text survives."""
        L = env.basic.Length
        x, a = self.regs[o["r"]]
        self.ctx.fault("restart")
        if o["medium"] == "str":
            new = L(str(x))
        elif o["medium"] == "repr":
            new = eval(repr(x), {"Length": L})
        elif o["medium"] == "pair":
            new = L(x.amount, x.units)
        else:
            N = env.nodes
            doc = N.Document()
            root = N.SVG()
            doc.append(root)
            root.parent = doc
            root.attributes["width"] = str(x)
            name = self.disk.path("l.svg")
            self.disk.reset(faults=[{"op": "write", "kind": "ENOSPC", "at": int(o["f"] * 60), "sticky": True}])
            try:
                doc.write(name)
            except OSError:
                pass
            self.disk.reset()
            doc.write(name)
            new = L(N.Document(name)[0].width)
        m = Measure(a.n, a.u, a.err + 1e-12)
        self.same(new, m, "%s: %r read back" % (where, x))
        m.n = new.amount
        self.regs[o["t"]] = (new, m)
        return a.u, o["medium"]

    def op_matrix(self, o, where):
        """A transform by lengths, resolved when the context is known."""
        M = env.basic.Matrix
        ls = [o["l"], o["l2"]]
        if any(l["n"] == 0 and l["u"] not in ("", "px") for l in ls):
            return None
        c = o["ctx"]
        want = []
        for l, wh in zip(ls, o["wh"]):
            v, e = self.solved(Measure(l["n"], l["u"]), dict(c, ppi=c["ppi"] or 96.0, rel=wh, fs=c["fs"] or 16, fh=c["fh"] or 8, vb=c["vb"] or "0 0 200 100"))
            want.append((v, e))
        kw = dict(ppi=c["ppi"] or 96.0, width=o["wh"][0], height=o["wh"][1], font_size=c["fs"] or 16, font_height=c["fh"] or 8, viewbox=c["vb"] or "0 0 200 100")
        t = "translate(%s,%s)" % (text(ls[0]), text(ls[1]))
        sx, sy = o["sc"]
        form = int(o["f"] * 3)
        if form == 1:
            t += " scale(%r,%r)" % (sx, sy)
        elif form == 2:
            t = "scale(%r,%r) %s" % (sx, sy, t)
        if o["n"] > 1:
            m = M(t, **kw)
        else:
            m = M(t)
            m = copy(m) if o["n"] == 0.5 else m
            if o["known"] is not None:
                self.known(m, ls, kw, o["known"], form, sx, sy, "%s: %r" % (where, t))
            m.render(**kw)
        k = (1, 1) if form == 0 else (sx, sy)
        s = (sx, sy) if form == 2 else (1, 1)
        got = [m.a, m.b, m.c, m.d, m.e, m.f]
        exp = [k[0], 0, 0, k[1], want[0][0] * s[0], want[1][0] * s[1]]
        lim = [1e-9] * 4 + [(e + TOL * abs(v)) * abs(z) + 1e-9 * (1 + abs(v)) for (v, e), z in zip(want, s)]
        ok = all(isinstance(g, (int, float)) and abs(g - w) <= q for g, w, q in zip(got, exp, lim))
        check(ok, "matrix", "%s: %r with %s is %s, expected %s", where, t, kw, got, exp)
        return ls[0]["u"], ls[1]["u"], form

    def known(self, m, ls, kw, mask, form, sx, sy, where):
        """What the context known so far does not resolve stays a length."""
        part = {k: v for i, (k, v) in enumerate(sorted(kw.items())) if mask >> i & 1}
        m.render(**part)
        for i, (n, l, scale, axis) in enumerate((("e", ls[0], sx, "width"), ("f", ls[1], sy, "height"))):
            u = l["u"]
            need = axis if u == "%" else {"in": "ppi", "em": "font_size", "ex": "font_height"}.get(UNITS[u][0], "viewbox" if u[:1] == "v" else None)
            x = getattr(m, n)
            if need is None or need in part:
                check(not isinstance(x, env.basic.Length), "matrix", "%s: with %s known, %s is %r", where, part, n, x)
            else:
                w = l["n"] * (scale if form == 2 else 1)
                check(isinstance(x, env.basic.Length) and x.units == u and abs(x.amount - w) <= 1e-9 * (1 + abs(w)), "matrix", "%s: with %s known, %s is %r, expected %r%s", where, part, n, x, w, u)

    def op_refuse(self, o, where):
        x, a = self.regs[o["r"]]
        if abs(a.n) <= a.lim():
            return None
        other = "1in" if a.dim() != "in" else "1px"

        def imul():
            z = x
            z *= other
            return z
        f = [imul, lambda: x * other, lambda: x + other, lambda: x - other, lambda: x / other, lambda: x < other, lambda: x / 0, lambda: x * None][int(o["f"] * 8)]
        if a.u == "%" and int(o["f"] * 8) < 2:
            return None
        self.refused(f, where, "an operation of %r with %r" % (x, other), (ValueError, TypeError, ZeroDivisionError, AttributeError))
        return a.u, int(o["f"] * 8)


def execute(plan, ctx):
    disk = faults.SimDisk(ctx)
    try:
        with disk:
            sim = Sim(ctx, disk)
            taken = special = 0
            for i, o in enumerate(plan["ops"]):
                if o["op"] != "new" and None in (sim.regs[o["r"]], sim.regs[o["q"]]):
                    continue
                if o["op"] == "order" and None in sim.regs:
                    continue
                where = "step %d (%s)" % (i, o["op"])
                r = sim.step(o, where)
                if r is None:
                    continue
                ctx.op(o["op"])
                taken += 1
                special += o["op"] in ("restart", "refuse") or "refused" in r
                sim.check(where)
                ctx.sig(o["op"], r)
                ctx.log(where, [(["%.9g" % p[1].n, p[1].u] if p else None) for p in sim.regs])
            if taken >= 6 and special:
                ctx.nontrivial = True
    finally:
        disk.dispose()
