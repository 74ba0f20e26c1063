"""C15: a colour keeps its channels through any history."""
import colorsys
import math
from copy import copy

from .. import env, faults
from ..colornames import NAMES
from ..core import check, weighted

ID = "C15"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 400000}
BATCH = 75
SHRINK = ("ops",)
RULE = ("a run is a history of several clients over shared colours: read from hex, rgb, percent, hsl and named texts, made from numbers, other colours and components; single channels, opacity, packed values and "
        "hue, saturation or lightness set; compared, composed, measured; as fill or stroke of an element with an opacity of its own; kept only as text through restarts (a string or a saved document, saves fail); "
        "wrong values and changes to no colour are refused in between; after every step every view of every colour is compared with four channels kept separately; non-trivial: at least six steps with one refusal "
        "or restart")
MEASURE = "distinct (operation, form of the value, kind of text, previous operation on that colour, opaque or not) combinations"
REAL = ["svgio.basic Color, Angle", "svgio.nodes fill, stroke, Document.write, load"]
STUB = ["raw file (planned write failures)"]
ASSUMPTIONS = ["a channel computed from a fraction may be rounded either way", "colour keywords of CSS 2 and SVG 1.1"]
EXPECT_FAULTS = ("restart", "refused")
REGS = 4
CHANNELS = ["red", "green", "blue", "alpha"]


def gen_text(rng):
    k = weighted(rng, [("hex6", 3), ("hex8", 2), ("hex3", 1), ("hex4", 1), ("bare", 0.5), ("rgb", 3), ("rgba", 2), ("percent", 2), ("hsl", 3), ("name", 4), ("none", 0.3), ("transparent", 0.3)])
    b = lambda: rng.choice([0, 255, 128, 1, 254, 17, 51, 127, rng.randrange(256)])
    t = {"k": k, "v": [b() for _ in range(4)], "up": rng.random() < 0.4, "sep": rng.choice([",", ", ", " , "]), "a": rng.choice([None, 1, 0, 0.5, "0.25", 1.0, ".75", 2, -1]), "name": rng.choice(sorted(NAMES)),
         "gap": rng.random() < 0.2, "pad": rng.choice(["", "", " "])}
    if k in ("rgb", "rgba") and rng.random() < 0.3:
        t["v"] = [rng.choice([-10, 300, 256, 12.5, 0.25, "+5", 99]) for _ in range(4)]
    if k == "percent":
        t["v"] = [rng.choice([0, 100, 50, 33.3, 110, -5, 12.5, 0.4]) for _ in range(4)]
    if k == "hsl":
        t["v"] = [rng.choice([0, 60, 120, 240, 300, 359.5, 12, 200, -30, -400, 480, 720, 1000]), rng.choice([0, 100, 50, 73.4, 120, -5]), rng.choice([0, 100, 50, 25, 66.67, 75, 120, -5]), 0]
    return t


def gen(rng):
    ops = [{"op": "text", "r": r, "q": 0, "t": 0, "f": rng.random(), "text": gen_text(rng)} for r in range(REGS)]
    for _ in range(rng.choice([3, 8, 15, 25])):
        k = weighted(rng, [("text", 3), ("make", 3), ("channel", 5), ("opacity", 2), ("packed", 2), ("hsl", 4), ("copy", 1.5), ("alias", 0.7), ("equal", 2), ("over", 2), ("distance", 1.5), ("distinct", 0.7),
                           ("restart", 2), ("paint", 2.5), ("refuse", 2.5)])
        o = {"op": k, "r": rng.randrange(REGS), "q": rng.randrange(REGS), "t": rng.randrange(REGS), "f": rng.random(), "h": rng.random()}
        if k in ("text", "paint", "make", "equal", "over", "distance"):
            o["text"] = gen_text(rng)
        if k in ("channel", "packed", "make"):
            o["v"] = [rng.choice([0, 255, 128, 300, -4, 17.75, rng.randrange(256)]) for _ in range(4)]
            o["c"] = rng.randrange(4)
        if k in ("opacity", "paint", "make"):
            o["a"] = rng.choice([0, 1, 0.5, 0.25, 0.1, 2, -1, rng.random()])
        if k == "hsl":
            o["which"] = rng.choice(["hue", "saturation", "lightness", "hsl", "own"])
            o["v"] = [rng.choice([0, 30, 120, 200, 300, 359, rng.uniform(0, 360)]), rng.choice([0, 1, 0.5, rng.random()]), rng.choice([0, 1, 0.5, 0.25, rng.random()])]
        if k == "distinct":
            o["i"] = int(1200 * rng.random() ** 2)
        if k == "restart":
            o["medium"] = rng.choice(["str", "hex", "hexa", "repr", "int", "file"])
        if k == "paint":
            o["oa"] = rng.choice([None, None, "1", "0.5", "0", "x", "2"])
        ops.append(o)
    return {"ops": ops}


def text_of(t):
    k, v = t["k"], t["v"]
    if k.startswith("hex") or k == "bare":
        n = {"hex6": 6, "hex8": 8, "hex3": 3, "hex4": 4, "bare": 6}[k]
        s = "".join("%02x" % x for x in v[:n // 2]) if n > 4 else "".join("%x" % (x // 17) for x in v[:n])
        return ("" if k == "bare" else "#") + (s.upper() if t["up"] else s)
    if k == "name":
        s = t["name"]
        if t["gap"]:
            s = s[:4] + " " + s[4:]
        return s.title() if t["up"] else s
    if k in ("none", "transparent"):
        return k
    unit = "%%" if k == "percent" else ""
    if k == "hsl":
        nums = ["%s" % v[0], "%s%%" % v[1], "%s%%" % v[2]]
        f = "hsl"
    else:
        nums = ["%s%s" % (x, unit.replace("%%", "%")) for x in v[:3]]
        f = "rgb"
    if t["a"] is not None:
        nums.append(str(t["a"]))
        f += "a"
    elif k == "rgba":
        f = "rgba"
    return f + "(" + t["pad"] + t["sep"].join(nums) + t["pad"] + ")"


def clamp(x, lo=0, hi=255):
    return min(hi, max(lo, x))


def meaning(t):
    """-> four channels (as numbers), or None for no colour"""
    k, v = t["k"], t["v"]
    if k in ("hex6", "bare"):
        return v[:3] + [255]
    if k == "hex8":
        return v[:4]
    if k in ("hex3", "hex4"):
        c = [x // 17 * 17 for x in v]
        return c[:3] + [255] if k == "hex3" else c
    if k == "name":
        n = NAMES[t["name"]]
        return [n >> 16, n >> 8 & 255, n & 255, 255]
    if k == "none":
        return None
    if k == "transparent":
        return [0, 0, 0, 0]
    a = 255 if t["a"] is None else clamp(float(t["a"]), 0, 1) * 255
    if k in ("rgb", "rgba"):
        return [clamp(float(x)) for x in v[:3]] + [a]
    if k == "percent":
        return [clamp(float(x) * 2.55) for x in v[:3]] + [a]
    return of_hsl(float(v[0]), clamp(float(v[1]) / 100, 0, 1), clamp(float(v[2]) / 100, 0, 1)) + [a]


def of_hsl(h, s, l):
    return [255 * x for x in colorsys.hls_to_rgb(h / 360 % 1, l, s)]


def hsl_of(m):
    h, l, s = colorsys.rgb_to_hls(*[x / 255 for x in m[:3]])
    return h * 360, s, l


class Sim:
    def __init__(self, ctx, disk):
        self.ctx, self.disk = ctx, disk
        self.regs = [None] * REGS  # pairs (colour, [channels] or [None])
        self.last = [""] * REGS

    def settle(self, c, m, where):
        """Compares with channels that may have been rounded either way, which are then taken over."""
        C = env.basic.Color
        check(isinstance(c, C), "channels", "%s is a %s", where, type(c).__name__)
        got = [getattr(c, n) for n in CHANNELS]
        if m is None:
            check(c.value is None and got == [None] * 4, "channels", "%s is %s, expected no colour", where, got)
            return None
        ok = c.value is not None and all(type(g) is int and 0 <= g <= 255 and (g == w if w == int(w) else abs(g - w) < 1.001) for g, w in zip(got, m))
        check(ok, "channels", "%s is %s, expected %s", where, got, m)
        return got

    def put(self, o, c, m, where, what):
        m = self.settle(c, m, "%s: %s" % (where, what))
        for p in self.regs:
            check(not p or p[0] is not c, "identity", "%s: %s gave a colour in use", where, what)
        self.regs[o["t"] if o["op"] not in ("text",) else o["r"]] = (c, [m])

    def check(self, where):
        """Every view of every colour."""
        C = env.basic.Color
        for i, p in enumerate(self.regs):
            if not p:
                continue
            c, m = p[0], p[1][0]
            w = "%s: colour %d" % (where, i)
            got = [getattr(c, n) for n in CHANNELS]
            check(got == (m or [None] * 4), "channels", "%s is %s, expected %s", w, got, m)
            views = ("value", "rgb", "rgba", "argb", "opacity", "hex", "hexa", "hue", "saturation", "lightness", "brightness", "blackness", "luma", "luminance", "intensity", "hsl")
            v = {n: getattr(c, n) for n in views}
            if m is None:
                check(all(x is None for x in v.values()), "views", "%s: the views of no colour are %s", w, v)
                check(str(c) == "None", "views", "%s: the text of no colour is %s", w, str(c))
                continue
            r, g, b, a = m
            rgb, hexa = r << 16 | g << 8 | b, "#%02x%02x%02x%02x" % tuple(m)
            want = {"value": rgb << 8 | a, "rgb": rgb, "rgba": rgb << 8 | a, "argb": a << 24 | rgb, "hexa": hexa, "hex": hexa[:7] if a == 255 else hexa}
            for n, x in want.items():
                check(type(v[n]) is type(x) and v[n] == x, "views", "%s of %s: %s is %r, expected %r", w, m, n, v[n], x)
            check(str(c) == want["hex"] and int(c) == want["value"], "views", "%s: text %s, number %s", w, str(c), int(c))
            h, s, l = hsl_of(m)
            near = {"opacity": a / 255, "saturation": s, "lightness": l, "brightness": max(r, g, b) / 255, "blackness": 1 - max(r, g, b) / 255, "luma": (r * 0.2126 + g * 0.7152 + b * 0.0722) / 255,
                    "luminance": (r * 0.3 + g * 0.59 + b * 0.11) / 255}
            for n, x in near.items():
                check(abs(v[n] - x) < 1e-9, "views", "%s of %s: %s is %r, expected %r", w, m, n, v[n], x)
            # how much light there is, of 256 (the library's own measure) or 255 steps a channel
            check(abs(v["intensity"] - (r + g + b) / 766.5) <= 0.002 and (v["intensity"] > 0) == (r + g + b > 0), "views", "%s of %s: intensity is %r", w, m, v["intensity"])
            if s > 0:
                d = abs(v["hue"] - h) % 360
                check(min(d, 360 - d) < 1e-6, "views", "%s of %s: hue is %r, expected %r", w, m, v["hue"], h)
            check(tuple(v["hsl"]) == (v["hue"], v["saturation"], v["lightness"]), "views", "%s: hsl is %s", w, v["hsl"])

    def op_text(self, o, where):
        C = env.basic.Color
        s = text_of(o["text"])
        c = C(s)
        m = meaning(o["text"])
        if o["text"]["k"] in ("rgb", "rgba", "percent"):
            got = [getattr(c, n) for n in CHANNELS]
            check(all(abs(g - w) <= 0.5 + 1e-6 for g, w in zip(got, m)), "channels", "%s: colour %r is %s, expected %s to the nearest", where, s, got, m)
        self.put(o, c, m, where, "colour %r" % s)
        check(c == s and not c != s, "equal", "%s: the colour of %r is not equal to it", where, s)
        return o["text"]["k"], o["text"]["a"] is None

    def op_make(self, o, where):
        C = env.basic.Color
        v = [int(x) for x in o["v"]]
        inr = [clamp(x) for x in v]
        m = meaning(o["text"])
        s = text_of(o["text"])
        how = int(o["f"] * 10)
        if how == 0:
            c, m = C(*v[:3]), inr[:3] + [255]
        elif how == 1:
            c, m = C(*inr), list(inr)
        elif how == 2:
            c, m = C(inr[0] << 16 | inr[1] << 8 | inr[2]), inr[:3] + [255]
        elif how in (3, 4):
            if m is None:
                return None
            base = s if how == 3 else C(s)
            c, m = C(base, o["a"]), m[:3] + [255 * clamp(o["a"], 0, 1)]
        elif how == 5:
            c, m = C(rgb=inr[0] << 16 | inr[1] << 8 | inr[2]), inr[:3] + [255]
        elif how == 6:
            c, m = C(rgba=inr[0] << 24 | inr[1] << 16 | inr[2] << 8 | inr[3]), list(inr)
        elif how == 7:
            c, m = C(argb=inr[3] << 24 | inr[0] << 16 | inr[1] << 8 | inr[2]), list(inr)
        elif how == 8:
            if m is None:
                return None
            n = o["c"]
            c = C(s, **{[CHANNELS[n], "rgba"[n] if n < 3 else "alpha"][o["h"] < 0.5]: v[n]})
            m = list(m)
            m[n] = inr[n]
        else:
            if m is None:
                return None
            c = C(s, opacity=o["a"])
            m = m[:3] + [255 * clamp(o["a"], 0, 1)]
        self.put(o, c, m, where, "a colour made %d of %s, %r" % (how, v, s))
        return how,

    def op_channel(self, o, where):
        c, (m,) = self.regs[o["r"]]
        n, v = o["c"], o["v"][o["c"]]
        if m is None:
            return self.refuse(lambda: setattr(c, CHANNELS[n], v), where, "%s of no colour" % CHANNELS[n], (ValueError,))
        setattr(c, CHANNELS[n], v)
        new = list(m)
        new[n] = clamp(v)
        self.regs[o["r"]][1][0] = self.settle(c, new, "%s: %s of %s set to %s" % (where, CHANNELS[n], m, v))
        return n, v == clamp(v), isinstance(v, float)

    def op_opacity(self, o, where):
        c, (m,) = self.regs[o["r"]]
        if m is None:
            return self.refuse(lambda: setattr(c, "opacity", o["a"]), where, "opacity of no colour", (ValueError,))
        c.opacity = o["a"]
        self.regs[o["r"]][1][0] = self.settle(c, m[:3] + [255 * clamp(o["a"], 0, 1)], "%s: opacity of %s set to %s" % (where, m, o["a"]))
        return ()

    def op_packed(self, o, where):
        c, (m,) = self.regs[o["r"]]
        r, g, b, a = [int(clamp(x)) for x in o["v"]]
        how = int(o["f"] * 3)
        if how == 0:
            c.rgb = r << 16 | g << 8 | b
            a = 255
        elif how == 1:
            c.rgba = r << 24 | g << 16 | b << 8 | a
        else:
            c.argb = a << 24 | r << 16 | g << 8 | b
        self.regs[o["r"]][1][0] = self.settle(c, [r, g, b, a], "%s: packed value" % where)
        return how, m is None

    def op_hsl(self, o, where):
        c, (m,) = self.regs[o["r"]]
        n = o["which"]
        v = list(o["v"])
        if m is None:
            if n in ("hsl", "own"):
                return None
            return self.refuse(lambda: setattr(c, n, v[0]), where, "%s of no colour" % n, (ValueError,))
        old = list(hsl_of(m))
        if n == "own":
            c.hsl = c.hsl
            v = old
        elif n == "hsl":
            c.hsl = tuple(v) if o["f"] < 0.5 else list(v)
        else:
            i = ["hue", "saturation", "lightness"].index(n)
            setattr(c, n, v[i])
            old[i] = v[i]
            v = old
        want = [x + 1e-6 * (x == int(x)) for x in of_hsl(*v)]  # may be rounded either way
        self.regs[o["r"]][1][0] = self.settle(c, want + [m[3]], "%s: %s of %s set to %s" % (where, n, m, o["v"]))
        return n, m[3] == 255

    def op_copy(self, o, where):
        C = env.basic.Color
        c, (m,) = self.regs[o["r"]]
        how = int(o["f"] * 4)
        if how == 3:
            self.put(o, abs(c), None if m is None else m[:3] + [255], where, "opaque copy")
        else:
            self.put(o, [C, copy, lambda x: C(int(x)) if False else C(x)][how](c), m, where, "copy")
        return how,

    def op_alias(self, o, where):
        self.regs[o["t"]] = self.regs[o["r"]]
        return ()

    def op_equal(self, o, where):
        C = env.basic.Color
        c, (m,) = self.regs[o["r"]]
        if o["f"] < 0.5:
            d, (n,) = self.regs[o["q"]]
        else:
            s = text_of(o["text"])
            d = s
            n = self.settle(C(s), meaning(o["text"]), where)
        want = m == n
        got = (c == d, c != d)
        check(got == (want, not want), "equal", "%s: %s == %s is %s, != is %s", where, m, n, *got)
        check((c == None) is (m is None), "equal", "%s: %s == None", where, m)  # noqa: E711
        return want, o["f"] < 0.5

    def op_over(self, o, where):
        C = env.basic.Color
        (c, (m,)), (d, (n,)) = self.regs[o["r"]], self.regs[o["q"]]
        if m is None or n is None:
            return None
        x, y = c, d
        if o["f"] > 0.6:
            return self.blend(o, where)
        if o["f"] < 0.3:
            x = c.hexa
        if 0.2 < o["f"] < 0.5:
            y = d.hexa
        r = C.over(x, y)
        got = C(rgba=int(r))
        a, b = m[3] / 255, n[3] / 255
        k = a + b * (1 - a)
        want = [(p * a + q * b * (1 - a)) / k if k else 0 for p, q in zip(m[:3], n[:3])] + [k * 255]
        if not k:
            return None
        self.settle(got, [w + 1e-6 * (w == int(w)) for w in want], "%s: %s over %s" % (where, m, n))
        return m[3] in (0, 255), n[3] in (0, 255), isinstance(x, str), isinstance(y, str)

    def blend(self, o, where):
        """One colour laid over another in place, perhaps with an opacity of its own for this once."""
        C = env.basic.Color
        (c, (m,)), (d, cell) = self.regs[o["r"]], self.regs[o["q"]]
        n = cell[0]
        a = m[3]
        x = c if o["f"] < 0.8 else c.hexa
        if o["h"] < 0.3:
            got = d.blend(x)
        else:
            opacity = o["h"] if o["h"] < 0.9 else 1
            a = int(round(opacity * 255))
            got = d.blend(x, opacity)
        check(got is None or got is d, "channels", "%s: blending gave %r", where, got)
        a, b = a / 255, n[3] / 255
        k = a + b * (1 - a)
        want = [(p * a + q * b * (1 - a)) / k if k else 0 for p, q in zip(m[:3], n[:3])] + [k * 255] if k else n
        cell[0] = self.settle(d, [w + 1e-6 * (w == int(w)) for w in want], "%s: %s blended with %s, opacity %.3f" % (where, n, m, a))
        return "blend", isinstance(x, str), o["h"] < 0.3

    def op_distance(self, o, where):
        C = env.basic.Color
        (c, (m,)), (d, (n,)) = self.regs[o["r"]], self.regs[o["q"]]
        if m is None or n is None:
            return None
        x, y = (c.hex, d) if o["f"] < 0.3 else (c, d)
        k = (m[0] + n[0]) / 2
        r, g, b = [p - q for p, q in zip(m[:3], n[:3])]
        want = (512 + k) * r * r / 256 + 4 * g * g + (767 - k) * b * b / 256
        lim = 2 + (r * r + b * b) / 256
        got, back, root = C.distance_sq(x, y), C.distance_sq(y, x), C.distance(x, y)
        check(abs(got - want) <= lim and got >= 0 and (got > 0) == (want > 0), "distance", "%s: the square of the distance of %s and %s is %s, expected %s", where, m, n, got, want)
        check(got == back and abs(root - math.sqrt(got)) < 1e-9, "distance", "%s: distances of %s and %s: %s, back %s, root %s", where, m, n, got, back, root)
        return o["f"] < 0.3,

    def op_distinct(self, o, where):
        C = env.basic.Color
        i = o["i"]
        seen = {}
        for j in range(i + 4):
            x = C.distinct(j).value
            check(x not in seen, "distinct", "%s: the distinct colours %d and %d are both %08x", where, seen.get(x, -1), j, x)
            check(x & 255 == 255, "distinct", "%s: a distinct colour is not opaque", where)
            seen[x] = j
        c = C.distinct(i)
        self.put(o, c, [c.red, c.green, c.blue, 255], where, "distinct")
        return ()

    def restart(self, c, o):
        C = env.basic.Color
        if o["medium"] == "str":
            return C(str(c))
        if o["medium"] == "hex":
            return C(c.hex)
        if o["medium"] == "hexa":
            return C(c.hexa)
        if o["medium"] == "repr":
            return eval(repr(c), {"Color": C})
        if o["medium"] == "int":
            return C(rgba=int(c))
        return None

    def saved(self, attrs, f):
        """An element with these attributes, before and after it was saved to a disk that fails first."""
        N = env.nodes
        doc = N.Document()
        root = N.SVG()
        doc.append(root)
        root.parent = doc
        e = N.Rect(**attrs)
        root.append(e)
        e.parent = root
        name = self.disk.path("c.svg")
        self.disk.reset(faults=[{"op": "write", "kind": "ENOSPC", "at": int(f * 60), "sticky": True}])
        try:
            doc.write(name)
        except OSError:
            pass
        self.disk.reset()
        doc.write(name)
        return e, N.Document(name)[0][0]

    def op_restart(self, o, where):
        """Only the text survives."""
        c, (m,) = self.regs[o["r"]]
        if m is None and o["medium"] in ("str", "repr", "int"):
            return None
        self.ctx.fault("restart")
        new = self.restart(c, o)
        if new is None:
            new = self.saved({"fill": c.hexa if m is not None else "none"}, o["f"])[1].fill
        self.put(o, new, m, where, "%s through its %s" % (m, o["medium"]))
        return o["medium"], m is None or m[3] == 255

    def op_paint(self, o, where):
        """Fill and stroke of an element, with an opacity of their own."""
        s, m = text_of(o["text"]), meaning(o["text"])
        oa = o["oa"]
        n = ["fill", "stroke"][o["f"] < 0.5]
        attrs = {n: s}
        if oa is not None:
            attrs[n + "_opacity"] = oa
        N = env.nodes
        e = N.Rect()
        for k, v in attrs.items():
            e.attributes[k.replace("_", "-")] = v
        if oa not in (None, "x") and m is not None:
            m = m[:3] + [255 * clamp(float(oa), 0, 1)]
        c = getattr(e, n)
        self.settle(c, m, "%s: %s of an element with %s" % (where, n, attrs))
        if m is not None:
            c.red = 255 - c.red  # a view of its own
            self.settle(getattr(e, n), m, "%s: %s of an element with %s after a colour read from it was changed" % (where, n, attrs))
        if o["h"] < 0.4:
            self.ctx.fault("restart")
            d = self.saved({k.replace("_", "-"): v for k, v in attrs.items()}, o["f"])[1]
            self.put(o, getattr(d, n), m, where, "%s of a saved element with %s" % (n, attrs))
        else:
            self.put(o, getattr(e, n), m, where, "%s of an element with %s" % (n, attrs))
        return n, oa, o["text"]["k"]

    def refuse(self, f, where, what, errors=(TypeError, ValueError, IndexError, AttributeError)):
        before = [p and p[0].value for p in self.regs]
        try:
            f()
        except errors:
            pass
        else:
            check(False, "accepted", "%s: %s was accepted", where, what)
        self.ctx.fault("refused")
        check([p and p[0].value for p in self.regs] == before, "changed", "%s: %s was refused and changed a colour", where, what)
        return "refused", what[:12]

    def op_refuse(self, o, where):
        c, (m,) = self.regs[o["r"]]
        bad = [None, "x", [], (1,)][int(o["h"] * 4)]
        n = (CHANNELS + ["opacity", "rgb", "argb", "hue", "saturation", "lightness"])[int(o["f"] * 10)]
        if o["h"] > 0.9 and m is not None:
            return self.refuse(lambda: setattr(c, "hsl", (1, 0.5)), where, "an incomplete hsl")
        if o["h"] > 0.85 and m is not None:
            return self.refuse(lambda: setattr(c, "opacity", float("nan")), where, "an undefined opacity")
        return self.refuse(lambda: setattr(c, n, bad), where, "%s set to %r" % (n, bad))


def execute(plan, ctx):
    disk = faults.SimDisk(ctx)
    try:
        with disk:
            sim = Sim(ctx, disk)
            taken = special = 0
            for i, o in enumerate(plan["ops"]):
                if o["op"] != "text" and None in (sim.regs[o["r"]], sim.regs[o["q"]]):
                    continue
                where = "step %d (%s)" % (i, o["op"])
                r = getattr(sim, "op_" + o["op"])(o, where)
                if r is None:
                    continue
                ctx.op(o["op"])
                taken += 1
                special += o["op"] in ("restart", "refuse") or "refused" in r
                sim.check(where)
                ctx.sig(o["op"], r, sim.last[o["r"]])
                sim.last[o["r"]] = o["op"]
                ctx.log(where, [p and p[1][0] for p in sim.regs])
            if taken >= 6 and special:
                ctx.nontrivial = True
    finally:
        disk.dispose()
