"""C08: path data arriving in pieces gives the same path as all at once."""
import math
from copy import copy

from .. import env, pathops
from ..core import Violation, check, rng_of, weighted

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 30000, "thorough": 600000}
BATCH = 100
SHRINK = ("pieces", "cmds", "args")
RULE = ("a run generates path data of 1-30 commands of every kind (absolute, relative, smooth, implicit repeats, inline closes, every number style), cuts it at command "
        "boundaries into pieces, gives each piece by +=, parse, +, or the drawing methods, and inserts malformed pieces that must be rejected; after every piece the path "
        "is compared with a reference interpreter, at the end with one-shot parsing; non-trivial: at least two pieces, one of which starts with a relative or smooth command "
        "or follows a rejected piece")
MEASURE = "distinct (way of giving, last command before, first command of the piece, malformed kind) combinations"
REAL = ["svgio.path PathLexicalParser, Path drawing methods, segments"]
STUB = []
ASSUMPTIONS = ["path data starts with a move", "arc radii are not zero",
               "the drawing methods take absolute coordinates except horizontal and vertical with relative=True"]
EXPECT_FAULTS = ("rejected-piece",)

NARGS = {"m": 2, "l": 2, "h": 1, "v": 1, "c": 6, "s": 4, "q": 4, "t": 2, "a": 7, "z": 0}
BAD = ["short", "none", "flag", "zlater", "again", "junk"]


# ---------------------------------------------------------------- generation

def number(rng):
    return weighted(rng, [(float(rng.randint(-30, 30)), 4), (rng.randint(-300, 300) / 10.0, 4), (rng.randint(-99, 99) / 100.0, 2),
                          (rng.randint(-9, 9) * 100.0, 0.5), (0.0, 1)])


def arc_args(rng):
    return [float(rng.randint(1, 30)) / rng.choice([1, 2]), float(rng.randint(1, 30)), float(rng.choice([0, 0, 30, -45, 90, 17])), rng.randint(0, 1), rng.randint(0, 1)]


def command(rng):
    """[letter, list of argument groups, inline close]"""
    k = weighted(rng, [("m", 1.2), ("l", 3), ("h", 1.5), ("v", 1.5), ("c", 2), ("s", 2), ("q", 2), ("t", 2), ("a", 1.5), ("z", 1.5)])
    n = weighted(rng, [(1, 6), (2, 2), (3, 1)])
    groups = []
    for _ in range(0 if k == "z" else n):
        if k == "a":
            e = [number(rng), number(rng)]
            groups.append(arc_args(rng) + e)
        else:
            groups.append([number(rng) for _ in range(NARGS[k])])
    letter = k if rng.random() < 0.6 else k.upper()
    inline = k in "lcsqta" and rng.random() < 0.08 and not (k in "lt" and n > 1)
    return {"c": letter, "args": groups, "z": rng.choice("zZ") if inline else ""}


def gen(rng):
    n = weighted(rng, [(rng.randint(1, 4), 2), (rng.randint(5, 14), 4), (rng.randint(15, 30), 1)])
    cmds = [{"c": rng.choice("mM"), "args": [[number(rng), number(rng)] for _ in range(rng.choice([1, 1, 2]))], "z": ""}]
    while len(cmds) < n:
        cmds.append(command(rng))
    pieces, i = [], 0
    while i < len(cmds):
        size = weighted(rng, [(1, 3), (rng.randint(1, 3), 2), (rng.randint(1, 10), 1), (len(cmds), 0.5)])
        piece = {"cmds": cmds[i:i + size], "style": rng.getrandbits(30), "via": weighted(rng, [("iadd", 3), ("parse", 2), ("methods", 3), ("add", 1), ("radd-other", 0.3)])}
        pieces.append(piece)
        i += size
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2, 4])):
            at = rng.randint(0, len(pieces))
            lead = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                c = command(rng)
                if at == 0 and not lead:
                    c = {"c": rng.choice("mM"), "args": [[number(rng), number(rng)]], "z": ""}
                lead.append(c)
            last = command(rng)
            if at == 0 and not lead:
                last = {"c": rng.choice("mM"), "args": [[number(rng), number(rng)] for _ in range(2)], "z": ""}
            pieces.insert(at, {"cmds": lead, "bad": {"kind": rng.choice(BAD), "cmd": last, "n": rng.randint(0, 6)}, "style": rng.getrandbits(30),
                               "via": rng.choice(["iadd", "parse", "iadd", "parse", "add", "methods"])})
    return {"pieces": pieces, "how": rng.choice(["ctor", "empty"])}


# ---------------------------------------------------------------- rendering as text

def num_text(rng, v):
    if v == int(v) and rng.random() < 0.7:
        t = "%d" % v
    else:
        t = repr(v)
        if rng.random() < 0.3:
            t = "%.6e" % v
        elif rng.random() < 0.4 and t.startswith("0.") and len(t) > 2:
            t = t[1:]
        elif rng.random() < 0.4 and t.startswith("-0."):
            t = "-" + t[2:]
        elif rng.random() < 0.1 and v > 0:
            t = "+" + t
    if t in (".0", "-.0"):
        t = "0"
    return t


def sep(rng, compact_ok):
    if compact_ok and rng.random() < 0.5:
        return ""
    return rng.choice([" ", ",", " , ", "\n", "\t", "  ", ", "])


def group_text(rng, k, g):
    out = ""
    for i, v in enumerate(g):
        if k == "a" and i in (3, 4):
            out += (sep(rng, i == 4) if i else "") + "%d" % v
            continue
        t = num_text(rng, v)
        if i:
            tight = t[0] in "-+" or (k == "a" and i == 5)
            out += sep(rng, tight)
        out += t
    return out


def render(rng, c):
    k = c["c"].lower()
    groups = c["args"]
    out = c["c"] + rng.choice(["", " ", "\n"])
    for gi, g in enumerate(groups):
        last = gi == len(groups) - 1
        g = g[:-2] if c["z"] and last else g
        t = group_text(rng, k, g)
        if gi:
            out += sep(rng, t[:1] in ("-", "+"))
        out += t
        if c["z"] and last:
            out += rng.choice(["", " "]) + c["z"]
    return out


def text_of(piece):
    rng = rng_of("style", piece["style"])
    t = rng.choice(["", " ", "\n"])
    for c in piece["cmds"]:
        t += render(rng, c) + rng.choice(["", " ", "\n", " "])
    bad = piece.get("bad")
    if bad:
        t += bad_text(rng, bad)
    return t


def bad_parts(bad):
    """-> (complete commands of the bad command, numbers of the incomplete group, kind)"""
    c = dict(bad["cmd"], z="")
    k = c["c"].lower()
    kind = bad["kind"]
    if k == "z":
        return {"c": c["c"], "args": [], "z": ""}, [], "zlater"
    if kind == "none":
        return None, [], kind
    groups = c["args"] or [[0.0] * NARGS[k]]
    if kind == "flag" and k == "a":
        g = groups[-1]
        return dict(c, args=groups[:-1]), g[:3 + bad["n"] % 2], kind
    if NARGS[k] == 1:
        return None, [], "none"
    short = groups[-1][:1 + bad["n"] % (NARGS[k] - 1)]
    return dict(c, args=groups[:-1]), short, "short"


def bad_text(rng, bad):
    full, rest, kind = bad_parts(bad)
    c = bad["cmd"]["c"]
    if kind == "zlater":
        return c + " 3"
    if kind == "none":
        return c + rng.choice(["", " "]) + rng.choice(["", "", "L 4,5"] if c.lower() != "m" else ["", "M 4,5"])
    t = c + " "
    for g in full["args"]:
        t += group_text(rng, c.lower(), g) + " "
    t += group_text(rng, c.lower(), rest)
    if kind == "flag":
        t += " 7 1,1"
    elif rng.random() < 0.3 and c.lower() != "a":
        t += " " + rng.choice(["L 1,1", "H 3", "m 2,2"])
    return t


# ---------------------------------------------------------------- the reference interpreter

class Ref:
    """What the SVG recommendation says the commands mean."""

    def __init__(self):
        self.segs = []
        self.cur = self.zp = None
        self.ctrl = None          # (kind, last control point)

    def clone(self):
        r = Ref()
        r.segs, r.cur, r.zp, r.ctrl = list(self.segs), self.cur, self.zp, self.ctrl
        return r

    def add(self, k, e, c=(), w=None, **more):
        self.segs.append(dict({"k": k, "s": self.cur, "e": e, "c": list(c), "w": w}, **more))
        self.cur = e

    def run(self, cmds):
        for c in cmds:
            self.command(c)
        return self

    def command(self, c):
        k, rel = c["c"].lower(), c["c"].islower()
        if k == "z":
            self.add("Z", self.zp)
            self.ctrl = None
            return
        if c["z"] and k in "lt" and len(c["args"]) > 1:
            raise LookupError
        for gi, g in enumerate(c["args"]):
            inline = c["z"] and gi == len(c["args"]) - 1
            self.group("l" if k == "m" and gi else k, rel, g, inline)
        if c["z"]:  # the close that gave the last coordinates closes as well
            self.add("Z", self.zp)
            self.ctrl = None

    def group(self, k, rel, g, inline):
        cur = self.cur or (0.0, 0.0)
        ox, oy = cur if rel else (0.0, 0.0)
        ab = lambda i: (g[i] + ox, g[i + 1] + oy)
        ctrl = None
        if k == "m":
            e = ab(0)
            self.add("M", e)
            self.zp = e
        elif k == "l":
            self.add("L", self.zp if inline else ab(0))
        elif k == "h":
            self.add("L", (g[0] + ox, cur[1]))
        elif k == "v":
            self.add("L", (cur[0], g[0] + oy))
        elif k in "cs":
            if k == "c":
                c1, rest = ab(0), 2
            else:
                c1, rest = self.reflect("C"), 0
            c2 = ab(rest)
            ctrl = ("C", c2)
            self.add("C", self.zp if inline else ab(rest + 2), [c1, c2])
        elif k in "qt":
            if k == "q":
                c1, rest = ab(0), 2
            else:
                c1, rest = self.reflect("Q"), 0
            ctrl = ("Q", c1)
            self.add("Q", self.zp if inline else ab(rest), [c1])
        else:
            e = self.zp if inline else ab(5)
            self.add("A", e, arc=(cur, g[0], g[1], g[2], g[3], g[4], e))
        self.ctrl = ctrl

    def reflect(self, kind):
        cur = self.cur
        if self.ctrl and self.ctrl[0] == kind:
            p = self.ctrl[1]
            return (2 * cur[0] - p[0], 2 * cur[1] - p[1])
        return cur


def arc_centre(start, rx, ry, rot, large, sweep, end):
    """Implementation notes of the recommendation: centre, radii, sweep (radians)."""
    if start == end:
        return None
    phi = math.radians(rot)
    c, s = math.cos(phi), math.sin(phi)
    dx, dy = (start[0] - end[0]) / 2, (start[1] - end[1]) / 2
    x1, y1 = c * dx + s * dy, -s * dx + c * dy
    rx, ry = abs(rx), abs(ry)
    lam = (x1 / rx) ** 2 + (y1 / ry) ** 2
    if lam > 1:
        rx, ry = rx * math.sqrt(lam), ry * math.sqrt(lam)
    num = max(0.0, (rx * ry) ** 2 - (rx * y1) ** 2 - (ry * x1) ** 2)
    f = math.sqrt(num / ((rx * y1) ** 2 + (ry * x1) ** 2)) * (-1 if bool(large) == bool(sweep) else 1)
    cx1, cy1 = f * rx * y1 / ry, -f * ry * x1 / rx
    cx, cy = c * cx1 - s * cy1 + (start[0] + end[0]) / 2, s * cx1 + c * cy1 + (start[1] + end[1]) / 2
    a1 = math.atan2((y1 - cy1) / ry, (x1 - cx1) / rx)
    a2 = math.atan2((-y1 - cy1) / ry, (-x1 - cx1) / rx)
    d = a2 - a1
    if sweep and d < 0:
        d += 2 * math.pi
    if not sweep and d > 0:
        d -= 2 * math.pi
    return (cx, cy), rx, ry, d, abs(lam - 1) < 1e-6 or lam > 1


def near(a, b, tol=1e-7):
    if a is None or b is None:
        return a is b
    scale = 1 + max(abs(b[0]), abs(b[1]))
    return abs(a[0] - b[0]) <= tol * scale and abs(a[1] - b[1]) <= tol * scale


def compare(path, ref, where, kind):
    real = pathops.read(path)
    want = ref.segs
    check(len(real) == len(want), kind, "%s: %d segments, expected %d: %s; expected %s", where, len(real), len(want), pathops.show_all(real), pathops.show_all(want))
    for i, (r, g) in enumerate(zip(real, want)):
        ok = r["k"] == g["k"] and near(r["e"], g["e"]) and (g["s"] is None or near(r["s"], g["s"]))
        if ok and g["k"] != "A":
            ok = len(r["c"]) == len(g["c"]) and all(near(a, b) for a, b in zip(r["c"], g["c"]))
        check(ok, kind, "%s: segment %d is %s, expected %s", where, i, pathops.show(r), pathops.show(g))
        if g["k"] == "A":
            a = arc_centre(*g["arc"])
            if a is None:
                continue
            (centre, rx, ry, sweep, scaled) = a
            tol = 1e-3 if scaled else 1e-4
            size = rx + ry
            got_rx, got_ry = math.dist(r["c"][0], r["c"][1]), math.dist(r["c"][0], r["c"][2])
            ok = math.dist(r["c"][0], centre) <= tol * size and abs(got_rx - rx) <= tol * size and abs(got_ry - ry) <= tol * size
            dw = abs(r["w"] - sweep)
            ok = ok and (dw <= 0.01 or (scaled and abs(dw - 2 * math.pi) <= 0.01))
            check(ok, kind, "%s: segment %d is the arc %s (radii %g,%g sweep %g), expected centre %s radii %g,%g sweep %g",
                  where, i, pathops.show(r), got_rx, got_ry, r["w"], centre, rx, ry, sweep)


# ---------------------------------------------------------------- execution

def by_methods(p, ref, cmds, rng):
    """Gives commands by the drawing methods; `ref` follows."""
    def draw(name, *args, relative):
        n = len(p)
        got = getattr(p, name)(*args, relative=relative)
        check(all(bool(s.relative) == relative for s in p[n:]), "form", "%s with %d arguments and relative=%s: the segments are %s", name, len(args), relative,
              ["relative" if s.relative else "absolute" for s in p[n:]])
        check(got is p, "returned", "%s gives back %r instead of the path to go on drawing with", name, type(got).__name__)

    for c in cmds:
        k, rel = c["c"].lower(), c["c"].islower()
        if k == "z":
            draw("closed", relative=rel)
            ref.command(c)
            continue
        before = len(ref.segs)
        ref.command(dict(c, z="") if not c["z"] else c)
        new = ref.segs[before:]
        if c["z"]:
            new = new[:-1]
        if k in "hv":
            name = "horizontal" if k == "h" else "vertical"
            vals = [g[0] for g in c["args"]]
            if rng.random() < 0.5:
                draw(name, *vals, relative=rel)
            else:
                for v in vals:
                    draw(name, v, relative=rel)
        else:
            calls = []
            for gi, s in enumerate(new):
                e = "z" if c["z"] and gi == len(new) - 1 else s["e"]
                if s["k"] == "M":
                    calls.append(("move", [e]))
                elif s["k"] == "L":
                    calls.append(("line", [e]))
                elif s["k"] == "Q":
                    calls.append(("quad", [s["c"][0], e]) if k == "q" else ("smooth_quad", [e]))
                elif s["k"] == "C":
                    calls.append(("cubic", [s["c"][0], s["c"][1], e]) if k == "c" else ("smooth_cubic", [s["c"][1], e]))
                else:
                    calls.append(("arc", list(s["arc"][1:6]) + [e]))
            names = {n for n, _ in calls}
            if rng.random() < 0.4 and (len(names) == 1 or calls[0][0] == "move"):
                args = []
                for _, a in calls:
                    args += a
                draw(calls[0][0], *args, relative=rel)
            else:
                for n, a in calls:
                    if rng.random() < 0.3:
                        a = [env.path.Point(x) if isinstance(x, tuple) else x for x in a]
                    draw(n, *a, relative=rel)
        if c["z"]:
            draw("closed", relative=c["z"].islower())


def execute(plan, ctx):
    P = env.path.Path
    p, ref, given, text_only = None, Ref(), [], True
    last_cmd, after_bad = "", False
    for i, piece in enumerate(plan["pieces"]):
        bad = piece.get("bad")
        via = piece["via"]
        rng = rng_of("via", piece["style"])
        if not piece["cmds"] and not bad:
            continue
        if not ref.segs and not (piece["cmds"] and piece["cmds"][0]["c"] in "mM") and not (bad and not piece["cmds"] and bad["cmd"]["c"] in "mM"):
            continue  # (minimised plans only) path data starts with a move
        try:
            check_domain(ref, piece)
        except LookupError:
            continue
        text = text_of(piece)
        where = "piece %d (%s %r)" % (i, via, text[:120])
        ctx.op("bad piece" if bad else via)
        first = piece["cmds"][0]["c"] if piece["cmds"] else bad["cmd"]["c"]
        ctx.sig(via, last_cmd, first, bad and bad_parts(bad)[2], after_bad)
        if p is None:
            if plan["how"] == "ctor" and not bad:
                p = P(text)
                ref.run(piece["cmds"])
                given += piece["cmds"]
                last_cmd = piece["cmds"][-1]["c"]
                compare(p, ref, where + " to the constructor", "segments")
                continue
            p = P()
        if bad:
            p = give_bad(p, ref, piece, text, via, rng, where, ctx, given)
            after_bad = True
            last_cmd = given[-1]["c"] if given else ""
            continue
        if via == "methods":
            by_methods(p, ref, piece["cmds"], rng)
            text_only = False
        else:
            ref.run(piece["cmds"])
            if via == "iadd":
                q = p
                p += text
                check(p is q, "segments", "%s: += gave another path", where)
            elif via == "parse":
                p.parse(text)
            elif via == "add":
                old, n = p, len(p)
                p = p + text
                check(len(old) == n, "segments", "%s: + changed the summand", where)
            else:  # the pieces so far, as another path's text continued here
                p = P(p)
                p += text
        given += piece["cmds"]
        compare(p, ref, where, "segments")
        if i and (after_bad or first in "mlhvcqtasST"):
            ctx.nontrivial = True
        last_cmd, after_bad = piece["cmds"][-1]["c"], False
        ctx.log(where, len(ref.segs))
    if p is None or not given:
        return
    # all at once
    style = plan["pieces"][0]["style"]
    whole = text_of({"cmds": given, "style": style})
    one = P(whole)
    compare(one, ref, "all at once (%r)" % whole[:300], "one-shot")
    pathops.compare(p, pathops.read(one), "in pieces against all at once", kind="pieces-differ")
    pathops.check_linked(p, "in pieces")
    if text_only:
        check(p.d() == one.d(), "pieces-differ", "in pieces d() is %r, all at once %r", p.d()[:300], one.d()[:300])
        check(p == one, "pieces-differ", "the path in pieces does not equal the one given at once: %r", whole[:300])
        # and what it says it is reads back, continued piece by piece again
        again = P()
        for s in one:
            again.append(copy(s))
        pathops.compare(again, pathops.read(one), "segment by segment", kind="pieces-differ")


def check_domain(ref, piece):
    """No command before the first move; no arcs that end next to where they start."""
    r = ref.clone()
    cmds = list(piece["cmds"])
    if piece.get("bad"):
        cmds.append(dict(piece["bad"]["cmd"], z=""))
    for c in cmds:
        k = c["c"].lower()
        if r.cur is None and k != "m":
            raise LookupError
        r.command(c)
        for s in r.segs[-3:]:
            if s["k"] == "A" and near(s["s"], s["e"], 1e-3) and s["s"] != s["e"]:
                raise LookupError


def give_bad(p, ref, piece, text, via, rng, where, ctx, given):
    full, rest, kind = bad_parts(piece["bad"])
    ways = [list(piece["cmds"])]
    if full is not None:
        if kind == "zlater":
            ways = [ways[0], ways[0] + [full]]     # whether "z" is complete when a number follows is open
        elif full["args"]:
            ways = [ways[0] + [full]]
    n = len(p)
    if via == "add":
        before = pathops.read(p)
        try:
            p + text
        except Exception:
            ctx.fault("rejected-piece")
        else:
            raise Violation("not-rejected", "%s: malformed path data was accepted" % where)
        pathops.compare(p, before, where + ": the summand of a rejected sum", kind="rejected-piece")
        return p
    if via == "methods":
        k = piece["bad"]["cmd"]["c"].lower()
        call = {"m": ("move", ()), "l": ("line", ()), "h": ("horizontal", ()), "v": ("vertical", ()), "q": ("quad", ((1, 2),)), "t": ("smooth_quad", ()),
                "c": ("cubic", ((1, 2), (3, 4))), "s": ("smooth_cubic", ((1, 2),)), "a": ("arc", (1, 2, 0, 0, 1))}.get(k)
        if call is None or not len(p):
            return p
        try:
            getattr(p, call[0])(*call[1])
        except Exception:
            ctx.fault("rejected-piece")
        else:
            raise Violation("not-rejected", "%s: %s%r was accepted" % (where, call[0], call[1]))
        compare(p, ref, where + ": after a rejected call of " + call[0], "rejected-piece")
        return p
    try:
        if via == "iadd":
            p += text
        else:
            p.parse(text)
    except Exception:
        ctx.fault("rejected-piece")
    else:
        raise Violation("not-rejected", "%s: malformed path data was accepted" % where)
    errors = []
    for w in ways:
        r = ref.clone().run(w)
        try:
            compare(p, r, where + ": after the rejected piece", "rejected-piece")
        except Violation as e:
            errors.append(e)
            continue
        ref.segs, ref.cur, ref.zp, ref.ctrl = r.segs, r.cur, r.zp, r.ctrl
        given += w
        return p
    raise errors[0]
