"""The catalogue of queries used by the worlds about readers (C09), separate
work (C10), interruptions (C11) and accelerators (C12): objects built from
plain data, questions about them as plain data, and comparable answers."""
import io
import math
from copy import copy

from . import docgen, env, pathops, treeops
from .core import weighted

KINDS = ["path", "path", "path", "subpath", "seg", "seg", "doc", "doc", "color", "matrix", "length", "viewbox", "point", "angle"]


# ---------------------------------------------------------------- canonical answers

class Where:
    """Names the nodes of a document by their position."""

    def __init__(self, doc):
        self.names = {}
        if doc is not None:
            self.walk(doc, ())

    def walk(self, n, path):
        self.names[id(n)] = path
        for i, c in enumerate(n):
            self.walk(c, path + (i,))


def canon(v, w=None, depth=0):
    B, P, N = env.basic, env.path, env.nodes
    if v is None or isinstance(v, (bool, str, bytes)):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return float(v)
    if isinstance(v, complex):
        return ["cx", v.real, v.imag]
    if isinstance(v, B.Point):
        return ["pt", float(v.x), float(v.y)]
    if isinstance(v, N.Node):
        if w is not None and id(v) in w.names:
            return ["node", list(w.names[id(v)])]
        return ["free node", repr(v)]
    if isinstance(v, P.PathSegment):
        g = pathops.read([v])[0]
        return ["seg", g["k"], canon(g["s"]), canon(g["e"]), [canon(x) for x in g["c"]], g["w"], bool(v.relative), bool(v.smooth)]
    if isinstance(v, P.Path):
        return ["path"] + [canon(s) for s in v]
    if isinstance(v, P.Subpath):
        return ["subpath"] + [canon(s) for s in list(v)]
    if isinstance(v, B.Matrix):
        return ["matrix"] + [float(x) if isinstance(x, (int, float)) else canon(x) for x in (v.a, v.b, v.c, v.d, v.e, v.f)]
    if isinstance(v, B.Color):
        return ["color", v.value]
    if isinstance(v, B.Length):
        return ["length", v.amount, v.units]
    if isinstance(v, B.Viewbox):
        return ["viewbox", v.x, v.y, v.width, v.height, v.preserve_aspect_ratio]
    if isinstance(v, dict):
        return ["dict"] + [[k, canon(v[k], w)] for k in sorted(v)]
    if env.numpy is not None and isinstance(v, (env.numpy.ndarray, env.numpy.generic)):
        return canon(v.tolist(), w)
    if isinstance(v, (list, tuple)):
        return [canon(x, w, depth + 1) for x in v]
    if isinstance(v, type):
        return v.__name__
    if hasattr(v, "__next__"):
        return [canon(x, w, depth + 1) for x in _drain(v)]
    return type(v).__name__


def _drain(it):
    out = []
    while len(out) < 10000:
        try:
            out.append(it.__next__())
        except StopIteration:
            break
    return out


def same(a, b, tol=1e-9):
    """Equal answers; numbers up to the rounding of the last digits."""
    if type(a) is float or type(b) is float:
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return a == b or (a != a and b != b) or abs(a - b) <= tol * (1 + max(abs(a), abs(b)))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------- objects

COLORS = ["red", "#fff", "#12345678", "#0f08", "rgb(10, 20, 30)", "rgb(10%, 20%, 90%)", "rgba(1,2,3,0.25)", "hsl(120, 50%, 50%)", "hsla(240, 100%, 25%, 0.5)",
          "steelblue", "transparent", "none", "papayawhip", "#abcdef"]
LENGTHS = ["10mm", "1in", "2.5cm", "12pt", "3pc", "50%", "7px", "4", "-3.5mm", "2em", "0.25in"]
MATRICES = ["translate(3,4)", "scale(2)", "rotate(30)", "rotate(45, 3, 4)", "skewX(10)", "matrix(1,2,3,4,5,6)", "translate(1,2) scale(3,0.5) rotate(-20)",
            "scale(-1,1)", "", "rotate(0.25turn) skewY(5)"]
VIEWBOXES = [("0 0 100 50", None), ("-10 -20 300 300", "xMidYMid meet"), ("0 0 10 10", "xMinYMax slice"), ("5 5 20 40", "none"), ("0,0,1,1", "xMaxYMin meet")]
ANGLES = ["30deg", "0.5turn", "100grad", "1rad", "45", "-90deg"]


def gen_object(rng, kind=None, size=None, arcs=True):
    k = kind or rng.choice(KINDS)
    o = {"t": k}
    if k == "path":
        g = pathops.SegGen(rng, arcs, span=10)
        n = size or rng.choice([1, 3, 6, 12])
        if rng.random() < 0.75:
            o["segs"], o["how"] = g.proper(n), rng.choice(["str", "list", "edited"])
            o["kill"] = rng.random()
        else:
            o["segs"], o["how"] = [g.seg("ML", linked=1)] + [g.seg() for _ in range(n - 1)], "list"
        o["measured"] = rng.random() < 0.3
    elif k == "subpath":
        o["path"], o["sub"] = gen_object(rng, "path", size, arcs), round(rng.random(), 3)
    elif k == "seg":
        g = pathops.SegGen(rng, arcs, span=10)
        o["seg"] = g.seg("MLZQQCC" + ("AAA" if arcs else ""), linked=1)
        if o["seg"]["k"] == "Z":
            o["seg"]["e"] = g.point()
        if o["seg"]["s"] is None:
            o["seg"]["s"] = g.point()
    elif k == "doc":
        d = docgen.gen_doc(rng, size=size or rng.choice([1, 5, 12, 25]))
        for e, _ in docgen.preorder(d):
            for a in e["a"]:
                if a[0] in ("fill", "stroke"):
                    a[1] = rng.choice(treeops.PAINTS)
                elif a[0].endswith("-opacity"):
                    a[1] = rng.choice(["0.5", "1", "0.25", ".75", "half", "2"])
        if rng.random() < 0.3:
            for n, v in (("fill", rng.choice(treeops.PAINTS)), ("stroke-opacity", "0.4"), ("fill-opacity", rng.choice(["0.5", "x"])), ("stroke", "blue")):
                if n not in [a[0] for a in d["a"]]:
                    d["a"].append([n, v])
        o["doc"], o["style"], o["built"] = d, docgen.gen_style(rng), rng.random() < 0.3
    elif k == "color":
        o["v"] = rng.choice(COLORS)
    elif k == "length":
        o["v"] = rng.choice(LENGTHS)
    elif k == "matrix":
        o["v"] = rng.choice(MATRICES)
    elif k == "viewbox":
        o["v"] = list(rng.choice(VIEWBOXES))
    elif k == "point":
        o["v"] = [rng.randint(-20, 20) / 2.0, rng.randint(-20, 20) / 2.0]
    else:
        o["v"] = rng.choice(ANGLES)
    return o


def build(o):
    B, P, N = env.basic, env.path, env.nodes
    k = o["t"]
    if k == "path":
        if o["how"] == "str":
            p = P.Path(pathops.text_of(o["segs"]))
        else:
            p = P.Path([pathops.make(d) for d in o["segs"]])
            if o["how"] == "edited" and len(p):
                p.append("L 7,-3")
                p.insert(int(o["kill"] * len(p)) or 1, "L 2,8.5")
                if len(p) > 2:
                    del p[1 + int(o["kill"] * (len(p) - 1))]
        if o["measured"]:
            try:
                p.length()
            except Exception:
                pass
        return p
    if k == "subpath":
        p = build(o["path"])
        n = p.count_subpaths()
        return p.subpath(min(int(o["sub"] * n), n - 1)) if n else env.path.Subpath(p, 0, -1)
    if k == "seg":
        return pathops.make(o["seg"])
    if k == "doc":
        d = N.Document()
        text, data = docgen.render(o["doc"], dict(o["style"]))
        d.parse(io.BytesIO(data))
        if o["built"]:
            d[0].g(id="built-g", fill="green").rect(1, 2, 3, 4, id="built-r", stroke="#123")
        return d
    if k == "color":
        return B.Color(o["v"])
    if k == "length":
        return B.Length(o["v"])
    if k == "matrix":
        return B.Matrix(o["v"])
    if k == "viewbox":
        return B.Viewbox(*o["v"])
    if k == "point":
        return B.Point(*o["v"])
    return B.Angle.parse(o["v"])


def state(obj):
    """What may not change while an object is only read."""
    N = env.nodes
    if isinstance(obj, N.Document):
        w = Where(obj)

        def walk(n):
            kids = list(n)
            return [type(n).__name__, n.tag() if n is not obj else "", dict(n.attributes), canon(n.parent, w), n.document is obj] + [walk(c) for c in kids]
        out = walk(obj) + [obj.width, obj.height, obj.color, obj.transform, obj.pixels_per_inch]
        if len(obj) == 1:
            out.append(obj[0].xml())
        return out
    if isinstance(obj, env.path.Path):
        return canon(obj) + [s.d() if i and s.start is not None else "" for i, s in enumerate(obj)]
    return canon(obj)


# ---------------------------------------------------------------- questions

class Bag:
    """What questions of one client may use: the object and its names."""

    def __init__(self, obj):
        self.obj = obj
        self.w = Where(obj) if isinstance(obj, env.nodes.Document) else None
        self.nodes = None
        if self.w is not None:
            self.nodes = []
            self._walk(obj)

    def _walk(self, n):
        for c in n:
            self.nodes.append(c)
            self._walk(c)

    def node(self, q):
        if not self.nodes:
            return self.obj
        return self.nodes[int(q["f"] * len(self.nodes))]


def idx(q, n):
    return int(q["f"] * n) if n else 0


def T(q):
    return list(q["t"])


QUERIES = {
    "path": {
        "length": lambda p, q: p.length(),
        "length2": lambda p, q: [p.length(), p.length()],
        "point": lambda p, q: [p.point(t) for t in T(q)],
        "npoint": lambda p, q: p.npoint(env.numpy.array(T(q)) if env.numpy is not None else T(q)),
        "d": lambda p, q: p.d(),
        "d rel": lambda p, q: p.d(relative=True),
        "d abs": lambda p, q: p.d(relative=False, smooth=False),
        "d smooth": lambda p, q: p.d(smooth=True),
        "str": lambda p, q: str(p),
        "repr": lambda p, q: repr(p),
        "segments": lambda p, q: list(p.segments()),
        "list": lambda p, q: list(p),
        "reversed": lambda p, q: list(reversed(p)),
        "as_points": lambda p, q: list(p.as_points()),
        "subpaths": lambda p, q: [str(s) for s in p.as_subpaths()],
        "subpath d": lambda p, q: [s.d(relative=True) for s in p.as_subpaths()],
        "subpath bbox": lambda p, q: [s.bbox() for s in p.as_subpaths()],
        "subpath list": lambda p, q: [list(s) for s in p.as_subpaths()],
        "subpath item": lambda p, q: [s[-1] for s in p.as_subpaths()],
        "subpath slice": lambda p, q: [s[0:2] for s in p.as_subpaths()],
        "subpath len": lambda p, q: [len(s) for s in p.as_subpaths()],
        "subpath eq": lambda p, q: [s == t for s in p.as_subpaths() for t in p.as_subpaths()],
        "subpath mul": lambda p, q: p.subpath(0) * env.basic.Matrix("scale(2)"),
        "subpath add": lambda p, q: p.subpath(-1) + "L 1,1",
        "subpath radd": lambda p, q: "M 9,9 L 1,1" + p.subpath(-1),
        "path of subpath": lambda p, q: env.path.Path(p.subpath(idx(q, p.count_subpaths()))),
        "count": lambda p, q: p.count_subpaths(),
        "first": lambda p, q: p.first_point,
        "current": lambda p, q: p.current_point,
        "z": lambda p, q: p.z_point,
        "smooth": lambda p, q: p.smooth_point,
        "item": lambda p, q: p[idx(q, len(p))],
        "slice": lambda p, q: p[idx(q, len(p)):],
        "index": lambda p, q: p.index(p[idx(q, len(p))]),
        "in": lambda p, q: p[idx(q, len(p))] in p,
        "count seg": lambda p, q: p.count(p[idx(q, len(p))]),
        "eq copy": lambda p, q: [p == copy(p), p != copy(p)],
        "eq text": lambda p, q: p == "M0,0 L 5,5 A 4,3 20 0,1 1,1 z",
        "matmul": lambda p, q: p @ env.basic.Matrix("translate(2,3) rotate(30)"),
        "matmul text": lambda p, q: p @ "scale(2, 0.5)",
        "add text": lambda p, q: p + "l 3,4 z",
        "radd text": lambda p, q: "M 1,2 L 3,4" + p,
        "add path": lambda p, q: p + p,
        "copy": lambda p, q: copy(p),
        "path of path": lambda p, q: env.path.Path(p),
        "bboxes": lambda p, q: [s.bbox() for s in p],
        "seg lengths": lambda p, q: [s.length() for s in p],
        "seg points": lambda p, q: [s.point(q["t"][0]) for s in p],
    },
    "subpath": {
        "len": lambda s, q: len(s),
        "list": lambda s, q: list(s),
        "pairs": lambda s, q: [[a == b for b in s] for a in s],
        "item": lambda s, q: [s[idx(q, len(s))], s[-1], s[-len(s)]],
        "outside": lambda s, q: s[len(s)],
        "slice": lambda s, q: [s[idx(q, len(s)):], s[:-1], s[::-1]],
        "segments": lambda s, q: list(s.segments()),
        "str": lambda s, q: str(s),
        "repr": lambda s, q: repr(s),
        "d": lambda s, q: [s.d(), s.d(relative=True), s.d(relative=False)],
        "bbox": lambda s, q: s.bbox(),
        "eq": lambda s, q: [s == s, s != s, s == env.path.Path(s), s == "M 1,1 L 2,2"],
        "path": lambda s, q: env.path.Path(s),
        "length": lambda s, q: env.path.Path(s).length(),
        "copy": lambda s, q: copy(s),
        "add": lambda s, q: s + "L 1,1",
        "radd": lambda s, q: "M 1,2 L 3,4" + s,
        "mul": lambda s, q: s * "scale(2)",
        "add to": lambda s, q: env.path.Path("M 1,2 L 3,4") + s,
        "in": lambda s, q: [s[idx(q, len(s))] in s, env.path.Line((1, 2), (3, 4)) in s],
        "reversed": lambda s, q: list(reversed(list(s))),
        "points": lambda s, q: [p for g in s for p in g],
        "lengths": lambda s, q: [g.length() for g in s],
    },
    "seg": {
        "length": lambda s, q: s.length(),
        "point": lambda s, q: [s.point(t) for t in T(q)],
        "npoint": lambda s, q: s.npoint(T(q)),
        "bbox": lambda s, q: s.bbox(),
        "d": lambda s, q: s.d(),
        "d rel": lambda s, q: s.d(current_point=s.start, relative=True),
        "str": lambda s, q: str(s),
        "repr": lambda s, q: repr(s),
        "iter": lambda s, q: list(s),
        "items": lambda s, q: [s[i] for i in range(len(s))],
        "eq": lambda s, q: [s == copy(s), s != copy(s)],
        "mul": lambda s, q: s * env.basic.Matrix("rotate(30) scale(2)"),
        "mul text": lambda s, q: s * "translate(1,2)",
        "copy": lambda s, q: copy(s),
        "cubics": lambda s, q: list(s.as_cubic_curves(3)),
        "quads": lambda s, q: list(s.as_quad_curves(2)),
        "theta": lambda s, q: [s.theta, s.delta],
        "arc": lambda s, q: [s.rx, s.ry, s.get_rotation(), s.get_start_t(), s.get_end_t(), s.get_start_angle(), s.get_end_angle()],
        "arc point": lambda s, q: [s.point_at_angle(q["t"][0]), s.point_at_t(q["t"][0]), s.t_at_point(s.end)],
        "arc circle": lambda s, q: [s.is_circular(), s.radius],
        "smooth": lambda s, q: s.is_smooth_from(copy(s)),
        "closest": lambda s, q: s.closest_segment_point((1.0, 2.0)),
        "path": lambda s, q: env.path.Path(s),
        "add": lambda s, q: s + copy(s),
    },
    "doc": {
        "xml": lambda b, q: b.obj[0].xml(),
        "str": lambda b, q: str(b.obj),
        "node str": lambda b, q: str(b.node(q)),
        "node repr": lambda b, q: repr(b.node(q)),
        "values": lambda b, q: env.nodes.Document.get_values(b.node(q)),
        "ancestors": lambda b, q: list(env.nodes.Document.get_ancestors(b.node(q))),
        "fill": lambda b, q: getattr(b.node(q), "fill"),
        "stroke": lambda b, q: getattr(b.node(q), "stroke"),
        "paint": lambda b, q: [[getattr(n, a, "-") for a in ("fill", "stroke", "stroke_width", "fill_opacity", "stroke_opacity")] for n in b.nodes],
        "geometry": lambda b, q: [getattr(b.node(q), a, "-") for a in ("x", "y", "width", "height", "rx", "ry", "cx", "cy", "r", "x1", "y1", "points", "transform", "id", "viewBox")],
        "all geometry": lambda b, q: [[getattr(n, a, "-") for a in ("x", "r", "width", "id", "points")] for n in b.nodes],
        "parent": lambda b, q: [b.node(q).parent_node, b.node(q).parent_element, b.node(q).owner_document is b.obj],
        "children": lambda b, q: [b.node(q).first_child, b.node(q).last_child, b.node(q).has_child_nodes(), list(b.node(q))],
        "siblings": lambda b, q: [[n.next_sibling, n.previous_sibling] for n in b.nodes],
        "sibling": lambda b, q: [b.node(q).next_sibling, b.node(q).previous_sibling],
        "by id": lambda b, q: [b.obj.get_element_by_id(n.attributes.get("id")) for n in b.nodes if "id" in n.attributes],
        "by url": lambda b, q: [b.obj.get_element_by_url("url(#%s)" % n.attributes["id"]) for n in b.nodes if "id" in n.attributes],
        "no id": lambda b, q: b.obj.get_element_by_id("nowhere"),
        "equal": lambda b, q: [b.node(q).is_equal_node(n) for n in b.nodes[:6]],
        "same": lambda b, q: b.node(q).is_same_node(b.nodes[0]),
        "tags": lambda b, q: [n.tag() for n in b.nodes],
        "connected": lambda b, q: b.node(q).is_connected,
        "points": lambda b, q: [list(n.segments(False)) for n in b.nodes if type(n).__name__ in ("Polyline", "Polygon", "Path")],
        "viewbox": lambda b, q: getattr(b.node(q), "viewbox_transform"),
    },
    "color": {
        "rgb": lambda c, q: [c.rgb, c.rgba, c.argb, int(c)],
        "hex": lambda c, q: [c.hex, c.hexa, str(c), repr(c)],
        "parts": lambda c, q: [c.red, c.green, c.blue, c.alpha, c.opacity],
        "hsl": lambda c, q: [c.hue, c.saturation, c.lightness, c.hsl],
        "light": lambda c, q: [c.intensity, c.brightness, c.blackness, c.luminance, c.luma],
        "eq": lambda c, q: [c == q["s"][0], c != env.basic.Color(q["s"][0])],
        "distance": lambda c, q: [c.distance_to(q["s"][0]), env.basic.Color.distance(c, env.basic.Color("red")), env.basic.Color.distance_sq("blue", c)],
        "over": lambda c, q: env.basic.Color.over(c, env.basic.Color(q["s"][0])),
        "parse": lambda c, q: env.basic.Color.parse(q["s"][0]),
        "copy": lambda c, q: env.basic.Color(c),
        "distinct": lambda c, q: env.basic.Color.distinct(idx(q, 40)),
        "abs": lambda c, q: abs(c),
    },
    "length": {
        "value": lambda l, q: [l.value(ppi=96.0, relative_length=50, font_size=12), l.value()],
        "reference": lambda l, q: [env.basic.Length(w).value(relative_length=l, ppi=96.0, font_size=12) for w in ("50%", "10%")],
        "units": lambda l, q: [l.to_mm(96.0), l.to_cm(96.0), l.to_inch(96.0), l.in_pixels(), l.in_inches()],
        "str": lambda l, q: [str(l), repr(l), l.value_in_units, env.basic.Length.str(1.5)],
        "cmp": lambda l, q: [l == "10mm", l != "1in", l == l],
        "less": lambda l, q: [l < env.basic.Length("5mm"), l >= env.basic.Length("2in")],
        "add": lambda l, q: [l + "1mm", l - "2mm", l * 2, -l],
        "div": lambda l, q: l / env.basic.Length("2in"),
        "abs": lambda l, q: [abs(l), copy(l), float(env.basic.Length("3"))],
        "new": lambda l, q: [env.basic.Length(q["s"][1]), env.basic.Length(l)],
    },
    "matrix": {
        "str": lambda m, q: [str(m), repr(m), len(m), list(m)],
        "point": lambda m, q: [m.point_in_matrix_space((1, 2)), m.transform_point([3, 4]), m.transform_vector([3, 4])],
        "inverse": lambda m, q: [~m, m.point_in_inverse_space((5, 6))],
        "vector": lambda m, q: m.vector(),
        "flags": lambda m, q: [m.is_identity(), m.determinant, m.value_trans_x(), m.value_scale_y(), m.value_skew_x()],
        "eq": lambda m, q: [m == copy(m), m != env.basic.Matrix(), m == "scale(2)"],
        "matmul": lambda m, q: [m @ env.basic.Matrix("rotate(10)"), m @ "scale(3)"],
        "copy": lambda m, q: copy(m),
        "parse": lambda m, q: env.basic.Matrix(q["s"][2]),
        "make": lambda m, q: [env.basic.Matrix.scale(2), env.basic.Matrix.translate(1, 2), env.basic.Matrix.rotate(0.5), env.basic.Matrix.skew_x(0.2)],
        "mul point": lambda m, q: [env.basic.Point(1, 2) * m, env.basic.Point(3, 4) * "scale(2)"],
    },
    "viewbox": {
        "str": lambda v, q: str(v),
        "transform": lambda v, q: v.transform(env.basic.Viewbox("0 0 200 300")),
        "static": lambda v, q: env.basic.Viewbox.viewbox_transform(0, 0, 300, 200, v.x, v.y, v.width, v.height, v.preserve_aspect_ratio),
        "copy": lambda v, q: env.basic.Viewbox(v),
    },
    "point": {
        "str": lambda p, q: [str(p), repr(p), hash(p) == hash(copy(p)), list(p), len(p)],
        "ops": lambda p, q: [p + 1, p - (1, 2), p * 2, p * "rotate(90)", (5, 5) - p, abs(p), p ** 2],
        "eq": lambda p, q: [p == "1,2", p == (1, 2), p != copy(p)],
        "geo": lambda p, q: [p.distance_to((3, 4)), p.angle_to((3, 4)), p.reflected_across((1, 1)), env.basic.Point.towards(p, (1, 1), 0.25)],
        "hull": lambda p, q: list(env.basic.Point.convex_hull([p, (0, 0), (5, 1), (2, 2), (1, 6)])),
        "complex": lambda p, q: [complex(p), p.real, p.imag, p.argz(), p.conjugate()],
    },
    "angle": {
        "as": lambda a, q: [a.as_degrees, a.as_radians, a.as_gradians, a.as_turns, a.as_positive_degrees],
        "norm": lambda a, q: [a.normalized(), a.is_orthogonal(), repr(a), copy(a)],
        "eq": lambda a, q: [a == env.basic.Angle.parse("30deg"), a == a],
        "parse": lambda a, q: [env.basic.Angle.parse(t) for t in ANGLES],
    },
}

# iterations that can be consumed step by step: name -> (kind, iterator of the bag/object)
ITERATIONS = {
    "path": {
        "path": lambda p, q: iter(p),
        "reversed": lambda p, q: reversed(p),
        "as_points": lambda p, q: p.as_points(),
        "as_subpaths": lambda p, q: p.as_subpaths(),
        "points of one": lambda p, q: iter(p[idx(q, len(p))]) if len(p) else iter(()),
        "subpath": lambda p, q: (s for s in p.subpath(idx(q, p.count_subpaths()))),
        "reversed subpath": lambda p, q: reversed(list(p.subpath(-1))),
        "nested": lambda p, q: (pt for s in p for pt in s),
        "cubics": lambda p, q: (c for s in p if isinstance(s, env.path.Arc) for c in s.as_cubic_curves(4)),
        "quads": lambda p, q: (c for s in p if isinstance(s, env.path.Arc) for c in s.as_quad_curves(3)),
    },
    "subpath": {
        "segments": lambda s, q: iter(s),
        "points": lambda s, q: (p for g in s for p in g),
        "pairs": lambda s, q: (a == b for a in s for b in s),
        "zip": lambda s, q: (a is b for a, b in zip(s, s)),
    },
    "seg": {
        "points": lambda s, q: iter(s),
        "reversed": lambda s, q: reversed(s),
        "cubics": lambda s, q: s.as_cubic_curves(4) if isinstance(s, env.path.Arc) else iter(s),
        "quads": lambda s, q: s.as_quad_curves(4) if isinstance(s, env.path.Arc) else iter(s),
    },
    "doc": {
        "children": lambda b, q: iter(b.node(q)),
        "ancestors": lambda b, q: env.nodes.Document.get_ancestors(b.node(q)),
        "walk": lambda b, q: walk(b.obj),
        "values": lambda b, q: (env.nodes.Document.get_values(n).get("fill") for n in walk(b.obj)),
    },
    "matrix": {"items": lambda m, q: iter(m)},
    "point": {"items": lambda p, q: iter(p), "hull": lambda p, q: iter(env.basic.Point.convex_hull([p, (0, 0), (5, 1), (2, 2)]))},
}


def walk(n):
    yield n
    for c in n:
        yield from walk(c)


# questions that leave something behind, or reach much of the code
HOT = {"path": ["length", "length2", "point", "point", "npoint"],
       "doc": ["fill", "stroke", "paint", "xml", "points", "viewbox", "by url", "geometry", "siblings"]}


def gen_query(rng, kind):
    q = {"q": rng.choice(HOT[kind] if kind in HOT and rng.random() < 0.3 else sorted(QUERIES[kind])), "f": round(rng.random(), 4), "t": [round(rng.random(), 4) for _ in range(rng.choice([1, 1, 3]))]}
    if rng.random() < 0.1:
        q["t"][0] = rng.choice([0.0, 1.0])
    if kind in ("color", "length", "matrix"):
        q["s"] = [rng.choice(COLORS), rng.choice(LENGTHS), rng.choice(MATRICES)]
    return q


def ask(obj, bag, kind, q):
    """The comparable answer; what a question raises is an answer as well."""
    f = QUERIES[kind][q["q"]]
    try:
        v = f(bag if kind == "doc" else obj, q)
        return canon(v, bag.w)
    except Exception as e:
        return ["raised", type(e).__name__]
