"""Edits of values (matrices, colours, points, lengths, view boxes, segments),
as plain data: name and arguments."""
from copy import copy

from . import env, pathops, queries as Q

NUM = [0.5, 2, -1.5, 3, 0, 1, 10, 0.25]


def gen_edit(rng, kind):
    return {"v": rng.choice(sorted(EDITS[kind])), "n": [rng.choice(NUM) for _ in range(6)],
            "s": [rng.choice(Q.COLORS), rng.choice(Q.LENGTHS), rng.choice(Q.MATRICES), rng.choice(Q.VIEWBOXES)[0], rng.choice(Q.ANGLES)]}


def setter(name, f=lambda o: o["n"][0]):
    def edit(v, o):
        setattr(v, name, f(o))
        return v
    return edit


def call(name, n=2):
    def edit(v, o):
        getattr(v, name)(*o["n"][:n])
        return v
    return edit


def item(v, o):
    v[int(abs(o["n"][0])) % len(v)] = o["n"][1]
    return v


def inplace(op, f):
    def edit(v, o):
        x = f(o)
        if op == "+":
            v += x
        elif op == "-":
            v -= x
        elif op == "*":
            v *= x
        elif op == "@":
            v @= x
        return v
    return edit


def n0(o):
    return o["n"][0]


def M(o):
    return env.basic.Matrix(o["s"][2])


EDITS = {
    "matrix": {**{k: call(k, n) for k, n in [("post_scale", 1), ("post_scale_x", 1), ("post_translate", 2), ("post_translate_x", 1), ("post_translate_y", 1),
                                             ("post_rotate", 1), ("post_skew", 2), ("post_skew_x", 1), ("pre_scale", 2), ("pre_scale_y", 1), ("pre_translate", 2),
                                             ("pre_rotate", 3), ("pre_skew", 2), ("pre_skew_y", 1), ("inverse", 0), ("reset", 0), ("render", 0), ("post_cat", 6), ("pre_cat", 6)]},
               "rotate about": call("post_rotate", 3), "scale about": call("post_scale", 4),
               "parse": lambda v, o: v.parse(o["s"][2]) or v, "item": item, "*=": inplace("*", M), "*= text": inplace("*", lambda o: o["s"][2]),
               "@=": inplace("@", M)},
    "color": {**{k: setter(k, lambda o: int(abs(o["n"][0]) * 40)) for k in ("red", "green", "blue", "alpha")},
              **{k: setter(k, lambda o: abs(o["n"][0]) % 1) for k in ("opacity", "saturation", "lightness")},
              **{k: setter(k, lambda o: int(abs(o["n"][0]) * 70000)) for k in ("rgb", "rgba", "argb")},
              "hsl": setter("hsl", lambda o: (o["n"][0] % 1, 0.5, 0.25)),
              "blend": lambda v, o: v.blend(env.basic.Color(o["s"][0])) or v, "blend half": lambda v, o: v.blend(o["s"][0], 0.5) or v,
              "value": setter("value", lambda o: env.basic.Color(o["s"][0]).value)},
    "point": {"+=": inplace("+", lambda o: o["n"][:2]), "-=": inplace("-", lambda o: env.basic.Point(*o["n"][:2])), "*=": inplace("*", n0), "*= m": inplace("*", M),
              "*= text": inplace("*", lambda o: o["s"][2]), "item": item, "x": setter("x"), "matrix": lambda v, o: v.matrix_transform(M(o)),
              "towards": lambda v, o: v.move_towards((3, 4), o["n"][0]) or v, "polar": lambda v, o: v.polar_to(o["n"][0], o["n"][1])},
    "length": {"+=": inplace("+", lambda o: o["s"][1]), "-=": inplace("-", lambda o: env.basic.Length(o["s"][1])), "*=": inplace("*", n0), "amount": setter("amount")},
    "viewbox": {"set": lambda v, o: v.set_viewbox(o["s"][3]) or v, "x": setter("x"), "width": setter("width"), "object": lambda v, o: v.property_by_object(env.basic.Viewbox(o["s"][3])) or v,
                "values": lambda v, o: v.property_by_values({"viewBox": o["s"][3], "preserveAspectRatio": "xMinYMax slice"}) or v},
    "angle": {"add": lambda v, o: env.basic.Angle.degrees(v.as_degrees + o["n"][0]), "parse": lambda v, o: env.basic.Angle.parse(o["s"][4]), "norm": lambda v, o: v.normalized()},
    "seg": {"*=": inplace("*", M), "*= text": inplace("*", lambda o: o["s"][2]), "reverse": lambda v, o: v.reverse() or v,
            "start": setter("start", lambda o: env.basic.Point(*o["n"][:2])), "end": setter("end", lambda o: env.basic.Point(*o["n"][2:4])),
            "move start": lambda v, o: v.start.__setitem__(0, o["n"][0]) or v, "move end": lambda v, o: v.end.__iadd__((1, o["n"][0])) and v},
    "path": {"*=": inplace("*", M), "reverse": lambda v, o: v.reverse() or v, "append": lambda v, o: v.append("L %s,%s" % tuple(o["n"][:2])) or v,
             "line": lambda v, o: v.line((o["n"][0], o["n"][1])) or v, "+= text": inplace("+", lambda o: "l 1,%s h 3 z" % o["n"][0]),
             "del": lambda v, o: v.__delitem__(-1) or v, "set": lambda v, o: v.__setitem__(int(abs(o["n"][0])), "L 1,%s" % o["n"][1]) or v,
             "move point": lambda v, o: v[-1].end.__iadd__((o["n"][0], 1)) and v, "clear": lambda v, o: v.clear() or v,
             "subpath": lambda v, o: v.subpath(0).reverse() or v, "cubics": lambda v, o: v.approximate_arcs_with_cubics() or v},
}

COPIES = {
    "path": [copy, lambda p: env.path.Path(p), lambda p: p + "", lambda p: p @ env.basic.Matrix(), lambda p: env.path.Path(*[copy(s) for s in p]),
             lambda p: env.path.Path(p.subpath(0)), lambda p: p.subpath(-1) + "L 1,1", lambda p: p.subpath(0) * env.basic.Matrix("scale(2)"), lambda p: "M 1,1" + p,
             lambda p: p + env.path.Path("L 2,2"), lambda p: p + p, lambda p: "M 1,1" + p.subpath(0), lambda p: p @ "scale(2)",
             lambda p: env.path.Path(p.d())],
    "seg": [copy, lambda s: s * env.basic.Matrix(), lambda s: s * "", lambda s: s * "scale(2)"],
    "matrix": [copy, lambda m: env.basic.Matrix(m), lambda m: m @ env.basic.Matrix(), lambda m: ~~m, lambda m: m * "", lambda m: m.vector(), lambda m: m @ "scale(2)"],
    "color": [lambda c: env.basic.Color(c), copy],
    "point": [copy, lambda p: env.basic.Point(p), lambda p: p + 0, lambda p: p * 1, lambda p: p * env.basic.Matrix()],
    "length": [copy, lambda v: env.basic.Length(v), lambda v: v * 1, lambda v: -(-v), lambda v: abs(v)],
    "viewbox": [lambda v: env.basic.Viewbox(v), copy],
    "angle": [copy],
}


def edit(v, kind, o):
    """-> (the value afterwards, what was raised or None)"""
    try:
        return EDITS[kind][o["v"]](v, o), None
    except Exception as e:
        return v, type(e).__name__
