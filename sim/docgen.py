"""Generated documents: a model tree, its rendering to XML in many styles, and
the comparison of model trees with the library's trees.

Model element (plain JSON): {"t": local name, "n": namespace ("" = SVG),
"a": [[name, value], ...], "x": text or null, "c": [children], "l": tail or null}
"""
import random
import xml.etree.ElementTree as ET

from . import env
from .core import Violation, check, weighted

SVG_NS = "http://www.w3.org/2000/svg"
XLINK = "http://www.w3.org/1999/xlink"

# tag -> class, fixed here (not read from the library)
KINDS = {
    "svg": "SVG", "g": "Group", "defs": "Defs", "symbol": "Symbol", "marker": "Marker", "use": "Use",
    "style": "Style", "script": "Script", "a": "Hyperlink", "text": "Text", "tspan": "TSpan", "path": "Path",
    "line": "Line", "rect": "Rect", "circle": "Circle", "ellipse": "Ellipse", "polyline": "Polyline",
    "polygon": "Polygon", "image": "Image", "title": "Title", "desc": "Desc", "metadata": "Metadata",
    "clipPath": "ClipPath", "mask": "Mask", "pattern": "Pattern", "switch": "Switch",
    "linearGradient": "LinearGradient", "radialGradient": "RadialGradient",
}
GENERIC = ["filter", "feGaussianBlur", "stop", "foreignObject", "animate", "view", "set", "textPath", "font-face", "node", "unknown", "div"]
# names that differ from those of SVG elements, in letter case or by an addition
NEAR = ["Rect", "RECT", "G", "Svg", "Circle", "textpath", "clippath", "linearGRADIENT", "rects", "ellips", "g.x", "_g", "Title", "TSpan", "tSpan"]
ALIASES = ["lineargradient", "radialgradient", "clip-path"]  # which class they have is left open
CONTAINERS = ["svg", "g", "g", "g", "defs", "symbol", "marker", "a", "clipPath", "mask", "pattern", "switch", "linearGradient", "filter"]
LEAVES = ["rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "use", "image", "stop"]
TEXTY = ["text", "tspan", "title", "desc", "style", "script", "metadata"]
FOREIGN = ["urn:example:a", SVG_NS + "-ext", "http://example.org/ns#", "http://www.w3.org/1999/xhtml"]

WORDS = ["a", "Z", "red", "#00ff00", "none", "10", "0.5", "-3.25", "1e-3", "50%", "2cm", "url(#x)", "matrix(1 0 0 1 5 6)",
         "M0,0L1,1z", "translate(3,4)", "hello world", "fill:red;stroke:blue", "\u00e9t\u00e9", "\u4e2d\u6587", "\U0001F600",
         "a<b", "a&b", 'say "x"', "it's", "a>b", "]]>", "--", "  two  spaces ", "x\ty", "x\ny", "c\rr", "&amp;", "&#10;", "\u00a0", "\u2028x"]
ATTRS = ["x", "y", "width", "height", "fill", "stroke", "stroke-width", "opacity", "fill-opacity", "stroke-opacity", "style",
         "class", "transform", "d", "points", "viewBox", "r", "cx", "cy", "rx", "ry", "x1", "y1", "x2", "y2", "data-name",
         "{%s}href" % XLINK, "href", "{http://www.w3.org/XML/1998/namespace}space", "{urn:example:a}k", "display", "\u00e9", "tag", "values", "dx", "dy", "preserveAspectRatio", "clipPathUnits"]

NUMERALS = ["0.1234567890123456", "1.0000000000000002", "2.5e-13", "1e22", "-0.0", "007", "+3", "1e+05", "12345678901234567890", "0.10", "nan", "Infinity"]
FLOATS = [0.1234567890123456, 1.0000000000000002, 2.5e-13, 1e22, -0.0, 1 / 3.0, 123456789.123456789, 5e-324, 1.7976931348623157e308, float("inf"), 1e16, True,
          False, None, 12345678901234567890]

XML_WS = " \t\r\n"


def blank(s):
    return s is None or s.strip(XML_WS) == ""


def gen_text(rng, maxwords=4):
    n = rng.randint(1, maxwords)
    return rng.choice(["", " ", ""]) + rng.choice([" ", "", ", "]).join(rng.choice(WORDS) for _ in range(n))


def gen_value(rng):
    if rng.random() < 0.7:
        return rng.choice(WORDS)
    if rng.random() < 0.1:
        return ""
    if rng.random() < 0.15:
        return rng.choice(NUMERALS)
    return "%g" % (rng.randint(-1000, 1000) / 8.0)


class DocGen:
    def __init__(self, rng, size, depth=6, ids=True, foreign=True, texts=True, dup_ids=False, big=False):
        self.rng, self.left, self.depth = rng, size, depth
        self.ids, self.foreign, self.texts, self.dup, self.big = ids, foreign, texts, dup_ids, big
        self.nid = 0

    def new_id(self):
        rng = self.rng
        if self.dup and self.nid and rng.random() < 0.3:
            return "id%d" % rng.randint(1, self.nid)
        self.nid += 1
        if rng.random() < 0.08:
            # an id is what its attribute says, blanks and letter case included
            return rng.choice([" id%d", "id%d ", "ID %d", "%d", "Id%d"]) % self.nid
        return "id%d" % self.nid

    def attrs(self):
        rng = self.rng
        out, names = [], set()
        if self.ids and rng.random() < 0.5:
            out.append(["id", self.new_id()])
            names.add("id")
        for _ in range(weighted(rng, [(0, 3), (1, 3), (2, 3), (4, 2), (8, 1)])):
            k = rng.choice(ATTRS)
            if k in names:
                continue
            names.add(k)
            v = gen_value(rng)
            if k.endswith("}space"):
                v = "preserve"
            if self.big and rng.random() < 0.3:
                v = v + " " + "0123456789abcdef" * rng.randint(20, 400)
            out.append([k, v])
        rng.shuffle(out)
        return out

    def element(self, depth, tag=None):
        rng = self.rng
        self.left -= 1
        ns = ""
        if tag is None:
            r = rng.random()
            if self.foreign and r < 0.08:
                ns = rng.choice(FOREIGN)
                tag = rng.choice(["rect", "g", "thing", "name", "svg", "data"])
            elif r < 0.14:
                tag = rng.choice(GENERIC) if rng.random() < 0.6 else rng.choice(NEAR + ALIASES)
            elif r < 0.45:
                tag = rng.choice(CONTAINERS)
            elif r < 0.85:
                tag = rng.choice(LEAVES)
            else:
                tag = rng.choice(TEXTY)
        e = {"t": tag, "n": ns, "a": self.attrs(), "x": None, "c": [], "l": None}
        if self.texts and rng.random() < (0.6 if tag in TEXTY else 0.1):
            e["x"] = gen_text(rng)
        if depth > 0:
            want = weighted(rng, [(0, 4), (1, 3), (2, 3), (4, 2), (8, 1)])
            if tag in LEAVES and rng.random() < 0.8:
                want = 0
            for _ in range(want):
                if self.left <= 0:
                    break
                c = self.element(depth - 1)
                if self.texts and rng.random() < 0.15:
                    c["l"] = gen_text(rng)
                e["c"].append(c)
        return e

    def document(self):
        root = self.element(self.depth, "svg")
        while self.left > 0 and self.rng.random() < 0.9:
            root["c"].append(self.element(self.depth - 1))
        return root


def gen_doc(rng, size=None, wide=False, **kw):
    if size is None:
        size = weighted(rng, [(1, 1), (4, 4), (12, 6), (30, 3), (80, 1)])
    g = DocGen(rng, size, depth=weighted(rng, [(3, 3), (6, 3), (20, 1), (60, 0.3)]), **kw)
    root = g.document()
    if rng.random() < 0.04:
        # a chain of elements inside each other, some with attributes of their own
        at = rng.choice([root] + [c for c in root["c"] if not c["n"]])
        for _ in range(rng.choice([12, 40, 100])):
            e = {"t": rng.choice(CONTAINERS), "n": "", "a": g.attrs() if rng.random() < 0.15 else [], "x": None, "c": [], "l": None}
            at["c"].append(e)
            at = e
        at["c"].append(g.element(0))
    if wide:
        # very many elements side by side
        at = rng.choice([root] + [c for c in root["c"] if not c["n"]])
        leaves = [g.element(0) for _ in range(5)]
        for i in range(rng.choice([300, 700, 1500])):
            e = {"t": "path", "n": "", "a": [["d", "M0,0L%d,1" % i]], "x": None, "c": [], "l": None}
            if g.ids and i % 3 == 0:
                e["a"].append(["id", "wide%d" % i])
            at["c"].append(e if i % 50 else leaves.pop() if leaves else e)
    return root


def gen_style(rng):
    return {
        "ns": weighted(rng, [("default", 6), ("prefix", 2), ("none", 1)]),
        "enc": weighted(rng, [("utf-8", 6), ("utf-8-sig", 1), ("utf-16", 1.5), ("iso-8859-1", 1), ("us-ascii", 1)]),
        "decl": rng.random() < 0.5,
        "doctype": rng.random() < 0.15,
        "seed": rng.randint(0, 1 << 30),
        "noise": weighted(rng, [(0.0, 3), (0.15, 3), (0.5, 1)]),
        "pretty": rng.random() < 0.3,
    }


# ------------------------------------------------------------------ rendering

class Renderer:
    def __init__(self, style):
        self.s = style
        self.rng = random.Random(style["seed"])
        self.prefixes = {}
        self.n = 0

    def prefix_for(self, ns, decls):
        if ns == "http://www.w3.org/XML/1998/namespace":
            return "xml"
        if ns not in self.prefixes:
            self.n += 1
            p = {XLINK: "xlink"}.get(ns, "n%d" % self.n)
            self.prefixes[ns] = p
            decls.append(('xmlns:' + p, ns))
        return self.prefixes[ns]

    def esc(self, text, attr):
        rng = self.rng
        out = []
        noise = self.s["noise"]
        quote = '"'
        for ch in text:
            o = ord(ch)
            if ch == "&":
                out.append(rng.choice(["&amp;", "&#38;"]))
            elif ch == "<":
                out.append(rng.choice(["&lt;", "&#x3C;"]))
            elif ch == ">":
                out.append("&gt;" if (not attr or rng.random() < 0.5) else ">")
            elif ch == '"' and attr:
                out.append("&quot;")
            elif ch == "'" and rng.random() < noise:
                out.append("&apos;")
            elif ch in "\n\t\r" and attr:
                out.append("&#%d;" % o)
            elif ch == "\r":
                out.append("&#13;")
            elif rng.random() < noise * 0.1:
                out.append(rng.choice(["&#%d;", "&#x%x;"]) % o)
            elif self.s["doctype"] and ch == "e" and rng.random() < 0.2:
                out.append("&ent;")
            else:
                out.append(ch)
        return "".join(out), quote

    def text(self, s):
        if s is None:
            return ""
        rng = self.rng
        if rng.random() < self.s["noise"]:
            # split by a comment, a processing instruction or a CDATA section
            i = rng.randint(0, len(s))
            mid = rng.choice(["<!-- c -->", "<?pi data?>", "<!---->"])
            a, b = s[:i], s[i:]
            if b and "]]>" not in b and "\r" not in b and self.encodable(b):
                b2 = "<![CDATA[%s]]>" % b
            else:
                b2 = self.esc(b, False)[0]
            return self.esc(a, False)[0] + mid + b2
        return self.esc(s, False)[0]

    def encodable(self, s):
        try:
            s.encode(self.s["enc"])
            return True
        except UnicodeEncodeError:
            return False

    def misc(self, blank_ok):
        rng = self.rng
        out = ""
        if rng.random() < self.s["noise"] * 0.5:
            out += rng.choice(["<!-- comment <rect id='no'/> -->", "<?target some data?>"])
        if blank_ok and (self.s["pretty"] or rng.random() < self.s["noise"]):
            out += rng.choice(["\n  ", " ", "\n\t", "\r\n"])
        return out

    def element(self, e, root=False):
        rng = self.rng
        saved = dict(self.prefixes)
        decls = []
        mode = self.s["ns"]
        if root:
            if mode == "default":
                decls.append(("xmlns", SVG_NS))
            elif mode == "prefix":
                decls.append(("xmlns:svg", SVG_NS))
                self.prefixes[SVG_NS] = "svg"
        if e["n"]:
            name = self.prefix_for(e["n"], decls) + ":" + e["t"]
        elif mode == "prefix":
            name = "svg:" + e["t"]
        else:
            name = e["t"]
        parts = []
        for k, v in e["a"]:
            if k.startswith("{"):
                ns, local = k[1:].split("}")
                k = self.prefix_for(ns, decls) + ":" + local
            val, q = self.esc(v, True)
            if "'" not in val and rng.random() < 0.3:
                val = val.replace("&quot;", '"')
                q = "'"
            parts.append("%s=%s%s%s" % (k, q, val, q))
        for k, v in decls:
            parts.insert(rng.randint(0, len(parts)), '%s="%s"' % (k, v))
        sep = "\n " if rng.random() < self.s["noise"] else " "
        start = "<" + name + "".join(sep + p for p in parts)
        if not e["c"] and e["x"] is None and rng.random() < 0.7:
            out = start + rng.choice(["/>", " />"])
        else:
            inner = self.text(e["x"]) + self.misc(e["x"] is None)
            for c in e["c"]:
                inner += self.element(c) + self.text(c["l"]) + self.misc(c["l"] is None)
            out = start + ">" + inner + "</" + name + rng.choice([">", " >"])
        self.prefixes = saved
        return out


def render(model, style):
    """-> (text, bytes) of the document; the bytes in the style's encoding."""
    r = Renderer(style)
    body = r.element(model, True)
    enc = style["enc"]
    name = {"utf-8-sig": "utf-8"}.get(enc, enc)
    head = ""
    if style["doctype"]:
        head = '<!DOCTYPE svg [<!ENTITY ent "e"><!ENTITY unused "<g/>">]>\n'
    pre = r.misc(True) if style["noise"] else ""
    post = r.misc(True) if style["noise"] else ""
    text = head + pre.lstrip() + body + post
    if style["decl"] or enc in ("iso-8859-1", "us-ascii"):
        btext = '<?xml version="1.0" encoding="%s"?>\n' % name + text
    else:
        btext = text
    data = btext.encode(enc, "xmlcharrefreplace")
    if enc in ("iso-8859-1", "us-ascii") and not btext.isascii():
        # names cannot be written as character references
        try:
            ET.fromstring(data)
        except ET.ParseError:
            data = ('<?xml version="1.0" encoding="utf-8"?>\n' + text).encode("utf-8")
    return text, data


# ------------------------------------------------------------------ comparing

def qname(e):
    return "{%s}%s" % (e["n"], e["t"]) if e["n"] else e["t"]


def preorder(e, parent=-1, out=None):
    """List of (element, index of parent) in document order."""
    if out is None:
        out = []
    me = len(out)
    out.append((e, parent))
    for c in e["c"]:
        preorder(c, me, out)
    return out


def real_preorder(roots):
    out = []

    def walk(n, parent):
        me = len(out)
        out.append((n, parent))
        for c in list.__iter__(n):
            walk(c, me)

    for r in roots:
        walk(r, -1)
    return out


def check_element(node, e, where):
    cls = KINDS.get(e["t"]) if not e["n"] else None
    want = getattr(env.nodes, cls) if cls else env.nodes.Node
    check(isinstance(node, env.nodes.Node), "kind", "%s: not a node: %r", where, type(node))
    if cls:
        check(isinstance(node, want), "kind", "%s: <%s> became %s, not %s", where, e["t"], type(node).__name__, cls)
    elif e["n"] or e["t"] not in ALIASES:
        wrong = [k for k in KINDS.values() if k not in ("TSpan",) and isinstance(node, getattr(env.nodes, k))]
        check(not wrong, "kind", "%s: <%s> became a %s", where, qname(e), type(node).__name__)
    check(node.tag() == qname(e), "tag", "%s: tag %r, expected %r", where, node.tag(), qname(e))
    got = dict(node.attributes)
    exp = dict(map(tuple, e["a"]))
    check(got == exp, "attributes", "%s <%s>: attributes %r, expected %r", where, e["t"], got, exp)


def check_prefix(roots, model, where, complete=False):
    """The real tree below `roots` is exactly a prefix of the model in document
    order (all of it if complete). Returns the number of elements present."""
    exp = preorder(model)
    got = real_preorder(roots)
    check(len(got) <= len(exp), "extra-elements", "%s: %d elements, the source has %d", where, len(got), len(exp))
    for i, (node, parent) in enumerate(got):
        e, eparent = exp[i]
        check(parent == eparent, "nesting", "%s: element %d <%s> is nested under %d, expected %d", where, i, e["t"], parent, eparent)
        check_element(node, e, "%s element %d" % (where, i))
        if parent >= 0:
            check(node.parent is got[parent][0], "parent-link", "%s: element %d <%s> has a wrong parent", where, i, e["t"])
    if complete:
        check(len(got) == len(exp), "missing-elements", "%s: %d elements, the source has %d", where, len(got), len(exp))
    return len(got)


def et_to_model(el):
    tag = el.tag
    ns = ""
    if tag.startswith("{"):
        ns, tag = tag[1:].split("}", 1)
        if ns == SVG_NS:
            ns = ""
    return {"t": tag, "n": ns, "a": [[k, v] for k, v in el.attrib.items()], "x": el.text, "c": [et_to_model(c) for c in el], "l": el.tail}


def compare_models(got, exp, where, text=True):
    """Two model trees: same names, order, nesting, attributes, non-blank text."""
    stack = [(got, exp, True)]
    i = 0
    while stack:
        g, e, root = stack.pop()
        i += 1
        check(qname(g) == qname(e), "tag", "%s: <%s>, expected <%s>", where, qname(g), qname(e))
        ga, ea = dict(map(tuple, g["a"])), dict(map(tuple, e["a"]))
        check(ga == ea, "attributes", "%s <%s>: attributes %r, expected %r", where, e["t"], ga, ea)
        if text:
            for key, name in (("x", "text"),) + (() if root else (("l", "tail"),)):
                a, b = g[key], e[key]
                a, b = None if blank(a) else a, None if blank(b) else b
                check(a == b, "character-data", "%s <%s>: %s %r, expected %r", where, e["t"], name, a, b)
        check(len(g["c"]) == len(e["c"]), "children", "%s <%s>: children %r, expected %r", where, e["t"],
              [c["t"] for c in g["c"]], [c["t"] for c in e["c"]])
        stack.extend((a, b, False) for a, b in zip(g["c"], e["c"]))
    return i


def model_of_text(text):
    return et_to_model(ET.fromstring(text))


def snapshot(node):
    """Observable state of a real tree: structure with object identities."""
    return [(id(n), parent, type(n).__name__, n.tag(), tuple((k, _val(v)) for k, v in n.attributes.items()))
            for n, parent in real_preorder([node])]


def _val(v):
    try:
        return repr(v)
    except Exception:
        return "?%d" % id(v)


def copy_model(m):
    return {"t": m["t"], "n": m["n"], "a": [list(a) for a in m["a"]], "x": m["x"], "c": [copy_model(c) for c in m["c"]], "l": m["l"]}
