From fd64a27b9c1acdf5686e52a4d637f9529d4d97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 01/71] fix: construct defs, symbol, marker, mask, style,
 metadata, switch, gradient and image nodes

The leftover (document, parent, attributes) constructors made every load of a
document holding one of these elements fail with a TypeError.
---
 svgio/nodes.py | 29 +++--------------------------
 1 file changed, 3 insertions(+), 26 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index deee891..5c109a3 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1391,7 +1391,7 @@ class ClipPath(Element):
         return self.__class__.__name__
 
 
-class Mask(ContainerElement):
+class Mask(ContainerElement, Element):
     # maskContentUnits
     # maskUnits
 
@@ -1639,7 +1639,8 @@ class Image(Element, GraphicalElement, Transformable):
     which are quite useful and would be ideal for reading the linked or contained data.
     """
 
-    def __init__(self):
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
         self.image = None
         self.image_width = None
         self.image_height = None
@@ -1802,9 +1803,6 @@ class Title(DescriptiveElement, Element):
 
 
 class Metadata(DescriptiveElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1860,25 +1858,16 @@ class SVG(Group, ContainerElement, StructuralElement):
 
 
 class Defs(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Symbol(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Marker(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1909,17 +1898,11 @@ class Use(StructuralElement, Element):
 
 
 class Switch(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Style(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1951,17 +1934,11 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
-- 
2.43.0


From 6992f2284330fb2bc57b5dd04fca477eba7e3268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 02/71] fix: keep every element's tag through load and save

Elements without a class became <node>, links became <hyperlink>, and
clipPath, switch and gradients were neither recognised nor written under
their own (case-sensitive) names.
---
 svgio/nodes.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 5c109a3..620943b 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -44,6 +44,7 @@ class Node(list):
         super().__init__()
         self.document = None
         self.parent = None
+        self._tag = None  # source tag of an element without a class of its own.
         self.attributes = dict()
         self.attributes.update(kwargs)
 
@@ -66,6 +67,8 @@ class Node(list):
             return object.__getattribute__(self, name)
 
     def tag(self):
+        if self._tag is not None:
+            return self._tag
         return self._name().lower()
 
     def xml(self, context=None):
@@ -109,6 +112,7 @@ class Node(list):
                     node = type_node()
                 except KeyError:
                     node = Node()
+                    node._tag = tag
                 node.attributes = attributes
                 node.parent = parent
                 node.document = document
@@ -1385,7 +1389,7 @@ class ClipPath(Element):
         return values.get(SVG_ATTR_CLIP_UNIT_TYPE, SVG_UNIT_TYPE_USERSPACEONUSE)
 
     def tag(self):
-        return "clip-path"
+        return "clipPath"
 
     def _name(self):
         return self.__class__.__name__
@@ -1921,6 +1925,9 @@ class Script(Element):
 
 
 class Hyperlink(ContainerElement, Element):
+    def tag(self):
+        return "a"
+
     @property
     def href(self):
         values = Document.get_values(self)
@@ -1934,11 +1941,17 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
+    def tag(self):
+        return "linearGradient"
+
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
+    def tag(self):
+        return "radialGradient"
+
     def _name(self):
         return self.__class__.__name__
 
@@ -2306,8 +2319,12 @@ BOOTSTRAP = {
     "desc": Desc,
     "metadata": Metadata,
     "clip-path": ClipPath,
+    "clipPath": ClipPath,
     "mask": Mask,
+    "switch": Switch,
     "lineargradient": LinearGradient,
+    "linearGradient": LinearGradient,
     "radialgradient": RadialGradient,
+    "radialGradient": RadialGradient,
     "pattern": Pattern,
 }
-- 
2.43.0


From cd60ee7dddb7df2990a8a49cebe892d9ba84e8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 03/71] fix: Document.write writes the document's XML,
 serialized before opening the target

It wrote the debugging representation, in the platform's default encoding,
and had already truncated the old file when serializing failed.
---
 svgio/nodes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 620943b..e206c52 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -457,8 +457,16 @@ class Document(Node):
         self.parse(filename)
 
     def write(self, filename):
-        with io.open(filename, mode="w") as output:
-            output.write(str(self))
+        # Everything is serialized before the target is opened (and so truncated).
+        if len(self) != 1:
+            raise ValueError("Only a document with a single root can be written.")
+        root = self[0]
+        data = root.xml()
+        if isinstance(root, SVG) and "xmlns" not in root.attributes:
+            data = data.replace("<svg", '<svg xmlns="%s"' % SVG_VALUE_XMLNS, 1)
+        data = data.encode("utf-8")
+        with io.open(filename, mode="wb") as output:
+            output.write(data)
 
     def render(self):
         pass
-- 
2.43.0


From 5e6cd9abf2c8a1965b62907af93850e0230af81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 04/71] fix: keep character data through load and save

Text content of text, title, style and every other element was dropped.
---
 svgio/nodes.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index e206c52..82bcf26 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -45,6 +45,8 @@ class Node(list):
         self.document = None
         self.parent = None
         self._tag = None  # source tag of an element without a class of its own.
+        self._text = None  # character data before the first child.
+        self._tail = None  # character data between this node and the next.
         self.attributes = dict()
         self.attributes.update(kwargs)
 
@@ -74,13 +76,17 @@ class Node(list):
     def xml(self, context=None):
         from xml.etree.cElementTree import Element, SubElement, tostring
 
-        if context is None:
+        root = context is None
+        if root:
             context = Element(self.tag())
         else:
             context = SubElement(context, self.tag())
         for k in self.attributes:
             v = self.attributes[k]
             context.set(str(k), str(v))
+        context.text = self._text
+        if not root:
+            context.tail = self._tail
         for c in self:
             c.xml(context)
         return tostring(context, encoding="unicode")
@@ -124,7 +130,13 @@ class Node(list):
                         attributes[SVG_ATTR_ID]
                     ] = node  # store node value in defs.
             elif event == "end":
-                # event is 'end', pop values.
+                # event is 'end', text and the tails of all children are now known.
+                if elem.text and elem.text.strip(" \t\r\n"):
+                    node._text = elem.text
+                for child, child_elem in zip(node, elem):
+                    if child_elem.tail and child_elem.tail.strip(" \t\r\n"):
+                        child._tail = child_elem.tail
+                # pop values.
                 node = node.parent  # Parent is now node.
 
     @property
-- 
2.43.0


From fa122acad44235a9fd44c877d77c47939f2dd973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 05/71] fix: siblings are found by identity

list.index() compares by equality and all childless nodes are equal, so
next_sibling and previous_sibling answered for the first childless node.
previous_element_sibling returned the next sibling.
---
 svgio/nodes.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 82bcf26..d0f6602 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -173,6 +173,14 @@ class Node(list):
         else:
             return None
 
+    def _sibling_index(self):
+        # list.index() finds the first equal node, and all childless nodes are equal.
+        if self.parent is not None:
+            for index, sibling in enumerate(self.parent):
+                if sibling is self:
+                    return index
+        raise IndexError
+
     @property
     def next_sibling(self):
         """
@@ -181,7 +189,7 @@ class Node(list):
         :return:
         """
         try:
-            index = self.parent.index(self)
+            index = self._sibling_index()
             return self.parent[index + 1]
         except (AttributeError, IndexError):
             return None
@@ -225,7 +233,7 @@ class Node(list):
         :return:
         """
         try:
-            index = self.parent.index(self)
+            index = self._sibling_index()
             if index == 0:
                 return None
             return self.parent[index - 1]
@@ -392,7 +400,7 @@ class Element(Node):
 
     @property
     def previous_element_sibling(self):
-        return self.next_sibling
+        return self.previous_sibling
 
     @property
     def shadow_root(self):
-- 
2.43.0


From 1b431dc51dff537b9c1cd6dbc0dca5cde1236649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 06/71] fix: stroke of an element with stroke-opacity

The property read itself and recursed until the stack overflowed.
---
 svgio/nodes.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index d0f6602..ef5a4f0 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -565,13 +565,9 @@ class GraphicalElement:
         stroke = values.get(SVG_ATTR_STROKE)
         stroke = Color(stroke) if stroke is not None else None
         stroke_opacity = values.get(SVG_ATTR_STROKE_OPACITY)
-        if (
-            stroke_opacity is not None
-            and self.stroke is not None
-            and self.stroke.value is not None
-        ):
+        if stroke_opacity is not None and stroke is not None and stroke.value is not None:
             try:
-                self.stroke.opacity = float(stroke_opacity)
+                stroke.opacity = float(stroke_opacity)
             except ValueError:
                 pass
         return stroke
-- 
2.43.0


From 57e9a3b4432a0dac77efdf843459d1047d7cd809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 07/71] fix: elements added by builders or Document.add are
 found by their id

Builders also return the element they add, and a fragment outside a document
can be parsed.
---
 svgio/nodes.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index ef5a4f0..5cf64dd 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -125,7 +125,8 @@ class Node(list):
 
                 siblings.append(node)  # siblings now includes this node.
 
-                if SVG_ATTR_ID in attributes:  # If we have an ID, we save the node.
+                if document is not None and SVG_ATTR_ID in attributes:
+                    # If we have an ID, we save the node.
                     document.objects[
                         attributes[SVG_ATTR_ID]
                     ] = node  # store node value in defs.
@@ -418,6 +419,9 @@ class ElementBuilder:
         node.document = self.document
         node.parent = self.parent
         self.parent.append(node)
+        if self.document is not None and SVG_ATTR_ID in node.attributes:
+            self.document.objects[node.attributes[SVG_ATTR_ID]] = node
+        return node
 
 
 class Document(Node):
@@ -464,7 +468,11 @@ class Document(Node):
         return values
 
     def add(self, node):
+        node.document = self
+        node.parent = self
         self.append(node)
+        if SVG_ATTR_ID in node.attributes:
+            self.objects[node.attributes[SVG_ATTR_ID]] = node
 
     def get_element_by_id(self, id):
         return self.objects.get(id)
-- 
2.43.0


From f0d3e68e7cb4bc991cb88486ece36b5ecd347042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 08/71] fix: str() and repr() of text elements

Leftover overrides read properties these nodes do not have.
---
 svgio/nodes.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 5cf64dd..821fa32 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1563,24 +1563,6 @@ class Text(TextContentElement, Element, GraphicalElement, Transformable):
     #
     #     self.path = None
 
-    def __str__(self):
-        parts = list()
-        parts.append("'%s'" % self.text)
-        parts.append("font_family=%s" % self.font_family)
-        parts.append("anchor=%s" % self.anchor)
-        parts.append("font_size=%d" % self.font_size)
-        parts.append("font_weight=%s" % str(self.font_weight))
-        return "Text(%s)" % (", ".join(parts))
-
-    def __repr__(self):
-        parts = list()
-        parts.append("%s" % self.text)
-        parts.append("font_family=%s" % self.font_family)
-        parts.append("anchor=%s" % self.anchor)
-        parts.append("font_size=%d" % self.font_size)
-        parts.append("font_weight=%s" % str(self.font_weight))
-        return "Text(%s)" % (", ".join(parts))
-
     @property
     def x(self):
         values = Document.get_values(self)
-- 
2.43.0


From 9b769e331195cd1abcd1219018294503caf0d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 09/71] fix: a path built from a path or subpath has its
 segments

Path(path) was empty, so copy(path) lost every segment, and Path(subpath)
shared its segments with the subpath's path.
---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 078d4c4..60c4bd5 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1971,8 +1971,8 @@ class Path(MutableSequence):
             self._segments.extend(args)
         else:
             s = args[0]
-            if isinstance(s, Subpath):
-                self._segments.extend(s.segments(transformed=False))
+            if isinstance(s, (Path, Subpath)):
+                self._segments.extend(map(copy, s.segments(transformed=False)))
             elif isinstance(s, str):
                 self._segments = list()
                 self.parse(s)
-- 
2.43.0


From abffd9c8929cfed76f995de938b53ae0d6ee443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 10/71] fix: d(), segments() and @ of a geometric path

They relied on a transform attribute and an abs() that geometric paths do not
have, so writing a path as path data, assigning path data to an index, and
applying a matrix all raised.
---
 svgio/path.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 60c4bd5..ed0a3e2 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2040,7 +2040,9 @@ class Path(MutableSequence):
         if isinstance(other, str):
             other = Matrix(other)
         if isinstance(other, Matrix):
-            self.transform *= other
+            self._length = None
+            for segment in self._segments:
+                segment *= other
         return self
 
     def __setitem__(self, index, new_element):
@@ -2752,14 +2754,10 @@ class Path(MutableSequence):
         return " ".join(parts)
 
     def d(self, relative=None, transformed=True, smooth=None):
-        path = self
-        if transformed:
-            path = abs(path)
-        return Path.svg_d(path._segments, relative=relative, smooth=smooth)
+        return Path.svg_d(self._segments, relative=relative, smooth=smooth)
 
     def segments(self, transformed=True):
-        if transformed and not self.transform.is_identity():
-            return [s * self.transform for s in self._segments]
+        # A geometric path has no transform of its own.
         return self._segments
 
     def approximate_arcs_with_cubics(self, error=0.1):
@@ -2910,12 +2908,7 @@ class Subpath:
         return not self == other
 
     def segments(self, transformed=True):
-        path = self._path
-        if transformed:
-            return [
-                s * path.transform for s in path._segments[self._start : self._end + 1]
-            ]
-        return path._segments[self._start : self._end + 1]
+        return self._path._segments[self._start : self._end + 1]
 
     def _numeric_index(self, index):
         if index < 0:
-- 
2.43.0


From 95eb25e68b25e88bd0676824404babd755a424b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 11/71] fix: consumers of a segment's points do not share a
 position

Iterating stored the position in the segment itself, so a nested, interleaved
or concurrent iteration of the same segment skipped or repeated points.
---
 svgio/path.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index ed0a3e2..2bc8ac1 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -399,21 +399,11 @@ class PathSegment:
         return d
 
     def __iter__(self):
-        self.n = -1
-        return self
-
-    def __next__(self):
-        self.n += 1
-        try:
-            val = self[self.n]
-            if val is None:
-                self.n += 1
-                val = self[self.n]
-            return val
-        except IndexError:
-            raise StopIteration
-
-    next = __next__
+        # Every consumer has its own position.
+        for i in range(len(self)):
+            point = self[i]
+            if point is not None:
+                yield point
 
     @staticmethod
     def segment_length(
-- 
2.43.0


From 37e34155110f8da0a5dbd62ca003c6d3ca05d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 12/71] fix: publish measured lengths only when complete

The total was stored before the per-segment lengths, so a concurrent or
interrupted measurement left a path that could not be evaluated.
---
 svgio/path.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 2bc8ac1..f0c77f9 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2141,11 +2141,12 @@ class Path(MutableSequence):
         if self._length is not None:
             return
         lengths = [each.length(error=error, min_depth=min_depth) for each in segments]
-        self._length = sum(lengths)
-        if self._length == 0:
-            self._lengths = lengths
-        else:
-            self._lengths = [each / self._length for each in lengths]
+        length = sum(lengths)
+        if length != 0:
+            lengths = [each / length for each in lengths]
+        # The total is stored last: it is what says that the lengths are known.
+        self._lengths = lengths
+        self._length = length
 
     def npoint(self, positions, error=ERROR):
         """
-- 
2.43.0


From ba4904594be232b617a51cfd3904c3d42a690de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 13/71] fix: an interrupt during a measurement reaches the
 caller

The bare except of the scipy fallback swallowed KeyboardInterrupt and
SystemExit.
---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index f0c77f9..ed12364 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1079,7 +1079,7 @@ class CubicBezier(Curve):
         """Calculate the length of the path up to a certain position"""
         try:
             return self._length_scipy(error)
-        except:  # Fallback on any failure
+        except Exception:  # Fallback on any failure
             return self._length_default(error, min_depth)
 
     def is_smooth_from(self, previous):
@@ -1556,7 +1556,7 @@ class Arc(Curve):
             return abs(self.rx * self.sweep)
         try:
             return self._exact_length()
-        except:  # Fallback on any failure
+        except Exception:  # Fallback on any failure
             return self._line_length(error=error, min_depth=min_depth)
 
     def _svg_complex_parameterize(
-- 
2.43.0


From ffae1754533e77daa4bb8ab2cb640f54531fe8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 14/71] fix: reversing a path or transforming a subpath forgets
 the measured lengths

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index ed12364..b431761 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2652,6 +2652,7 @@ class Path(MutableSequence):
     def reverse(self):
         if len(self._segments) == 0:
             return
+        self._length = None
         prepoint = self._segments[0].start
         self._segments[0].start = None
         p = Path()
@@ -2840,6 +2841,7 @@ class Subpath:
         if isinstance(other, str):
             other = Matrix(other)
         if isinstance(other, Matrix):
+            self._path._length = None
             for e in self:
                 e *= other
         return self
@@ -2942,6 +2944,7 @@ class Subpath:
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
         segments = self._path._segments  # must avoid path validation.
+        self._path._length = None
         s = self.index_to_path_index(start)
         e = self.index_to_path_index(end)
         while s <= e:
-- 
2.43.0


From 1c589fda2796b477975a0dd4b0024d54000efc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 15/71] fix: every edit of a path leaves its segments connected

Assigning, deleting, inserting (also at negative indexes), extending,
transforming a subpath or reversing one could leave a segment starting away
from the previous segment's end, or a close returning to a stale move.
---
 svgio/path.py | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index b431761..7bf14ff 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2048,26 +2048,12 @@ class Path(MutableSequence):
         self._segments[index] = new_element
         self._length = None
         self._lengths = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            self._validate_connection(index)
-            if isinstance(new_element, Move):
-                self._validate_move(index)
-            if isinstance(new_element, Close):
-                self._validate_close(index)
+        self.validate_connections()
 
     def __delitem__(self, index):
-        original_element = self._segments[index]
         del self._segments[index]
         self._length = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            if isinstance(original_element, (Close, Move)):
-                self._validate_subpath(index)
+        self.validate_connections()
 
     def __iadd__(self, other):
         if isinstance(other, str):
@@ -2609,21 +2595,14 @@ class Path(MutableSequence):
             value = value[0]
         self._length = None
         self._segments.insert(index, value)
-        self._validate_connection(index - 1)
-        self._validate_connection(index)
-        if isinstance(value, Move):
-            self._validate_move(index)
-        if isinstance(value, Close):
-            self._validate_close(index)
+        self.validate_connections()
 
     def extend(self, iterable):
         if isinstance(iterable, str):
             iterable = Path(iterable)
         self._length = None
-        index = len(self._segments) - 1
         self._segments.extend(iterable)
-        self._validate_connection(index)
-        self._validate_subpath(index)
+        self.validate_connections()
 
     def direct_close(self):
         """Forces close operations to be zero length by introducing a direct
@@ -2844,6 +2823,7 @@ class Subpath:
             self._path._length = None
             for e in self:
                 e *= other
+            self._path.validate_connections()
         return self
 
     def __mul__(self, other):
@@ -2985,4 +2965,5 @@ class Subpath:
                 last.start = Point(self[-2].end)
             if last.end != self[0].end:
                 last.end = Point(self[0].end)
+        self._path.validate_connections()
         return self
-- 
2.43.0


From 480abb36c853cfa6a08a6c6798b8386545010a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 16/71] fix: reject a horizontal or vertical line without a
 coordinate

H alone added a line to a point without an x.
---
 svgio/path.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 7bf14ff..f733654 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -176,18 +176,24 @@ class PathLexicalParser:
             elif cmd == "h":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.horizontal(value, relative=True)
                     if not self._more():
                         break
             elif cmd == "H":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.horizontal(value, relative=False)
                     if not self._more():
                         break
             elif cmd == "v":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.vertical(value, relative=True)
                     if not self._more():
                         break
-- 
2.43.0


From 5afb0ffbcd6538c931b2c0ed81208627d6c4f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 17/71] fix: reject an absolute arc without its flags

Only the relative command checked them; the absolute one added an arc built
from the remaining numbers before it raised.
---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index f733654..30593cb 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -324,6 +324,8 @@ class PathLexicalParser:
                         self._flag(),
                         self._coord(),
                     )
+                    if sweep is None:
+                        raise ValueError
                     if coord is None:
                         coord = self.inline_close
                         if coord is None:
-- 
2.43.0


From 95910db5aacd0df5343f6e8a44b0486768980ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 18/71] fix: only the SVG namespace itself is removed from a
 tag

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 821fa32..61bbea1 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -100,7 +100,7 @@ class Node(list):
             if event == "start":
                 tag = elem.tag
                 try:
-                    if tag.startswith("{http://www.w3.org/2000/svg"):
+                    if tag.startswith("{http://www.w3.org/2000/svg}"):
                         tag = tag[
                             28:
                         ]  # Removing namespace. http://www.w3.org/2000/svg:
-- 
2.43.0


From 0c5b25bab4757876bdad5a602330ffaab0f16d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 19/71] fix: keep carriage returns in character data

---
 svgio/nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 61bbea1..deafdc3 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -89,7 +89,8 @@ class Node(list):
             context.tail = self._tail
         for c in self:
             c.xml(context)
-        return tostring(context, encoding="unicode")
+        # tostring() leaves carriage returns in character data, which a parser would read as line feeds.
+        return tostring(context, encoding="unicode").replace("\r", "&#13;")
 
     def parse(self, source):
         node = self
-- 
2.43.0


From 7b9b72aec2a8b1e1c7be22b7bec167cd81a8b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 20/71] fix: do not write a document XML cannot hold

---
 svgio/nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index deafdc3..53d1fdf 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -10,7 +10,7 @@ from math import (
     sqrt,
     tan,
 )
-from xml.etree.ElementTree import iterparse
+from xml.etree.ElementTree import fromstring, iterparse
 
 try:
     from math import tau
@@ -494,6 +494,7 @@ class Document(Node):
         if isinstance(root, SVG) and "xmlns" not in root.attributes:
             data = data.replace("<svg", '<svg xmlns="%s"' % SVG_VALUE_XMLNS, 1)
         data = data.encode("utf-8")
+        fromstring(data)  # raises if a name or value cannot be held by XML.
         with io.open(filename, mode="wb") as output:
             output.write(data)
 
-- 
2.43.0


From 40c296e3970806042d6a9f2ca7f941e5de976287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 21/71] fix: npoint of a path takes any positions and skips
 none of the segments before them

---
 svgio/path.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 30593cb..fbee0ad 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2157,11 +2157,11 @@ class Path(MutableSequence):
         # Shortcuts
         if self._length is None:
             self._calc_lengths(error=error, segments=segments)
+        positions = np.array(positions, dtype=float)
         xy = np.empty((len(positions), 2), dtype=float)
         if self._length == 0:
-            i = int(round(positions * (len(segments) - 1)))
-            point = segments[i].point(0.0)
-            xy[:] = point
+            for i, position in enumerate(positions):
+                xy[i] = list(self.point(position, error=error))
             return xy
 
         # Find which segment the point we search for is located on:
@@ -2170,9 +2170,10 @@ class Path(MutableSequence):
             segment_end = segment_start + self._lengths[index]
             position_subset = (segment_start <= positions) & (positions < segment_end)
             v0 = positions[position_subset]
+            d = segment_end - segment_start
             if not len(v0):
+                segment_start = segment_end
                 continue  # Nothing matched.
-            d = segment_end - segment_start
             if d == 0:  # This segment is 0 length.
                 segment_pos = 0.0
             else:
-- 
2.43.0


From 38edd4b648440a367653cb19cec555287553b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 22/71] fix: subpath indices stay within the subpath, and its
 window follows its own edits

---
 svgio/path.py | 49 +++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index fbee0ad..6f8bb47 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2787,23 +2787,29 @@ class Subpath:
         return self._path[self.index_to_path_index(index)]
 
     def __setitem__(self, index, value):
+        size = len(self._path)
         self._path[self.index_to_path_index(index)] = value
+        self._end += len(self._path) - size
 
     def __delitem__(self, index):
+        size = len(self._path)
         del self._path[self.index_to_path_index(index)]
-        self._end -= 1
+        self._end += len(self._path) - size
 
     def __iadd__(self, other):
+        after = self._end + 1
+        size = len(self._path)
         if isinstance(other, str):
             p = Path(other)
-            self._path[self._end : self._end] = p
+            self._path[after:after] = p
         elif isinstance(other, Path):
             p = copy(other)
-            self._path[self._end : self._end] = p
+            self._path[after:after] = p
         elif isinstance(other, PathSegment):
-            self._path.insert(self._end, other)
+            self._path.insert(after, other)
         else:
             return NotImplemented
+        self._end += len(self._path) - size
         return self
 
     def __add__(self, other):
@@ -2816,7 +2822,7 @@ class Subpath:
     def __radd__(self, other):
         if isinstance(other, str):
             path = Path(other)
-            path.extend(map(copy, self._path))
+            path.extend(map(copy, list(self)))
             return path
         elif isinstance(other, PathSegment):
             path = Path(self)
@@ -2892,25 +2898,16 @@ class Subpath:
     def segments(self, transformed=True):
         return self._path._segments[self._start : self._end + 1]
 
-    def _numeric_index(self, index):
-        if index < 0:
-            return self._end + index + 1
-        else:
-            return self._start + index
-
     def index_to_path_index(self, index):
+        window = range(self._start, self._end + 1)[index]
         if isinstance(index, slice):
-            start = index.start
-            stop = index.stop
-            step = index.step
-            if start is None:
-                start = 0
-            start = self._numeric_index(start)
-            if stop is None:
-                stop = len(self)
-            stop = self._numeric_index(stop)
-            return slice(start, stop, step)
-        return self._numeric_index(index)
+            start, stop = window.start, window.stop
+            if len(window) == 0:
+                start = stop = max(start, 0)
+            elif stop < 0:
+                stop = None  # a descending slice down to the first segment
+            return slice(start, stop, window.step)
+        return window
 
     def bbox(self):
         """returns a bounding box for the input Path"""
@@ -2934,8 +2931,10 @@ class Subpath:
         """Reverses segments between the given indexes in the subpath space."""
         segments = self._path._segments  # must avoid path validation.
         self._path._length = None
-        s = self.index_to_path_index(start)
-        e = self.index_to_path_index(end)
+        start += self._start
+        end += self._start
+        s = start
+        e = end
         while s <= e:
             start_segment = segments[s]
             end_segment = segments[e]
@@ -2946,8 +2945,6 @@ class Subpath:
                 segments[e] = start_segment
             s += 1
             e -= 1
-        start = self.index_to_path_index(start)
-        end = self.index_to_path_index(end)
         self._path._validate_connection(start - 1, prefer_second=True)
         self._path._validate_connection(end)
 
-- 
2.43.0


From 1194e4347155e1a7b17d14846c037eed5fc594ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:50 +0000
Subject: [PATCH 23/71] fix: reject a vertical line or an arc without any
 numbers

---
 svgio/path.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 6f8bb47..548264e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -198,9 +198,13 @@ class PathLexicalParser:
                     if not self._more():
                         break
             elif cmd == "V":
-                while self._more():
+                while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.vertical(value, relative=False)
+                    if not self._more():
+                        break
             elif cmd == "c":
                 while True:
                     coord1, coord2, coord3 = (
@@ -298,6 +302,8 @@ class PathLexicalParser:
                     if not self._more():
                         break
             elif cmd == "a":
+                if not self._more():
+                    raise ValueError
                 while self._more():
                     rx, ry, rotation, arc, sweep, coord = (
                         self._number(),
@@ -315,6 +321,8 @@ class PathLexicalParser:
                             raise ValueError
                     self.parser.arc(rx, ry, rotation, arc, sweep, coord, relative=True)
             elif cmd == "A":
+                if not self._more():
+                    raise ValueError
                 while self._more():
                     rx, ry, rotation, arc, sweep, coord = (
                         self._number(),
-- 
2.43.0


From ac7933c0d5d92925b6accaf6833945ae663ebf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:18 +0000
Subject: [PATCH 24/71] fix: iterating a matrix ends after its six values

---
 svgio/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 11887ce..783be37 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2020,6 +2020,8 @@ class Matrix:
             return self.e
         elif item == 5:
             return self.f
+        else:
+            raise IndexError
 
     def __setitem__(self, key, value):
         if key == 0:
-- 
2.43.0


From 4387e30b38a5c5cb71e92b499177d351d409b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 25/71] fix: extending a path from an iterator that fails
 leaves the path as it was

---
 svgio/path.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgio/path.py b/svgio/path.py
index 548264e..e6800f8 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2617,6 +2617,7 @@ class Path(MutableSequence):
     def extend(self, iterable):
         if isinstance(iterable, str):
             iterable = Path(iterable)
+        iterable = list(iterable)  # may fail, or read this path.
         self._length = None
         self._segments.extend(iterable)
         self.validate_connections()
-- 
2.43.0


From 15990de1ef46561663210c8740061bbad6f4b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 26/71] fix: an element keeps the name it has in the source

---
 svgio/nodes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 53d1fdf..1afd5e9 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -119,7 +119,8 @@ class Node(list):
                     node = type_node()
                 except KeyError:
                     node = Node()
-                    node._tag = tag
+                if node.tag() != tag:
+                    node._tag = tag  # the name in the source is kept.
                 node.attributes = attributes
                 node.parent = parent
                 node.document = document
@@ -1423,7 +1424,7 @@ class ClipPath(Element):
         return values.get(SVG_ATTR_CLIP_UNIT_TYPE, SVG_UNIT_TYPE_USERSPACEONUSE)
 
     def tag(self):
-        return "clipPath"
+        return self._tag or "clipPath"
 
     def _name(self):
         return self.__class__.__name__
@@ -1958,7 +1959,7 @@ class Hyperlink(ContainerElement, Element):
 
 class LinearGradient(Element):
     def tag(self):
-        return "linearGradient"
+        return self._tag or "linearGradient"
 
     def _name(self):
         return self.__class__.__name__
@@ -1966,7 +1967,7 @@ class LinearGradient(Element):
 
 class RadialGradient(Element):
     def tag(self):
-        return "radialGradient"
+        return self._tag or "radialGradient"
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From 958ef7a03e0c7e52e91bafa0b56904e43dfb7256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 27/71] fix: an infinite fill-opacity or stroke-opacity is
 ignored

---
 svgio/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 1afd5e9..6961cfb 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -579,7 +579,7 @@ class GraphicalElement:
         if stroke_opacity is not None and stroke is not None and stroke.value is not None:
             try:
                 stroke.opacity = float(stroke_opacity)
-            except ValueError:
+            except (ValueError, OverflowError):
                 pass
         return stroke
 
@@ -597,7 +597,7 @@ class GraphicalElement:
         if fill_opacity is not None and fill is not None and fill.value is not None:
             try:
                 fill.opacity = float(fill_opacity)
-            except ValueError:
+            except (ValueError, OverflowError):
                 pass
         return fill
 
-- 
2.43.0


From b9f41239bb8b35836882a5218d7604b610194322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 28/71] fix: a very large or small coordinate is written with
 its whole exponent

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 783be37..7a529c9 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1527,10 +1527,10 @@ class Point:
             x_str = "%.12G" % self.x
         except TypeError:
             return self.__repr__()
-        if "." in x_str:
+        if "." in x_str and "E" not in x_str:
             x_str = x_str.rstrip("0").rstrip(".")
         y_str = "%.12G" % self.y
-        if "." in y_str:
+        if "." in y_str and "E" not in y_str:
             y_str = y_str.rstrip("0").rstrip(".")
         return "%s,%s" % (x_str, y_str)
 
-- 
2.43.0


From e2643c30aecf1e5b85dc4690fb81fdb75f28cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 29/71] fix: a smooth curve after a curve of the other kind
 starts straight

---
 svgio/path.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index e6800f8..f260ccb 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2492,7 +2492,9 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = start_pos
+        if self._segments and isinstance(self._segments[-1], QuadraticBezier):
+            control1 = self.smooth_point
         end_pos = points[0]
         if end_pos in ("z", "Z"):
             end_pos = self.z_point
@@ -2526,7 +2528,9 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = start_pos
+        if self._segments and isinstance(self._segments[-1], CubicBezier):
+            control1 = self.smooth_point
         control2 = points[0]
 
         if control2 in ("z", "Z"):
-- 
2.43.0


From 53d180c39a14c4da58914a69e33ae93217df71a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 30/71] fix: Subpath.d regards its smooth argument

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index f260ccb..fd16cb2 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2938,7 +2938,7 @@ class Subpath:
 
     def d(self, relative=None, smooth=None):
         segments = self._path._segments[self._start : self._end + 1]
-        return Path.svg_d(segments, relative=relative, smooth=None)
+        return Path.svg_d(segments, relative=relative, smooth=smooth)
 
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
-- 
2.43.0


From d487413012fbde4dbc7e80b84f1d9c5820450638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 31/71] fix: a segment printed alone keeps its control points

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index fd16cb2..375dbb4 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -406,7 +406,7 @@ class PathSegment:
         command to correctly provide the starting position.
         :return: string representation of the object.
         """
-        d = self.d()
+        d = self.d(smooth=False)
         if self.start is not None:
             if self.relative:
                 return "m %s %s" % (self.start, d)
-- 
2.43.0


From 195ebb926a8f5d6e84e21850b39fd9fb8d39d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 32/71] fix: an arc mirrored by any matrix sweeps the other way

---
 svgio/path.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 375dbb4..f522aea 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1435,9 +1435,7 @@ class Arc(Curve):
                 self.prx *= other
             if self.pry is not None:
                 self.pry *= other
-            if other.value_scale_x() < 0:
-                self.sweep = -self.sweep
-            if other.value_scale_y() < 0:
+            if other.determinant < 0:
                 self.sweep = -self.sweep
         return self
 
-- 
2.43.0


From 24fd3bac476e623607e82e5b44e91a04d712f492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 33/71] fix: a skewed arc keeps perpendicular axes

---
 svgio/path.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index f522aea..b0e5135 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1437,8 +1437,30 @@ class Arc(Curve):
                 self.pry *= other
             if other.determinant < 0:
                 self.sweep = -self.sweep
+            self._realign_axes()
         return self
 
+    def _realign_axes(self):
+        """
+        Skewing turns the axes prx and pry into a pair which is not perpendicular.
+        The axes of the skewed ellipse are found at another t.
+        """
+        if self.center is None or self.prx is None or self.pry is None:
+            return
+        ux, uy = self.prx.x - self.center.x, self.prx.y - self.center.y
+        vx, vy = self.pry.x - self.center.x, self.pry.y - self.center.y
+        dot = ux * vx + uy * vy
+        if abs(dot) <= 1e-12 * hypot(ux, uy) * hypot(vx, vy):
+            return
+        t = atan2(2 * dot, ux * ux + uy * uy - vx * vx - vy * vy) / 2.0
+        ct, st = cos(t), sin(t)
+        self.prx = Point(
+            self.center.x + ux * ct + vx * st, self.center.y + uy * ct + vy * st
+        )
+        self.pry = Point(
+            self.center.x + vx * ct - ux * st, self.center.y + vy * ct - uy * st
+        )
+
     def __len__(self):
         return 5
 
-- 
2.43.0


From 2f6ceab7db85cdf25d5471c7742e4829c03840c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 34/71] fix: a transform text times a matrix is a matrix

---
 svgio/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 7a529c9..81679b9 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1991,6 +1991,8 @@ class Matrix:
         return m
 
     def __rmatmul__(self, other):
+        if isinstance(other, str):
+            other = Matrix(other)
         m = copy(other)
         m.__imatmul__(self)
         return m
-- 
2.43.0


From e45e79721eacd03b527e3fdd96a92f218992628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 35/71] fix: an arc given its end, centre and sweep finds its
 start

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index b0e5135..d9de469 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1381,7 +1381,7 @@ class Arc(Curve):
         if self.sweep is not None and self.start is None and self.end is not None:
             end_t = self.get_end_t()
             start_t = end_t - self.sweep
-            self.end = self.point_at_t(start_t)
+            self.start = self.point_at_t(start_t)
 
     def __repr__(self):
         return "Arc(%s, %s, %s, %s, %s, %s)" % (
-- 
2.43.0


From 86226e1a892eda8a81144f34291004aac2107c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 36/71] fix: an arc of six named values including a rotation
 need not be an svg arc

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index d9de469..0b1ea4e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1179,7 +1179,7 @@ class Arc(Curve):
         if len(args) == 6 and isinstance(args[1], complex):
             self._svg_complex_parameterize(*args)
             return
-        elif len(kwargs) == 6 and "rotation" in kwargs:
+        elif len(kwargs) == 6 and "rotation" in kwargs and "radius" in kwargs:
             self._svg_complex_parameterize(**kwargs)
             return
         elif len(args) == 7:
-- 
2.43.0


From 17be7c9b6dfd1ffdcd9f19c93f91c1e3c7be7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 37/71] fix: a counterclockwise quarter of an ellipse ends at
 its end

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 0b1ea4e..f91fe82 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1325,10 +1325,10 @@ class Arc(Curve):
                 self.sweep = tau / 4.0
                 self.center = Point(self.start.x, self.end.y)
                 cw = bool(Point.orientation(self.start, self.center, self.end) == 1)
-                if "scooped" in kwargs and kwargs["scooped"]:
+                if kwargs.get("scooped") or kwargs.get("ccw"):
                     self.sweep = -self.sweep
                     cw = not cw
-                if ("ccw" in kwargs and kwargs["ccw"] and cw) or not cw:
+                if not cw:
                     self.center = Point(self.end.x, self.start.y)
 
         if self.center is None:
-- 
2.43.0


From d292baf2c4d26a64698bc2238da5daef53240e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 38/71] fix: the sign of an arc radius is dropped

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index f91fe82..d2b0705 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1629,6 +1629,8 @@ class Arc(Curve):
             self.pry = Point(start)
             self.center = Point(start)
             return
+        rx = abs(rx)
+        ry = abs(ry)
         cosr = cos(radians(rotation))
         sinr = sin(radians(rotation))
         dx = (start.real - end.real) / 2
-- 
2.43.0


From 1a8236762cad55e39ffe383f03ca8d9684e37e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 39/71] fix: the bounding box of an arc without sweep is
 ordered

---
 svgio/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index d2b0705..be4412e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1919,7 +1919,12 @@ class Arc(Curve):
         Code from: https://github.com/mathandy/svgpathtools
         """
         if self.sweep == 0:
-            return self.start.x, self.start.y, self.end.x, self.end.y
+            return (
+                min(self.start.x, self.end.x),
+                min(self.start.y, self.end.y),
+                max(self.start.x, self.end.x),
+                max(self.start.y, self.end.y),
+            )
         phi = self.get_rotation().as_radians
         if cos(phi) == 0:
             atan_x = tau / 4.0
-- 
2.43.0


From 1184263d628b0f3785605635c72c0f842e5185cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 40/71] fix: the bounding box of a cubic without a cubic term
 holds the curve

---
 svgio/path.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index be4412e..586489c 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1055,19 +1055,16 @@ class CubicBezier(Curve):
         local_extremizers = [0, 1]
         a = [c[v] for c in self]
         denom = a[0] - 3 * a[1] + 3 * a[2] - a[3]
-        if abs(denom) >= 1e-12:
-            delta = a[1] ** 2 - (a[0] + a[1]) * a[2] + a[2] ** 2 + (a[0] - a[1]) * a[3]
-            if delta >= 0:  # otherwise no local extrema
-                sqdelta = sqrt(delta)
-                tau = a[0] - 2 * a[1] + a[2]
-                r1 = (tau + sqdelta) / denom
-                r2 = (tau - sqdelta) / denom
-                if 0 < r1 < 1:
-                    local_extremizers.append(r1)
-                if 0 < r2 < 1:
-                    local_extremizers.append(r2)
-        else:
-            local_extremizers.append(0.5)
+        delta = a[1] ** 2 - (a[0] + a[1]) * a[2] + a[2] ** 2 + (a[0] - a[1]) * a[3]
+        if delta >= 0:  # otherwise no local extrema
+            tau = a[0] - 2 * a[1] + a[2]
+            # The root of larger magnitude loses no digits, the other one is
+            # found from their product, also if the curve is a quadratic.
+            q = tau + sqrt(delta) if tau >= 0 else tau - sqrt(delta)
+            if denom != 0 and 0 < q / denom < 1:
+                local_extremizers.append(q / denom)
+            if q != 0 and 0 < (a[0] - a[1]) / q < 1:
+                local_extremizers.append((a[0] - a[1]) / q)
         local_extrema = [self.point(t)[v] for t in local_extremizers]
         return min(local_extrema), max(local_extrema)
 
-- 
2.43.0


From 34f2190004d6fc00584a36c2a8c06bb02db6d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 41/71] fix: the bounding box of a subpath leaves out the jump
 to its start

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 586489c..4889f94 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2949,7 +2949,7 @@ class Subpath:
     def bbox(self):
         """returns a bounding box for the input Path"""
         segments = self._path._segments[self._start : self._end + 1]
-        bbs = [seg.bbox() for seg in segments if not isinstance(Close, Move)]
+        bbs = [seg.bbox() for seg in segments if not isinstance(seg, Move)]
         try:
             xmins, ymins, xmaxs, ymaxs = list(zip(*bbs))
         except ValueError:
-- 
2.43.0


From d0f060c4028980a5e1e447c0beeccc45ec52d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 42/71] fix: the bounding box of a shape leaves out its moves

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 6961cfb..f254d0f 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -698,7 +698,7 @@ class Shape(Element, GraphicalElement, Transformable):
         bbs = [
             seg.bbox()
             for seg in self.segments(transformed=transformed)
-            if not isinstance(path.Close, path.Move)
+            if not isinstance(seg, path.Move)
         ]
         try:
             xmins, ymins, xmaxs, ymaxs = list(zip(*bbs))
-- 
2.43.0


From 9c96569f4ae8ee81aa47232d23a15df65b54a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 43/71] fix: vmin and vmax lengths see the width of the view
 box

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 81679b9..6b7e6fe 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -463,13 +463,13 @@ class Length(object):
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = min(v.height, v.height)
+            m = min(v.width, v.height)
             return self.amount * m / 100.0
         if self.units == "vmax":
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = max(v.height, v.height)
+            m = max(v.width, v.height)
             return self.amount * m / 100.0
         try:
             return float(self)
-- 
2.43.0


From 1f15ade3d083afd0f789026af081c2d5b6339c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 44/71] fix: lengths of different measure are not equal

---
 svgio/basic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 6b7e6fe..2d04848 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -309,13 +309,13 @@ class Length(object):
         if self.amount == other.amount and self.units == other.units:
             return True
         if s is not None:
-            o = self.in_pixels()
-            if abs(s - o) <= ERROR:
+            o = other.in_pixels()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         s = self.in_inches()
         if s is not None:
-            o = self.in_inches()
-            if abs(s - o) <= ERROR:
+            o = other.in_inches()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         return False
 
-- 
2.43.0


From 87959df696cbbb7c20ce18d5c771a51811b41a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 45/71] fix: points and picas in pixels are multiplied by their
 size

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 2d04848..0a574d8 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -327,9 +327,9 @@ class Length(object):
         if self.units == "px" or self.units == "":
             return self.amount
         if self.units == "pt":
-            return self.amount / 1.3333
+            return self.amount * 1.3333
         if self.units == "pc":
-            return self.amount / 16.0
+            return self.amount * 16.0
         return None
 
     def in_inches(self):
-- 
2.43.0


From e1da35a4c0b8b9da0940b7104298c83fdfddab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 46/71] fix: a length that cannot be resolved is not converted
 to another measure

---
 svgio/basic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 0a574d8..9708d6c 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -356,6 +356,8 @@ class Length(object):
             font_height=font_height,
             viewbox=viewbox,
         )
+        if isinstance(value, Length):
+            return value
         v = value / (ppi * 0.0393701)
         return Length("%smm" % (Length.str(v)))
 
@@ -374,6 +376,8 @@ class Length(object):
             font_height=font_height,
             viewbox=viewbox,
         )
+        if isinstance(value, Length):
+            return value
         v = value / (ppi * 0.393701)
         return Length("%scm" % (Length.str(v)))
 
@@ -392,6 +396,8 @@ class Length(object):
             font_height=font_height,
             viewbox=viewbox,
         )
+        if isinstance(value, Length):
+            return value
         v = value / ppi
         return Length("%sin" % (Length.str(v)))
 
-- 
2.43.0


From 75a79ba76f4abb35f5f258b2b8ebbae933d795f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 47/71] fix: a transform may be given in ex

---
 svgio/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/constants.py b/svgio/constants.py
index d5c9d15..eaf72ed 100644
--- a/svgio/constants.py
+++ b/svgio/constants.py
@@ -118,7 +118,7 @@ PATTERN_WS = r"[\s\t\n]*"
 PATTERN_COMMA = r"(?:\s*,\s*|\s+|(?=-))"
 PATTERN_COMMAWSP = r"[ ,\t\n\x09\x0A\x0C\x0D]+"
 PATTERN_FLOAT = r"[-+]?[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?"
-PATTERN_LENGTH_UNITS = "cm|mm|Q|in|pt|pc|px|em|cx|ch|rem|vw|vh|vmin|vmax"
+PATTERN_LENGTH_UNITS = "cm|mm|Q|in|pt|pc|px|em|ex|ch|rem|vw|vh|vmin|vmax"
 PATTERN_ANGLE_UNITS = "deg|grad|rad|turn"
 PATTERN_TIME_UNITS = "s|ms"
 PATTERN_FREQUENCY_UNITS = "Hz|kHz"
-- 
2.43.0


From 61fc4807e4121773b9a91c245647484c938c698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 48/71] fix: aliceblue is the colour of that name

---
 svgio/basic.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 9708d6c..447b7ea 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -690,8 +690,6 @@ class Color(object):
             v = v.replace(" ", "").lower()
         if v == "transparent":
             return Color.rgb_to_int(0, 0, 0, 0.0)
-        if v == "aliceblue":
-            return Color.rgb_to_int(250, 248, 255)
         if v == "aliceblue":
             return Color.rgb_to_int(240, 248, 255)
         if v == "antiquewhite":
-- 
2.43.0


From a4c873a366c740e6fc0b11976c35bcc9ad7bae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 49/71] fix: the numbers of an rgb colour may have a fraction

---
 svgio/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 447b7ea..10eaafa 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1012,9 +1012,9 @@ class Color(object):
     @staticmethod
     def parse_color_rgb(values):
         """Parse SVG Color, RGB value declarations """
-        r = int(values[0])
-        g = int(values[1])
-        b = int(values[2])
+        r = round(float(values[0]))
+        g = round(float(values[1]))
+        b = round(float(values[2]))
         if values[3] is not None:
             opacity = float(values[3])
         else:
-- 
2.43.0


From 2bf70876382beef617588e89468116d473407a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 50/71] fix: the hue of a colour may lie beyond a turn

---
 svgio/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 10eaafa..af62887 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -646,6 +646,7 @@ class Color(object):
                 return v1 + (v2 - v1) * ((2.0 / 3.0) - vh) * 6.0
             return v1
 
+        h %= 1.0
         if s == 0.0:
             r = 255.0 * l
             g = 255.0 * l
-- 
2.43.0


From 0ad40c40097277f00e34ae18a48b962885d6402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 51/71] fix: setting hue, saturation or lightness keeps the
 others and the opacity

---
 svgio/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index af62887..784e2c9 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1422,7 +1422,9 @@ class Color(object):
         h = value[0]
         s = value[1]
         l = value[2]
-        self.value = Color.hsl_to_int(h, s, l, 1.0)
+        opacity = 1.0 if self.value is None else self.opacity
+        # The hue is in degrees, as it is read.
+        self.value = Color.hsl_to_int(Angle.degrees(h).as_turns, s, l, opacity)
 
     def distance_to(self, other):
         return Color.distance(self, other)
-- 
2.43.0


From 28b0e9abfb0d7752b184897e55c540faa5885913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 52/71] fix: colours given as text can be composed

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 784e2c9..3461058 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1334,11 +1334,11 @@ class Color(object):
         Returns c1 over c2. This is the standard painter algorithm.
         """
         if isinstance(c1, str):
-            c1 = Color.parse(c1)
+            c1 = Color(c1)
         elif isinstance(c1, int):
             c1 = Color(c1)
         if isinstance(c2, str):
-            c2 = Color.parse(c2)
+            c2 = Color(c2)
         elif isinstance(c2, int):
             c2 = Color(c2)
         r1 = c1.red
-- 
2.43.0


From ab86d6090226ad5cb02902cf46144a46f13daf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 53/71] fix: colours that differ are at a distance

---
 svgio/basic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 3461058..bf8c295 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1397,9 +1397,11 @@ class Color(object):
         r = c1.red - c2.red
         g = c1.green - c2.green
         b = c1.blue - c2.blue
-        return (((512 + red_mean) * r * r) >> 8) + 4 * g * g + (
-            (767 - red_mean) * b * b
-        ) >> 8
+        return (
+            (((512 + red_mean) * r * r) >> 8)
+            + 4 * g * g
+            + (((767 - red_mean) * b * b) >> 8)
+        )
 
     @staticmethod
     def crimp(v):
-- 
2.43.0


From 4c6cbccaf198ed52699434e352d291e42e1f205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 54/71] fix: distinct colours do not repeat at cubes

---
 svgio/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index bf8c295..033c1fa 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1063,7 +1063,9 @@ class Color(object):
         """
 
         def _pattern(pattern: int):
-            n = int(pattern ** (1.0 / 3.0))
+            n = int(round(pattern ** (1.0 / 3.0)))
+            if n * n * n > pattern:
+                n -= 1
             pattern -= n * n * n
             p = [n] * 3
             if pattern == 0:
-- 
2.43.0


From 14cc0a515d6cc52c6130a0dd3896bd06402dbbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 55/71] fix: any white space separates alignment and slice

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 033c1fa..eb1b4fa 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2639,7 +2639,7 @@ class Viewbox:
         ):
             return ""
         if aspect is not None:
-            aspect_slice = aspect.split(" ")
+            aspect_slice = aspect.split()
             try:
                 align = aspect_slice[0]
             except IndexError:
-- 
2.43.0


From 5ee62fc32d7dd907895609a7dae4986fdb23112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 56/71] fix: an incomplete view box changes nothing

---
 svgio/basic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index eb1b4fa..7448d60 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2577,13 +2577,11 @@ class Viewbox:
     def set_viewbox(self, viewbox):
         if viewbox is not None:
             dims = list(REGEX_FLOAT.findall(viewbox))
-            try:
+            if len(dims) >= 4:
                 self.x = float(dims[0])
                 self.y = float(dims[1])
                 self.width = float(dims[2])
                 self.height = float(dims[3])
-            except IndexError:
-                pass
 
     def transform(self, element):
         return Viewbox.viewbox_transform(
-- 
2.43.0


From 969ba2abd3f5818ea2271524a670352b401f3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 57/71] fix: angles are unequal exactly when they are not equal

---
 svgio/basic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 7448d60..beacbf5 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1850,9 +1850,14 @@ class Angle(float):
         return Angle(self)
 
     def __eq__(self, other):
-        # Python 2
-        c1 = abs((self % tau) - (other % tau)) <= 1e-11
-        return c1
+        try:
+            difference = (self - other) % tau
+        except TypeError:
+            return NotImplemented
+        return min(difference, tau - difference) <= 1e-11
+
+    def __ne__(self, other):
+        return not self == other
 
     def normalized(self):
         return Angle(self % tau)
-- 
2.43.0


From 3c75edc3f116a91346fd0edbf9571d55f7e92fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 58/71] fix: a pair that cannot be added leaves the point as it
 was

---
 svgio/basic.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index beacbf5..db35dfe 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1613,8 +1613,7 @@ class Point:
         except AttributeError:
             pass
         try:
-            self.y += other[1]
-            self.x += other[0]
+            self.x, self.y = self.x + other[0], self.y + other[1]
             return self
         except (TypeError, IndexError):
             pass
@@ -1664,8 +1663,7 @@ class Point:
         except AttributeError:
             pass
         try:
-            self.y -= other[1]
-            self.x -= other[0]
+            self.x, self.y = self.x - other[0], self.y - other[1]
             return self
         except (TypeError, IndexError):
             pass
-- 
2.43.0


From cc1060fb96583b1066b3563dfdf586fd152abe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 59/71] fix: the argument of a point is found in every quadrant

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index db35dfe..2e30dcd 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1745,7 +1745,7 @@ class Point:
         return self.__class__(self.real, -self.imag)
 
     def argz(self):
-        return atan(self.imag / self.real)
+        return atan2(self.imag, self.real)
 
     @property
     def real(self):
-- 
2.43.0


From 9f4e2388527d70432ef00e06f14e546aa6165c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 60/71] fix: the hull of points in a line reaches both ends

---
 svgio/basic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 2e30dcd..51a3854 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1797,16 +1797,20 @@ class Point:
     def convex_hull(pts):
         if len(pts) == 0:
             return
-        points = sorted(set(pts), key=lambda p: p[0])
+        points = sorted(set(pts), key=lambda p: (p[0], p[1]))
         first_point_on_hull = points[0]
         point_on_hull = first_point_on_hull
         while True:
             yield point_on_hull
             endpoint = point_on_hull
             for t in points:
+                orientation = Point.orientation(point_on_hull, t, endpoint)
                 if (
                     point_on_hull is endpoint
-                    or Point.orientation(point_on_hull, t, endpoint) == 2
+                    or orientation == 2
+                    or orientation == 0
+                    and Point.distance(point_on_hull, t)
+                    > Point.distance(point_on_hull, endpoint)
                 ):
                     endpoint = t
             point_on_hull = endpoint
-- 
2.43.0


From 3b6c980123ceab6b260308c76e88e3a96a764120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 61/71] fix: the closest point of a line is a point, beyond its
 ends too

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 4889f94..e3aac1e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -691,14 +691,14 @@ class Linear(PathSegment):
         sq_distance_ab = v_ab_x * v_ab_x + v_ab_y * v_ab_y
         ab_ap_product = v_ab_x * v_ap_x + v_ab_y * v_ap_y
         if sq_distance_ab == 0:
-            return 0  # Line is point.
+            return Point(a)  # Line is point.
         amount = ab_ap_product / float(sq_distance_ab)
         if respect_bounds:
             if amount > 1:
                 amount = 1
             if amount < 0:
                 amount = 0
-        return self.point(amount)
+        return Point.towards(a, b, amount)
 
     def d(self, current_point=None, relative=None, smooth=None):
         raise NotImplementedError
-- 
2.43.0


From bb9ef1544e0742380aee2c24d37abdeb7b0796cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 62/71] fix: a point is not multiplied by what is no pair of
 numbers

---
 svgio/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 51a3854..89db6c0 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1574,6 +1574,8 @@ class Point:
             return self
         except AttributeError:
             pass
+        if isinstance(other, (tuple, list)):
+            return NotImplemented  # an integer coordinate would repeat it.
         try:
             self.x *= other
             self.y *= other
@@ -1598,6 +1600,8 @@ class Point:
             return Point(complex(self) * complex(other.real, other.imag))
         except AttributeError:
             pass
+        if isinstance(other, (tuple, list)):
+            return NotImplemented  # an integer coordinate would repeat it.
         try:
             return Point(self.x * other, self.y * other)
         except Exception:
-- 
2.43.0


From 41fb4956c7b44a850710289ca89d2f85fe401c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 63/71] fix: the data of an embedded image is decoded

---
 svgio/nodes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index f254d0f..71111c2 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1669,18 +1669,18 @@ class Image(Element, GraphicalElement, Transformable):
     @property
     def data(self):
         url = self.href
-        if url.startswith("data:image/"):
+        if url is not None and url.startswith("data:image/"):
             # Data URL
             from base64 import b64decode
 
             if url.startswith("data:image/png;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpg;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpeg;base64,"):
-                return b64decode(self.url[23:])
+                return b64decode(url[23:])
             elif url.startswith("data:image/svg+xml;base64,"):
-                return b64decode(self.url[26:])
+                return b64decode(url[26:])
 
     @property
     def x(self):
-- 
2.43.0


From 370e991c68b7da36dc55bd2e77cac7d5440071ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 64/71] fix: a transform about a point that is refused leaves
 the matrix as it was

---
 svgio/basic.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 89db6c0..42c3207 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2316,9 +2316,11 @@ class Matrix:
         if x == 0 and y == 0:
             self.post_cat(Matrix.scale(sx, sy))
         else:
-            self.post_translate(-x, -y)
-            self.post_scale(sx, sy)
-            self.post_translate(x, y)
+            matrix = Matrix()
+            matrix.post_translate(-x, -y)
+            matrix.post_scale(sx, sy)
+            matrix.post_translate(x, y)
+            self.post_cat(matrix)
 
     def post_scale_x(self, sx=1.0, x=0.0, y=0.0):
         self.post_scale(sx, 1, x, y)
@@ -2357,9 +2359,11 @@ class Matrix:
         if x == 0 and y == 0:
             self.post_cat(Matrix.skew(angle_a, angle_b))
         else:
-            self.post_translate(-x, -y)
-            self.post_skew(angle_a, angle_b)
-            self.post_translate(x, y)
+            matrix = Matrix()
+            matrix.post_translate(-x, -y)
+            matrix.post_skew(angle_a, angle_b)
+            matrix.post_translate(x, y)
+            self.post_cat(matrix)
 
     def post_skew_x(self, angle_a=0.0, x=0.0, y=0.0):
         self.post_skew(angle_a, 0.0, x, y)
@@ -2383,9 +2387,11 @@ class Matrix:
         if x == 0 and y == 0:
             self.pre_cat(Matrix.scale(sx, sy))
         else:
-            self.pre_translate(x, y)
-            self.pre_scale(sx, sy)
-            self.pre_translate(-x, -y)
+            matrix = Matrix()
+            matrix.pre_translate(x, y)
+            matrix.pre_scale(sx, sy)
+            matrix.pre_translate(-x, -y)
+            self.pre_cat(matrix)
 
     def pre_scale_x(self, sx=1.0, x=0.0, y=0.0):
         self.pre_scale(sx, 1, x, y)
@@ -2410,9 +2416,11 @@ class Matrix:
         if x == 0 and y == 0:
             self.pre_cat(Matrix.rotate(angle))
         else:
-            self.pre_translate(x, y)
-            self.pre_rotate(angle)
-            self.pre_translate(-x, -y)
+            matrix = Matrix()
+            matrix.pre_translate(x, y)
+            matrix.pre_rotate(angle)
+            matrix.pre_translate(-x, -y)
+            self.pre_cat(matrix)
 
     def pre_skew(self, angle_a=0.0, angle_b=0.0, x=0.0, y=0.0):
         if x is None:
@@ -2422,9 +2430,11 @@ class Matrix:
         if x == 0 and y == 0:
             self.pre_cat(Matrix.skew(angle_a, angle_b))
         else:
-            self.pre_translate(x, y)
-            self.pre_skew(angle_a, angle_b)
-            self.pre_translate(-x, -y)
+            matrix = Matrix()
+            matrix.pre_translate(x, y)
+            matrix.pre_skew(angle_a, angle_b)
+            matrix.pre_translate(-x, -y)
+            self.pre_cat(matrix)
 
     def pre_skew_x(self, angle_a=0.0, x=0.0, y=0.0):
         self.pre_skew(angle_a, 0, x, y)
-- 
2.43.0


From 30be6526f1ade9400a3236ff9f9ca07e01a6e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 65/71] fix: a transform text that is refused leaves the matrix
 as it was

---
 svgio/basic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 42c3207..391f4c8 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2108,6 +2108,13 @@ class Matrix:
         if not isinstance(transform_str, str):
             raise TypeError("Must provide a string to parse")
 
+        matrix = copy(self)
+        matrix._parse_functions(transform_str)
+        self.a, self.b, self.c = matrix.a, matrix.b, matrix.c
+        self.d, self.e, self.f = matrix.d, matrix.e, matrix.f
+        return self
+
+    def _parse_functions(self, transform_str):
         for sub_element in REGEX_TRANSFORM_TEMPLATE.findall(transform_str.lower()):
             name = sub_element[0]
             params = tuple(REGEX_TRANSFORM_PARAMETER.findall(sub_element[1]))
@@ -2188,7 +2195,6 @@ class Matrix:
                     self.pre_skew_y(angle_b, x_param, y_param)
                 except IndexError:
                     self.pre_skew_y(angle_b, x_param)
-        return self
 
     def render(
         self,
-- 
2.43.0


From 1ffa1ea3c728e9ae03f3a1f4c2fffb1faa0bc3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 66/71] fix: a transform with lengths still to be rendered
 moves no point

---
 svgio/basic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 391f4c8..1540f17 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2448,18 +2448,24 @@ class Matrix:
     def pre_skew_y(self, angle_b=0.0, x=0.0, y=0.0):
         self.pre_skew(0.0, angle_b, x, y)
 
+    def _require_rendered(self):
+        if isinstance(self.e, Length) or isinstance(self.f, Length):
+            raise ValueError("The lengths of this matrix must be rendered first.")
+
     def point_in_inverse_space(self, v0):
         inverse = Matrix(self)
         inverse.inverse()
         return inverse.point_in_matrix_space(v0)
 
     def point_in_matrix_space(self, v0):
+        self._require_rendered()
         return Point(
             v0[0] * self.a + v0[1] * self.c + 1 * self.e,
             v0[0] * self.b + v0[1] * self.d + 1 * self.f,
         )
 
     def transform_point(self, v):
+        self._require_rendered()
         nx = v[0] * self.a + v[1] * self.c + 1 * self.e
         ny = v[0] * self.b + v[1] * self.d + 1 * self.f
         v[0] = nx
-- 
2.43.0


From d76255d8d66d189359c92ce1b346b07ad27a7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 67/71] fix: what is no segment is refused before the path is
 changed

---
 svgio/path.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index e3aac1e..e05640e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2085,11 +2085,22 @@ class Path(MutableSequence):
                 if len(new_element) > 1:
                     raise ValueError  # Cannot insert multiple items into a single space. Requires slice.
                 new_element = new_element[0]
+        if isinstance(index, slice):
+            new_element = list(new_element)
+            Path._require_segments(new_element)
+        else:
+            Path._require_segments((new_element,))
         self._segments[index] = new_element
         self._length = None
         self._lengths = None
         self.validate_connections()
 
+    @staticmethod
+    def _require_segments(values):
+        for value in values:
+            if not isinstance(value, PathSegment):
+                raise TypeError("%r is not a path segment." % (value,))
+
     def __delitem__(self, index):
         del self._segments[index]
         self._length = None
@@ -2625,6 +2636,7 @@ class Path(MutableSequence):
                 self.extend(value)
                 return
             value = value[0]
+        Path._require_segments((value,))
         self._length = None
         index = len(self._segments) - 1
         self._segments.append(value)
@@ -2638,6 +2650,7 @@ class Path(MutableSequence):
             if len(value) == 0:
                 return
             value = value[0]
+        Path._require_segments((value,))
         self._length = None
         self._segments.insert(index, value)
         self.validate_connections()
@@ -2646,6 +2659,7 @@ class Path(MutableSequence):
         if isinstance(iterable, str):
             iterable = Path(iterable)
         iterable = list(iterable)  # may fail, or read this path.
+        Path._require_segments(iterable)
         self._length = None
         self._segments.extend(iterable)
         self.validate_connections()
-- 
2.43.0


From 6a0e30ea0629b5881d9f5be51d9fcd71a87b0a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 68/71] fix: positions just before the end of a path are not
 missed

---
 svgio/path.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index e05640e..eab929e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2225,8 +2225,10 @@ class Path(MutableSequence):
             xy[position_subset] = c[:]
             segment_start = segment_end
 
-        # the loop above will miss position == 1
-        xy[positions == 1] = np.array(list(segments[-1].end))
+        # the loop above will miss position == 1, and those the sum of the lengths does not reach by rounding.
+        xy[(positions >= segment_start) | (positions == 1)] = np.array(
+            list(segments[-1].end)
+        )
         return xy
 
     def point(self, position, error=ERROR):
@@ -2266,6 +2268,8 @@ class Path(MutableSequence):
                 segment_pos = (position - segment_start) / (segment_end - segment_start)
                 break
             segment_start = segment_end
+        else:
+            segment_pos = 1.0  # by rounding, the lengths do not add up to the whole.
         return segment.point(segment_pos)
 
     def length(self, error=ERROR, min_depth=MIN_DEPTH):
-- 
2.43.0


From 182b427a0408616e319b49a575da9293528f63ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 69/71] fix: every point given to a drawing method is relative
 when asked

---
 svgio/path.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index eab929e..b861db5 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2496,7 +2496,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(points) > 1:
-            self.line(*points[1:])
+            self.line(*points[1:], relative=relative)
         return self
 
     def vertical(self, *y_points, **kwargs):
@@ -2542,7 +2542,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 1:
-            self.smooth_quad(*points[1:])
+            self.smooth_quad(*points[1:], relative=relative)
         return self
 
     def quad(self, *points, **kwargs):
@@ -2559,7 +2559,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 2:
-            self.quad(*points[2:])
+            self.quad(*points[2:], relative=relative)
         return self
 
     def smooth_cubic(self, *points, **kwargs):
@@ -2582,7 +2582,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 2:
-            self.smooth_cubic(*points[2:])
+            self.smooth_cubic(*points[2:], relative=relative)
         return self
 
     def cubic(self, *points, **kwargs):
@@ -2602,7 +2602,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 3:
-            self.cubic(*points[3:])
+            self.cubic(*points[3:], relative=relative)
         return self
 
     def arc(self, *arc_args, **kwargs):
@@ -2620,7 +2620,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(arc_args) > 6:
-            self.arc(*arc_args[6:])
+            self.arc(*arc_args[6:], relative=relative)
         return self
 
     def closed(self, relative=False):
-- 
2.43.0


From a8e187c3860b3a5be2599786aa1611500797886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 70/71] fix: what repr shows of a path makes that path again

---
 svgio/path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index b861db5..79f6b76 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2143,7 +2143,10 @@ class Path(MutableSequence):
         return self.d()
 
     def __repr__(self):
-        return "%s(%s)" % (self.__class__.__name__, self.d())
+        return "%s(%s)" % (
+            self.__class__.__name__,
+            ", ".join(repr(x) for x in self._segments),
+        )
 
     def __eq__(self, other):
         if isinstance(other, str):
-- 
2.43.0


From 3d00cfd165859f6336f45af292fe3a5d67198c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 71/71] fix: a circle's position is its centre

---
 svgio/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 71111c2..ccbc46c 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1120,8 +1120,8 @@ class Circle(_RoundShape):
 
     def __init__(self, *args, **kwargs):
         try:
-            kwargs[SVG_ATTR_X] = args[0]
-            kwargs[SVG_ATTR_Y] = args[1]
+            kwargs[SVG_ATTR_CENTER_X] = args[0]
+            kwargs[SVG_ATTR_CENTER_Y] = args[1]
             kwargs[SVG_ATTR_RADIUS] = args[2]
         except IndexError:
             pass
-- 
2.43.0

