#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (edit here, not there)."""
import json, os
N="svgio/nodes.py"; P="svgio/path.py"; B="svgio/basic.py"
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    return {"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":hook}}
L=[]
L.append(prop("C01","Loading builds exactly the source's element tree, however the source arrives",
 "Loading any well-formed SVG yields a tree with every source element exactly once, in source order and nesting, as the element kind its tag names (elements outside the SVG namespace or without a kind of their own keep their name), with exactly its attributes and its non-blank character data, reachable by its id. This is independent of how the source is delivered: file name, byte or text stream, reads of any size at any boundary, any XML encoding, namespace prefixing, comments, CDATA or entities. At every moment of the load the tree built so far is a prefix of the source.",
 ["inputs","schedules"],"every well-formed source of the generated grammar (all element kinds, foreign elements, nesting, mixed content, encodings, namespace styles) and every partition of its bytes or characters into reads",
 "The tests load a handful of small in-memory strings in one read; they never deliver a source in pieces and never compare the whole tree.",
 [N],[("incremental event loop building the tree","svgio/nodes.py Node.parse"),("tag to class table","svgio/nodes.py BOOTSTRAP")],
 [("document tree","elements loaded so far","Node (list of children), attributes"),("id index","id to element","Document.objects")],
 ["Document(source), Document.parse/read, Node.parse","Document.get_element_by_id","str(element)"]))
L.append(prop("C02","A failed load is reported and leaves only a consistent prefix of the source",
 "When a source fails during loading (it cannot be opened, a read raises at any point, the data ends early, is malformed or undecodable, or reading is interrupted), the load call raises; an interruption arrives as itself. What was added to the document is exactly the elements of some prefix of the source, correctly nested with complete attributes, every id that can be looked up belongs to an element of the tree, and files the library opened are closed. The document stays usable: it can be edited and saved, and a later load into it is not affected by the failed one.",
 ["fault_sequences","inputs","crash_points"],"every read boundary of every generated source x every failure kind (I/O error, premature end, corruption, interruption, failure to open), and sequences of such failures on one document",
 "No test makes a source fail; the failing read, its position and what was already built are a fault space, not an input.",
 [N],[("incremental event loop","svgio/nodes.py Node.parse"),("registration of ids during the load","svgio/nodes.py Node.parse")],
 [("partial tree","elements attached before the failure","Node children"),("id index","ids registered before the failure","Document.objects")],
 ["exception of the load call","tree and get_element_by_id afterwards","open files","a later load, edit and save"]))
L.append(prop("C03","Saving writes the whole document or reports the failure",
 "If saving returns normally, the file holds one complete well-formed XML document equal to the in-memory tree, whatever the platform's default text encoding; if anything goes wrong (the target cannot be opened, the disk fills or fails at any byte, closing fails, a value cannot be serialised, an interruption arrives) the save raises. A save that fails before writing begins (a value cannot be serialised, the target cannot be opened) leaves an existing file unchanged. In every case the in-memory document is unchanged, the file handle is closed, and saving again once the fault is gone produces the complete file.",
 ["fault_sequences","crash_points","inputs"],"every generated document x every disk fault kind at every byte offset, open and close faults, unserialisable values, default encodings, and sequences of failing and successful saves to one target",
 "No test saves to disk at all; disk faults, their offsets and the platform encoding are outside what example-based tests vary.",
 [N],[("save","svgio/nodes.py Document.write"),("serialisation","svgio/nodes.py Node.xml")],
 [("target file","previous or new content on disk","file system")],
 ["return or exception of Document.write","bytes of the target","open files","document after the call"]))
L.append(prop("C04","Edit, save and reopen histories lose nothing",
 "Over any history of building, loading, editing, saving and reopening (including restarts where only the saved file survives, and saves that failed and were repeated), a reopened document has the same elements with the same names in the same order and nesting, the same attributes with the same (text) values, and the same non-blank character data as the document that was saved. Saving does not change the document, and saving a reopened document again gives an equal document.",
 ["histories","crash_points","fault_sequences"],"every bounded sequence of load, build, edit, move, delete, attribute change, fragment append, save (possibly failing), restart and reopen over generated documents, with any XML-legal names and values",
 "Tests look at single constructed elements; equality after a multi-step history with restarts is a statement over histories.",
 [N],[("serialisation","svgio/nodes.py Node.xml"),("load","svgio/nodes.py Node.parse"),("element builders","svgio/nodes.py ElementBuilder")],
 [("document tree","current elements, attributes and text","Node"),("saved file","last successfully saved document","file system")],
 ["tree of the reopened document against the reference model"]))
L.append(prop("C05","Resolved values, navigation and id lookup follow the current tree",
 "After any history of edits (elements built with attributes given by name or position, attributes set or removed, elements deleted or moved, fragments appended even when their load fails), resolved properties reflect the tree as it is now: the nearest element that sets a property, the element itself first, decides its value, including paint colours combined with their opacity. First, last, next and previous child and sibling, parent, ancestors and owner document agree with the current tree, for elements that look alike too. An attached element is found by the id it was added with.",
 ["histories","schedules"],"every bounded interleaving of editing and reading clients over generated trees, with values set at any depth",
 "The tests read a property once on a fixed tree; staleness only shows after particular edit sequences.",
 [N],[("value cascade","svgio/nodes.py Document.get_values / get_ancestors"),("paint properties","svgio/nodes.py GraphicalElement"),("sibling navigation","svgio/nodes.py Node"),("builders and fragments","svgio/nodes.py ElementBuilder, Node.parse")],
 [("attributes","own values of each element","Node.attributes"),("tree links","children and parent","Node list, Node.parent")],
 ["fill, stroke, stroke_width, opacity, geometry properties, Document.get_values, DOM navigation, get_element_by_id"]))
L.append(prop("C06","Every path edit keeps the segment list exact and connected",
 "After any history of edits of a path through itself or its subpaths (append, insert, assign, delete, slices, extend, +, +=, pop, reverse, closing directly, transforming or reversing a subpath, replacing arcs by curves), the path holds exactly the segments that list semantics say, each segment starts where the previous one ends, and each close returns to the start of its subpath. An assignment, insertion or deletion rejected for a bad index, bad path data, a wrong number of segments or something that is no segment leaves the path as it was. Copies and sums of paths share no segments with the originals. Paths and subpaths are equal exactly when their segments are.",
 ["histories"],"every bounded edit sequence over generated paths (paths to be reversed start with a move and every close ends its subpath), indices positive, negative and out of range, segments given as objects or path data, linked or not",
 "Tests perform one or two edits on fixed paths; link corruption appears only after particular combinations (negative index, close in the middle, reversal after an edit).",
 [P],[("editing operations","svgio/path.py Path.__setitem__/__delitem__/insert/extend/append/reverse, Subpath"),("relinking","svgio/path.py Path.validate_connections")],
 [("segments","ordered segments of the path","Path"),("segment points","start, end and control points","PathSegment")],
 ["segments of the path after every operation against the reference model"]))
L.append(prop("C07","Path measurements are never stale",
 "The length of a path, and the points found at positions along it, always equal those of a freshly built path with the same segments, after any history of edits through the path or its subpaths and of earlier measurements, including edits that were rejected and measurements that were interrupted or failed.",
 ["histories","fault_sequences","crash_points"],"every bounded sequence of edits, measurements, rejected edits and measurements aborted at any point",
 "A stale measurement needs a measurement, then an edit, then a measurement; tests measure fixed paths once.",
 [P],[("length cache","svgio/path.py Path._calc_lengths"),("invalidations in every editing operation","svgio/path.py Path, Subpath")],
 [("measured lengths","cached total and per-segment share","Path._length, Path._lengths")],
 ["Path.length, Path.point, Path.npoint"]))
L.append(prop("C08","Path data arriving in pieces gives the same path as all at once",
 "Giving path data to a path in pieces split at command boundaries, by any mix of +=, parsing and the drawing methods, produces exactly the path that the whole data gives at once: relative commands continue from the current point, smooth commands from the previous curve, closes return to the subpath's start. A piece rejected as malformed raises and leaves the earlier pieces plus only complete leading commands of the bad piece, and the path then accepts further pieces as if those complete commands had been given alone.",
 ["inputs","schedules","fault_sequences"],"every generated path data, every partition at command boundaries, every assignment of pieces to the ways of giving them, and malformed pieces at any point",
 "Tests parse whole strings; the partition and a rejected piece in the middle are not sampled.",
 [P],[("path data reader","svgio/path.py PathLexicalParser"),("drawing methods","svgio/path.py Path.move/line/.../closed"),("current, smooth and close points","svgio/path.py Path.current_point/smooth_point/z_point")],
 [("segments","commands so far","Path")],
 ["segments after every piece against one-shot parsing and a reference interpreter"]))
L.append(prop("C09","Concurrent and interleaved readers of one object do not disturb each other",
 "Any number of threads or lazily consumed iterations reading the same document, path, segment, matrix, colour, length or view box, in any interleaving, each get exactly the answers they would get alone, never an error, and leave the object unchanged.",
 ["schedules"],"every interleaving (switch points between any two lines or instructions of the library) of reading clients over the generated objects, and every interleaving of partially consumed iterators",
 "Tests are single threaded and consume each iterator at once; a lost position or half-published cache needs a specific interleaving.",
 [P,N,B],[("iteration over points, segments and subpaths","svgio/path.py"),("lazily computed lengths","svgio/path.py Path._calc_lengths"),("resolved values","svgio/nodes.py Document.get_values")],
 [("lazily filled caches","measured lengths","Path")],
 ["answers of every reader, the object afterwards"]))
L.append(prop("C10","Work on separate objects is independent",
 "Clients that each load, build, edit, measure and save their own documents, paths and values, in any interleaving of threads and whatever was done before with other objects, get exactly the results they would get alone in a fresh process, including when their objects are copies of a common original; the original and the other copies are unaffected, and the settings the whole process shares (recursion limit, numpy's error handling, working directory, random state) are afterwards what they were.",
 ["schedules","histories"],"every interleaving of 2 to 4 generated client programs over separate objects and copies, sequential and preempted at any line",
 "Each test uses one object at a time; shared defaults, shared parsers or memos only show across objects and interleavings.",
 [P,N,B],[("readers of path data, colours, lengths and transforms","svgio/path.py, svgio/basic.py"),("load","svgio/nodes.py Node.parse"),("copying","svgio/path.py Path.__copy__, svgio/basic.py")],
 [("module and class level state","anything shared between objects","svgio modules")],
 ["transcript of every client against its transcript alone"]))
L.append(prop("C11","An interruption during a query reaches the caller and damages nothing",
 "A keyboard interrupt or exit request arriving at any point of a query (measuring, evaluating, converting, printing, resolving values, navigating) on a document, path, segment or value reaches the caller as itself, is not swallowed by a fallback, leaves the object and the settings the whole process shares as they were, and the query repeated gives the right answer.",
 ["crash_points"],"every generated object x every query of the catalogue x every line of the library executed by it as interruption point, repeated interruptions included",
 "Tests never interrupt a call; the interruption point is a crash-point quantifier.",
 [P,N,B],[("fallbacks around accelerated code","svgio/path.py length methods"),("lazily computed lengths","svgio/path.py Path._calc_lengths")],
 [("caches","measured lengths","Path")],
 ["exception seen by the caller, the object afterwards, the repeated query"]))
L.append(prop("C12","Optional accelerators can be missing or fail at any time",
 "Lengths of segments and paths and the points along them agree within numerical tolerance whether numpy and scipy are present, are absent from the start, disappear or return part-way through a history, or scipy's routines are unavailable or fail, and no such query raises because an accelerator is missing or fails (a numpy that imports is taken to work).",
 ["fault_sequences","configurations"],"every generated segment and path x every availability schedule of the two accelerators (absent from the start, lost or regained between queries, failing calls)",
 "The test run has one fixed configuration; the fall-back code runs only when an accelerator is missing.",
 [P],[("fallbacks","svgio/path.py npoint, length, _length_scipy, _exact_length")],
 [("accelerator availability","importability and health of numpy and scipy","process environment")],
 ["length, point and npoint of segments and paths under each configuration and against closed-form reference"]))
L.append(prop("C13","A path that survives only as its text comes back the same",
 "Over any history of edits, scalings and restarts after which only a path's text is left (written whole, by subpath, segment by segment, or as what repr shows; absolute, relative or each segment as it came; with smooth commands or without; as a string, as the data of a path element, or in a saved document whose earlier saves failed), the path read back has the same segments with the same points, and arcs follow the same curve within the precision they are written with. The form asked for is the form written, one command per segment, and reading keeps it. Text torn at any character yields the complete commands before the tear unchanged. Writing does not change the path.",
 ["histories","crash_points","inputs"],"every bounded history of edits, scalings by many orders of magnitude, writes in every form and medium, restarts and torn texts, over paths that start with a move and whose arcs lie on their ellipse",
 "Tests print and read fixed strings; a flag or a control point lost in one round shows only after further edits and further rounds.",
 [P,B],[("writing","svgio/path.py Path.svg_d, PathSegment.d, Subpath.d"),("reading","svgio/path.py PathLexicalParser"),("number text","svgio/basic.py Point.__str__")],
 [("segments","what the text must stand for","Path"),("relative and smooth flags","form each segment came in","PathSegment")],
 ["Path.d, Subpath.d, PathSegment.d, str, Path(text), path element d, Document.write and load"]))
L.append(prop("C14","Transforms compose, apply and invert exactly over any history",
 "Over any history of operations on shared transform matrices (built from transform texts, components or other matrices; extended after or before by translating, scaling, rotating, skewing, about any centre; multiplied in place or into new ones; inverted, reset, copied, edited; kept only as text through restarts), every matrix is the composition of its parts: in A*B the effect of A comes first, post_ operations come after and pre_ operations before, a transform text applies its last function first. Applying it to points, segments, subpaths and paths moves every defining point by exactly that map; composing with the inverse leaves nothing; operands and originals are unchanged unless the operation is in place. Malformed texts, wrong operands and singular inverses are rejected and leave everything unchanged.",
 ["histories","inputs","fault_sequences"],"every bounded history of matrix operations by clients sharing matrices, over generated transform texts (all functions, units, separators, number forms), with rejected operands and restarts in between",
 "Tests apply one or two operations to fixed matrices; order, aliasing and in-place effects show only along histories.",
 [B,P],[("composition","svgio/basic.py Matrix.__imatmul__, post_*, pre_*, matrix_multiply"),("transform texts","svgio/basic.py Matrix.parse"),("application","svgio/basic.py Matrix.point_in_matrix_space, svgio/path.py __imul__, __imatmul__")],
 [("coefficients","the affine map","Matrix.a..f")],["coefficients, determinant, flags, transformed points, segments and paths, equality"]))
L.append(prop("C15","A colour keeps its channels through any history",
 "A colour is its four channels, or no colour. Read from any text (hex of 3, 4, 6 or 8 digits, rgb and rgba numbers or percentages, hsl and hsla with any hue, CSS keywords in any case, none, transparent; as fill or stroke with an opacity of its own) it has the channels CSS defines, values out of range clamped. Over any history of edits, setting one channel or the opacity changes only that; setting hue (in degrees), saturation or lightness keeps the other two and the opacity, up to the 8 bits of a channel; packed values set all they hold. All views (components, packed numbers, hex, hue, saturation, lightness, luminance) agree with the channels after every step. A colour made again from its own text, hex, number or a saved document is the same; copies and colours read from elements are independent; equality compares channels; composing follows the over operation, distances are symmetric and nothing only between colours of the same red, green and blue, distinct colours do not repeat. Wrong values and changes of no colour's channels are refused and change nothing.",
 ["histories","inputs","fault_sequences"],"every bounded history of operations by clients sharing colours, over generated colour texts, numbers and components, with refused values and restarts in between",
 "Tests set one channel of fixed colours; a lost opacity or a shifted hue shows only when edits follow each other and other colours come in.",
 [B,N],[("texts","svgio/basic.py Color.parse"),("edits","svgio/basic.py Color setters"),("paint","svgio/nodes.py GraphicalElement.fill, stroke")],
 [("channels","red, green, blue, alpha","Color.value")],["all properties of Color, str, repr, int, equality, over, distance, distinct, fill and stroke of elements"]))
L.append(prop("C16","Lengths keep their measure over any history",
 "Over any history of operations on shared lengths (read from text in any unit, made from numbers or other lengths; added, subtracted, scaled, divided, negated, summed, in place or into new ones, with operands given as lengths, texts or numbers on either side), every length measures what the exact arithmetic of the units says, in the unit of the side that decides it; operands and other lengths are unchanged. Comparisons, sorting, ratios and equality follow the measures; lengths of different kinds are never equal. Resolved with a resolution, a font, a reference length or a view box, alone or in a lazily rendered transform, a length gives its measure in pixels; without the context it needs it stays as it is. Converting to mm, cm or inches keeps the measure. Incompatible operands are refused and change nothing. A length made again from its own text, pair or a saved document is the same.",
 ["histories","inputs","fault_sequences"],"every bounded history of operations by clients sharing lengths of all units, with every context given or missing, refused operands and restarts in between",
 "Tests compare a few fixed lengths; a wrong factor or a changed operand shows only when units mix along a history.",
 [B],[("arithmetic","svgio/basic.py Length.__iadd__, __imul__, __truediv__, comparisons"),("resolution","svgio/basic.py Length.value, to_mm, to_cm, to_inch, in_pixels, in_inches"),("lazy transforms","svgio/basic.py Matrix.render")],
 [("measure","amount and unit","Length")],["amount and units, value, conversions, comparisons, str, repr, rendered matrices"]))
L.append(prop("C17","Bounding boxes hold the geometry as it is now, tightly",
 "Over any history of edits of a path (through itself, its subpaths, its drawing methods, or single points of its segments changed in place), with rejected edits and accelerators lost and regained in between, the bounding box of a segment, a subpath or a path element contains all points of the geometry as it is then and touches it on every side, its sides are ordered, moves add nothing to it, and asking for it changes nothing.",
 ["histories","configurations","inputs"],"every bounded edit history of paths of all segment kinds, including curves of lower degree, with questions at any point, x availability of numpy",
 "Tests ask for boxes of a few fixed segments; subpaths after edits, curves whose higher terms vanish and later subpaths are not sampled.",
 [P,N],[("segments","svgio/path.py bbox methods, CubicBezier._real_minmax"),("subpaths","svgio/path.py Subpath.bbox"),("elements","svgio/nodes.py Shape.bbox")],
 [("segments","the geometry","Path._segments")],["bbox of segments, subpaths and path elements"]))
L.append(prop("C18","An arc stays on its ellipse through any history",
 "An arc made through any of its parameterisations (svg flags, centre, control point, radius, bulge, sagitta, quarter, native axes with a sweep, path data) runs from its start to its end along the ellipse that the parameterisation names, on the named side. It stays exactly on the image of that ellipse, with perpendicular axes, through any history of transforms (alone, in a subpath or path, mirroring and skewing included), reversals and copies, and when it is made again from its own description (native values, svg values, text, repr). Points, parameters, angles, length, bounding box and curves cut from it agree with that ellipse, whether or not the accelerators are present.",
 ["histories","configurations","inputs"],"every generated parameterisation x bounded history of transforms, reversals, copies, re-descriptions and cuttings x availability of numpy and scipy, radii with a ratio under 300",
 "Tests sample single fixed arcs, with transforms that keep the axes; a wrong side or a lost axis shows after mirroring, skewing or re-describing.",
 [P],[("parameterisations","svgio/path.py Arc.__init__, _svg_parameterize"),("transforms","svgio/path.py Arc.__imul__"),("points and curves","svgio/path.py Arc.npoint, point_at_t, t_at_point, as_quad_curves, as_cubic_curves, bbox")],
 [("ellipse","centre, axes and sweep","Arc.center, prx, pry, sweep")],["points, start and end, radii, sweep, bbox, length, curves"]))
L.append(prop("C19","A view box maps onto its viewport as both are now",
 "Over any history of view boxes set from text, attributes or other boxes, realigned, copied, edited, of viewports resized, moved or left without a size, and of restarts that leave only the text or a saved document, the transform of a box maps it onto the viewport by the SVG rules of preserveAspectRatio: with none the corners meet; otherwise the scale is uniform, one side fits, meet stays within and slice covers the viewport, and the named edge or middle of the box comes to that of the viewport on each axis. Without a box or a full viewport there is none. A text that names no complete box changes nothing, boxes made from others are independent, and asking changes nothing.",
 ["histories","inputs","fault_sequences"],"every bounded history of operations by clients sharing view boxes and viewports, over generated boxes, sizes and all alignments, with malformed boxes and restarts in between",
 "Tests ask for three fixed transforms; a half-taken box or a stale alignment shows only along a history.",
 [B,N],[("view box","svgio/basic.py Viewbox.viewbox_transform"),("setting","svgio/basic.py Viewbox.set_viewbox, property_by_values, property_by_object")],
 [("box and alignment","what maps onto the viewport","Viewbox")],["x, y, width, height, preserve_aspect_ratio, transform, str"]))
L.append(prop("C20","Shape elements denote the geometry SVG defines for them",
 "Basic shapes yield the path segments that the SVG equivalent-path rules define, under their transforms.",
 ["inputs"],"every shape and transform","Most rendering tests of the repository fail: rendering is unfinished.",[N],[("segments of shapes","svgio/nodes.py Shape.segments")],(),["segments, d, bbox of shapes"]))
L.append(prop("C21","Points and angles stay exact through any history",
 "Over any history of operations on shared points (made from pairs, complex numbers, texts or other points; added, subtracted, multiplied with points, pairs, complex or real numbers on either side, transformed, moved towards or reflected across others, moved along an angle, in place or into new ones), every point is the complex number that exact arithmetic says; operands and other points are unchanged, results are points of their own. Operands that cannot be used are refused and change nothing. Equality is closeness of both coordinates, distances, angles, arguments, orientation, convex hulls (in a line too) and closest points on lines follow their definitions, with or without numpy. Angles convert between their units, texts included, and are equal exactly when whole turns apart. A point made again from its own text, representation, complex number or a saved document is the same.",
 ["histories","inputs","configurations"],"every bounded history of operations by clients sharing points, over generated operands of every accepted kind, with refused operands, restarts and lost accelerators in between",
 "Tests use a handful of points; half-done refusals, points in a line and angles a turn apart are not sampled.",
 [B,P],[("points","svgio/basic.py Point"),("angles","svgio/basic.py Angle"),("closest point","svgio/path.py Linear.closest_segment_point")],
 [("coordinates","where a point is","Point.x, y")],["x, y, indexing, complex, arithmetic, str, repr; Angle conversions and equality"]))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in L: f.write(json.dumps(p)+"\n")
import re
for p in L:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(L))
