#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long strings stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
PA = "src/parser.rs"
ACC = "verif_hooks (read-only accessors to the parsed scene's private fields)"
COR = "verif_hooks (re-export of the private core module)"

p("C01", "Parsing any text returns a result: no panic, abort or stack overflow",
  "For every input text, however long, deeply nested, malformed or non-ASCII, parsing a scene returns either a scene or an error value; it never panics, never overflows an integer and never exhausts the 2 MiB stack of an ordinary thread. The verdict (accepted or refused) is the same in debug and in optimised builds.",
  ["inputs", "configurations"], "all UTF-8 texts (comment runs, block nesting, numeric literals and lists of any length), both float precisions, debug and release builds",
  "The tests feed about 30 short fixed strings; none has a big exponent, a long comment run or deep nesting, and a unit test cannot survive a stack overflow to report it.",
  [PA], [("number scanning with checked arithmetic", "Tokenizer::tokenize_num"), ("comment and blank skipping without recursion", "Tokenizer::tokenize_one"), ("bounded block nesting", "Parser::parse_directive and the block parser")],
  [("char cursor", "next unread character", "Tokenizer.index"), ("token cursor", "next unread token", "Parser.index")],
  ["Parser::parse return / panic / process death"], None)

p("C02", "Numbers in a scene keep the value that was written",
  "Every integer literal that fits 64 bits (with optional sign and non-negative decimal exponent) is delivered exactly, and every decimal literal (leading or trailing point, sign, positive or negative exponent) is delivered as the value it denotes rounded to the configured precision, never as another finite number or NaN. An integer-typed parameter accepts only integer-valued literals without a decimal point or negative exponent; a float-typed one accepts both kinds. This holds in the 32-bit and in the 64-bit float configuration.",
  ["inputs", "configurations"], "all numeric literals [+-]?(d+|d+.d*|.d+)(e[+-]?d+)? at every place a scene takes a number, in both precisions",
  "Six literals are tested; the space of mantissas and exponents (overflow, underflow, zero mantissa, extreme exponents, 64-bit limits) is never sampled, and the 64-bit configuration is never run.",
  [PA, "src/core/mod.rs"], [("literal scanning and conversion", "Tokenizer::tokenize_num"), ("integer-to-float widening", "Parser::parse_float"), ("integer-only acceptance", "Parser::parse_int")],
  (), ["values of parameters and transform directives in the parsed scene"], ACC)

p("C03", "Quoted strings and names survive parsing character for character",
  "Every quoted string in a scene (directive types, texture names, include paths, string/texture/spectrum-file values, parameter names) is delivered with exactly the characters written between the quotes, where backslash-n denotes a newline, backslash before any other character denotes that character, and CR LF counts as LF. Comment signs, brackets, quotes (escaped), line breaks and non-ASCII characters inside a string have no syntactic effect. Type and name of a parameter declaration are its two whitespace-separated words.",
  ["inputs"], "all strings over Unicode, any escape sequence, at every place a string may occur",
  "No test contains an escape, a '#', a bracket, a line break or a non-ASCII character inside a string.",
  [PA], [("string scanning and unescaping", "Tokenizer::tokenize_str"), ("declaration split", "Parser::parse_param_list"), ("line-ending normalisation", "Tokenizer::new")],
  (), ["strings in the parsed scene"], ACC)

p("C04", "Every directive of the world appears once, in order, at its nesting level",
  "For every well-formed scene, the parsed world contains exactly the directives written between WorldBegin and its WorldEnd: each one once, with its own kind and strings, in source order, inside exactly the attribute/transform blocks that enclose it in the text. A block extends from its Begin to its own matching End, so directives that follow a closed block belong to the enclosing block and are not lost.",
  ["inputs", "programs"], "all well-formed scenes: any sequence and nesting (to depth 64) of materials, shapes, lights, area lights, textures, includes, attribute and transform blocks",
  "The two block tests have one nested block each, with nothing after it; siblings after a block, repeated, empty and deep blocks are never parsed.",
  [PA], [("directive loop and block closing", "Parser::parse_directives / parse_directive")],
  [("children", "directives of a block in order", "BlockStruct.children")], ["the World directive returned by parsing"], ACC)

p("C05", "Every parameter is kept once, under its declared type, with its values",
  "For every well-formed directive, each declared parameter appears exactly once in the collection for its declared type (bool, integer, float, point2, vector2, string, rgb/xyz/blackbody/sampled/file spectrum, texture), with its own name and all its values in the order written; nothing else appears. Parameters of the same type keep their source order, repeated names are all kept, and one value without brackets means the same as a one-element list for bool, integer, float and string.",
  ["inputs", "programs"], "all parameter lists: any number and mix of types, names and list lengths, on every directive kind that takes parameters",
  "Tests cover about ten single parameters; bool, vector2, xyz and blackbody are never parsed through a declaration, and no list is longer than six numbers.",
  [PA, "src/core/mod.rs"], [("type dispatch", "Parser::parse_param_list"), ("list parsing", "Parser::parse_list / parse_list_of_n / parse_one_or_list / parse_n"), ("spectrum pairing", "Parser::parse_spectrum")],
  [("param_set", "per-type parameter vectors", "ParamSet")], ["parameter sets in the parsed scene"], ACC)

p("C06", "Scene-wide options and transforms before the world keep kind and operands",
  "For every well-formed scene, the list of options before WorldBegin holds one entry per option directive in source order, each of the kind written: translate/scale/rotate/look-at/transform/concat-transform/transform-times carry their numbers in the written order (rotate: angle then axis; nine-number matrices row by row), coordinate-system directives and includes their string, active-transform its identifier, and camera/sampler/film/filter/integrator/accelerator their type and parameters.",
  ["inputs", "programs"], "all sequences of the 18 option directives with any operands",
  "Tests exercise Include, LookAt, Translate, Camera, Sampler, Integrator and Film once each with one operand tuple; the other eleven kinds and all operand permutations are untested.",
  [PA], [("option dispatch", "Parser::parse_predirective"), ("option loop", "Parser::parse_predirectives")],
  (), ["the option list returned by parsing"], ACC)

p("C07", "Malformed scenes are refused, never partially accepted; well-formed accepted",
  "A scene with a wrong operand count, a value of the wrong type, a missing or stray bracket, an empty or wrongly sized list, a declaration that is not 'type name', an unknown directive or parameter type, a block that is unclosed or closed by another kind of End, a missing value, an unterminated string, a character that begins no token or a truncated end is refused with an error as a whole; no part of it is silently skipped or repaired. A scene without such a defect (blocks nested at most 64 deep) is accepted. What follows the WorldEnd that closes the world is outside this property.",
  ["inputs", "programs"], "all scenes one or more token edits (delete, insert, duplicate, swap, retype, truncate) away from a well-formed scene",
  "Seven tests check rejection, all on stand-alone value lists; none checks that a defect inside a whole scene surfaces instead of being swallowed by the surrounding directive.",
  [PA], [("parameter-list loop must propagate errors", "Parser::parse_param_lists"), ("operand counts", "Parser::parse_predirective"), ("block terminators", "Parser::parse_directives"), ("bracket and count checks", "Parser::parse_list / parse_list_of_n")],
  (), ["Ok/Err of parsing"], ACC)

p("C08", "Reported source positions are the true row and column",
  "Every directive, block and parameter of a parsed scene carries the 1-based row and column of its first character in the source text: rows are separated by LF or CR LF (each one row), a column is one Unicode character (tabs and wide characters included). Comments, strings with line breaks and any mixture of line endings before it do not disturb the position.",
  ["inputs"], "all well-formed scenes in any layout: line endings, tabs, comments, multi-line strings, non-ASCII text, long lines and many rows",
  "Tests check positions in two short ASCII files with LF line endings and no multi-line strings.",
  [PA], [("row/column tracking", "Tokenizer::next"), ("token start capture", "Tokenizer::tokenize_*"), ("line-ending normalisation", "Tokenizer::new")],
  [("pos", "row/column of the next character", "Tokenizer.pos")], ["positions in the parsed scene"], ACC)

p("C09", "Layout and comments do not change what a scene means",
  "Two texts with the same sequence of tokens parse to the same scene (positions aside) or are both refused, whatever whitespace, line endings or comments separate the tokens, and whether or not neighbouring tokens that delimit themselves (brackets, strings, comments) are separated at all. A comment runs from '#' to the end of its line or of the file, whatever it contains.",
  ["inputs"], "all pairs of layouts of all token sequences, well-formed or not; Unicode whitespace, CR LF, empty and adjacent comments",
  "Only single-space and newline layouts with two trailing comments are tested; no test compares two layouts.",
  [PA], [("whitespace and comment skipping", "Tokenizer::tokenize_one")],
  (), ["parsed scene of re-laid-out texts"], ACC)

p("C10", "Results depend on the arguments only, across calls and threads",
  "Parsing a text and every math operation give the same result each time for the same arguments: regardless of which calls came before (successful, failing or panicking), how many threads call concurrently and in which order, and what the working directory, its files and the environment variables are. Concurrent use causes no data race.",
  ["histories", "schedules", "inputs"], "all call histories and thread interleavings of parses and math operations",
  "Each test makes one or two calls; none repeats a call after other calls or calls from several threads.",
  [PA, "src/core/matrix.rs", "src/core/vector.rs", "src/core/boundingbox.rs", "src/core/transform.rs"],
  [("no global or cached state", "whole crate")], (), ["results of repeated, shuffled and concurrent calls; race detector reports"], ACC)

p("C11", "Parsing cost grows linearly with the input",
  "The work (instructions executed), the memory allocated in total and the peak memory of a parse grow at most proportionally to the length of the text, for accepted and for refused inputs alike; in particular every parse terminates.",
  ["inputs"], "all families of growing inputs: comments, blanks, options, directives, parameters, list elements, string length, blocks, literals, and the same with an error at the end",
  "Tests run tiny inputs; growth is not observable on them.",
  [PA], [("single forward pass over characters and over tokens", "Tokenizer, Parser"), ("bounded look-ahead", "Parser::peek / set_index")],
  (), ["instruction counts, allocator event stream"], None)

M = "src/core/matrix.rs"
p("C12", "The inverse of an invertible 4x4 matrix is its inverse",
  "For every well-conditioned 4x4 matrix of floats or integers, of any scale, sign pattern and zero pattern (permuted, triangular, diagonal, dense), inversion returns a finite matrix whose product with the original, in either order, is the identity up to rounding proportional to the condition number. It never refuses such a matrix and does not modify its argument.",
  ["inputs", "configurations"], "all matrices with condition number up to 1e4 (32-bit) / 1e9 (64-bit) and entries scaled 1e-15..1e15; float and integer elements; all pivot orders; both precisions",
  "One matrix is tested; pivot orders (4!x4!), signs, scales and integer elements are not.",
  [M], [("Gauss-Jordan elimination with full pivoting", "Matrix4::inverse"), ("element swap", "mat4swap"), ("conversion of integer elements", "to_mat4f")],
  [("pivot bookkeeping", "row/column swapped at each step", "indxr, indxc, ipiv")], ["Matrix4::inverse result"], COR)

p("C13", "A matrix with a zero row or column is refused, not inverted to garbage",
  "Inverting a 4x4 matrix that has an all-zero row or column, wherever it is and whatever the finite other entries are, always stops with the singular-matrix panic and never returns a matrix; building a transform from it is refused alike. Later inversions are unaffected.",
  ["inputs"], "all matrices with at least one zero row or column, float and integer elements, both precisions",
  "No test inverts a singular matrix.",
  [M, "src/core/transform.rs"], [("pivot zero test", "Matrix4::inverse"), ("transform from matrix", "Transform::new_")],
  (), ["panic of Matrix4::inverse / Transform::new_"], COR)

p("C14", "Matrix sum, product, transpose and conversion are the mathematical ones",
  "For all 4x4 matrices, the sum, product and transpose have exactly the entries of the mathematical definition for integer elements and the same up to rounding for floats; the row/column of every entry is right for every position, indexing gives the rows and refuses an index above 3, and conversion to float keeps each entry in place. Hence products are associative with the identity neutral, and the transpose of a product is the reversed product of transposes.",
  ["inputs"], "all pairs of matrices over integers (without overflow) and floats",
  "One integer product is tested; sum, transpose, conversion and float products are not.",
  [M], [("entry-wise loops", "Matrix4 Add, Mul, Index, transpose; to_mat4f; mat4swap")], (), ["results of matrix operations"], COR)

T = "src/core/transform.rs"
p("C15", "A transform and its stored inverse always undo each other",
  "Every transform obtained from a matrix, a translation or a (non-zero) scale, and every inverse or transpose of such a transform, pairs a matrix with its true inverse: the product of the transform's matrix with its inverse's matrix is the identity up to rounding. Inverting twice or transposing twice gives back the same transform, and the matrices of translation and scale are the standard ones.",
  ["inputs", "histories"], "all translation vectors, non-zero scale factors (unequal, negative, tiny, huge), invertible matrices, and all sequences of inverse/transpose",
  "No test touches transforms.",
  [T, M], [("explicit inverse matrices", "Transform::translate / scale"), ("pair swapping", "Transform::inverse / transpose"), ("computed inverse", "Transform::new_")],
  [("m_inv", "stored inverse", "Transform.m_inv")], ["Transform.m and Transform::inverse().m"], COR)

p("C16", "Transforms act on vectors by their linear part and are classified truly",
  "Applying a transform to a vector of floats or integers multiplies it by the upper-left 3x3 part of the matrix, so translation leaves vectors unchanged, scale multiplies each axis by its factor, and the inverse transform undoes it. A transform is reported as identity exactly when its matrix is the identity; it is reported as scaling when some axis vector changes its squared length by more than 0.15%, and as not scaling when every axis vector keeps its squared length within 0.05% (rotations, reflections, permutations, translations).",
  ["inputs"], "all transforms and vectors; identities differing in one entry; scales on each axis alone",
  "No test touches transforms or vectors.",
  [T, "src/core/vector.rs", "src/core/mod.rs"], [("vector transform", "Vector3::transform"), ("identity test", "Transform::is_identity"), ("scale test", "Transform::has_scale, not_one")],
  (), ["transformed vectors, is_identity, has_scale"], COR)

V = ["src/core/vector.rs", "src/core/point.rs", "src/core/normal.rs"]
p("C17", "Vector, point and normal arithmetic is component-wise and consistent",
  "For vectors, points and normals of floats or integers, negation, sum, difference, scaling by a number and division by a number act on every component as in ordinary arithmetic, so that subtracting undoes adding and, for floats, dividing undoes multiplying (dividing integers, or a two-dimensional vector of either kind, by zero is refused); conversions between the kinds keep every component. Dot product, cross product, squared length and length are the mathematical ones (the cross product is perpendicular to both arguments, antisymmetric and right-handed). Absolute value, floor, ceiling and interpolation of points act per component, interpolation giving the end points at 0 and 1.",
  ["inputs"], "all component values without overflow, float and integer elements, by-value and by-reference forms, both precisions",
  "No test touches vectors, points or normals.",
  V, [("operator impls", "Add, Sub, Mul, Div, Neg, From for Vector2/Vector3/Point2/Point3/Normal3"), ("dot, cross, len, len_sq", "Vector3, Normal3"), ("lerp, floor, ceil, abs", "point.rs, core/mod.rs")],
  (), ["results of the operations"], COR)

p("C18", "Component minimum, maximum, ordering and indexing pick the right component",
  "For every vector, point or normal without NaN, component-wise minimum and maximum, the smallest and largest component, the index of the largest component, permutation and indexing refer to the right components whatever their order, signs, zeros or ties: the index of the largest component names a component equal to the largest, and an index out of range is refused. The minimum and maximum of any non-empty list of numbers are members of the list that bound it.",
  ["inputs"], "all component orders, ties and signs for 2- and 3-component kinds, float and integer elements; lists of any length",
  "No test touches these operations.",
  V + ["src/core/mod.rs"], [("pmin/pmax", "core/mod.rs"), ("max_dimension, permute, Index, min, max, min_component, max_component", "vector.rs, normal.rs, point.rs")],
  (), ["results of the operations"], COR)

p("C19", "Local frames are orthonormal and facing flips to the same hemisphere",
  "For every unit vector, the two companion vectors computed for it are of unit length, perpendicular to it and to each other, and form with it a right-handed frame (third = first cross second), including along and between the axes. Facing a vector or normal toward a reference returns it or its exact negation, whichever does not point away from the reference, and returns it unchanged when perpendicular.",
  ["inputs"], "all unit vectors (axes, diagonals, ties, tiny components, all octants) and all pairs for facing, float and integer elements",
  "No test touches these operations.",
  ["src/core/vector.rs", "src/core/normal.rs"], [("axis choice by magnitude", "coordinate_system"), ("sign of dot product", "face_forward")],
  (), ["returned frames and faced vectors"], COR)

B = "src/core/boundingbox.rs"
p("C20", "Bounding-box set operations agree with point membership",
  "For boxes built from any two corner points, in any order, a point is inside the intersection of two boxes exactly when it is inside both (so disjoint boxes give an empty intersection), the union is the smallest box containing both boxes (or the box and the point), two boxes overlap exactly when some point is inside both, and expanding by a non-negative amount moves each face outward by that amount. The eight corners are the eight distinct combinations of minimum and maximum coordinates, inclusive membership includes all faces, exclusive membership excludes exactly the maximum faces.",
  ["inputs"], "all pairs of boxes (nested, touching, disjoint on one or more axes, degenerate, identical) and all points, float and integer elements",
  "No test touches bounding boxes.",
  [B, "src/core/mod.rs"], [("corner sorting", "Bounds3::new"), ("intersect without re-sorting", "Bounds3::intersect"), ("union, overlaps, inside, inside_exclusive, expand, corner", "Bounds3")],
  (), ["results of box operations, membership of probe points"], COR)

p("C21", "Bounding-box measures and parametrisation are geometrically correct",
  "For every non-empty box the diagonal, surface area and volume are those of the cuboid, the longest-axis index names an axis of maximal extent, interpolation maps 0 and 1 of each axis to the minimum and maximum face, and the relative offset of a point is its inverse (with the plain difference on axes of zero extent). The bounding sphere is centred in the box and passes through its corners, so it contains the whole box; that of an empty box (minimum above maximum on some axis) has radius zero.",
  ["inputs"], "all boxes (cubes, flat, needle-like, negative coordinates, ties between axes) and all points, float and (for the polynomial measures and longest axis) integer elements",
  "No test touches bounding boxes.",
  [B], [("diagonal, surface_area, volume, maximum_extent, offset", "Bounds3"), ("lerp, bounding_sphere", "boundingbox.rs")],
  (), ["results of measures"], COR)

p("C22", "Iterating a 2D integer box visits each pixel once, row by row",
  "Iterating a two-dimensional integer box yields every integer point with min <= coordinate < max exactly once, x fastest then y, and nothing else; an empty or inverted box yields nothing. This holds for any corner coordinates, including negative ones and boxes one pixel wide or high, and however the iterator is consumed (counted, skipped, collected, its size estimated).",
  ["inputs"], "all integer boxes (sizes 0..64, any offset)",
  "No test iterates a box.",
  [B], [("pixel stepping", "Bounds2Iter::next"), ("start state", "Bounds2::into_iter")],
  [("x, y", "next pixel", "Bounds2Iter")], ["sequence of points yielded"], COR)

p("C23", "Rays evaluate to origin plus t times direction; differentials scale linearly",
  "A ray evaluated at any parameter t is its origin plus t times its direction; an unbounded ray has infinite extent, time zero and the given origin and direction. A fresh ray differential wraps the given ray and is marked as having no differentials. Scaling ray differentials by s keeps the main ray and that mark and moves each auxiliary origin and direction to main + s * (auxiliary - main), so factor 1 changes nothing, factor 0 collapses them onto the main ray and two scalings compose.",
  ["inputs", "histories"], "all origins, directions, parameters (zero, negative, large), and all sequences of scalings",
  "No test touches rays.",
  ["src/core/ray.rs"], [("evaluation", "Ray::at"), ("differential scaling", "RayDifferential::scale_differentials"), ("defaults", "Ray::new_infinite, RayDifferential::new")],
  (), ["evaluated points, differential fields"], COR)

p("C24", "No input makes the crate touch memory it does not own",
  "Whatever text is parsed and whatever numbers the math operations are given, the crate performs no out-of-bounds, use-after-free or uninitialised memory access, leaks no memory, and has no other undefined behaviour.",
  ["inputs"], "the parser on hostile texts (truncated at every character, random, mutated) and all math operations on extreme values",
  "Unit tests run uninstrumented: an invalid access that happens not to crash passes.",
  [PA, M, B, "src/core/vector.rs", "src/core/point.rs", "src/core/normal.rs"], [("bounds-checked access only", "whole crate (no unsafe code)")],
  (), ["AddressSanitizer / LeakSanitizer reports, Miri diagnostics"], ACC)

p("C25", "Syntax errors point at the offending place",
  "When a scene is refused because of an unexpected token or character, the error message contains, as '(row, column)', the 1-based position of that token or character; when it is refused because of a wrong number of operands, that of the directive. A scene whose token sequence merely ends too early is reported as ending too early ('EOF').",
  ["inputs"], "all scenes with one injected defect, in any layout",
  "One test checks an error position, on a one-line input.",
  [PA], [("position of the rejected token", "Parser::parse_* error arms"), ("position of the rejected character", "Tokenizer::tokenize_*")],
  (), ["error text returned by parsing"], ACC)

p("C26", "Scenes and values compare equal exactly when all their parts are equal",
  "Comparing two parsed scenes with == answers true exactly when they have the same options and directives in the same order and nesting, of the same kinds, with equal strings, numbers, parameters, values and positions (file paths compare as paths); != is its negation, the order of the operands does not matter and every parsed scene equals itself. Vectors, points, normals, matrices and transforms (NaN aside) are equal exactly when all their components are. A clone of a parameter or value has the same parts as its original.",
  ["inputs"], "all pairs of scenes, in particular pairs differing in a single character, value, kind, position or parameter, and all pairs of values differing in any one component",
  "Tests compare each parse result with the one expected value only; a comparison that ignores a field, or is too tolerant, makes such tests pass more easily.",
  [PA, "src/core/matrix.rs", "src/core/vector.rs", "src/core/point.rs", "src/core/normal.rs", "src/core/transform.rs", "src/core/mod.rs"],
  [("structural equality", "PartialEq of PreDirective, Directive, DirectiveStruct, TextureStruct, BlockStruct, ParamSet, Param, Pos, Spectrum"), ("component equality", "PartialEq of Vector*, Point*, Normal3, Matrix*, Transform")],
  (), ["results of == and != on parsed scenes and values"], ACC)

p("C27", "NaN coordinates are recognised; element limits and conversions are true",
  "A point is reported to contain NaN exactly when at least one of its three coordinates, whichever, is NaN (integer points never), and projecting a three-dimensional point to two dimensions is refused exactly then and otherwise keeps x and y unchanged. For both element types the smallest and largest value bound every (non-NaN) value of the type, infinities included, and converting an integer to an element or to a float keeps its value (rounded to the nearest float where it is not representable).",
  ["inputs", "configurations"], "all points over finite values, infinities, NaNs of any sign and payload; all 64-bit integers; both precisions",
  "No test touches these operations.",
  ["src/core/mod.rs", "src/core/point.rs"], [("NaN test", "HasNan for Point3, ElemType::is_nan"), ("projection", "From<Point3> for Point2"), ("limits and conversion", "ElemType::min_value, max_value, from_int; ToFloat::to_float; INFINITY")],
  (), ["results of the operations, refusal of the projection"], COR)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
