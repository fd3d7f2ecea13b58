P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None,
         observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "observe_at": observe or ["exit status, stderr and output file of a run"],
                     "hook_needed": None}}
    P.append((d, technique, note, na))


prop("P01", "A failing step fails the whole run",
     "Whenever any step of a run (command line, reading, parsing, importing, building the "
     "geometry, slicing, writing) reports a failure, the program ends with a non-zero status. "
     "No caller turns a reported failure into success, and no caller ignores a step's negative "
     "answer.",
     ["inputs", "fault_sequences"],
     "every input for which some step fails, at every nesting depth, in every step",
     "The tests run a few hundred valid inputs; almost none of the several hundred call sites "
     "that pass a failure upwards ever sees one.",
     ["src/hob3l/main.c", "src/hob3l/syn.c", "src/hob3l/scad.c", "src/hob3l/csg3.c",
      "src/hob3l/stl-parse.c", "src/hob3l/svg-parse.c", "src/hob3l/xml-parse.c",
      "src/hob3l/csg2-tree.c", "src/hob3l/csg2-bool.c", "src/hob3l/csg2-layer.c"],
     [("every step returns whether it succeeded and leaves a message in the error object",
       "all fallible functions of src/hob3l"),
      ("the entry point exits with failure when the pipeline fails", "main.c: main")],
     "interprocedural path-sensitive error-propagation analysis over clang CFGs",
     "Decides propagation on all CFG paths of all functions that take part in the error protocol "
     "(fixpoint of outcome summaries). Loops are explored to a fixpoint of the tracked facts.")

prop("P02", "A failed run says why, and a reported error is never followed by success",
     "Every run that fails prints an error message describing the failure to standard error "
     "before it ends with a non-zero status. Conversely, once a step has reported an error of "
     "severity 'failure', that step does not report success.",
     ["inputs", "fault_sequences"],
     "every input for which some step fails; every path on which a message is recorded",
     "Error paths are numerous and rarely exercised; a missing message or a success after an "
     "error only shows on the one malformed input that takes that path.",
     ["src/hob3l/main.c", "src/hob3l/syn-msg.c", "src/hob3l/scad.c", "src/hob3l/csg3.c",
      "src/hob3l/stl-parse.c", "src/hob3l/svg-parse.c", "src/hob3l/xml-parse.c"],
     [("message helpers that record the text and return failure or success by severity",
       "syn-msg.c"),
      ("the entry point prints the recorded message", "main.c: main")],
     "interprocedural path-sensitive outcome summaries (result x message recorded)",
     "Per function all (result, recorded) pairs over all CFG paths; the entry point's failing "
     "exits are checked for the print. Message wording is not judged.")

prop("P03", "Truncated output is never reported as success",
     "Every byte count that the output stream writes is compared with what the system accepted, "
     "and the run ends with success only after the output (file or standard output) was flushed or "
     "closed without an error. All output goes through that checked stream; an output that could "
     "not be written in full makes the run fail.",
     ["inputs", "fault_sequences"],
     "every write, flush and close failing at any point of any output",
     "Full disks and closed pipes do not occur in tests; a lost error shows only when a write fails.",
     ["src/hob3lbase/stream.c", "include/hob3lbase/stream.h", "src/hob3l/main.c"],
     [("stream sinks check the written count", "stream.c"),
      ("the entry point flushes and closes before it reports success", "main.c: main")],
     "path-sensitive typestate analysis of write results and of the flush/close before success",
     "Covers the sinks, the entry point and every direct writer of a FILE in the program.",
     observe=["exit status with a full output device"])

prop("P28", "Numbers from input are range-checked before they are used",
     "Every number taken from an input (SCAD source, ASCII or binary STL, SVG, command line) is "
     "checked to be finite (floating) or not saturated (integer) before the reading step succeeds "
     "with it. A floating value is converted to an integer only where its range was tested "
     "before.",
     ["inputs"],
     "every number text and every bit pattern of a binary number",
     "Overflowing literals and non-finite bit patterns are not in the test inputs; an unchecked "
     "one silently becomes infinite or wraps in the integer grid.",
     ["src/hob3l/syn.c", "src/hob3l/stl-parse.c", "src/hob3l/svg-parse.c", "src/hob3l/main.c",
      "include/hob3lmat/ijk.h"],
     [("number readers", "syn.c, stl-parse.c, svg-parse.c, main.c"),
      ("conversion onto the integer coordinate grid", "hob3lmat")],
     "interprocedural path-sensitive taint analysis (conversion results to success returns)",
     "Decides that the check is there on every path; the chosen limits are not judged.")

prop("P30", "The requested output format is the one written",
     "On every successful run exactly one writer produces the output, once: the one of the stage "
     "and format named by the --dump-* option, or else by the output file ending (.stl, .stlb/.stb, "
     ".scad/.csg, .ps, .js), where --stl-bin/--stl-txt choose binary or text for .stl. A --dump-* "
     "option wins over the file ending; without either nothing is written.",
     ["inputs", "histories"],
     "every combination of output options and endings, every successful path of the pipeline",
     "The tests use a handful of option combinations; a wrong pairing only shows for the one "
     "combination it affects.",
     ["src/hob3l/main.c", "src/hob3l/opt.switch"],
     [("option handlers and ending recognition", "opt.switch, main.c: main"),
      ("pipeline calls the writer of the format", "main.c: do_file")],
     "path-sensitive interprocedural exploration of the pipeline per option value",
     "All settings values x all CFG paths of the pipeline and its helpers; the writers' contents "
     "are judged by other properties.",
     observe=["the output file"])

prop("P21", "Every command-line option does what its help text says",
     "Every option changes a setting that the program consults, and no two options share a setting "
     "unless documented. All documented spellings of truth values (yes/true/1, no/false/0) and of "
     "treatments (error, warn, ignore) select that value, an option and its no- form are "
     "opposites, and the documented default is the initial value; every documented option is "
     "found by the lookup.",
     ["inputs"],
     "every option, with every spelling of its argument",
     "About 75 options with several spellings each; the tests use under ten of them.",
     ["src/hob3l/main.c", "src/hob3l/opt.switch", "include/hob3l/csg_tam.h"],
     [("option handlers", "opt.switch, main.c: get_arg_*"),
      ("initial settings", "main.c: main, csg_tam.h: CP_CSG_OPT_DEFAULT"),
      ("readers of the settings", "src/hob3l")],
     "symbol-level read/write analysis of settings plus per-spelling abstract execution of handlers",
     "That a setting is consulted is decided, not that the consulting code uses it well; numeric "
     "argument syntax is covered by P28.",
     observe=["behaviour with and without the option"])

prop("P04", "Every kind of object is handled by every stage",
     "Each function that tells object kinds apart (syntax values and statements, SCAD objects, 3D "
     "objects, 2D objects) handles every kind that can reach it: none is silently dropped, and "
     "none makes the program abort. A kind with children is never skipped together with its "
     "children on any path that has recognised it.",
     ["inputs"],
     "every object kind of each family, in every consumer of that family",
     "About 140 pairs of consumer and kind; the tests sample the kinds that their models contain, "
     "with the default options.",
     ["src/hob3l/csg3.c", "src/hob3l/csg2-tree.c", "src/hob3l/csg2-layer.c",
      "src/hob3l/csg2-bool.c", "src/hob3l/csg2-2js.c", "src/hob3l/csg2-2ps.c",
      "src/hob3l/csg2-2stl.c", "src/hob3l/csg2-2scad.c", "src/hob3l/csg3-2scad.c",
      "src/hob3l/scad-2scad.c", "src/hob3l/syn-2scad.c", "src/hob3l/scad.c"],
     [("dispatch over the kind tag", "one function per consumer"),
      ("checked casts after the dispatch", "obj.h: cp_cast_")],
     "per-kind path-sensitive exploration of every dispatching function",
     "What the handler does with the object is judged by other properties. Kinds that cannot "
     "reach a consumer are listed as assumptions in the evidence.",
     observe=["the output of each stage"])

prop("P31", "Loops over lists reach every element",
     "Every loop that runs over a list of children, layers, paths, points or faces of a model "
     "visits all elements of the list, from the first to the last. Whatever takes a difference "
     "apart looks at both the positive and the negative operands.",
     ["inputs"],
     "every list of any length, in every stage",
     "A loop that starts one late or ends one early shows only for models where that very element "
     "matters.",
     ["src/hob3l/csg3.c", "src/hob3l/csg2-tree.c", "src/hob3l/csg2-layer.c",
      "src/hob3l/csg2-bool.c", "src/hob3l/csg2-2js.c", "src/hob3l/csg2-2ps.c",
      "src/hob3l/csg2-2stl.c", "src/hob3l/csg2-2scad.c", "src/hob3l/csg3-2scad.c",
      "src/hob3l/scad-2scad.c", "src/hob3l/syn-2scad.c", "src/hob3l/scad.c"],
     [("counting loops over lists", "all stages"),
      ("operands of a difference", "cp_csg_sub_t: add, sub")],
     "index coverage of counting loops as linear forms over resolved expressions",
     "Covers counting loops bounded by the size of the list they index; conditional skips inside "
     "the loop body are not judged.",
     observe=["the output of each stage"])

prop("P29", "Boolean operations compute the operation they are named after",
     "union, intersection, difference, and exclusive or of 2D shapes each combine their operands "
     "by exactly that Boolean function, whatever the number of operands and whether or not some "
     "are empty. difference() subtracts its later operands from its first one, never the other "
     "way around; every stage keeps the kind of the combination.",
     ["inputs"],
     "every combination of up to arbitrarily many operands, including empty ones, in every stage",
     "The delayed combination works on truth tables with many special cases; tests sample few "
     "combinations of operation, operand count and emptiness.",
     ["src/hob3l/csg2-bool.c", "src/hob3l/csg3.c", "src/hob3l/csg2-tree.c", "src/hob3l/scad.c",
      "src/hob3lop/op-poly.c", "src/hob3lop/op-sweep.c"],
     [("truth tables of delayed operations", "csg2-bool.c"),
      ("kind of the container", "scad.c, csg3.c, csg2-tree.c")],
     "bit-level abstract interpretation of the delayed combination (each truth table bit a Boolean "
     "function of the operands' bits) and kind dataflow at the calls that join operands",
     "Decides which Boolean function is applied to which operand. That the sweep then computes "
     "the geometry of that function correctly is not decided.",
     observe=["the area covered by the output of each layer"])

prop("P06", "An answer that may be 'nothing' is checked before it is used",
     "Looking up a name, searching a character, opening a file, or asking for an optional part of "
     "a model may find nothing. Wherever this is possible, the program looks at the answer before "
     "it uses it, so that no input makes it dereference a null pointer obtained this way.",
     ["inputs"],
     "every call that may yield NULL and every optional field, on every path",
     "The 'nothing' answer needs a specific input (an unknown name, an empty layer, an unreadable "
     "file) at each of about 50 calls and 50 uses of optional fields.",
     ["src/hob3l/gc.c", "src/hob3l/main.c", "src/hob3l/syn.c", "src/hob3l/svg-parse.c",
      "src/hob3l/csg3.c", "src/hob3l/csg2-bool.c", "src/hob3l/csg2-2ps.c",
      "src/hob3l/csg2-2stl.c"],
     [("functions that return NULL for 'not found'", "about 55, found by summaries"),
      ("fields that may be NULL", "those that the program itself tests for NULL")],
     "interprocedural path-sensitive nullness analysis with function summaries",
     "Optional fields are those that some code in the program compares with NULL; accesses "
     "through computed array elements are not judged; assertions count as tests.",
     observe=["the run does not crash"])

prop("P13", "Every documented call form of a functor is read as documented",
     "For each functor of the SCAD documentation (doc/scadformat.md), the reader takes the "
     "documented parameters: positional ones in the documented order, the others by name, "
     "mandatory ones must be given, an absent one has its documented default, and only values of "
     "the documented types are accepted. Parameters documented as mutually exclusive are never "
     "accepted together, those defined by another one (like a radius by a diameter) get the "
     "documented value, and the children of a functor are always read.",
     ["inputs"],
     "every documented functor and parameter, alone and in the documented combinations, with every "
     "kind of value",
     "24 functors with 75 parameters and six kinds of values give thousands of call forms; the "
     "tests use the common ones.",
     ["src/hob3l/scad.c", "src/hob3l/scad-cmd.sieve", "doc/scadformat.md"],
     [("parameter tables and defaults", "scad.c: *_from_item"),
      ("value getters", "scad.c: get_*"), ("functor table", "scad-cmd.sieve")],
     "comparison of the parsed documentation with extracted parameter tables and path-sensitive "
     "exploration of handlers and getters with symbolic parameter values",
     "Numeric limits of values (like 'float > 0') and parameters passed on as raw values "
     "(points, paths, faces, a, c) are not judged.",
     observe=["what --dump-scad shows for the model, and the exit status"])

prop("P32", "Models written as SCAD can be read back with the same parameters",
     "What the program writes in SCAD format (--dump-scad, --dump-csg3, --dump-csg2) consists of "
     "functors and parameters that its own reader accepts, including every mandatory parameter, "
     "except for the functor documented as not readable. --dump-scad writes every object under the "
     "functor that makes it, each parameter with the value that was read for it (vector and matrix "
     "components in order, flags not inverted), leaves out no parameter that the reader keeps, and "
     "writes the children.",
     ["inputs"],
     "every kind of object, every parameter and every path through the writers",
     "A parameter that is missing, misnamed or swapped in the dump only shows when a model with "
     "exactly that parameter is dumped, read again and compared.",
     ["src/hob3l/scad-2scad.c", "src/hob3l/csg3-2scad.c", "src/hob3l/csg2-2scad.c",
      "src/hob3l/scad.c"],
     [("writers", "*-2scad.c"), ("parameter tables of the reader", "scad.c: *_from_item")],
     "path-sensitive collection of the written texts with the origin of every value, compared "
     "with the reader's tables and handlers",
     "Precision of printed numbers, escapes in strings and the contents of points/paths/faces "
     "arrays are not judged.",
     observe=["--dump-scad of a --dump-scad output"])

prop("P19", "A parameter that is accepted has an effect",
     "Every functor parameter that the reader accepts is stored and used by the rest of the "
     "program, unless the documentation says that it is ignored. No parameter is checked and then "
     "silently dropped.",
     ["inputs"],
     "every parameter of every functor",
     "A dropped parameter shows only in a comparison of two models that differ in it.",
     ["src/hob3l/scad.c", "src/hob3l/csg3.c", "doc/scadformat.md"],
     [("parameter tables", "scad.c: *_from_item"), ("use of the stored fields", "csg3.c")],
     "field-level def-use analysis from the parameter tables through the program",
     "Decides that a stored parameter is used, not that it is used well.",
     observe=["the output for models that differ in one parameter"])

prop("P11", "The output is a function of the command line and the files read",
     "Running the program twice with the same options and the same input files gives the same "
     "output and messages: nothing in it depends on the time, the environment, the locale, the "
     "process, random numbers, the date of the build or on the addresses at which memory happens "
     "to be allocated; in particular, no ordering of points, edges or vertices is decided by "
     "comparing addresses, and no address is printed.",
     ["inputs", "histories"],
     "every function that can run, every comparison function used for ordering",
     "A run-to-run difference needs an unlucky memory layout or date; a test compares one run.",
     ["src/hob3lop/op-sweep.c", "src/hob3lbase/dict.c", "src/hob3l/main.c"],
     [("library functions used", "all live functions"),
      ("ordering functions", "op-sweep.c, op-slice.c, csg2-hull.c, csg3.c, vec3-dict.c")],
     "effect analysis of the reachable functions' library calls and a lint of all comparison "
     "functions for address arithmetic",
     "Reads of uninitialised memory are not judged here.",
     observe=["output bytes of two runs"])

prop("P12", "The only file written is the one the user named",
     "The program creates or changes no file but the one given with -o, which it opens once, for "
     "writing from scratch; input files (models, includes, SVG, STL, JSON) are only opened for "
     "reading. It deletes or renames nothing, starts no other program, opens no network "
     "connection and changes no system setting.",
     ["inputs", "configurations"],
     "every library function that reachable code refers to, every place that opens a file",
     "A stray write shows only on the file that it destroys.",
     ["src/hob3l/main.c", "src/hob3l/syn.c", "src/hob3l/scad.c", "src/hob3lbase/stream.c"],
     [("output file", "main.c: the -o option"), ("input files", "callers of fopen()")],
     "whitelist-based effect analysis of reachable library calls with a backward slice of file "
     "names and modes",
     "Standard output and standard error are not files in this sense.",
     observe=["the files in the file system before and after a run"])

prop("P22", "Transformations apply the documented matrix",
     "translate, scale, mirror, rotate and multmatrix place their children by exactly the matrix "
     "that the documentation gives for them, multiplied to the transformation that is already in "
     "effect; the inverse matrix and the determinant kept with it belong to the same matrix, and "
     "nothing else about the context of the children changes. A transformation that is accepted "
     "is applied for every combination of its parameters.",
     ["inputs"],
     "every path through the five transformations, with symbolic parameters and matrices",
     "A wrong entry shows only for models that combine that component with another transformation; "
     "a wrong inverse or determinant shows only in normals, orientation or orthogonality.",
     ["src/hob3l/csg3.c", "src/hob3lmat/mat.c", "src/hob3lmat/mat_gen_ext.c", "doc/scadformat.md"],
     [("transformations", "csg3.c: csg3_from_{translate,scale,mirror,rotate,multmatrix}"),
      ("matrix library", "src/hob3lmat"), ("documented matrices", "doc/scadformat.md")],
     "algebraic value numbering: every stored matrix entry is normalised to a polynomial over the "
     "parameters and compared with the product formed from the documentation's matrix",
     "Exact real arithmetic; rounding is not judged.",
     observe=["coordinates in the output"])

prop("P33", "SVG drawings mean what SVG defines",
     "Transform commands (translate, scale, rotate, skewX, skewY, matrix, with SVG's defaults for "
     "missing values), the fitting of a viewBox by preserveAspectRatio, all path commands (M L H V "
     "Q T C S A Z, absolute and relative, with any number of repeated value sets) and the shapes "
     "rect, circle, ellipse, polyline and polygon produce the points, curves and matrices that the "
     "SVG specification defines. In particular, S and T reflect the control point only after a "
     "curve of their own kind, and arcs follow the specification's end point conversion.",
     ["inputs", "histories"],
     "every path through the functions that read and draw SVG elements, with symbolic values",
     "A path command depends on the command before it, and an arc on four flag combinations and on "
     "whether its radii fit; tests sample a few drawings.",
     ["src/hob3l/svg-parse.c", "src/hob3l/svg-elem.sieve"],
     [("transforms", "svg-parse.c: xform_cmd"), ("viewBox", "svg-parse.c: svg_xform"),
      ("path commands", "svg-parse.c: str_path, path_*"),
      ("shapes", "svg-parse.c: csg2_from_{rect,circle,ellipse,polyline,polygon,path}")],
     "algebraic value numbering of the drawing functions, compared as polynomials with the formulas "
     "of the SVG specification; constant propagation of command letters to the functions run",
     "The number of segments of a curve, percent units and the composition of nested <svg> elements "
     "are not judged; exact real arithmetic is assumed.",
     observe=["points of imported SVG drawings"])

prop("P34", "Primitive solids and extrusions are what is documented",
     "cube, sphere, cylinder, circle, square, polyhedron, polygon, linear_extrude and "
     "rotate_extrude have the documented vertices, transformed by the matrix in effect, and as many "
     "of them as $fn says within the allowed range. The faces of a solid use only these vertices and "
     "are closed: each edge is used once in each of its two directions. The faces are clockwise "
     "seen from outside whether or not the transformation in effect mirrors.",
     ["inputs"],
     "every path through the construction of a solid or shape, with symbolic sizes and matrices, for "
     "several vertex counts",
     "A wrong vertex or orientation shows only for one combination of center, size, twist, scale, "
     "vertex count parity and mirroring.",
     ["src/hob3l/csg3.c", "doc/scadformat.md"],
     [("solids", "csg3.c: csg3_from_{cube,sphere,cylinder,poly}"),
      ("extrusions", "csg3.c: csg3_from_{linext,rotext}"),
      ("shapes", "csg3.c: csg3_from_{circle,square,polygon}")],
     "algebraic value numbering of the construction functions with complete unrolling of loops over "
     "a constant number of vertices; vertices are compared as polynomials with documented formulas; "
     "edges and orientations are checked combinatorially on the constructed index lists",
     "Exact real arithmetic, vertex counts 3 to 9 (the construction is uniform in the count); the "
     "outline below an extrusion is a generic polygon.",
     observe=["vertices and faces of the 3D object tree"])

prop("P35", "Layers are written to STL and JavaScript as closed prisms at their place",
     "In STL (text and binary) and JavaScript output, each layer is a set of closed prisms: its "
     "polygons' triangulation at the layer's z position and, facing up, at z plus the layer thickness "
     "minus the layer gap (if no gap is set: 0.01 in STL, 0 in JavaScript), and two triangles per "
     "outline edge between them; each edge is used once in each direction, triangles are "
     "counterclockwise seen from outside, and normals are of length 1 and point outside. A layer "
     "without height has only its area, and an empty layer has nothing in the output. The number of "
     "triangles in binary STL and the vertex indices in JavaScript are those of the triangles "
     "written, however many there are.",
     ["inputs"],
     "every path through the STL and JavaScript writers, with symbolic coordinates, layer positions, "
     "thickness and gap",
     "Whether an output is closed depends on every vertex index of every layer; tests compare few "
     "outputs and never fill the scene buffer.",
     ["src/hob3l/csg2-2stl.c", "src/hob3l/csg2-2js.c"],
     [("STL", "csg2-2stl.c: cp_csg2_tree_put_stl"), ("JavaScript", "csg2-2js.c: cp_csg2_tree_put_js")],
     "abstract interpretation of the writers over a tree of polygons with symbolic coordinates; the "
     "written text or bytes are parsed back into triangles over polynomials, which are checked "
     "combinatorially against closed prisms",
     "The triangulation and outline flags of a polygon are taken as given. Coordinates are in "
     "general position; the polygon differences of --diff and the precision of printed numbers are not judged.",
     observe=["STL and JavaScript output files"])

prop("P36", "Ignored children are exactly the documented ones",
     "Whether a child of difference or intersection counts is decided as the documentation defines "
     "'ignored children': a solid is never ignored in 3D context and always in 2D context, a shape is "
     "never ignored; groups, transformations, hull, extrusions and projection (in their context) are "
     "ignored exactly if all their children are; and objects with the modifier '*' always are. The base of a difference is "
     "its first child that is not ignored; all later ones are subtracted from it. An intersection "
     "leaves out ignored children only: a child that is empty but not ignored makes it empty.",
     ["programs"],
     "every sequence of up to three children, each ignored, empty, or with one or two objects or a "
     "difference; every path through each functor's conversion",
     "Which child is the base depends on combinations of empty, disabled and collapsed objects at any "
     "depth.",
     ["src/hob3l/csg3.c", "doc/scadformat.md"],
     [("combinations", "csg3.c: csg3_from_{difference,intersection,rec}"),
      ("the flag", "csg3.c: parameter 'no' of csg3_from_*")],
     "abstract interpretation of the conversion of each functor over enumerated children behaviours; "
     "constructed trees are compared as Boolean functions (truth tables) with the documented ones",
     "The search for a root object ('!') is not judged, nor is whether an import in 2D context or a "
     "hull, projection or extrusion outside of its context is ignored (documentation and code comments "
     "contradict each other there).",
     observe=["3D object tree (--dump-csg3), output files"])

prop("P37", "The plane sweep loses no edge and no operand's membership",
     "Every edge of every polygon, line list, or earlier result that is an operand of a 2D Boolean "
     "operation enters the plane sweep exactly once, with its operand's membership. Where edges "
     "overlap or are split, on every stretch of the line the memberships of the remaining edges sum "
     "(exclusive or) to those of the original ones; the ends ahead of the sweep line, and only those, "
     "remain on the agenda, and an edge that the sweep line crosses remains in the state. The "
     "reduction keeps exactly those edges where the Boolean function of the memberships below "
     "differs from that above, with the inside on the correct side.",
     ["inputs"],
     "every arrangement of two overlapping edges in every direction; every path through building, "
     "splitting, and reducing",
     "A membership lost at an overlap shows only for particular arrangements of collinear edges of "
     "particular operands; tests have few of them.",
     ["src/hob3lop/op-sweep.c", "src/hob3lop/op-sweep-reduce.c", "src/hob3lop/op-sweep-internal.h",
      "src/hob3l/csg2-bool.c"],
     [("edges of operands", "op-sweep.c: cq_sweep_add_*"),
      ("overlapping and split edges", "op-sweep.c: ev_overlap, ev_split"),
      ("decision for each edge", "op-sweep-reduce.c")],
     "abstract interpretation with bit provenance of memberships and typestate of agenda and state, "
     "over all arrangements of two edges on a line",
     "The order in which the sweep visits points and whether it finds all intersections is not "
     "judged (not_applicable: geometric correctness).",
     observe=["2D output of overlapping shapes"])

prop("P38", "Every layer is the cross-section of the model at its height",
     "Layers are one --z-step apart; the first is half a step above the lowest point that is not "
     "subtracted (or at --z-min), and there are as many as it takes to reach the highest point (or "
     "--z-max). In each layer, every polyhedron anywhere in the tree contributes, for each of its "
     "faces, exactly the points where the face's edges cross the layer's height (an edge's lower end "
     "counts, its upper end does not); every sphere contributes a closed polygon of its number of "
     "corners, all in the sphere's (transformed) surface at equal angles, and nothing if the layer "
     "does not cross it. The polygon that ends up in the result's layer of that height combines "
     "these contributions by exactly the model's Boolean operations, and only empty layers lack one.",
     ["inputs"],
     "trees of all four operations with polyhedra and spheres of every position relative to the layers, "
     "with symbolic coordinates and step",
     "Which layer gets what, corner cases of faces at a layer's height, and transformed spheres "
     "show only for particular combinations of heights and nesting.",
     ["src/hob3l/main.c", "src/hob3l/csg2-layer.c", "src/hob3l/csg2-tree.c", "src/hob3l/csg2-bool.c",
      "src/hob3lop/op-slice.c", "src/hob3l/csg3.c", "src/hob3lmat"],
     [("heights", "main.c: do_file; csg2-tree.c"),
      ("slicing", "op-slice.c; csg2-layer.c: csg2_add_layer_*"),
      ("combination", "csg2-bool.c: cp_csg2_op_flatten_layer")],
     "abstract interpretation of the whole run from the 3D tree to the layers: coordinates and step "
     "are polynomials (value numbering), branches are those of one generic position per arrangement "
     "of heights, operations are Boolean functions of the objects (composed with what P29 and P37 "
     "establish for the sweep)",
     "Judged before rounding to the integer grid. An empty or negative height range is not judged. The sweep "
     "and the triangulation are taken as given (P29, P37; not_applicable: geometric correctness).",
     observe=["layers in every output format"])


prop("P39", "STL files are imported as the triangles they list",
     "For every import of an STL file, text or binary: the object is a polyhedron with exactly one face for each "
     "triangle of the file, in the file's order; its corners are the current transformation of the three corners "
     "in the file (x, y, z in this order), listed the other way round than in the file if the transformation does "
     "not mirror and the same way round if it does; corners at the same place are one and the same vertex. "
     "A text with a missing, extra or different word or number, with a coordinate that is not finite, or with "
     "something after its end, and a binary file that is shorter than it says or has a coordinate that is not "
     "finite, is refused with an error message.",
     ["inputs"], "every STL file of up to four triangles in several layouts, every coordinate, every transformation; "
     "every place where one word or number is wrong",
     "The tests import a few well-formed files and compare pictures; a swapped axis, a byte in the wrong place, a "
     "triangle that is turned round or a missed refusal shows only with specific files and transformations.",
     ["src/hob3l/stl-parse.c", "src/hob3l/csg3.c", "src/hob3l/vec3-dict.c"],
     [("cp_stl_parse", "src/hob3l/stl-parse.c"), ("csg3_from_import", "src/hob3l/csg3.c"),
      ("cp_vec3_dict_insert", "src/hob3l/vec3-dict.c")],
     "abstract interpretation: the import is followed from the file's bytes to the polyhedron with coordinates, "
     "matrix and (binary) bytes of numbers as symbols; vertices compared as polynomials",
     "Coordinates are what strtod() makes of the text (binary: the four bytes in the file's order on a machine "
     "with the same byte order). The search tree of vertices is taken as given (P28).",
     observe=["cross-sections of imported files"])


prop("P40", "Vector and matrix operations compute what they are named after, also in place",
     "For all operands, each operation on vectors and matrices gives the value of linear algebra that it is named "
     "after: sums, products, quotients by components, dot and cross products, lengths and distances, unit vectors, "
     "application, products, transposed, inverses, determinants, rotations (axes, around a unit vector, of a vector "
     "into the z axis), mirroring, scaling, translation, conversions between shapes, smaller and larger corners of "
     "boxes, and the comparisons (which say equal or zero only within the tolerance). It does so also when the result "
     "is the same object as one or more operands. A matrix that is kept together with its inverse and determinant is "
     "produced with the inverse and determinant of that matrix.",
     ["inputs"],
     "every operation, every way to share operands with the result, all values for which it is defined",
     "Tests call a few operations with a few numbers; a wrong index, sign or a read of an operand that was already "
     "overwritten shows only with general values in one way of sharing, and most operations are reached by models "
     "in few ways.",
     ["src/hob3lmat", "include/hob3lmat"],
     [("operations", "mat_gen_ext.c, algo.c, mat_gen_inl.h, mat.h")],
     "algebraic value numbering: the result of each path is a rational function of the operands and compared with "
     "the reference for the name; paths on which a divisor is near zero are left out",
     "Rounding is not judged. Operations that only return angles, and reading which rotations are by multiples of "
     "90 degrees, are not judged.",
     observe=["geometry of all outputs"])


prop("P41", "SCAD text is read as it is spelled, and messages show the place",
     "For every SCAD text of the documented syntax, each functor call becomes one node, in the order and nesting of "
     "the text, with its modifiers, name, and arguments, each of which has its name, if one is given, and the value "
     "that is written (integer, float, string, identifier, array, or range with start, increment, and end); white "
     "space and comments have no effect, and an included file is read in its place before the text goes on. A text "
     "that is not in the syntax, or has a number out of range, is refused with a message; nothing is left out silently. "
     "A file is looked up relative to the file that names it, its bytes are taken completely, and each place in it is "
     "found again: messages name its line and mark the place in the line shown.",
     ["inputs"],
     "every construct of the syntax, all names, numbers, strings and comments by class of character, every place in a file",
     "Tests read a few hundred models that are laid out alike; the reader overwrites the text while it reads, so what "
     "follows a word directly, ends a file, or stands in a comment matters.",
     ["src/hob3l/syn.c", "src/hob3l/syn-msg.c", "include/hob3l/syn_tam.h"],
     [("parser", "syn.c: cp_syn_parse()"), ("reading files", "syn.c: cp_syn_read()"),
      ("places", "syn-msg.c: cp_syn_get_loc(), cp_syn_format_loc()")],
     "abstract interpretation over texts of characters that are constants or any member of a class (a condition on "
     "which members disagree splits the path): the tree is compared with the one the grammar's derivation spells, for "
     "three layouts of each construct; over 250 texts with a sign missing, repeated, or out of place must be refused",
     "Sizes of words and lists are small and fixed for each construct; commas at the end of a list are not judged. What the "
     "functors' arguments mean is P13.",
     observe=["models", "error messages"])


prop("P42", "SVG documents and their characters are read as they are written",
     "For every Unicode code point, the UTF-8 functions decode and encode exactly its bytes, refuse ill-formed ones where they "
     "begin, and escapes in strings give the code point they name. For every XML document of the supported subset, elements, "
     "attributes, and texts become nodes in the order and nesting of the document, with their names, places, entities decoded, "
     "and the name space that the nearest declaration of their prefix gives (attributes have no default one); comments, the "
     "declaration, the document type, white space in tags, and the kind of quotation marks have no effect. A document that is "
     "not well-formed, has no or several top-level elements, unknown entities or prefixes, or characters that are none, is "
     "refused with a message.",
     ["inputs"],
     "all code points; every construct of the documents, with names, texts, values and comments by class of character",
     "Tests read a handful of drawings made by one program, in ASCII; the reader overwrites the document while it reads, so "
     "what follows a name, a text, or a comment directly matters, and files of other programs use other parts of XML.",
     ["src/hob3l/xml-parse.c", "src/hob3lbase/utf8.c"],
     [("characters", "utf8.c: cp_utf8_decode(), cp_utf8_encode(), cp_utf8_escaped_decode()"),
      ("documents", "xml-parse.c: cp_xml_parse(), cp_xml_find(), cp_xml_set_ns()")],
     "abstract interpretation: the bytes given to the decoder are expressions of the code point, which is any of about 10,000 "
     "(all one and two bits, both sides of each limit, a sample), and the result must be it on each path; documents consist of "
     "characters that are constants or any member of a class, and the nodes are compared with what is spelled",
     "CDATA sections, processing instructions, entity declarations, and document types with an internal subset are refused, "
     "which is not judged; nor is that duplicate attributes and attributes without white space between them are accepted.",
     observe=["models", "error messages"])

prop("P43", "The numbers of an SVG drawing are read as they are spelled",
     "Path data, lists of points, lengths, view boxes, and transforms of an SVG mean the same in every way of writing them: "
     "numbers with or without sign, leading or trailing digits, and exponent, separated by white space, one comma, or nothing "
     "where the next sign or dot begins a number, arc flags without separator, and coordinates repeated with or without their "
     "letter; the drawing steps get exactly these numbers, in order, and lengths are multiplied by their unit, or are the "
     "percentage of the width, height, or diagonal. Path data and points that are malformed are drawn up to the last complete set "
     "of numbers at most, with a message; a malformed length, size, or view box is as if not given, and a malformed transform ends "
     "the list of transforms.",
     ["inputs"],
     "every path command in each layout, followed with numbers of 19 forms whose digits are any; every unit of every length of the "
     "basic shapes",
     "The tests' drawings were written by one program, which always separates numbers in the same way; whether '5.5.5' or 'a1 1 0 015' "
     "is read right shows only with the output of other programs, as slightly moved or missing shapes.",
     ["src/hob3l/svg-parse.c"],
     [("numbers", "svg-parse.c: s_str_float(), s_double(), s_bool(), s_sep()"),
      ("lengths", "svg-parse.c: s_unit_dim(), s_attr_dim(), s_attr_size(), csg2_from_svg()"),
      ("path data", "svg-parse.c: str_path(), looking_at_float(), csg2_from_polygon()"),
      ("transforms", "svg-parse.c: process_std_attr(), xform_cmd()")],
     "abstract interpretation of the whole reader over XML trees whose texts consist of constants and of digits that may be any; a number "
     "is an unknown named by its characters; the steps of drawing with their numbers and matrices (as polynomials of the unknowns) are "
     "compared with those of the plainest way to write the same",
     "What the steps draw is P33. A comma too many before a closing parenthesis is accepted, as are abbreviated names of transforms, which "
     "is not judged; nor are the values of preserveAspectRatio. Conditions about numbers are those of one example.",
     observe=["models", "error messages"])


def no(id, title, statement, over, text, why, files, reason):
    prop(id, title, statement, over, text, why, files, [("see statement", files[0])], na=reason)


no("P90", "The output solid is watertight",
   "For every accepted model, the STL output is a closed, consistently oriented surface: every "
   "directed edge of a triangle is matched by one in the opposite direction.",
   ["inputs"], "every accepted model and every option that affects the layers",
   "Gaps depend on coordinates that coincide after rounding; tests sample a few hundred models.",
   ["src/hob3l/csg2-2stl.c", "src/hob3lop/op-trianglify.c"],
   "whether two edges match depends on coordinates computed at run time (rounded intersections, "
   "collinear points dropped by the triangulation); no static abstraction in reach bounds these. What is "
   "decided instead: the writer emits each stored triangle and edge exactly once with the right corners (P35).")
no("P91", "The plane sweep finds every intersection, in the right order",
   "For every set of line segments on the grid, the sweep visits all end points and crossings in "
   "order, splits every pair of segments that meet, and the result's outline encloses exactly "
   "the points for which the Boolean function of the operands holds.",
   ["inputs"], "every set of segments",
   "Degenerate arrangements (many segments through a point, almost parallel ones) are endless.",
   ["src/hob3lop/op-sweep.c", "src/hob3lop/op-sweep-reduce.c"],
   "the invariant of the state's order is a geometric theorem over run-time coordinates with rounded "
   "crossings; it needs a proof about orders, not a dataflow fact. The parts that are local (membership, "
   "splitting, overlap, keep/drop) are decided by P29 and P37.")
no("P92", "The triangulation covers the outline exactly",
   "For every outline the sweep produces, the triangles cover its inside once, and nothing else.",
   ["inputs"], "every outline", "Needs all shapes of monotone chains and holes.",
   ["src/hob3lop/op-trianglify.c"],
   "covering is a geometric fact about run-time coordinates; no static argument in reach.")
no("P93", "Every run ends",
   "For every input file and option, the program ends.", ["inputs"], "every input",
   "A loop that does not end is found only with the input that triggers it.",
   ["src/hob3lop/op-sweep.c", "src/hob3l/syn.c"],
   "the sweep's loop ends because splitting strictly shrinks segments on a grid, a global numeric argument; "
   "the other loops are bounded by input length. A syntactic ranking lint would neither prove the former nor "
   "catch realistic mistakes without alarms on correct loops.")
no("P94", "Deeply nested input does not exhaust the stack",
   "For every nesting depth of the input, the program ends with a result or an error message.",
   ["inputs"], "every nesting depth", "Tests nest a few levels.",
   ["src/hob3l/syn.c", "src/hob3l/scad.c", "src/hob3l/csg3.c"],
   "the parser and all tree passes are recursive without a depth limit by design, so the property does "
   "not hold for unlimited depth; which depth overflows is a run-time quantity of stack size and frames.")
no("P95", "Rounding to the grid moves nothing further than half a grid step",
   "Every coordinate in the output differs from the exact one by at most half a grid step plus the "
   "output format's precision.",
   ["inputs"], "every coordinate", "Accumulated rounding depends on coordinates.",
   ["include/hob3lmat", "src/hob3lop/matq.c"],
   "needs error bounds of floating point computations over run-time values; interval analysis of the "
   "transformations gives no useful bound without input ranges.")
no("P96", "The hull is the convex hull",
   "hull() yields the smallest convex solid (or polygon) that contains its children.",
   ["inputs"], "every point set", "Degenerate point sets (coplanar, collinear, duplicates) are endless.",
   ["src/hob3lmat/algo.c"],
   "convexity and containment for all point sets is an inductive geometric invariant of the incremental "
   "algorithm over run-time coordinates; no static argument in reach.")
