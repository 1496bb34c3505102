#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the source of both)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, unclaimed=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, observe=observe, tech=tech,
                  note=note, unclaimed=unclaimed))

L = "layout/src/"
LEX, PAR, BLD, REC = L+"gv/parser/lexer.rs", L+"gv/parser/parser.rs", L+"gv/builder.rs", L+"gv/record.rs"
AST = L+"gv/parser/ast.rs"
LAY, OPT, DAG, MAP = L+"topo/layout.rs", L+"topo/optimizer.rs", L+"adt/dag.rs", L+"adt/map.rs"
BK, FIX, MOV, SIM, VER, PLC = (L+"topo/placer/"+x for x in
    ("bk.rs", "edge_fixer.rs", "move_between_rows.rs", "simple.rs", "verifier.rs", "place.rs"))
SHP, REN = L+"std_shapes/shapes.rs", L+"std_shapes/render.rs"
SVG, GEO, COL, STY, FMT, UTL = L+"backends/svg.rs", L+"core/geometry.rs", L+"core/color.rs", L+"core/style.rs", L+"core/format.rs", L+"core/utils.rs"
CLI = "src/bin/layout.rs"

prop("C01", "Parsing any text terminates cleanly, in work linear in its length",
     "For every text whatsoever, parsing returns either a program or an error with a non-empty message: it never panics, overflows the stack, loops forever or exhausts memory, and reporting the error is just as safe. The work it does grows at most linearly with the length of the text.",
     ["inputs"], "every Unicode text: arbitrary bytes that are UTF-8, near-DOT token soups, truncations and splices of valid programs, and single constructs repeated tens of thousands of times",
     "The unit tests parse a handful of well-formed programs; the input space is unbounded and the failures (end of file inside a construct, nesting depth, re-scanning) live off those paths.",
     [LEX, PAR], [("lexer main loop and end-of-input handling", LEX+":next_token"), ("recursive statement parser with nesting limit", PAR+":parse_stmt"), ("error position report", LEX+":print_error")],
     "result of DotParser::process, process exit, executed-edge counter",
     "fuzzed workloads under overflow checks, debug assertions, stack and memory limits, and an executed-edge budget (sanitizer coverage counters) that is linear in the text length",
     "Runs the real parser in sub-processes on generated texts. A panic, crash, stack overflow, memory-limit hit or step-budget overrun is the violation; bounded by the texts that were generated.")

prop("C02", "A well-formed program means the same whatever its surface syntax",
     "Every well-formed DOT program is accepted, and the parsed program has exactly the statements, names, ports, edge chains, arrow kinds and attributes of the text, in order, with quoted strings unescaped and comments ignored. White space, comments, optional separators, quoting and splitting of attribute lists never change the result.",
     ["inputs", "programs"], "every program of the supported DOT grammar and every way to lay out its tokens",
     "The tests assert that a few files parse at all; none compares the parsed program with an independent reading, and none varies the layout.",
     [LEX, PAR, AST], [("tokens, strings, numbers, comments", LEX+":next_token"), ("statement grammar", PAR+":parse_stmt"), ("attribute lists", PAR+":parse_attr_list"), ("edge chains", PAR+":parse_edge_stmt")],
     "the AST returned by DotParser::process",
     "differential monitor: random abstract programs printed with randomised surface syntax, the returned AST compared statement by statement with the program",
     "The oracle is the generated program itself. Covers the grammar of the generator; constructs the documentation leaves open (HTML labels, keyword case, compass points) are not generated.")

prop("C03", "Malformed programs are rejected, and nothing else is",
     "A text that is not a DOT program (unbalanced braces or brackets, missing operands, an attribute without a value, an unterminated string, a stray character or token, content after the closing brace, a keyword where a name must be) is rejected with an error. A well-formed text is never rejected.",
     ["inputs"], "every text, in particular every text a few token or character edits away from a valid program",
     "Acceptance of wrong texts cannot be sampled by a few positive examples; the tests contain almost no negative ones.",
     [LEX, PAR], [("graph header and trailer", PAR+":parse_graph"), ("statement dispatch", PAR+":parse_stmt"), ("attribute list", PAR+":parse_attr_list"), ("error tokens", LEX+":next_token")],
     "Ok or Err of DotParser::process",
     "differential monitor against an independent three-valued recogniser (well-formed / malformed / unspecified) on mutated programs",
     "The reference recogniser is part of the harness and was written from the DOT grammar; texts that it calls unspecified are not judged.")

prop("C04", "Scoped defaults and explicit attributes give each node and edge its look",
     "A node takes the node defaults in force where it is first mentioned, overridden by every attribute given to it explicitly, before or after; an edge takes the edge defaults in force at its statement, overridden by its own attributes. Defaults set inside a subgraph or brace block apply only to later statements inside it, a repeated attribute's last value wins, naming a node again never creates a second one, and only graph-level settings at the top level choose the direction of the drawing.",
     ["programs"], "every program: any nesting of scopes, any order of defaults, declarations, redeclarations and edges",
     "The tests build one or two fixed programs; scoping bugs need particular orders of defaults, mentions and redeclarations across nested scopes.",
     [BLD, MAP], [("scope stack", BLD+":visit_graph"), ("node creation and redeclaration", BLD+":visit_node"), ("edge attributes", BLD+":visit_edge"), ("scoped lookup", MAP+":ScopedMap")],
     "colour, fill, font size, width, dash, label and shape of the drawn nodes and edges",
     "monitor: attribute-heavy random programs with nested scopes, the recorded picture compared with an independent interpreter of the scoping rules",
     "Observes the drawing produced by the real builder and renderer for each program, with the optimisations off to keep the workload cheap.",
     unclaimed=None)

prop("C05", "Any parsed program renders: no panic, no hang, under every flag combination",
     "Every program that parses can be built, laid out and rendered to an SVG string under every combination of the debug, no-optimisation and no-layout flags, without a panic, a crash or an endless loop. This includes malformed record labels, ports that do not exist, unknown shapes and colours, huge or nonsensical sizes, empty graphs, self loops, parallel edges and cycles.",
     ["inputs", "configurations"], "every parsed program and every combination of the three flags",
     "The example files of the repository are friendly; the assertions and index arithmetic of the layout fail only for particular shapes of graph and attribute values.",
     [BLD, REC, LAY, OPT, BK, FIX, MOV, REN, SVG], [("record label parser", REC+":parse"), ("graph lowering", LAY+":lower"), ("horizontal placement", BK+":do_it"), ("fix-up passes", FIX+":do_it"), ("row verifier", VER+":do_it")],
     "process outcome, executed-edge counter, finiteness of the recorded coordinates",
     "stress and hostile workloads under overflow checks, debug assertions, memory and stack limits and an executed-edge budget",
     "Graphs up to a few hundred nodes; the step budget is far above what graphs of the generated size legitimately need.")

prop("C06", "Every node is drawn exactly once, with its own shape, label and style",
     "The picture of a graph shows each node exactly once, in the shape it asks for (ellipse, box, double circle, record or rounded record), with its own text or texts, outline colour, fill colour and font size. No text is painted over by a shape drawn after it, and nothing is drawn that belongs to no node or edge, however the layout moved, merged or reordered things.",
     ["inputs", "programs"], "every graph: any topology, labels, records, styles, direction and flags",
     "No test looks at the drawing; losing, duplicating or mixing up nodes needs topologies that the samples do not have.",
     [BLD, LAY, REN, SHP], [("element construction", BLD+":get_shape_from_attributes"), ("drawing of elements", REN+":render"), ("lowering keeps elements", LAY+":lower")],
     "draw calls received by a recording backend",
     "trace monitor: the recorded draw calls matched (by content and place) one-to-one against the nodes of an independent reading of the program",
     "Exactly-once matching is by unique labels that the workload gives each node; covers the generated graphs.")

prop("C07", "Every edge is drawn exactly once, between its own endpoints, with its own style",
     "The picture shows each edge exactly once, as one connected path from the shape of its source node to the shape of its target node (or the reverse for edges that the layout turned around), with an arrow head only at the target of a directed edge, and with its own colour, width and dash. Parallel edges, self loops, long edges and edges that close a cycle are no exception.",
     ["inputs", "programs"], "every graph: any topology including multi-edges, self loops and cycles, any flags",
     "Edges are reversed, split and re-joined over several passes; only particular combinations of cycle, length, label and direction expose a lost or flipped one, and no test inspects paths.",
     [BLD, LAY, REN, SHP], [("cycle removal", LAY+":to_valid_dag"), ("long edges", LAY+":split_long_edges"), ("labels become nodes", LAY+":split_text_edges"), ("self loops", LAY+":expand_self_edges"), ("path generation", REN+":generate_curve_for_elements")],
     "draw calls received by a recording backend",
     "trace monitor: one-to-one matching of recorded arrows against the edges of an independent reading (geometric endpoints, heads, style)",
     "Edge identity is carried by a unique pen width per edge statement; covers the generated graphs.")

prop("C08", "Node shapes and edge labels never overlap each other",
     "In every finished layout no two node shapes overlap, no edge label overlaps a node shape, no two edge labels overlap, and no edge has a joint on a node shape or inside a label.",
     ["inputs", "programs"], "every graph, label size, font size, direction and flags",
     "The internal verifier looks at one row at a time and the tests never look at positions; overlaps come from particular mixes of sizes and of passes that move boxes after placement.",
     [BK, FIX, MOV, SIM, VER], [("row by row placement", SIM+":do_it"), ("scheduling of columns", BK+":schedule"), ("moves after placement", FIX+":adjust_crossing_edges"), ("moving labels between rows", MOV+":move_text_up")],
     "boxes of the recorded shapes and texts",
     "state monitor: pairwise box intersection over every recorded shape and label of random layouts",
     "The area of a label is the text estimate that the layout itself reserves (longest line times font size, lines times font size).")

prop("C09", "Acyclic graphs flow in the drawing direction",
     "When the edges, each taken from its first to its second end, form no cycle, every edge leads strictly downwards (or strictly to the right in a left-to-right drawing) from the shape of its source to the shape of its target, and every arrow head sits at the end of its path: no edge is turned around.",
     ["inputs", "programs"], "every acyclic graph, in both drawing directions, under every flag combination",
     "Needs long, dense or branching acyclic graphs and a comparison of coordinates; the tests check neither.",
     [LAY, DAG, OPT, SIM], [("cycle removal", LAY+":to_valid_dag"), ("reachability", DAG+":is_reachable"), ("rank computation", DAG+":recompute_node_ranks"), ("rank improvement", OPT+":try_to_sink_node"), ("row coordinates", SIM+":assign_y_coordinates")],
     "boxes of the recorded shapes, arrow heads",
     "trace monitor over recorded pictures of random acyclic graphs",
     "Covers the generated graphs, up to about 45 nodes in quick and 60 in thorough.")

prop("C10", "Everything drawn is finite, non-negative and inside the page",
     "All coordinates of a finished drawing are finite, every node shape, label and joint of an edge has non-negative coordinates, and the width, height and view box that the SVG declares contain every node shape, every label and every edge along the whole of its curve.",
     ["inputs", "programs"], "every graph, size, direction and flags",
     "The declared page is accumulated during drawing and depends on every element; no test reads it.",
     [SVG, SIM, FIX, REN], [("page growth", SVG+":grow_window"), ("alignment to the left border", SIM+":align_to_left"), ("fix-ups", FIX+":do_it")],
     "the svg element's width, height and viewBox, and the coordinates in it",
     "state monitor: recorded extents and the parsed SVG document compared",
     "Curve control points may leave the page by less than the bend of an edge and are only required to be finite.")

prop("C11", "The SVG is a well-formed, self-contained document",
     "The output is a well-formed XML document with a single svg root whose view box agrees with its size. Identifiers are unique, every reference to an identifier or style class resolves inside the document, only characters legal in XML appear, numeric attributes hold finite numbers (sizes are not negative), arrow heads are whole and have their tip at the end of the path that carries them, and no label, colour, property or path text can break out of its place.",
     ["inputs"], "every graph and every text in it, and every sequence of draw calls with any text",
     "Escaping and cross references depend on arbitrary label text and on which elements occur together; tests compare no output.",
     [SVG], [("escaping", SVG+":escape_string"), ("style classes", SVG+":get_or_create_font_style"), ("clips and arrow path ids", SVG+":create_clip"), ("document assembly", SVG+":finalize")],
     "the string returned by SVGWriter::finalize",
     "offline checker: an independent strict XML reader plus reference checks over the documents of random graphs and random draw-call sequences",
     "Only the XML rules the output can exercise (no DTDs, no processing instructions besides the declaration).")

prop("C12", "The SVG backend transcribes every draw call faithfully and in order",
     "Each rectangle, circle, line, arrow and text handed to the SVG backend appears exactly once in the document, in the order of the calls, with the same position, size, text, colours, line width, corner radius, font size, dash, arrow heads, caller properties and clip. Multi-line text becomes one line of text per line, in order, showing exactly the same characters.",
     ["histories", "inputs"], "every sequence of draw calls with any arguments",
     "A drawing backend has an unbounded argument space; the tests call it with no checks on its output.",
     [SVG], [("shapes", SVG+":draw_rect"), ("arrows", SVG+":draw_arrow"), ("text", SVG+":draw_text"), ("clips", SVG+":create_clip")],
     "elements of the parsed SVG document",
     "trace-refinement monitor: random draw-call sequences replayed against the parsed document, element by element",
     "Position of text lines inside a label is only required to stay centred; escape-equivalent characters are compared after XML decoding.")

prop("C13", "Output is deterministic and independent of names, layout of the text and history",
     "Rendering the same text gives the same bytes every time: in the same process, in another process, in other threads running at the same time, with logging on, off or compiled out, in a debug or a release build, whatever was rendered before, and when the same builder or writer is asked again. Consistently renaming nodes (with labels given explicitly), or changing the white space, comments and quoting of the text, does not change the drawing.",
     ["inputs", "histories", "schedules"], "every program, any earlier or concurrent use of the library in the process, any process hash seed",
     "Hash iteration order varies between runs and is invisible to a test that runs once; independence from history needs pairs of runs.",
     [BLD, LAY, SVG, MAP], [("maps of nodes", BLD+":get"), ("style table", SVG+":finalize"), ("attribute maps", MAP+":flatten")],
     "bytes of the SVG and draw calls",
     "metamorphic monitor: repeated, renamed, re-laid-out and multi-threaded renderings of the same program compared",
     "Hash seeds change per map and per process, so each repetition is a different schedule of map iterations; threads are real threads.")

prop("C14", "Debug mode only adds; the no-optimisation and no-layout flags lose nothing",
     "With the debug flag on, everything drawn without it is still drawn, unchanged and in the same order, and only annotations are added. Turning optimisations or layout off changes places only: the same shapes, texts, edges, styles and arrow heads are drawn.",
     ["configurations", "inputs"], "every graph and every combination of the three flags",
     "Needs pairs of runs of the same graph under different flags; tests run one configuration.",
     [LAY, REN, SVG], [("debug annotations", REN+":render"), ("flag handling", LAY+":do_it"), ("skipped passes", PLC+":layout")],
     "draw calls received by a recording backend",
     "metamorphic monitor: recorded draw calls with and without each flag compared (subsequence and multiset)",
     "Covers the generated graphs; arrow direction may legitimately be expressed as a reversed path.")

prop("C15", "A record is drawn as the nested table that its label describes",
     "The cells of a record tile its outline exactly, in the order of the label, rows alternating between side by side and stacked with the nesting (side by side first in a top-to-bottom drawing, stacked first in a left-to-right one). Each field's text appears centred in its own cell and fits in it, and a rounded record is clipped to its own outline.",
     ["inputs"], "every well-formed record label: any nesting, number of fields, ports and texts, in both drawing directions",
     "Record labels form an infinite grammar; tests draw none and check no cell.",
     [REC, REN, SHP], [("record label parser", REC+":parse"), ("sizes of cells", REN+":get_record_size"), ("placing of cells", REN+":visit_record"), ("drawing", REN+":render_record")],
     "rectangles, texts and clips in the recorded draw calls",
     "state monitor: recorded cells checked for tiling, order and orientation against an independent reading of the label",
     "Covers well-formed labels up to nesting 5; malformed labels are only required not to crash (C05).")

prop("C16", "Edges start and end exactly on the shapes, or the record fields, they name",
     "The ends of every drawn edge lie on the outline of the shapes that it connects, neither inside nor away from them. An end that names an existing port of a record lies on the border or at the place of the field with that port, and an end without a port or with an unknown port attaches to the record as a whole. An end lies on the side of its shape that faces the rest of the edge.",
     ["inputs", "programs"], "every edge of every graph: any pair of shapes, sizes, ports, direction and routing",
     "Attachment points depend on relative position, shape and direction; no test computes one.",
     [REN, GEO, BLD], [("attachment points", REN+":get_connector_location"), ("ports", REN+":get_record_port_location"), ("ellipse intersection", GEO+":get_connection_point_for_circle"), ("box intersection", GEO+":get_connection_point_for_box")],
     "first and last point of the recorded arrows",
     "state monitor over recorded pictures: distance from each end to the outline or to the cell of the port",
     "Distances are compared with a relative tolerance of 1e-6 of the drawing size.")

prop("C17", "The graph structure keeps edges, ranks and their cross references consistent",
     "After any sequence of operations on the ranked graph, successor and predecessor lists mirror each other and equal the multiset of edges added and not removed, every node is in exactly one row, at the rank and before the node that was asked for, with no more rows than that takes, and reachability equals the existence of a path. Removing an edge removes one copy and reports whether there was one, the row queries agree with the rows, and validation rejects exactly the graphs with a cycle.",
     ["histories"], "every sequence of construction, edge, rank and query operations on any number of nodes",
     "The tests run two short scripts; consistency must hold after every history.",
     [DAG], [("edges", DAG+":add_edge"), ("edge removal", DAG+":remove_edge"), ("reachability", DAG+":is_reachable"), ("rank updates", DAG+":update_node_rank_level")],
     "the public queries after every operation",
     "model-based monitor: random operation histories replayed against a reference model, every query compared after every operation",
     "Histories of up to 160 operations on up to 90 nodes; operations whose documented preconditions do not hold are not called.")

prop("C18", "Ranks order every edge, and rank improvement never breaks or lengthens them",
     "Computing ranks for an acyclic graph puts every node in exactly one row, strictly below all of its predecessors, with sources in the first row and no deeper than its longest chain requires. Rank improvement keeps every edge pointing to a later row, keeps every node in exactly one row and never makes the total length of the edges larger; it stops only when no node can be sunk further.",
     ["inputs", "histories"], "every acyclic graph, and every sequence of rank improvements on it",
     "Needs arbitrary acyclic graphs; the tests rank one small graph.",
     [DAG, OPT], [("levels", DAG+":compute_levels"), ("topological order", DAG+":topological_sort"), ("sinking a node", OPT+":try_to_sink_node")],
     "levels and rows after each step",
     "state monitor: invariants and a longest-path reference checked after each step on random acyclic graphs",
     "Graphs of up to 100 nodes (thorough: 150).")

prop("C19", "Reordering rows to reduce crossings only permutes rows, and never adds crossings",
     "Whatever the graph and its ranks, the crossing optimiser leaves each row a permutation of itself and all edges unchanged, and the number of crossings between adjacent rows after it (edges with the same ends counted once) is at most the number before, and smaller where exchanging two neighbours of a row alone would save one.",
     ["inputs", "histories"], "every ranked graph without empty rows whose edges join adjacent rows",
     "Needs arbitrary ranked graphs and an independent crossing count; no test has one.",
     [OPT], [("search", OPT+":optimize"), ("crossing count", OPT+":num_crossing"), ("swaps", OPT+":swap_crossed_edges"), ("shuffles", OPT+":perturb_rank")],
     "rows and edges before and after",
     "state monitor: permutation check and independent brute-force crossing count on random layered graphs",
     "Graphs of up to 14 rows of up to 18 nodes.")

prop("C20", "The scoped map behaves as a stack of maps",
     "After any sequence of pushes, pops, insertions and lookups, a lookup finds the value of the innermost scope that has the key, a pop restores exactly what was visible before the matching push, and length, membership, emptiness and the flattened view agree with the lookups.",
     ["histories"], "every sequence of operations over any keys and values",
     "The tests run two scripts; shadowing and restoration must hold for all histories.",
     [MAP], [("insert and shadowing", MAP+":insert"), ("lookup", MAP+":get"), ("flattening", MAP+":flatten")],
     "the public queries after every operation",
     "model-based monitor: random histories against a stack of reference maps",
     "Histories of up to 1500 operations; keys are integers, strings, pairs and a type with coarse equality and colliding hashes.")

prop("C21", "The geometric primitives return the points they promise",
     "A connection point lies on the outline of the ellipse or box it was asked for, on the way to the other point, and never behind the shape. Segment and box tests agree with exact arithmetic away from touching contact, moving, aligning and transposing positions does exactly what it says and keeps the rest, vectors, sizes, medians and interpolations are what they name, and all results are finite.",
     ["inputs"], "all points, sizes and boxes of the magnitudes of drawings, including degenerate, axis-parallel and nearly axis-parallel ones",
     "The tests cover a few hand-picked segments; the formulas divide by slopes that vanish or explode.",
     [GEO], [("ellipse", GEO+":get_connection_point_for_circle"), ("box", GEO+":get_connection_point_for_box"), ("segments", GEO+":segment_rect_intersection"), ("boxes", GEO+":do_boxes_intersect"), ("positions", GEO+":Position")],
     "returned points and flags",
     "assertion monitor: random, degenerate and grid inputs judged by exact rational or residual checks",
     "Coordinates of magnitude up to a billion. Residuals are compared with a relative tolerance; touching contact is not judged.")

prop("C22", "Colours in the drawing are the colours that the text names",
     "Each of the 148 CSS colour names denotes its standard value, #rrggbb and #rrggbbaa denote themselves in either letter case, and every colour is written to the SVG as its eight-digit web colour. The first of a list of colours counts. An unknown name never aborts: it falls back to black, whether it is used for a line, a fill or an edge.",
     ["inputs"], "every colour name, every 24 and 32 bit value, and arbitrary text",
     "The test checks three names; the table has 148 entries and the parser an unbounded input.",
     [COL, BLD], [("name table", COL+":from_name"), ("web form", COL+":to_web_color"), ("attributes", BLD+":get_color")],
     "web colours of constructed styles and of drawn elements",
     "differential monitor against an independent table of the CSS colours",
     "All names are enumerated in each run; values are sampled.")

prop("C23", "The command line tool writes the drawing where it was told, or says why not",
     "For every input the tool writes to the requested file exactly the drawing that the library produces for that text and those flags. When the input cannot be read or parsed no output file is created or changed and the error is reported (for a syntax error with its place in the text), and when the output cannot be written that is reported too. The AST is printed when it is asked for, and only then.",
     ["inputs", "configurations", "fault_sequences"], "every input file, flag combination and output path, including unwritable and full destinations",
     "The tests never run the tool nor inject I/O faults.",
     [CLI, UTL], [("main", CLI+":main"), ("output", CLI+":generate_svg"), ("file writing", UTL+":save_to_file")],
     "files, standard error and exit of the real binary",
     "fault-injecting monitor: the real binary run on random programs and on failing destinations (missing directory, directory, full device, read-only file), compared with the library",
     "Faults are those that files and devices can produce without privileges.")

prop("C24", "Every shape is large enough for its text",
     "Each box or ellipse is at least as wide as its longest line of text times the font size, and at least as high as its number of lines times the font size, and a double circle is round, with the text inside its inner ring.",
     ["inputs"], "every label: any number and length of lines, any script, any font size, both directions",
     "Sizes depend on every label; no test reads them.",
     [GEO, REN, SHP], [("text estimate", GEO+":get_size_for_str"), ("shape sizes", REN+":get_shape_size"), ("padding", GEO+":pad_shape_scalar")],
     "sizes of the recorded shapes",
     "state monitor: recorded shape sizes against an independent text estimate",
     "The estimate is the project's own unit: one font size per character and line.")

prop("C25", "Edge labels are shown once, beside their own edge, in their own font",
     "The label of an edge is drawn exactly once, with the font size of the edge, next to a joint of the path of that edge; edges without a label show none.",
     ["inputs", "programs"], "every labelled edge of every graph, including reversed, long, parallel and self edges",
     "Labels become intermediate nodes that later passes move, resize and re-create; no test looks at them.",
     [LAY, MOV, REN, BLD], [("labels become nodes", LAY+":split_text_edges"), ("moving labels", MOV+":move_label"), ("drawing of connectors", REN+":render")],
     "texts and arrow paths in the recorded draw calls",
     "trace monitor: recorded texts matched one-to-one with the labelled edges of an independent reading",
     "Covers the generated graphs.")

prop("C26", "Graphs built through the API are drawn as they were specified",
     "A node added through the API is drawn once with the size, shape, style and properties it was given; an edge added through it is drawn once with its style, properties, dash, label and the heads asked for at each end, even when the layout turns it around, and an invisible edge is not drawn at all though it still shapes the layout. Ports, sizes and properties survive every pass, and the constructors of styles and edges keep what they are given.",
     ["inputs", "histories"], "every sequence of node and edge additions, any sizes, head kinds, properties and ports",
     "One test builds a three-node graph and checks nothing about the picture.",
     [LAY, SHP, REN], [("elements", SHP+":Element::create"), ("arrows", SHP+":Arrow::new"), ("reversal", SHP+":Arrow::reverse"), ("drawing of arrows", REN+":render_arrow")],
     "draw calls received by a recording backend",
     "trace monitor: random API histories, recorded draw calls matched with the specification",
     "Precondition of the library: one layout per graph; nodes without a shape cannot have edges.")

prop("C27", "A left-to-right drawing is the top-to-bottom drawing transposed",
     "Laying out a graph of boxes without edge labels left-to-right gives exactly the layout of the same graph with transposed box sizes top-to-bottom, with the two axes exchanged, including the points that long edges pass through.",
     ["inputs"], "every graph of boxes with any sizes, under every flag combination",
     "Relates two runs; the passes transpose back and forth and no test compares the directions.",
     [LAY, PLC, SHP, GEO], [("transposition", PLC+":layout"), ("elements", SHP+":transpose"), ("positions", GEO+":Position::transpose")],
     "rectangles in the recorded draw calls",
     "metamorphic monitor: recorded shapes of paired runs compared",
     "Node shapes and passing points; the attachment points are not required to be mirror images.")

prop("C28", "Lowering keeps every edge and makes it a chain of unit steps",
     "Lowering turns any graph into a ranked graph without cycles in which every edge joins adjacent rows, without changing what the graph says: all nodes are kept, every edge between two nodes becomes exactly one chain of connectors that no other edge shares, a labelled edge carries its label on exactly one connector of its chain, and each self loop gets one connector in the row of its node, before it. An edge is turned around only when it closes a cycle.",
     ["inputs", "histories"], "every multigraph with any labels, self loops and parallel edges, with and without the optimisations, step by step or at once",
     "The tests lower two small graphs; the guarantee is about every graph and about all passes together.",
     [LAY, DAG, OPT, MOV], [("cycle removal", LAY+":to_valid_dag"), ("labels become nodes", LAY+":split_text_edges"), ("long edges", LAY+":split_long_edges"), ("self loops", LAY+":expand_self_edges")],
     "the public ranked graph (rows, successors, predecessors, elements) after each lowering step and after the layout",
     "state monitor after every lowering pass: the ranked graph contracted over its connectors and compared with the multigraph that was built",
     "Covers the generated graphs; which edges of a cycle are turned is not prescribed.")

prop("C29", "Rows are placed in order, on common lines, one below the other",
     "In every finished layout the elements of a row (nodes, labels and the joints of long edges) stand in the order of the row without overlapping, all nodes of a row are centred on one line, every node lies wholly beyond the nodes of the rows before it, and the drawing begins at the margin of the page. A drawing with one element in each row is straight: all are centred on one line. In left-to-right drawings the rows are columns.",
     ["inputs"], "every graph, size, direction and flag combination",
     "Three placement passes and two repairs move elements independently of each other; only the final positions tell whether the order of the rows survived, and no test looks at positions.",
     [BK, SIM, FIX, PLC, VER, GEO], [("initial rows", SIM+":do_it"), ("horizontal placement", BK+":do_it"), ("repairs", FIX+":do_it"), ("transposition", PLC+":layout")],
     "positions of all elements and rows of the public ranked graph after the layout",
     "state monitor: positions of all elements after the layout against the rows of the ranked graph",
     "Tolerance relative to the largest coordinate. Labels and joints may leave the centre line of their row.")

prop("C30", "A syntax error is reported where it is",
     "The report of a syntax error shows the text up to the end of the line of the error, followed by a mark that stands below the offending character, or below or right behind the offending token; for a text that ends too early the mark stands at its end.",
     ["inputs"], "every malformed text, with the error on any line and column, after any comments, strings and line breaks",
     "No test looks at the report; the position passes through comments, strings, look-ahead and the end of the file.",
     [LEX, PAR], [("report", LEX+":print_error"), ("position", LEX+":read_char"), ("look-ahead", PAR+":lex")],
     "standard output of DotParser::print_error",
     "output monitor: errors planted at known places of random programs, the captured report compared with the place",
     "A column is a character; planted are characters that are in no token, tokens that cannot follow, and early ends.")

prop("C31", "The AST dump shows the whole program",
     "The dump of a parsed program (the -a flag of the tool) shows every statement in order: node and edge statements with all names, ports, arrows and attributes, attribute statements with their target, and subgraphs with their names, further to the right than what surrounds them; and it shows nothing else.",
     ["inputs", "programs"], "every well-formed program",
     "No test prints an AST.",
     [L+"gv/parser/printer.rs", PAR, AST], [("dump", L+"gv/parser/printer.rs:dump_ast"), ("AST", AST)],
     "standard output of gv::dump_ast",
     "output monitor: the captured dump of random programs with unique words compared, line by line, with the program",
     "Names without line breaks.")

prop("C32", "Edges are smooth curves that head for where they go",
     "The curve of an edge sets out from its first end straight for its next joint (or for the centre of the shape it leads to), and arrives at its other end straight from its last joint (or from its other end). It passes each joint in a direction between those of the way in and the way out, leaning to the nearer one, or along the axis when one of the two is exactly horizontal or vertical; where the way out leads straight back, it bows at a right angle. An edge whose ends, joints and target lie on one horizontal or vertical line is drawn as a straight line.",
     ["inputs", "programs", "configurations"], "every graph and size of its shapes, flag combination and drawing direction",
     "The unit tests of connection points try a few points, and no test looks at the path of an edge.",
     [L+"std_shapes/render.rs", GEO], [("generate_curve_for_elements", L+"std_shapes/render.rs"), ("get_passthrough_path_invisible", GEO), ("create_vector_of_length", GEO)],
     "the control points of the recorded draw_arrow calls",
     "trace monitor: each control point of each recorded path compared with the joints, ends and shapes around it",
     "Turns within a thousandth of straight back are not judged.")

prop("C33", "Looks never move anything",
     "The place and size of everything that is drawn, and the page, follow from the nodes, edges, ports, shapes, font sizes, direction, flags and the sizes of the texts alone. Other colours, line widths and styles, arrow heads or none (-> or --), other letters in the labels, and attributes that mean nothing to the tool change no place and no size.",
     ["inputs", "programs", "configurations"], "every program, every change of its looks and every flag combination",
     "It relates two drawings of different programs; the tests look at no drawing at all.",
     [BLD, SHP, REN, LAY], [("attributes of nodes and edges", BLD+":get_shape_from_attributes"), ("attributes of edges", BLD+":get_arrow_from_attributes"), ("sizes", REN+":get_shape_size"), ("lowering of edges", LAY+":lower")],
     "the recorded draw calls and the SVG header",
     "metamorphic monitor: the recorded trace of draw calls of a random program compared, place by place, with the traces of the same program with other looks",
     "Exact comparison. Letters are exchanged for letters and digits for digits, so the sizes of the texts stay the same.")

prop("C34", "A program draws like its flat form",
     "What is drawn depends only on the nodes in the order of their first mention with the attributes that they end up with, the edges in their order with theirs and their ports, and the direction. Writing out each node and then each edge with exactly these gives the same drawing, byte for byte: chains, subgraphs, blocks, defaults, repeated mentions and the order of attributes leave no other trace.",
     ["inputs", "programs", "configurations"], "every program, with any nesting of subgraphs and defaults, and every flag combination",
     "It relates drawings of two different programs, and depends on the order in which the builder meets things.",
     [BLD, PAR, MAP], [("visit", BLD+":visit_graph"), ("creation of nodes", BLD+":init_node_with_name"), ("chains", BLD+":visit_edge"), ("graph", BLD+":get")],
     "the SVG text of both programs",
     "metamorphic monitor: the SVG of a random program compared with the SVG of its flat form, which an independent interpreter of the scoping rules derives",
     "Exact comparison; graphs of up to 40 nodes.")

prop("C35", "A drawing takes no more room than its contents need",
     "Across the direction of a drawing its elements (nodes, labels and joints, each with the space kept around it) take no more room than all of them side by side, along it the nodes take no more than the rows one after the other, each as high as its highest element; and the page starts no more than ten units before the origin or what is drawn before it, and ends within ten units of the last thing drawn on it.",
     ["inputs", "programs"], "every graph, size, direction and flag combination",
     "Wasted space breaks nothing that a test looks at, and depends on how the placement passes and the page growth add up over the whole drawing.",
     [SVG, SIM, BK, FIX], [("rows", SIM+":assign_y_coordinates"), ("places across", BK+":do_it"), ("page growth", SVG+":grow_window")],
     "positions of all elements after the layout, the draw calls, and the page that the SVG declares",
     "state monitor: sums of the sizes of elements and rows against the extent of the layout, and the extent of the recorded draw calls against the declared page",
     "The room of a text is its longest line times the font size by its number of lines times the font size; the curve of an edge counts with its control points. Debug annotations are not judged.")

prop("C36", "Optimisation is applied, and never makes a drawing worse",
     "With optimisations on, the edges of a laid out graph pass no more rows in total than with them off; no node or label could stand nearer to its successors without making the edges longer in total; where both runs put the nodes in the same rows there are at most as many crossings between adjacent rows as without, and fewer where exchanging two neighbours would save one; and a graph whose nodes, named row by row, need no crossings, has none.",
     ["inputs", "histories"], "every multigraph with any labels and self loops, laid out with and without optimisations",
     "The optimisers are only heuristics that run somewhere in a sequence of passes; that they run, at the right moment and on the right rows, shows in no single drawing.",
     [LAY, OPT, DAG], [("passes", LAY+":split_long_edges"), ("ranks", OPT+":RankOptimizer"), ("crossings", OPT+":EdgeCrossOptimizer")],
     "the public ranked graph (rows and edges) after the layout with and without optimisations, and after lowering",
     "metamorphic and state monitor: row order, edge lengths and crossings of the same graph laid out twice, and the local optimality of the ranks",
     "Crossings are counted by the order in the rows; edges with the same ends count once.")

def main():
    claimed = set(open(os.path.join(ROOT, "tools", "claimed")).read().split())
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=[p["observe"]], hook_needed=None))
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
             notes="All checks run the real code under generated workloads with monitors; see DESIGN.md. No hooks in /repo are needed: everything is observed at public interfaces. Genuine defects that were found are repaired by fix: commits and listed in known-findings.txt.")
    for p in P:
        if p["id"] in claimed:
            m["checks"].append(dict(
                property=p["id"],
                quick_cmd="./check.sh %s quick" % p["id"],
                thorough_cmd="./check.sh %s thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique="runtime monitoring: " + p["tech"],
                level="exploration", level_note=p["note"]))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=p["unclaimed"] or "the monitor for this property is not finished yet"))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
