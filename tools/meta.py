#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both are committed)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "layout/src/"
LEX, PAR, PRI, AST = S + "gv/parser/lexer.rs", S + "gv/parser/parser.rs", S + "gv/parser/printer.rs", S + "gv/parser/ast.rs"
BLD, REC = S + "gv/builder.rs", S + "gv/record.rs"
MAP, DAG = S + "adt/map.rs", S + "adt/dag.rs"
OPT, LAY = S + "topo/optimizer.rs", S + "topo/layout.rs"
BK, EDG, PLC, SMP = S + "topo/placer/bk.rs", S + "topo/placer/edge_fixer.rs", S + "topo/placer/place.rs", S + "topo/placer/simple.rs"
MBR = S + "topo/placer/move_between_rows.rs"
GEO, COL, UTL, STY = S + "core/geometry.rs", S + "core/color.rs", S + "core/utils.rs", S + "core/style.rs"
SVG, REN, SHP = S + "backends/svg.rs", S + "std_shapes/render.rs", S + "std_shapes/shapes.rs"
CLI = "src/bin/layout.rs"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, level="model_checking", technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, level=level, technique=technique))


TXT = ("Bounded-exhaustive model checking of the real code: all inputs (operation sequences) of an alphabet up to a "
       "length are executed against the implementation and compared step by step with an explicit reference model")

prop("P01", "Texts are split into tokens as the DOT lexical grammar says",
     "Every text is read as exactly the tokens the DOT lexical grammar defines: identifiers, numbers with sign and fraction, quoted strings with their escapes, edge operators, punctuation and the (lower case) keywords, with white space and both kinds of comments skipped. No character is lost or counted twice, and a text that is not lexically valid is reported as such at the first bad token.",
     ["inputs"], "all texts", "the unit tests read a dozen hand-picked texts; a character that is dropped after one particular token or a comment that ends in an odd way is not among them",
     [LEX], [("next_token", LEX), ("skip_comment", LEX), ("read_number", LEX)], ["Lexer::next_token"],
     "All texts up to a length over alphabets of every character class; NUL and non-ASCII outside of strings are excluded.")
prop("P02", "A text is accepted exactly if it is a DOT graph, and parsed to its tree",
     "A text is accepted exactly if it is a sentence of the supported DOT grammar (without compass points, HTML strings and subgraphs as ends of edges), and then the syntax tree has the statements, node names, ports, edge operators and attributes of the text, in the order of the text and nested like its braces. No statement or attribute is lost, merged or duplicated.",
     ["programs"], "all token sequences", "the tests parse four programs; the grammar has unboundedly many combinations of optional separators, lists and nested graphs",
     [PAR, AST], [("parse_stmt", PAR), ("parse_attr_list", PAR), ("parse_edge_stmt", PAR)], ["DotParser::process"],
     "All token sequences up to a length over several alphabets against an independent recursive-descent reference parser; compass points, double separators and edges to subgraphs are unspecified.")
prop("P03", "The front end terminates and never panics, on any text",
     "Whatever the text, parsing it, printing the error or the tree, and building the graph end without a panic and without an endless loop. A rejected text yields an error, an accepted one a graph that can be built.",
     ["inputs"], "all texts", "a panic or endless loop needs a particular malformed or cut-off text that nobody wrote a test for",
     [LEX, PAR, BLD, REC], [("bounds of the position in the text", LEX), ("end of input in every list", PAR)], ["DotParser::process", "GraphBuilder::get", "print_error"],
     "All texts up to a length and every cut, deletion, duplication and replacement at every place of sample texts; nesting depth is bounded.")
prop("P04", "A syntax error is reported at the place where the text is wrong",
     "When a text is rejected, the error report shows the line of the first token that cannot continue a valid graph, with the marker under that token. For a text that ends too early, the marker is under its end.",
     ["inputs"], "all rejected texts", "the tests only check that an error is returned, never where it is reported",
     [LEX, PAR], [("print_error", LEX), ("token start position", LEX)], ["DotParser::print_error"],
     "Every rejected text of the explored alphabets; the offending token is computed by the reference parser.")
prop("P05", "The printed syntax tree shows the whole program, in order",
     "Printing the syntax tree of a graph shows every statement in the order of the program: node names with their ports, edge operators of the right kind, defaults with their target, subgraphs with their names, and after each of them its attributes with keys and values. Statements inside braces are indented deeper than those around them, and lines of a kind at one depth are aligned.",
     ["programs"], "all syntax trees", "no test looks at what is printed",
     [PRI, AST], [("print_graph", PRI), ("print_edge", PRI), ("print_att", PRI)], ["dump_ast on standard output"],
     "All programs of up to five statements from a list, with nested graphs, against the tree of the reference parser; the widths of indentation are unspecified.")
prop("B01", "Attributes apply to what follows in their own scope only",
     "A default set by an attribute statement applies to the nodes and edges first mentioned after it within the same braces, and an attribute in a node or edge statement applies to that node or edge only. Defaults are inherited by inner braces and end with the braces that set them.",
     ["programs"], "all nestings and orders of attribute, node, edge and subgraph statements", "tests build no graph with nested scopes at all; scoping faults need a particular order of statements",
     [BLD, MAP], [("scoped attribute maps", BLD), ("visit_att", BLD), ("push/pop in visit_stmt", BLD)], ["styles handed to the render backend"],
     "All statement sequences up to a length with all bracings against a reference interpreter.")
prop("B02", "The drawing has exactly the nodes and edges that the text declares",
     "Every node that is mentioned is drawn once, and every edge of every edge statement is drawn once, between the nodes and cells it names, with a head at its end if and only if the edge is directed. Nothing else is drawn.",
     ["programs"], "all sequences of node, edge, chain and subgraph statements", "tests do not look at built graphs; chains with ports, repeated and self edges combine in ways no sample covers",
     [BLD, LAY, PAR], [("visit_edge", BLD), ("get", BLD), ("expand_self_edges", LAY)], ["calls to the render backend"],
     "All statement sequences and chains up to a length; edges are identified by colour.")
prop("B03", "Attributes mean what they say",
     "Shape, color, fillcolor, style, width, penwidth, fontsize and label of nodes and edges determine the drawn shape, line and fill colour, dashes, line width, font size and text as documented. Values that mean nothing fall back to the default (colours: to black), one attribute never changes what another one means, and attributes that are unknown or belong to other elements (penwidth on a node, width on an edge) change nothing.",
     ["inputs", "configurations"], "all combinations of values of all attributes", "the tests never read an attribute; their product is far larger than samples can cover",
     [BLD], [("get_shape_from_attributes", BLD), ("get_arrow_from_attributes", BLD), ("normalize_color", BLD)], ["styles and shapes handed to the render backend"],
     "The full product of listed values, sensible and senseless.")
prop("B04", "Graphs built through the API are drawn as told",
     "Every element and arrow handed to the API is drawn with the shape, size, text, style and properties it was created with, each arrow once between its two elements: heads at the ends they were set for, ends at the ports named for them, dashed or dotted lines broken, invisible ones not drawn, its label shown once, the cells of a rounded record clipped to its outline. This holds whatever other elements and arrows there are, also for arrows that the layout turns around or splits.",
     ["programs", "configurations"], "all elements, arrows and graphs", "the tests build a few graphs through the API and do not look at the drawing",
     [SHP, REN, LAY], [("Element::create_with_properties", SHP), ("Arrow::reverse", SHP), ("Arrow::with_properties", SHP), ("render_arrow", REN), ("to_valid_dag", LAY)], ["calls to the render backend", "the SVG document"],
     "All small graphs with all combinations of heads, line styles, labels, properties, ports, shapes and styles; labels of invisible arrows are unspecified.")
prop("B05", "Programs that mean the same are drawn the same",
     "A drawing depends only on what the text says, not on how it is written. Quoting, comments and white space, semicolons, chains of edges or single edges, one or several attribute lists, the order of different attributes, overridden values, a surrounding or named subgraph, a name of the graph, mentioning nodes again, or other names for the nodes change nothing (apart from the names shown).",
     ["inputs", "programs"], "all programs and ways to write them", "no test compares two drawings",
     [LEX, PAR, BLD], [("parse_attr_list", PAR), ("parse_edge_stmt", PAR), ("GraphBuilder::visit_graph", BLD)], ["calls to the render backend"],
     "All programs up to a number of statements, in every single way and every pair of ways of writing.")
prop("B06", "A builder collects the programs that it visits",
     "After several programs were visited by one builder, it returns the graph of all of their statements, with the defaults of each program for itself and the direction of the last one. It can be asked for it at any time and any number of times, without a change of what it returns later.",
     ["histories"], "all histories of programs and questions", "every test uses a builder once",
     [BLD, MAP], [("visit_graph", BLD), ("get", BLD), ("init_node_with_name", BLD), ("push and pop", MAP)], ["GraphBuilder::get"],
     "All histories of up to four programs over a set of statements, and long ones of a single statement.")
prop("R01", "A record label is read as the fields it is made of",
     "A record label is read as its fields in order, with the text and port of every field (what stands between a leading < and the first >) and braces as nested records. On any text at all, reading a label ends without a panic and no visible text is lost.",
     ["inputs"], "all label texts", "four tests read four labels; odd brackets, empty fields and cut-off labels are never tried",
     [REC], [("RecordParser::parse", REC), ("split_label_to_text_and_port", REC)], ["parse_record_string", "record_builder"],
     "All labels up to a length; empty fields and unbalanced labels: only no panic, no lost text.")
prop("R02", "Records are drawn as nested rows of cells that fit their texts",
     "Every field of a record is drawn as one cell with its text inside, cells of one level are placed in order along one axis and nested levels along the other, and the cells tile the outline without overlap; those of a rounded record are clipped to its outline. Each text fits its cell.",
     ["inputs", "configurations"], "all record trees, texts, font sizes and directions", "no test draws a record",
     [REN, SHP], [("visit_record", REN), ("get_record_size", REN), ("render_record", REN)], ["calls to the render backend"],
     "All trees up to a depth and width with text patterns.")
prop("D01", "The scoped map is a stack of dictionaries",
     "After any sequence of push, pop and insert, a lookup returns the value most recently inserted for the key in the innermost open scope that has it, and the flattened map agrees with the lookups. Popping a scope restores exactly what was visible before it was opened.",
     ["histories"], "all operation sequences", "two tests run two short sequences",
     [MAP], [("ScopedMap", MAP)], ["get", "has", "flatten", "len"], "All sequences up to a depth over keys and values, misuse excluded.")
prop("D02", "The ranked graph stays consistent under every sequence of operations",
     "After any sequence of adding nodes, adding and removing edges, clearing, moving nodes between ranks and recomputing ranks, successors and predecessors mirror each other, every node is in exactly one rank, and all queries (reachability, level, row ends, single neighbours) answer according to the edges and ranks. No operation disturbs what it does not name.",
     ["histories"], "all operation sequences", "the tests run two fixed sequences",
     [DAG], [("add_edge/remove_edge", DAG), ("update_node_rank_level", DAG), ("is_reachable", DAG)], ["all queries of DAG"],
     "All sequences up to a depth with up to four nodes, all queries compared after every operation.")
prop("D03", "Ranks are the lengths of the longest paths",
     "For every acyclic graph, the computed rank of a node is the number of edges of the longest path that leads to it, so every edge leads to a strictly greater rank, ranks have no gaps, and every node has one rank. Recomputing them gives the same ranks.",
     ["inputs"], "all acyclic multigraphs and node numberings", "one test ranks one graph",
     [DAG], [("topological_sort", DAG), ("compute_levels", DAG), ("recompute_node_ranks", DAG)], ["DAG::level", "DAG::ranks"],
     "All acyclic graphs up to six nodes and all numberings.")
prop("O01", "Optimizing ranks shortens edges and keeps every edge going down",
     "After the rank optimizer, every edge still leads to a greater rank, every node is in exactly one rank, and the total length of the edges is not greater than before. It always terminates, and the edges of the graph are untouched.",
     ["inputs"], "all acyclic multigraphs and node numberings", "no test runs the optimizer",
     [OPT], [("RankOptimizer::optimize", OPT), ("try_to_sink_node", OPT)], ["DAG ranks before and after"],
     "All acyclic multigraphs up to six nodes.")
prop("O02", "Optimizing the order of ranks never adds edge crossings",
     "The crossing optimizer only permutes the nodes within their ranks, and afterwards there are at most as many crossings as before - fewer, if exchanging two neighbours would have removed one. An order is only given up for one with fewer crossings. It always terminates.",
     ["inputs"], "all ranked graphs and initial orders", "one test runs it on one graph",
     [OPT], [("EdgeCrossOptimizer::optimize", OPT), ("count_crossed_edges", OPT)], ["DAG rows before and after"],
     "All two- and three-rank graphs up to a size, crossings counted from their definition.")
prop("C01", "Colours are the ones that were named",
     "Every CSS colour name, in upper or lower case letters, and every #rrggbb and #rrggbbaa value denotes exactly its colour in the drawing, and no other text denotes a colour.",
     ["inputs"], "all names and hexadecimal values", "one test looks up a handful of colours",
     [COL], [("from_name", COL), ("table of names", COL), ("to_web_color", COL)], ["Color::from_name", "Color::to_web_color"],
     "All names, all 2^24 values, all near-misses of names by one edit, against an independent table.")
prop("G01", "Geometric predicates and functions compute what they are named after",
     "Box and segment intersection, interval tests, the weighted median, text sizes and vector functions agree with their definition for all arguments, whatever the order or orientation of the arguments. Swapping or mirroring arguments does not change an answer.",
     ["inputs"], "all arguments", "a few tests try a few points; degenerate (vertical, touching, contained) cases are not among them",
     [GEO], [("segment_rect_intersection", GEO), ("do_boxes_intersect", GEO), ("weighted_median", GEO)], ["the functions' results"],
     "All arguments on an integer grid, compared with exact integer arithmetic; touching is unspecified.")
prop("G02", "A shape's box, center and halo stay consistent under every movement",
     "After any sequence of moves, resizes, alignments and transpositions of a position, its edges, size, middle and center agree with each other and with the operation's meaning, with and without the halo. Moving never resizes, and transposing twice restores the position.",
     ["histories"], "all operation sequences", "no test moves a shape",
     [GEO], [("Position", GEO)], ["all queries of Position"], "All operation sequences up to a depth.")
prop("G03", "Edges attach to the outline of shapes",
     "For every shape, size and direction of approach, the point where an edge attaches lies on the outline of the shape, on the side the edge comes from, and the path through a place holder passes through its center, straight where it comes or leaves along an axis. Both hold for self edges, zero distances and shapes at the same place.",
     ["inputs"], "all shapes, sizes, places and approaches", "no test attaches an edge",
     [GEO, REN], [("get_connection_point_for_box", GEO), ("get_connection_point_for_circle", GEO), ("get_connector_location", REN)], ["Renderable::get_connector_location", "get_passthrough_path"],
     "All tuples on a grid of sizes, places and directions.")
prop("L01", "Every graph is laid out: no panic, no endless loop, only finite numbers",
     "Every graph that can be written in DOT or built through the API is laid out and drawn in every direction and with every combination of options. It terminates without a panic, and every coordinate is a finite number.",
     ["inputs", "programs", "configurations"], "all graphs, styles and options", "one test lays out one graph; failures need a particular mix of cycles, labels, sizes and options",
     [LAY, BK, EDG, OPT, SMP, PLC], [("lowering", LAY), ("BK placement", BK), ("edge fixing", EDG)], ["VisualGraph::do_it"],
     "All small graphs up to a number of nodes and edges and structured larger ones, every mode.")
prop("L02", "Nodes and edge labels never overlap, and ranks are bands",
     "In every drawing the boxes of nodes and edge labels do not overlap each other. Nodes are arranged in bands: two nodes either share a band or one lies entirely before the other along the direction of the drawing.",
     ["inputs", "configurations"], "all graphs, styles, directions and options", "no test looks at a drawing",
     [BK, EDG, SMP, PLC, LAY], [("assign_x_coordinates", BK), ("edge fixer bounds", EDG), ("row placement", PLC)], ["boxes handed to the render backend"],
     "All small graphs and structured larger ones with labels and shapes.")
prop("L03", "Edges follow the direction of the graph and heads point at the declared end",
     "In an acyclic graph every edge leads from its source downwards (to the right in a left-to-right graph) to its target, and ends with its head at the target. In a graph with cycles, only edges on a cycle may lead back, and their heads are still at the declared end.",
     ["inputs", "configurations"], "all graphs", "no test looks at the direction of drawn edges; edges are reversed internally and must be drawn un-reversed",
     [LAY, DAG], [("to_valid_dag", LAY), ("Arrow::reverse", SHP), ("render_arrow", REN)], ["arrows handed to the render backend"],
     "All small graphs.")
prop("L04", "Everything is drawn exactly once, in its own style",
     "Every node, edge and edge label of the graph is drawn exactly once, with its own text, colours, line style and font, whatever else is in the graph. No place holder used inside the layout becomes visible.",
     ["inputs", "configurations"], "all graphs, styles and options", "no test counts what is drawn; long and labelled edges are split internally and must come out as one",
     [LAY, REN], [("split_text_edges", LAY), ("split_long_edges", LAY), ("expand_self_edges", LAY), ("render", REN)], ["calls to the render backend"],
     "All small graphs with distinct styles per element.")
prop("L05", "Edges end on the outlines of their nodes, at their ports and pass by their label",
     "Both ends of every drawn edge lie on the outline of the nodes it connects, within the cell its port names if there is one. An edge with a label passes through the place of its label.",
     ["inputs", "configurations"], "all graphs, shapes, ports and labels", "no test looks at the ends of edges",
     [REN, LAY], [("generate_curve_for_elements", REN), ("get_record_port_location", REN)], ["arrows handed to the render backend"],
     "All small graphs with shapes, ports and labels.")
prop("L06", "Left-to-right drawings are the top-to-bottom drawings, turned",
     "The places of the nodes, record cells and edge labels of a left-to-right graph, and the points where edges bend between their ends, are those of the same graph drawn top to bottom with transposed sizes of nodes and texts, with x and y exchanged. Only where an edge touches the outline of its nodes may differ.",
     ["inputs", "configurations"], "all graphs and node sizes", "one test turns a point; no test compares two directions",
     [LAY, PLC, SHP], [("VisualGraph::transpose", LAY), ("Position::transpose", GEO)], ["positions after layout"],
     "All small graphs through the API with sizes, and from text with records and labels, where a text of w by h characters is compared with one of h by w characters.")
prop("L07", "Everything that is drawn lies inside the visible area of the picture",
     "All shapes, texts and edges of a drawing lie inside the visible area the SVG document declares. Curves between the bends of an edge may swing slightly outside, but its ends and bends do not.",
     ["inputs", "configurations"], "all graphs, styles and directions", "no test looks at the SVG output",
     [SVG], [("grow_window", SVG), ("finalize", SVG)], ["the SVG document"],
     "All small graphs, parsed back from the SVG document; curves may swing 15 px outside.")
prop("L08", "The same input always gives the same drawing",
     "Drawing the same text again, in the same process or another one, gives the same document byte by byte.",
     ["inputs"], "all texts; all random hash keys and repeated runs", "tests run once with one set of random keys",
     [BLD, SVG, OPT], [("ordered maps", SVG), ("no dependence on hash order", BLD)], ["the SVG document"],
     "All explored texts, several runs each; hash order is sampled by the standard library's fresh keys, not enumerated.")
prop("L09", "The debug option only adds markers",
     "With the debug option, everything that is drawn without it is drawn unchanged and in the same order; only additional markers appear.",
     ["inputs", "configurations"], "all graphs and options", "no test draws with the debug option",
     [REN, LAY], [("render(debug)", REN)], ["calls to the render backend"], "All small graphs in all modes.")
prop("L10", "Drawing takes time polynomial in the size of the graph",
     "Drawing a graph of any structure takes time polynomial in its size: a graph of a hundred elements takes seconds, not hours.",
     ["inputs"], "all graph structures of growing size", "the tests draw tiny graphs, on which exponential work goes unnoticed",
     [DAG, OPT, BK, LAY], [("visited set of is_reachable", DAG), ("worklists", BK)], ["time to completion"],
     "Structured graph families of growing size under a time limit far above normal times; detects exponential work, not constant factors.")
prop("L11", "The ranks and rows of the drawing are those of the graph",
     "The bands of the drawing are the ranks of the lowered graph, and the order along a band is the order within the rank. Without optimization the rank of a node of an acyclic graph is the length of the longest path that leads to it; with optimization the total length of the edges in ranks is not greater.",
     ["inputs", "configurations"], "all graphs, directions and options", "no test looks at a drawing",
     [LAY, PLC, OPT, DAG], [("do_it", LAY), ("Placer::layout", PLC), ("split_long_edges", LAY)], ["places of the elements after layout"],
     "All small graphs.")
prop("L12", "Edges are straight where nothing crosses them",
     "An edge that spans several ranks runs straight, parallel to the direction of the drawing, between its first and its last bend wherever it does not cross another such edge between the bends of that one. So does an edge, or its first or last segment, at a node that has no other edge on that side, where it crosses no segments of other edges. The only bend or label of an edge is at the middle of its ends, or touches the straight line between them, where nothing in its rank is in the way.",
     ["inputs", "configurations"], "all graphs, styles, directions and options", "no test looks at the bends of edges",
     [BK, EDG, PLC], [("vertical alignment", BK), ("align_to_left/right", BK), ("edge fixer", EDG)], ["arrows handed to the render backend"],
     "All small graphs in which the bends are between ranks.")
prop("L13", "Nodes keep their distance",
     "In every drawing any two nodes are at least 60 pixels apart horizontally or vertically: the margin of 30 around each of them is kept free of other nodes. A node that no edge ties to another rank stands just at that distance from its neighbour.",
     ["inputs", "configurations"], "all graphs, shapes, directions and options", "no test looks at a drawing",
     [BK, SMP, PLC, SHP, GEO], [("bbox with halo", GEO), ("PADDING", SHP), ("assign_x_coordinates", BK)], ["boxes handed to the render backend"],
     "All small graphs with labels, shapes and ports.")
prop("L14", "Lowering keeps every edge, as a chain from rank to rank",
     "After the lowering passes the layered graph is acyclic, and every edge is in it exactly once, as a chain of connectors that visits every rank between its ends, with its label on exactly one of them. No edge is reversed that is not on a cycle, the nodes are as they were, and a self edge has one place next to its node.",
     ["inputs", "configurations"], "all graphs, labels and options", "one test lowers one graph",
     [LAY, DAG], [("to_valid_dag", LAY), ("split_text_edges", LAY), ("split_long_edges", LAY), ("expand_self_edges", LAY)], ["VisualGraph after every pass"],
     "All small multigraphs with all choices of labels.")
prop("L15", "The picture is no larger than its drawing",
     "The drawing fills the picture: on each of the four sides, something is drawn within the margin of 30 pixels that is kept around nodes, whatever ranks, connectors, self edges and labels moved or were dropped during the layout.",
     ["inputs", "configurations"], "all graphs", "no test reads the SVG output",
     [SVG, PLC, SMP, BK], [("grow_window", SVG), ("align_to_left", SMP), ("do_it", PLC)], ["extent of the SVG document", "everything drawn in it"],
     "All small multigraphs, and larger families, with all options.")
prop("L16", "What takes no space moves nothing",
     "Colours, widths of lines, dashes, fillings, properties, rounded corners, and which ends of an edge have heads or whether it is directed, change only that: every node, cell, text, connector and curve is drawn at the same place. An edge that is invisible has the place in the layout of a visible one.",
     ["inputs", "configurations"], "all graphs and all changes of their looks", "no test compares two layouts",
     [SHP, REN, LAY, BLD, EDG], [("Element", SHP), ("render_arrow", REN), ("lower", LAY), ("get_arrow_from_attributes", BLD)], ["places of everything drawn"],
     "All small graphs, and larger families, with changes of the look of each single edge and node and of all at once.")
prop("L17", "Ranks are rows that follow each other at the margin",
     "The nodes of a rank are centred on one line across the direction of the drawing, and the rows follow each other at the margin of 60 pixels: no wider strip across the drawing is left without a node, label or bend, except for the up to 95 pixels by which a label or bend is moved out of the way of an edge. Without the layout phase the nodes of a row follow each other at that margin, too, and all rows start at the same side.",
     ["inputs", "configurations"], "all graphs, shapes, sizes, directions and options", "no test looks at a drawing",
     [SMP, PLC, EDG, BK], [("assign_y_coordinates", SMP), ("assign_x_coordinates", SMP), ("adjust_crossing_edges", EDG), ("layout", PLC)], ["boxes handed to the render backend"],
     "All small graphs with labels, shapes, sizes and ports.")
prop("L18", "Nodes stand in the order in which the graph mentions them",
     "Without optimization the nodes of every rank stand in the order in which the graph mentions them first, from left to right (in left-to-right graphs from top to bottom). With optimization, too, if the edges all lead from one rank to the next, no rank is changed, and no edges cross in that order.",
     ["inputs", "configurations"], "all graphs, shapes, directions and options", "no test looks at a drawing",
     [DAG, LAY, OPT, SMP, BLD], [("recompute_node_ranks", DAG), ("add_element_to_rank", DAG), ("optimize", OPT), ("assign_x_coordinates", SMP), ("node_order", BLD)], ["boxes handed to the render backend"],
     "All small graphs with labels, shapes, sizes and ports.")
prop("L19", "Bends leave the line of their rank only to keep an edge out of a node",
     "The bends and labels of edges stand on the line of their rank, unless the edge would run through the neighbour of its bend there. Then the bend is moved along the direction of the drawing, by at most 95 pixels, if that keeps the edge out of its neighbours, and never so that it runs through something else next to it.",
     ["inputs", "configurations"], "all graphs, shapes, directions and options", "no test looks at a drawing",
     [EDG, PLC, SMP, GEO], [("adjust_crossing_edges", EDG), ("can_move", EDG), ("segment_rect_intersection", GEO), ("assign_y_coordinates", SMP)], ["VisualGraph after the layout"],
     "All small graphs with labels, and larger structures.")
prop("L20", "Labels of long edges stand where there is room",
     "The label of an edge over several ranks is moved along its bends to a row with room for it: no row next to it in which its edge bends would be less wide with the label than the row is in which the label stands. A label climbs at most three rows. Graphs with more than one label are not covered.",
     ["inputs", "configurations"], "all graphs with one label, shapes, directions and options", "no test looks at the place of a label",
     [MBR, PLC, LAY], [("move_text_up", MBR), ("move_label", MBR), ("get_row_width", MBR)], ["VisualGraph after the layout"],
     "All small graphs with a label, chains of nodes of four widths and rows of up to 32 nodes beside the edge.")
prop("L21", "Nodes stand below the middle of what leads to them",
     "A node stands straight below the middle one of the nodes that lead to it in the rank before (in left-to-right graphs straight beside it), or below one of the two in the middle, if these lead to nothing else and no other segments cross theirs. Long edges beside them change nothing of it.",
     ["inputs", "configurations"], "all graphs, shapes, sizes, directions and options", "no test looks at a drawing",
     [BK, GEO, PLC], [("get_pred_medians", BK), ("extract_edges_with_no_type2_conflict", BK), ("compute_alignment", BK), ("weighted_median", GEO)], ["VisualGraph after the layout"],
     "All small graphs, all forests of 7 and 8 nodes, and fans of up to 13 nodes beside long edges.")
prop("L22", "Self edges stand beside their nodes",
     "Every self edge has a bend of its own, directly before its node on the rank of the node: above it in left-to-right graphs, and to the left of it in others. Wherever the layout puts the node, the bends of its self edges are next to it and to each other, with just their margins between them, and carry the labels of these edges.",
     ["inputs", "configurations"], "all graphs with self edges", "no test has a self edge whose node is moved",
     [EDG, LAY, PLC], [("align_self_edges", EDG), ("handle_disconnected_nodes", EDG), ("expand_self_edges", LAY)], ["VisualGraph after the layout"],
     "All small multigraphs, and rows of up to 7 nodes with any of no, one, or three self edges.")
prop("V01", "The SVG document is well-formed XML and shows the texts of the graph",
     "The document is well-formed XML whatever characters the names, labels and attributes contain. The texts it shows, read back by an XML parser, are the texts of the graph, apart from characters that XML cannot represent.",
     ["inputs"], "all texts", "no test parses the SVG output",
     [SVG], [("escape_string", SVG), ("draw_text", SVG)], ["the SVG document"],
     "All texts up to a length over special characters and fragments, and every single character of several ranges.")
prop("V02", "Names in the SVG document are unique and references resolve",
     "Every id in the document is unique, and every reference to an id, a style class or a clip path resolves to the definition that was meant. The class of every text defines exactly the font size of that text, whatever other sizes the document uses.",
     ["inputs", "histories"], "all graphs and drawing-call sequences", "no test reads the SVG output",
     [SVG], [("counter of ids", SVG), ("font styles", SVG), ("create_clip", SVG)], ["the SVG document"],
     "All small graphs and records.")
prop("V03", "Every drawing call becomes exactly its SVG element",
     "After any sequence of drawing calls the document contains one element (or group) per call, in order, with the coordinates, sizes, styles, properties and clip regions given. The tip of an arrow head is at the end of its path and points along it, and a label is put at the middle of its path. Nothing leaks from one call into another.",
     ["histories"], "all sequences of drawing calls", "no test calls the backend",
     [SVG], [("draw_rect", SVG), ("draw_circle", SVG), ("draw_text", SVG), ("draw_arrow", SVG), ("draw_line", SVG)], ["the SVG document"],
     "All call sequences up to a depth over a set of calls.")
prop("X01", "The command line tool writes what the library draws",
     "For every combination of options, the tool writes to the named file exactly the document the library produces for that text with those options, replacing earlier content. The log, with which the tool builds the library, changes nothing. When the text or the command line is wrong it writes no file and leaves an existing one as it was.",
     ["programs", "configurations"], "all texts and command lines", "no test runs the tool",
     [CLI, UTL], [("main", CLI), ("generate_svg", CLI)], ["output file", "exit status"],
     "All option sets, argument orders and forms, previous states of the output file, log levels; all small graphs.")
prop("X02", "A file that could not be written completely is reported as an error",
     "Saving succeeds only if the file then holds the whole content. Whenever opening or writing fails, at any byte, an error is returned, and saving never panics.",
     ["fault_sequences", "inputs"], "a failure after every number of bytes written, and at opening", "tests save nothing; write failures do not occur in them",
     [UTL], [("save_to_file", UTL)], ["save_to_file result", "file content"],
     "Write limits at every byte (file size limit of the process), every kind of place.", 
     technique="exhaustive enumeration of the fault points of the real code (model checking of all truncation points): the process is limited to every number of bytes in turn")

exec(open(os.path.join(ROOT, "tools", "meta_extra.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "meta_extra.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
M = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
                 "thorough_cmd": "./check %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["technique"] or TXT, "level": p["level"], "level_note": p["note"]} for p in P],
     "not_applicable": [],
     "notes": "No hooks: everything is observed through the public API of the crate. Defects that were found and repaired are listed in known_findings.txt."}
json.dump(M, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
