#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

ETX = "pkg/etx/"
GRAM = [ETX+f for f in ("ast.go","attribute.go","block.go","comment.go","decl.go","expr.go","func.go","ident.go","lambda.go","type.go","value.go")]
DAG = ["pkg/dag/dag.go"]

# ---------------------------------------------------------------- parsing
p("E01", "Parsing yields either a tree or an error that wraps its cause, never both",
  "Each way of parsing ETX text (from a reader, a string or bytes) returns either a non-nil tree and a nil error, or a nil tree and a non-nil error. No failure is swallowed: whenever reading or parsing the input fails, the call fails, and the original failure can be recovered from the returned error with the standard error-unwrapping functions.",
  ["inputs"], "every input text and every reader, including readers that fail midway",
  "parser_test.go feeds a few good and bad texts; the quantifier is over all inputs and all reader failures.",
  [ETX+"parser.go"], [("Parse, ParseString, ParseBytes", ETX+"parser.go")], ["return values of Parse/ParseString/ParseBytes"])
p("E02", "The reader, string and bytes entry points parse identically",
  "For the same text, parsing from a reader, from a string and from bytes gives the same tree or the same failure. All of the input is handed to the same grammar with the same lexing rules and settings, and the tree gets the same post-processing.",
  ["inputs"], "every input text, through each of the three entry points",
  "Tests call mostly one entry point, on a handful of texts.",
  [ETX+"parser.go"], [("Parse, ParseString, ParseBytes", ETX+"parser.go"), ("parser", ETX+"parser.go")])
p("E03", "No input text can make the parser panic",
  "Whatever the input text, parsing never panics: not in the tokeniser (including entering and leaving strings, interpolations, unicode escapes and heredocs), not while literals are decoded into the tree, and not while the tree is linked together. Malformed input is reported as an error. (Exhausting the stack by unboundedly deep nesting is outside this property.)",
  ["inputs"], "every input text",
  "The tests feed well-formed samples; a panic needs an unusual lexeme or state sequence.",
  [ETX+"lexer.go", ETX+"parser.go", ETX+"value.go"]+GRAM, [("lexRules", ETX+"lexer.go"), ("Capture methods", ETX+"value.go"), ("grammar tags", ETX)])
p("E04", "Parsing always terminates",
  "Every input text is accepted or rejected after finitely many steps. No construct of the language can be expected again at the same position without input having been consumed in between, no repetition repeats something that can match nothing, and no token is empty.",
  ["inputs"], "every input text",
  "A non-terminating path needs one particular token sequence; tests that finish say nothing about the others.",
  [ETX+"lexer.go"]+GRAM, [("grammar struct tags", ETX), ("lexRules", ETX+"lexer.go")])
p("E05", "Parsing loses nothing the user wrote",
  "For every accepted text, each piece of it that carries content - names, literals, comments, string and heredoc text, operator choices, keyword choices such as const versus val, and every element of every list - ends up in the tree, in source order. Nothing with content is skipped like whitespace, matched without being recorded, or overwritten by a later piece.",
  ["inputs"], "every accepted input text",
  "Round-trip samples cover a few combinations of optional and repeated parts.",
  [ETX+"lexer.go"]+GRAM, [("grammar struct tags", ETX), ("elided token rules", ETX+"lexer.go")])
p("E06", "Operators bind according to the documented precedence table",
  "In every expression without parentheses, operators group by the precedence order the language documentation gives (postfix, unary, multiplicative, additive, shift, relational, equality, bitwise and, xor, or, logical and, or, conditional), each operator belongs to exactly the level the table puts it on, and every documented operator is accepted. Parentheses override the order.",
  ["inputs"], "every combination of operators in every accepted expression",
  "Tests check operators mostly one at a time; grouping is decided by pairs and chains of them.",
  [ETX+"expr.go", ETX+"README.md"], [("expression grammar chain", ETX+"expr.go"), ("precedence table", ETX+"README.md")])
p("E07", "Operators and keywords are tokenised by longest match",
  "Where one operator's spelling starts with another's (such as < <= <<, & &&, = == =>, - ->), the longer one is always recognised when present in the text, and every operator spelling of the language can be produced. An identifier that merely starts or ends with a keyword (iffy, else1) is one identifier, and a keyword standing alone is never an identifier token.",
  ["inputs"], "every input text in every lexing state that contains operators or words",
  "Tests contain some of the operators, in spaced-out text.",
  [ETX+"lexer.go"], [("lexRules", ETX+"lexer.go")])
p("E08", "Strings and heredocs accept any text up to their own terminator",
  "Inside a quoted string or heredoc every character sequence is accepted as text, including lone $ and % signs and the other kind of quote, apart from malformed backslash escapes; an interpolation starts exactly at ${ or %{ and not at their doubled, escaped forms. The literal ends exactly at its own terminator: the matching quote, or the complete delimiter word at the start of a line.",
  ["inputs"], "every string and heredoc body",
  "Tests use benign bodies; the failing ones contain unusual characters or delimiters that are prefixes of text.",
  [ETX+"lexer.go", ETX+"value.go"], [("String and Heredoc lexer states", ETX+"lexer.go")])
p("E09", "Scalar literals decode to the value written",
  "true and false decode to the corresponding truth value; a number keeps its spelling (0-prefixed octal is normalised to the 0o form with all digits kept) and its value is what that spelling denotes, and a number that cannot be represented is a parse error rather than a wrong value; a heredoc header yields exactly its delimiter word and whether the - flag was present.",
  ["inputs"], "every scalar literal the tokeniser can produce",
  "Table tests list some spellings of each literal kind.",
  [ETX+"value.go"], [("ValueBool.Capture, ValueNumber.Capture, HeredocDelimiter.Capture", ETX+"value.go")])
p("E10", "Every node of a parsed tree carries its source position",
  "Every node in a parsed tree records the position (line, column, offset) at which its text starts, as determined by the tokeniser; nothing in the library afterwards changes a recorded position, and a cloned node keeps its original's position.",
  ["inputs"], "every node of every parsed tree",
  "Most tests strip positions before comparing trees.",
  [ETX+"ast.go", ETX+"parser.go"]+GRAM[1:], [("ASTNode.Pos injected by the parser library", ETX+"ast.go")])
p("E11", "Parent links of a parsed tree mirror its child links",
  "In every tree returned by parsing, each node's parent link refers to the node that lists it as a child, and the top-level items have no parent; this holds at every depth. Refreshing the parent links of any tree establishes the same.",
  ["inputs"], "every node at every depth of every parsed tree",
  "Tests build small trees and mostly strip parents before comparing.",
  [ETX+"parser.go", ETX+"ast.go"]+GRAM[1:], [("updateParentRefs, UpdateParentRefs", ETX+"parser.go"), ("Node methods", ETX)])
p("E12", "Each node lists every direct child exactly once",
  "For every node, the list of children contains each sub-node directly below it (every optional, repeated or embedded part that is present) exactly once and nothing else; entries are never nil, denote the sub-nodes themselves rather than copies, and parts of one list keep their order.",
  ["inputs"], "every node kind in every combination of present and absent parts",
  "Tests assert a few combinations per node kind out of exponentially many.",
  GRAM, [("Children methods", ETX)])
p("E13", "Cloning reproduces a tree exactly",
  "A clone of any node has the same kind and, in every part, the same content as the original: every text, flag, position, operator, list (same length and order, nil kept nil) and sub-node. Cloning nil gives nil, and cloning never fails on a tree the parser can produce.",
  ["inputs"], "every node kind, every combination of parts",
  "Tests clone sample values; one forgotten field on an untested combination goes unnoticed.",
  GRAM+[ETX+"utils.go"], [("Clone methods, cloneCollection, cloneStrings", ETX)])
p("E14", "A clone shares no mutable state with its original",
  "After cloning, no change made through the clone can be seen through the original or the reverse: the two share no node, list, or number object at any depth.",
  ["inputs"], "every node kind and every mutation of either copy",
  "Tests compare for equality, which sharing satisfies.",
  GRAM+[ETX+"utils.go"], [("Clone methods", ETX)])
p("E15", "Listing children, cloning and formatting never modify the tree",
  "Listing a node's children, cloning it, or formatting it leaves the node and everything reachable from it exactly as it was, and changes no state outside the call.",
  ["inputs", "histories"], "every node, every sequence of read operations",
  "Tests rarely look at the input again after the call.",
  GRAM+[ETX+"utils.go"], [("Children, Clone, FormattedString methods", ETX)])
p("E16", "Parsing, cloning and formatting may run concurrently on separate trees",
  "Independent calls to any operation of the language library from several goroutines never interfere: after package initialisation no shared mutable package-level state is written, and each parse uses its own tree. Results do not depend on what was parsed, cloned or formatted before.",
  ["schedules", "histories"], "every interleaving of calls on separate inputs",
  "The tests are sequential and use fresh inputs.",
  [ETX+"parser.go", ETX+"lexer.go", ETX+"value.go", ETX+"utils.go"]+GRAM[:1], [("package-level variables", ETX+"value.go"), ("parser construction", ETX+"parser.go")])
# ---------------------------------------------------------------- formatting
p("E17", "Formatting never crashes on a tree the parser produced",
  "Formatting any node of any tree that parsing can return completes without panicking, whatever combination of optional parts, comments and blank lines the source contained.",
  ["inputs"], "every field combination the grammar can produce, for every node kind",
  "Tests format a few combinations per node kind.",
  GRAM+[ETX+"utils.go"], [("FormattedString methods", ETX)])
p("E18", "Formatting drops nothing and keeps source order",
  "The text produced for any parsed node contains the content of every part that is present - names, literals, operators, comments, interpolations, list elements and all sub-nodes - each exactly once, unaltered and in the order in which the language reads them; blank-line entries of a list are kept or normalised but never swallow neighbouring content.",
  ["inputs"], "every field combination the grammar can produce, for every node kind",
  "Tests compare the text of a few sample nodes.",
  GRAM+[ETX+"utils.go"], [("FormattedString methods", ETX)])
p("E19", "Formatted text is again valid ETX of the same shape",
  "The keywords, punctuation, separators and line breaks the formatter writes around a node's parts are those the language requires, in the required order, so that the text is read back as the same construct with the same parts: adjacent parts never fuse into one token or merge with a neighbour, and grouping parentheses are written wherever they are needed to keep the structure. (Sites where existing tests pin text that the grammar rejects are listed as known findings.)",
  ["inputs"], "every field combination the grammar can produce, for every node kind",
  "Tests compare with literal expected strings, some of which the parser itself rejects.",
  GRAM+[ETX+"utils.go"], [("FormattedString methods versus grammar tags", ETX)])
p("E20", "Formatting depends only on content",
  "Two trees with the same content format to the same text: the output never depends on source positions, parent links, object addresses, map iteration order, time, randomness, environment or earlier calls.",
  ["inputs", "histories"], "every pair of equal-content trees",
  "Tests format a tree once, in one process.",
  GRAM+[ETX+"utils.go"], [("FormattedString methods", ETX)])
p("E21", "Trees encode to JSON without cycles, loss or colliding keys",
  "Any parsed tree can be encoded as JSON: parent back-references and positions are left out so that encoding always terminates, every content-bearing part of every node kind is encoded, and no two parts of a node share a key.",
  ["inputs"], "every node kind and field",
  "No test encodes trees; a cycle or a key collision shows only on particular node kinds.",
  GRAM, [("json struct tags", ETX)])
# ---------------------------------------------------------------- dag
dq = "every sequence of operations on a graph, every vertex-ID and value type"
dw = "dag_test.go checks hand-built graphs of a few vertices after short, fixed operation sequences."
p("E22", "Interpolations may hold everything the language allows in an expression",
  "Strings, heredocs, escapes and interpolations nest to any depth: each ends exactly where its own closing mark is, and reading then continues as before it. Whatever may be written as an expression at the top level - blocks in braces, maps, lists over several lines, comments, further strings and heredocs - may equally be written inside an interpolation, an interpolation ending at the brace that closes it and not at one that belongs to its expression.",
  ["inputs"], "every nesting of strings, heredocs, interpolations and braces",
  "Tests contain interpolations of single names; the failing ones hold an expression with braces, line breaks or a further literal of its own.",
  [ETX+"lexer.go"]+GRAM, [("String, Heredoc, StringExpr and Unicode lexer states", ETX+"lexer.go"), ("grammar struct tags", ETX)])
p("E23", "Blank lines and Windows line ends are accepted wherever a line may end",
  "A document that is accepted stays accepted when, at any of its line breaks outside strings, heredocs and comments, further blank lines (empty, or made of spaces and tabs) are added, or when the break is written as CRLF instead of LF. This holds in every construct: between the parts of a conditional, switch, function, type, block, list or map as well as between top-level items.",
  ["inputs"], "every line break of every accepted document",
  "Tests contain single line breaks, or blank lines in a few places.",
  [ETX+"lexer.go"]+GRAM, [("LF in the grammar struct tags", ETX), ("LF and Whitespace lexer rules", ETX+"lexer.go")])
p("E24", "Blanks between tokens never change what is read",
  "Adding spaces or tabs between two tokens of a document, or more of them where there are some, changes neither whether it is accepted nor the resulting tree, positions aside; this holds everywhere outside comments and the text of strings and heredocs, including inside interpolations.",
  ["inputs"], "every pair of adjacent tokens in every document",
  "Tests write each construct with one particular spacing.",
  [ETX+"lexer.go", ETX+"parser.go"], [("Whitespace rule and Elide option", ETX+"lexer.go"), ("token rules whose end depends on what follows", ETX+"lexer.go")])
p("E25", "Comments extend exactly to their own end",
  "A comment that starts with # or // runs to the end of its line, and one that starts with /* to the first */, whatever else it contains; nothing beyond that end is taken for comment text, and no comment text is read as anything else. The same holds inside interpolations.",
  ["inputs"], "every comment text and whatever follows it",
  "Tests use short comments of plain words.",
  [ETX+"lexer.go", ETX+"comment.go"], [("SingleLineComment and MultilineComment lexer rules", ETX+"lexer.go")])
p("D01", "Parent and child views of the graph always agree",
  "After any sequence of operations, a vertex u is reported as a parent of v exactly when v is reported as a child of u. Adding, deleting and reducing edges and deleting vertices always update both views together.",
  ["histories"], dq, dw, DAG, [("AddEdge, DeleteEdge, DeleteVertex, ReduceTransitively", DAG[0])],
  state=[("inbound/outbound adjacency", "the two views of the edge set", DAG[0])])
p("D02", "The graph never contains a cycle",
  "No sequence of operations can create a directed cycle: adding an edge is refused with the loop error exactly when the target already reaches the source, whatever was cached or changed before, and a self-edge is always refused.",
  ["histories"], dq, dw, DAG, [("AddEdge loop check", DAG[0])])
p("D03", "Edges only ever join vertices that are in the graph",
  "After any sequence of operations both ends of every edge are current vertices: edges to unknown vertices are refused, and deleting a vertex removes every edge into or out of it. Re-adding a deleted ID starts without edges.",
  ["histories"], dq, dw, DAG, [("checkEdgeIDs, DeleteVertex", DAG[0])])
p("D04", "Remembered reachability never goes stale",
  "Asking for ancestors or descendants always reflects the current edges: every operation that can change which vertices reach which others discards every remembered answer it could affect (for the endpoints and for everything above the source and below the target), no matter which queries ran before.",
  ["histories"], dq, dw, DAG, [("ancestorsCache, descendantsCache invalidation", DAG[0])],
  state=[("ancestor/descendant caches", "memoised closures", DAG[0])])
p("D05", "Ancestors and descendants are exactly the transitive closure",
  "The ancestors of a vertex are its parents together with all ancestors of its parents, and nothing else; the descendants are its children together with all their descendants. Each result maps every such ID to that vertex's value, and the vertex itself is not included.",
  ["inputs", "histories"], dq, dw, DAG, [("getAncestorsIDs, getDescendantsIDs, loadFromCache", DAG[0])])
p("D06", "A refused operation leaves the graph unchanged",
  "Whenever an operation on the graph returns an error, the vertices, their values and the edges are exactly what they were before the call.",
  ["histories", "inputs"], dq, dw, DAG, [("validation before mutation", DAG[0])])
p("D07", "Each misuse is reported with its documented error",
  "Every operation reports an empty ID, an unknown vertex, a duplicate vertex, an unknown or empty edge source or target, identical endpoints, a duplicate edge, a missing edge and a loop with the error value documented for exactly that situation, and reports no error when none of these applies.",
  ["inputs", "histories"], dq, dw, DAG+["pkg/dag/errors.go"], [("checkVertexID, checkEdgeIDs", DAG[0]), ("error values", "pkg/dag/errors.go")])
p("D08", "Each mutation changes exactly what it says",
  "Adding a vertex stores that value under that ID; adding or deleting an edge adds or removes exactly that edge; deleting a vertex removes exactly that vertex and its edges. All other vertices, values and edges stay as they were, and the change is never silently skipped.",
  ["inputs", "histories"], dq, dw, DAG, [("AddVertex, AddEdge, DeleteEdge, DeleteVertex", DAG[0])])
p("D09", "Returned collections are independent of the graph",
  "Maps, slices and sets handed out by the graph or by set operations are fresh: changing one never changes the graph, another result or an operand, and later changes to the graph never show up in a result already returned.",
  ["histories"], dq, dw, DAG+["pkg/dag/set.go"], [("copyMap, loadFromCache, List, Copy", DAG[0])])
p("D10", "Queries never change the graph",
  "Looking up vertices, edges, parents, children, ancestors, descendants, roots, leaves, counts, walks or the text rendering never changes the vertices, values or edges.",
  ["histories"], dq, dw, DAG, [("query methods", DAG[0])])
p("D11", "Walkers finish, stop on request and close their output exactly once",
  "A walk that is fully consumed ends with its ID channel closed; after the consumer signals stop the walk ends without waiting for further receives, so no goroutine is left blocked, and signalling or stopping at any moment - before, during or after the walk - never panics or blocks the consumer. Nothing is sent after the ID channel is closed.",
  ["schedules"], "every interleaving of walker and consumer, stopping at any point", "Tests drain the walker or stop it in one fixed way; the failing schedules are timing dependent.",
  DAG, [("AncestorsWalker, DescendantsWalker goroutines", DAG[0])])
p("D12", "Walks and ordered lists visit each relative once, breadth first",
  "An uninterrupted walk delivers every ancestor (or descendant) of the start vertex exactly once, never the start vertex, and in breadth-first order: all vertices at a smaller distance come before any at a larger distance. The ordered lists contain the same IDs in the order such a walk delivers them.",
  ["inputs", "histories"], dq, dw, DAG, [("walkAncestors, walkDescendants, GetOrderedAncestors, GetOrderedDescendants", DAG[0])])
p("D13", "Transitive reduction removes exactly the implied edges",
  "Transitively reducing a graph removes an edge exactly when its target can also be reached from its source through another child of the source; every reachability relation between vertices is preserved, no vertex is touched, and queries after it reflect the reduced graph.",
  ["inputs", "histories"], dq, dw, DAG, [("ReduceTransitively, flushCaches", DAG[0])])
p("D14", "Structural queries report exactly the current graph",
  "Order is the number of vertices and size the number of edges; roots are exactly the vertices without parents and leaves exactly those without children; parents and children of a vertex are exactly its edge neighbours, each mapped to its value; an edge is reported exactly when present; looking up a vertex returns the value stored for it.",
  ["inputs", "histories"], dq, dw, DAG, [("GetOrder, GetSize, GetLeaves, GetRoots, GetVertices, GetVertex, GetParents, GetChildren, IsEdge", DAG[0])])
p("D15", "Set operations compute set algebra and leave their operands alone",
  "Membership, insertion, removal, intersection, difference, filtering, listing and copying behave as on mathematical sets for all operands, including nil, empty, identical and differently sized ones. Except for insertion and removal, which change only the named element of the receiver, no operation modifies an operand.",
  ["inputs"], "every pair of sets and every predicate", "set_test.go uses small fixed sets.",
  ["pkg/dag/set.go"], [("Set methods", "pkg/dag/set.go")])
p("D16", "Queries made while a walk is running are race-free",
  "While a walk is in progress its consumer may call any query on the graph: the walk writes nothing that queries read and reads nothing that queries write, and several walks may run side by side.",
  ["schedules"], "every interleaving of walks and queries", "Tests neither run the race detector nor interleave queries with walks.",
  DAG, [("walker goroutines versus cache-filling queries", DAG[0])])
p("D17", "The text rendering of a graph lists exactly its vertices and edges",
  "Rendering a graph as text yields first a line with the number of vertices and the number of edges, then a list of the vertices and a list of the edges. Every vertex, connected or not, is listed exactly once by its ID; every edge exactly once, as `source -> target` in the direction of the edge; nothing else is listed, and the counts are those of the graph.",
  ["inputs", "histories"], dq, "dag_test.go prints no graph, or compares single small ones; the order of map iteration hides what is written.", DAG, [("String", DAG[0])])
# ---------------------------------------------------------------- cli
p("L01", "The command line reports failure through its exit status",
  "Whenever running the command fails, the process ends with a non-zero exit status and the error is reported on standard error; it exits with zero only when the command succeeded. The command is given all the process arguments.",
  ["inputs", "configurations"], "every command line", "The CLI has no tests.",
  ["cmd/cli/main.go"], [("main", "cmd/cli/main.go")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
