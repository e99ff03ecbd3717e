T.update({
 "D01": "relational abstract interpretation: each operation's effect on both edge tables as a formula over vertex IDs; agreement proved as an inductive invariant",
 "D02": "relational abstract interpretation with an inductive acyclicity invariant: an edge is only added under the negation of reachability",
 "D03": "relational abstract interpretation with an inductive invariant on edge ends",
 "D04": "effect analysis of caches against edge changes, with reachability formulas for what must be forgotten",
 "D05": "recognition of the recursive closure functions from their symbolic summaries, and of the queries built on them",
 "D06": "path-sensitive effect analysis: no vertex, value or edge effect on any path that returns an error",
 "D07": "path conditions of every error return compared with the documented conditions (entailment both ways)",
 "D08": "path-sensitive effect analysis: post-state formulas of every mutation compared with their specification",
 "D09": "escape/ownership analysis of returned and stored maps, slices and sets in the symbolic heap",
 "D10": "effect analysis of all queries and of the goroutines they start",
 "D11": "typestate analysis of the walker goroutines' channel protocol over all paths",
 "D12": "loop-transition analysis: the delivering loop is checked to be a breadth-first search (queue, visited set, table)",
 "D13": "relational abstract interpretation of the reduction, compared with the formula for implied edges",
 "D14": "relational abstract interpretation of the structural queries, compared with their definitions",
 "D15": "abstract interpretation of the set operations, compared with set algebra; effect and escape analysis of operands",
 "D17": "symbolic evaluation of the rendering into lines; the relation of lines to vertices and edges compared with the tables, multiplicity by the loop variables a line shows",
 "D16": "lockset-free race analysis: field footprint of walker goroutines against the write footprint of queries; captured-variable analysis",
})
T.update({
 "E07": "automata analysis of the token rules read from the lexer's construction: the rule automaton of every reachable lexer state in product with the documented operators and words",
 "E08": "automata analysis of the string and heredoc lexer states, for every delimiter: text, openings and closings in product with their specification",
})
T.update({
 "E01": "path-sensitive abstract interpretation of the entry points with the parser as a contract: on every path, exactly one of tree and error, and the tree fully linked",
 "E02": "abstract interpretation of the three entry points compared with each other, and dependence analysis of the parser they use on mutable state",
 "E03": "panic analysis of the grammar read from the tags (nullable loops, captures, alternatives), of the lexer's actions, the captures and the linkers",
 "E04": "progress analysis: nullable/left-recursive grammar cycles, empty token rules and lexer states, loops of captures and linkers",
 "E05": "production analysis: every word of every production is recovered by the fields it is captured in, no capture overwrites or merges another",
 "E06": "grammar analysis: layering of the expression productions compared with the documented precedence table",
 "E09": "abstract interpretation of the capture functions over symbolic strings with regular languages, compared with the value of each literal form",
 "E11": "abstract interpretation of the linking functions against inductive contracts, one per linker",
 "E16": "effect and taint analysis: everything reachable from parsing, formatting and cloning, against package-level and shared mutable state",
 "L01": "path-sensitive abstract interpretation of main with contracts for the application and the log",
})
T.update({
 "E10": "declaration analysis (emulated reflect lookup of the position field), ownership analysis of every store to positions and nodes, dependence of the parser's input, and position part of the Clone summaries",
 "E21": "declaration analysis: encoding/json's field selection emulated on every node type, encodability and cycle rules, ownership analysis of stores into node fields",
})

T.update({
 "E17": "panic and termination analysis of every formatter on every feasible field combination: path-sensitive summaries, descent of the nested calls, loop bounds",
 "E18": "abstract interpretation of the formatters to sequences of literals, captured texts and parts; each present part once, unaltered, in production order",
 "E19": "abstract interpretation of the formatters to texts, matched against the productions; token-fusion and run-on analysis of adjacent parts by automata products",
 "E20": "dependence analysis of the formatter summaries: every term in results, guards and loop-carried values is content",
})
T.update({
 "E22": "typestate analysis of the grammar over the lexer's state stack: for every production in every lexer state it is read in, each expected token is producible by that state's rule automaton and the state stack is balanced at its end",
 "E23": "simulation relation over the position automata of the grammar: for every place a production reads a line break, in every context it is used in, the parser state after one more line break simulates the state before it; token automata of every lexer state for LF, CRLF and blanks",
 "E24": "self-composition of the token automaton of every expression state, over all inputs: the token read before any continuation is also the one read when a blank follows it; blanks alone are a skipped token",
 "E25": "product of the token automaton of every expression state with a specification automaton of comments, over all inputs",
})
