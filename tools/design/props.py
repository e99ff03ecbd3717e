P={
"E01":("each entry point (`Parse`, `ParseString`, `ParseBytes`) is interpreted with participle's `Parse*` as a contract (either outcome possible, its error opaque, partial trees possible). On every path exactly one of tree/error is non-nil; every error path wraps the original (`%w`/`Unwrap`); a failure of the reader or of the parser reaches the caller.",
 "participle reports reader errors; its own error values."),
"E02":("the three summaries are compared: same parser object, options, file name, tree, post-processing; the whole input is passed on unmodified (no limit/trim/transform); the parser depends on no mutable state.",""),
"E03":("three layers. *Grammar*: alternatives that accept without progress, nullable repetitions, nullable captures of scalars and captures into Capture types of nodes - the ways participle alpha8 panics, read from its source. *Lexer*: rule actions (pop in root, back-references to groups that may not participate, duplicate names with different patterns). *Captures and linkers*: every `Capture` method is interpreted on the regular language of its tokens; every index, slice, nil dereference, conversion and `Must*` is an obligation; same for parent linking under the tree facts.",
 "stack exhaustion by deep nesting is outside; participle itself is trusted apart from the listed behaviours."),
"E04":("left-recursive and nullable cycles of the grammar, nullable bodies of repetitions, empty token rules per state, lexer state cycles without progress, loops in captures and linkers (each has a strictly decreasing measure or runs over a finite list).",""),
"E05":("for each production: every token class with content is captured; what a matched text leaves in the fields determines its words (keyword choices recorded in flags or by exclusive fields, operators in operator fields); no capture overwrites a pointer or merges two; only blanks are elided by the lexer; tokens are not dropped by lexer rules.",
 "whether participle's bounded lookahead can find every alternative is not decided (that is about rejecting, not losing)."),
"E06":("the productions are classified by their recursive shape into levels; each level's operator set, its order and the operand levels are compared with the table in `pkg/etx/README.md`; each documented operator belongs to exactly that level; parentheses re-enter the top.",
 "grouping among equal-precedence operators: the grammar is right-recursive while the usual reading is left-associative; the documentation does not state associativity, so it is not claimed. Unary `+` is not in the table."),
"E07":("every reachable state's rule automaton in product with an automaton of the documented operators and keywords, over all following texts: the winning rule takes the longest operator; identifiers with keyword prefixes/suffixes remain whole; keywords alone are never Ident.",
 "known: identifiers containing hyphens (`if-foo`), where `\\b` splits."),
"E08":("the String and Heredoc states in product with specifications of plain text, openings, escapes and the terminator, for every quote and every delimiter word; then the productions must accept each token the state can produce.",
 "CRLF heredocs and the indented terminator of `<<-` are not claimed. Known: delimiter after an interpolation in mid-line; quoted block labels."),
"E09":("each `Capture`/`FromString` is interpreted over symbolic strings constrained to the regular language of its token; the result must be the value of that spelling on every path, or an error.",
 "precision and underflow of `big.Float` are not claimed; the `0o` normalisation is the documented one."),
"E10":("participle's reflective lookup of the `Pos` field is emulated on every node type; no store to a position outside Clone; the text given to the parser is the caller's own; Clone's summary copies it.",
 "known: `ValueBool`, `ValueNumber` have Capture methods and get no position."),
"E11":("each linker is interpreted against an inductive contract (after the call: the parent field equals the argument, and every listed child is linked to this node, recursively); linking by loops over a work list is decided by what each round takes, sets and adds; entry points call it for the whole tree; no other write to parents.",""),
"E12":("the list returned by each `Children` is summarised per feasible field combination and compared with the sub-nodes determined by the types: each once, no nil, no copies, list order kept.",""),
"E13":("each `Clone` summary is compared field by field with the original under the contract of nested clones (same type, same content); lists: same length, order and nil-ness; no panic on any tree that parsing can produce.",""),
"E14":("every reference reachable from the clone's fields must be fresh in this call or from a nested clone's contract; slices must not share backing arrays; `big.Float` copied.",""),
"E15":("effect analysis over all paths of Children, Clone and formatters: no effect on non-fresh memory or globals.",""),
"E16":("call-graph-wide effect and taint analysis of everything reachable from parsing, formatting and cloning: no write to package-level or shared memory after initialisation, no shared mutable object handed out, only concurrency-safe library state.",""),
"E17":("formatters are interpreted with all feasible field combinations; every panic site must be unreachable; nested calls descend; loops bounded.",""),
"E18":("the flattened texts contain each present part once, untouched, in production order. Where an `indent` may reach into multi-line texts it is a finding.","known: bodies are indented including lines inside multi-line strings, heredocs and comments."),
"E19":("every text a formatter can write is matched word by word against the production of its node, with literals cut into words by the token rules of the state they are read in (framing). Where the tree does not record a choice - separators, blank lines, alternatives, quotes - the written one must read back the same: no part may run on into its neighbour although the source kept them apart (continuations of each production, narrowed to the fields that are set), no earlier alternative may take the text, the quote written may not occur inside. Adjacent tokens (edge tokens by fixpoint over all node kinds) are run through the token automaton: no rule may read past the first one.",
 "known: `:` for `=` in attributes and maps, heredoc line breaks (pinned by tests), `.` next to numbers. Lists are represented by lengths 0, 1 and 3. Lookahead of the parser is taken to suffice; sums written by right recursion are out of scope."),
"E20":("every term in results, guards and loop-carried values of the formatter summaries is content (not positions, parents, addresses, map order, clock, random, environment, globals).",""),
"E21":("encoding/json's field selection (embedding depth, tags, collisions, `-`, omitted, Marshalers) is emulated on every node type; parents and positions are left out; every content field has its own key; no cycles; values encodable.",
 "invalid UTF-8 is replaced by JSON itself and is outside."),
"E22":("every production is run over the stack of lexer states, starting with the root's in the initial state (77 production/state pairs): each token it expects must be producible in the state it is read in (automaton of that state's rules, all inputs), pushes and pops must balance within the production, skipped tokens must not change the state, and layout tokens are the same wherever the same production is read.",
 "found: any closing brace inside an interpolation ended it (repaired)."),
"E23":("the productions are turned into position automata; for each of the 41 places a line break is read, the parser state just after it (a stack of productions, extended through every place the production is used in as far as needed) must allow a further line break leading to a state that simulates it (coinductively); every lexer state must read LF and CRLF as line-break tokens of their own and blanks as skipped tokens.",
 "acceptance only (a blank line between two comment lines makes two comments); the number of line breaks is taken not to exhaust the parser library's lookahead, CRLF after a heredoc header is outside."),
"E24":("in each lexer state that reads expressions the automaton of the rules is run, for all inputs, beside a copy that gets a blank after the token: whenever a text is read as exactly one token in some context, it must be read as the same token before a space or tab whatever follows; texts that start with a blank must be skipped tokens of blanks only. Since a token does not depend on what precedes it, equality of all later tokens follows by induction.",
 "tokens that end in text (openers of strings and heredocs, comments, ends of interpolations) are outside."),
"E25":("in each lexer state that reads expressions the automaton of the rules is explored, for all inputs, beside a specification automaton of comments: the token read at `#`, `//` or a terminated `/*` must be a visible token that ends exactly at the line's end (a CR before it may count as either) or just after the first `*/`.",
 "what the formatter makes of comments is E18/E19."),
"D01":("each mutation's effect on both tables as formulas; `child(u,v) iff parent(v,u)` is an inductive invariant from the constructor on.",""),
"D02":("an edge is only added under the negation of `target reaches source` computed on the *current* edges (uses D04/D05 as lemmas), self-edges refused first.",""),
"D03":("invariant on edge ends; deletion removes all rows and columns.",""),
"D04":("for each edge change: the caches of everything above the source (ancestors-of caches below the target) are dropped; reachability formulas at the time of forgetting are compared with those needed.",""),
"D05":("the closure functions' summaries are recognised as the least fixpoint union; worklist searches and recursive helpers that fill a set handed down are recognised as the same fixpoint; results exclude the vertex; queries map IDs to values.",""),
"D06":("on each error path, no effect on vertices, values or edges.",""),
"D07":("the path condition of each error return is equivalent to the documented condition, in both directions.",""),
"D08":("post-state formulas equal the specification of the mutation, frame included.",""),
"D09":("returned collections are fresh; stored arguments are not kept.",""),
"D10":("all queries and the goroutines they start have no effects on vertices, values, edges.",""),
"D11":("the walkers' goroutines as protocol automata (send, select, close, return) on all paths, against any consumer behaviour.",""),
"D12":("the delivering loop must be breadth-first search: queue discipline, visited set at enqueue, right table, start excluded.",""),
"D13":("the reduction's removed-edge formula equals 'implied through another child'; caches flushed.",
 "the edges left must be exactly those not implied by a longer path; that this preserves reachability is the transitive reduction theorem for acyclic graphs, taken as given."),
"D14":("structural queries' summaries compared with their definitions.",""),
"D15":("set operations against set algebra for nil, empty, identical operands; operands unmodified.",""),
"D16":("fields read/written by walker goroutines against fields written/read by queries; captured variables not shared.",""),
"D17":("the returned text is evaluated symbolically into lines and loops of lines; `a line is written for x (x, y)` must be equivalent to `x is a vertex (x -> y is an edge)`, loop variables must be determined by what the line shows, counts are those of D14.","the layout is checked by its sections and the arrow, not by its exact blanks."),
"L01":("all paths of `main` with the application's `Run` and the loggers as contracts: error implies non-zero exit and stderr output; success implies zero; full `os.Args`.",""),
}
