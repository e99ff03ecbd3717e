package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
)

func init() {
	checks["E07"] = withLex(checkLongest)
	checks["E08"] = withLex(checkStrings)
}

// docPrecedence is the operator table of the language documentation, loosest
// first. Postfix, unary and conditional are handled separately.
var docBinary = [][]string{
	{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", "<=", ">", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"},
}
var docUnary = []string{"-", "!", "~"}
var docPostfix = []string{"(", ")", "[", "]"}
var docConditional = []string{"?", ":"}

// docKeywords are the words the tokeniser reserves.
var docKeywords = []string{"if", "else", "switch", "case"}

func isWord(s string) bool {
	for _, r := range s {
		if !isWordRune(r) {
			return false
		}
	}
	return s != ""
}

// operators lists the spellings of punctuation the language uses: the
// documented operators and every fixed text of the grammar.
func (l *LexModel) operators() []string {
	set := map[string]bool{}
	for _, b := range docBinary {
		for _, o := range b {
			set[o] = true
		}
	}
	for _, g := range [][]string{docUnary, docPostfix, docConditional} {
		for _, o := range g {
			set[o] = true
		}
	}
	for _, t := range l.m.Types {
		walkG(t.Prod, func(g *GNode) {
			switch g.Kind {
			case GLit:
				if len(g.Text) > 0 && !strings.ContainsFunc(g.Text, isWordRune) {
					set[g.Text] = true
				}
			case GTok:
				p, ok := l.tokenLang(g.Text)
				if !ok {
					return
				}
				ts, fin := langTexts(p, 4)
				if !fin || len(ts) != 1 {
					return
				}
				if t := ts[0]; t != "" && !strings.ContainsFunc(t, isWordRune) && strings.TrimSpace(t) == t && !strings.ContainsAny(t, "\\\"'") {
					set[t] = true
				}
			}
		})
	}
	delete(set, "${")
	delete(set, "%{")
	var out []string
	for o := range set {
		out = append(out, o)
	}
	sort.Strings(out)
	return out
}

func walkG(g *GNode, f func(*GNode)) {
	if g == nil {
		return
	}
	f(g)
	for _, k := range g.Kids {
		walkG(k, f)
	}
}

// exprStates lists the states that tokenise expressions: those that have a
// rule for identifiers.
func (l *LexModel) exprStates() []string {
	var out []string
	for _, s := range l.reachable() {
		n := 0
		for _, r := range l.States[s] {
			if r.Backref {
				continue
			}
			if ts, fin := langTexts(r.Pattern, 4); fin {
				for _, o := range []string{"+", "(", "=="} {
					if contains(ts, o) {
						n++
					}
				}
			}
		}
		if n >= 2 || s == "Root" {
			out = append(out, s)
		}
	}
	return out
}

// opSpec: the longest operator spelling at the start of the input.
type opSpec struct {
	ops      []string
	max      int
	produced map[string]bool
	inOps    map[string]bool
	fixed    map[string]bool // rules that only produce operator spellings
}

func (s *opSpec) start() string { return "p" }
func (s *opSpec) step(st string, r rune) string {
	if st[0] == 'f' {
		return st
	}
	if r >= 0 {
		t := st[1:] + string(r)
		for _, o := range s.ops {
			if strings.HasPrefix(o, t) {
				return "p" + t
			}
		}
	}
	return "f" + s.longest(st[1:])
}
func (s *opSpec) mark(st string) string             { return st }
func (s *opSpec) stepMark(st string, r rune) string { return st }
func (s *opSpec) longest(text string) string {
	best := ""
	for _, o := range s.ops {
		if strings.HasPrefix(text, o) && len(o) > len(best) {
			best = o
		}
	}
	return best
}
func (s *opSpec) judge(rule *LexRule, main, mark string, eof bool) (bool, bool, string) {
	if main[0] != 'f' {
		return true, false, ""
	}
	op := main[1:]
	if op == "" {
		return true, true, ""
	}
	if rule == nil {
		return false, true, fmt.Sprintf("%q is not recognised", op)
	}
	if mark[0] == 'p' {
		tok := mark[1:]
		if len(tok) < len(op) {
			return false, true, fmt.Sprintf("the operator %q is not recognised whole: rule %s takes only %q", op, rule.Name, tok)
		}
		if tok == op {
			if rule.Elided {
				return false, true, fmt.Sprintf("the operator %q is skipped by rule %s", op, rule.Name)
			}
			s.produced[tok] = true
			return true, true, ""
		}
	}
	if s.fixed[rule.Name] || rule.Elided {
		return false, true, fmt.Sprintf("the operator %q is swallowed by rule %s", op, rule.Name)
	}
	return true, true, ""
}

// wordSpec: identifiers and reserved words.
type wordSpec struct {
	reserved map[string]bool
	max      int
	ident    string
	produced map[string]bool
}

// states: "=" start, "w:text" inside the word (text cut to max+1 letters),
// "d:text" after a hyphen, "e:text:n" the word ended n characters ago, "x" no word.
func (s *wordSpec) start() string { return "=" }

// cut keeps the letters only while the word can still be a reserved one.
func (s *wordSpec) cut(t string) string {
	for k := range s.reserved {
		if strings.HasPrefix(k, t) {
			return t
		}
	}
	if h := strings.IndexByte(t, '-'); h > 0 && s.reserved[t[:h]] {
		return t[:h] + "-"
	}
	return "~"
}
func (s *wordSpec) step(st string, r rune) string {
	isA := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
	switch {
	case st == "=":
		if isA {
			return "w:" + s.cut(string(r))
		}
		return "x"
	case st[0] == 'w':
		if r >= 0 && isWordRune(r) {
			return "w:" + s.cut(st[2:]+string(r))
		}
		if r == '-' {
			return "d:" + st[2:]
		}
		return "e:" + st[2:]
	case st[0] == 'd':
		if r >= 0 && isWordRune(r) {
			// hyphenated: never a reserved word
			return "w:" + s.cut(st[2:]+"-"+string(r))
		}
		return "e:" + st[2:]
	}
	return st
}

// a mark is the main state at the token's end; "?" while it is open whether
// the word ends there.
func (s *wordSpec) mark(st string) string {
	if st[0] == 'w' {
		return "?" + st
	}
	return "!" + st
}
func (s *wordSpec) stepMark(m string, r rune) string {
	if m[0] != '?' {
		return m
	}
	switch m[1] {
	case 'w':
		if r >= 0 && isWordRune(r) {
			return "short:" + m[3:]
		}
		if r == '-' {
			return "?d:" + m[3:]
		}
		return "end:" + m[3:]
	case 'd':
		if r >= 0 && isWordRune(r) {
			return "short:" + m[3:] + "-"
		}
		return "end:" + m[3:]
	}
	return m
}
func (s *wordSpec) judge(rule *LexRule, main, mark string, eof bool) (bool, bool, string) {
	if main == "x" || main == "=" {
		return true, true, ""
	}
	if rule == nil {
		if main[0] != 'e' && !eof {
			return true, false, ""
		}
		return false, true, "a word is not recognised"
	}
	if mark != "" && mark[0] == '?' {
		return true, false, ""
	}
	// The word itself must be complete to know whether it is reserved.
	if main[0] != 'e' && !eof && !strings.HasPrefix(mark, "short:") {
		return true, false, ""
	}
	word := ""
	if len(main) > 2 {
		word = main[2:]
	}
	switch {
	case strings.HasPrefix(mark, "short:"):
		if strings.HasSuffix(mark, "-") && s.reserved[strings.TrimSuffix(mark[6:], "-")] && rule.Name != s.ident {
			return false, true, "hyphen:a reserved word followed by a hyphen and more letters is split instead of being one identifier"
		}
		return false, true, fmt.Sprintf("an identifier is cut short by rule %s", rule.Name)
	case strings.HasPrefix(mark, "end:"):
		if s.reserved[word] {
			if rule.Name == s.ident {
				return false, true, fmt.Sprintf("the reserved word %q is tokenised as an identifier", word)
			}
			s.produced[word] = true
			return true, true, ""
		}
		if rule.Name != s.ident {
			return false, true, fmt.Sprintf("an identifier is tokenised by rule %s", rule.Name)
		}
		return true, true, ""
	}
	return false, true, fmt.Sprintf("a word is tokenised together with what follows it by rule %s", rule.Name)
}

// identRule is the token the grammar uses for names.
func (l *LexModel) identRule() string {
	best, n := "", -1
	for _, s := range l.exprStates() {
		for _, r := range l.States[s] {
			if r.Backref {
				continue
			}
			if ok, _ := langMeets(r.Pattern, "foo"); ok {
				if ok, _ := langMeets(r.Pattern, "x1"); ok {
					if k := 1; k > n {
						best, n = r.Name, k
					}
				}
			}
		}
	}
	return best
}

func checkLongest(r *Report, l *LexModel) {
	r.rule = "The rules of every lexer state that tokenises expressions are combined, in their order of preference, into one automaton over all inputs (the library's first-match rule and the regexp package's leftmost-first matching included); it is run beside specification automata: at each point where an operator spelling starts the input the token covers the longest such spelling, every spelling can be produced, words are tokenised whole, reserved words never as identifiers."
	ops := l.operators()
	id := l.identRule()
	if id == "" {
		r.failAt("ident", "-", "no rule of the tokeniser produces identifiers")
		return
	}
	r.count("operators", len(ops))
	r.floor("operators", 25)
	for _, s := range l.exprStates() {
		mc, err := l.machine(s, nil, strings.Join(ops, "")+"ifelsewtcha-")
		if err != nil {
			r.failAt("state:"+s, r.p.pos(l.Pos), "state %s: %v", s, err)
			continue
		}
		r.count("states", 1)
		sp := &opSpec{ops: ops, produced: map[string]bool{}, inOps: map[string]bool{}, fixed: map[string]bool{}}
		for _, o := range ops {
			sp.inOps[o] = true
			if len([]rune(o)) > sp.max {
				sp.max = len([]rune(o))
			}
		}
		for _, lr := range l.States[s] {
			if lr.Backref {
				continue
			}
			ts, fin := langTexts(lr.Pattern, 4)
			all := fin && len(ts) > 0
			for _, t := range ts {
				if !sp.inOps[t] {
					all = false
				}
			}
			if all {
				sp.fixed[lr.Name] = true
			}
		}
		bad := map[string]bool{}
		n := mc.explore(sp, func(rule *LexRule, input, why string) {
			k := "operator:" + s + ":" + sp.longest(input)
			bad[k] = true
			r.failAt(k, r.p.pos(l.Pos), "state %s: %s", s, why)
		})
		r.count("configurations", n)
		for _, o := range ops {
			r.ob(sp.produced[o] && !bad["operator:"+s+":"+o], "operator:"+s+":"+o, l.Pos, "state %s: the operator %q can never be produced", s, o)
		}
		ws := &wordSpec{reserved: map[string]bool{}, ident: id, produced: map[string]bool{}}
		for _, k := range docKeywords {
			ws.reserved[k] = true
			if len(k) > ws.max {
				ws.max = len(k)
			}
		}
		nb := 0
		n = mc.explore(ws, func(rule *LexRule, input, why string) {
			nb++
			if strings.HasPrefix(why, "hyphen:") {
				r.failAt("word:hyphen:"+s, r.p.pos(l.Pos), "state %s: %s (as in %q)", s, why[7:], input)
				return
			}
			name := "-"
			if rule != nil {
				name = rule.Name
			}
			r.failAt("word:"+s+":"+name, r.p.pos(l.Pos), "state %s: on %q %s", s, input, why)
		})
		r.count("configurations", n)
		for _, k := range docKeywords {
			r.ob(ws.produced[k], "keyword:"+s+":"+k, l.Pos, "state %s: the reserved word %q is never produced", s, k)
		}
	}
	r.floor("states", 2)
	r.assume = append(r.assume, "the parser library tokenises as its source says: rules in order, each matched at the current position, the first that matches wins")
}

// ---------------------------------------------------------------------------

// textSpec reads literal text character by character into units: escapes,
// doubled introducers, interpolation starts, the terminator, plain characters.
type textSpec struct {
	quote  string // terminator of a string, or
	delim  string // delimiter word of a heredoc
	bol    bool   // reading starts at the beginning of a line
	roleOf func(rule *LexRule) string
	follow bool // only record whether the delimiter can follow a token
}

// unit resolves the first unit of pending text: its length (0 if more input
// is needed) and its role.
func (s *textSpec) unit(p string, bol, eof bool) (int, string) {
	if p == "" {
		return 0, ""
	}
	if s.delim != "" && bol {
		if len(p) <= len(s.delim) && strings.HasPrefix(s.delim, p) {
			if eof {
				if p == s.delim {
					return len(p), "end"
				}
			} else {
				return 0, ""
			}
		} else if strings.HasPrefix(p, s.delim) && !isWordRune([]rune(p[len(s.delim):])[0]) {
			return len(s.delim), "end"
		}
	}
	if s.quote != "" {
		if strings.HasPrefix(p, s.quote) {
			return len(s.quote), "end"
		}
		if p[0] == '\\' {
			if len(p) == 1 {
				if eof {
					return 1, "malformed"
				}
				return 0, ""
			}
			rs := []rune(p)
			switch rs[1] {
			case 'u':
				return 2, "unicode"
			case '\n':
				return 2, "malformed"
			}
			return 1 + len(string(rs[1])), "verbatim"
		}
	}
	for _, c := range []byte{'$', '%'} {
		if p[0] != c {
			continue
		}
		if len(p) == 1 {
			if eof {
				return 1, "verbatim"
			}
			return 0, ""
		}
		if p[1] == '{' {
			if c == '$' {
				return 2, "expr"
			}
			return 2, "directive"
		}
		if p[1] == c {
			if len(p) == 2 {
				if eof {
					return 1, "verbatim"
				}
				return 0, ""
			}
			if p[2] == '{' {
				return 3, "verbatim"
			}
		}
		return 1, "verbatim"
	}
	return len(string([]rune(p)[0])), "verbatim"
}

// text states are "mode|bol|pending|k": mode is the role of what was read
// ("" nothing, "verbatim", a special role, "mixed"), k the number of pending
// characters before the mark (-1 for the main state).
func (s *textSpec) enc(mode string, bol bool, pending string, k int) string {
	return fmt.Sprintf("%s|%v|%d|%s", mode, bol, k, pending)
}
func (s *textSpec) dec(st string) (mode string, bol bool, pending string, k int) {
	p := strings.SplitN(st, "|", 4)
	fmt.Sscanf(p[2], "%d", &k)
	return p[0], p[1] == "true", p[3], k
}
func (s *textSpec) start() string { return s.enc("", s.bol, "", -1) }

func (s *textSpec) advance(mode string, bol bool, pending string, k int, eof bool) string {
	for {
		if k == 0 || mode == "mixed" || mode == "mid" {
			if k >= 0 {
				return s.enc(mode, false, "", 0)
			}
			return s.enc(mode, false, "", -1)
		}
		n, role := s.unit(pending, bol, eof)
		if n == 0 {
			break
		}
		unit := pending[:n]
		pending = pending[n:]
		if k > 0 {
			if n > k {
				mode = "mid"
				k = 0
				continue
			}
			k -= n
		}
		switch {
		case mode == "":
			mode = role
		case mode == "verbatim" && role == "verbatim":
		default:
			mode = "mixed"
		}
		bol = strings.HasSuffix(unit, "\n")
		if k == -1 && mode != "verbatim" {
			// The main state only matters for its first unit.
			pending = ""
		}
	}
	return s.enc(mode, bol, pending, k)
}

func (s *textSpec) step(st string, r rune) string {
	mode, bol, pending, k := s.dec(st)
	if mode != "" && mode != "verbatim" {
		return st
	}
	if r >= 0 {
		pending += string(r)
	}
	return s.advance(mode, bol, pending, k, r < 0)
}
func (s *textSpec) mark(st string) string {
	mode, bol, pending, _ := s.dec(st)
	if pending == "" {
		return s.enc(mode, bol, "", 0)
	}
	return s.enc(mode, bol, pending, len(pending))
}
func (s *textSpec) stepMark(st string, r rune) string {
	mode, bol, pending, k := s.dec(st)
	if k == 0 {
		return st
	}
	if r >= 0 {
		pending += string(r)
	}
	return s.advance(mode, bol, pending, k, r < 0)
}

func (s *textSpec) judge(rule *LexRule, main, mark string, eof bool) (bool, bool, string) {
	if rule == nil {
		mode, _, _, _ := s.dec(main)
		if mode == "" {
			return true, false, ""
		}
		if mode == "malformed" {
			return true, true, ""
		}
		return false, true, "no rule accepts this text"
	}
	mode, _, _, k := s.dec(mark)
	if k > 0 {
		return true, false, ""
	}
	role := s.roleOf(rule)
	switch mode {
	case "mid":
		return false, true, fmt.Sprintf("rule %s stops inside an escape, a doubled introducer, an interpolation start or the terminator", rule.Name)
	case "mixed":
		return false, true, fmt.Sprintf("rule %s reads over the terminator, an escape or an interpolation start", rule.Name)
	case "":
		return false, true, fmt.Sprintf("rule %s accepts empty text", rule.Name)
	case "malformed":
		return true, true, ""
	}
	if mode == role || mode == "verbatim" && role == "verbatim" {
		return true, true, ""
	}
	what := map[string]string{"verbatim": "plain text", "end": "the terminator", "expr": "an interpolation start", "directive": "a directive start", "unicode": "a unicode escape"}
	return false, true, fmt.Sprintf("%s is read by rule %s as %s", what[mode], rule.Name, orElse(what[role], role))
}

func orElse(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// literalRoles finds, from the grammar, what the tokens of a text state mean:
// the production that opens the literal with opener and closes it.
type literalUse struct {
	owner  *NodeType
	closer string
	frag   *NodeType
}

// textRoles gives the roles of token names inside a fragment production.
func (l *LexModel) textRoles(nt *NodeType) map[string]string {
	roles := map[string]string{}
	var alts func(g *GNode) []*GNode
	alts = func(g *GNode) []*GNode {
		switch g.Kind {
		case GAlt:
			var out []*GNode
			for _, k := range g.Kids {
				out = append(out, alts(k)...)
			}
			return out
		case GOnce, GPlus, GOpt, GStar, GNonEmpty:
			return alts(g.Kids[0])
		}
		return []*GNode{g}
	}
	for _, a := range alts(nt.Prod) {
		var first *GNode
		seq := []*GNode{a}
		if a.Kind == GSeq {
			seq = a.Kids
		}
		first = seq[0]
		switch first.Kind {
		case GCap:
			for _, k := range alts(first.Kids[0]) {
				if k.Kind == GTok && len(seq) == 1 {
					roles[k.Text] = "verbatim"
				}
			}
		case GTok:
			role := "?"
			if len(seq) == 3 && seq[1].Kind == GCap && seq[1].Kids[0].Kind == GRef && seq[2].Kind == GTok {
				role = "interp:" + seq[2].Text
			} else if len(seq) == 2 && seq[1].Kind == GCap {
				role = "unicode"
			}
			roles[first.Text] = role
		}
	}
	return roles
}

// literals finds the productions of the form Opener @@* Closer where Opener
// enters another lexer state.
func (l *LexModel) literals(r *Report) []struct {
	State, Closer string
	Push          *LexRule
	Owner, Frag   *NodeType
} {
	var out []struct {
		State, Closer string
		Push          *LexRule
		Owner, Frag   *NodeType
	}
	seen := map[string]bool{}
	for _, t := range l.m.Types {
		if t.Prod == nil {
			continue
		}
		walkG(t.Prod, func(g *GNode) {
			if g.Kind != GSeq {
				return
			}
			for i := 0; i+2 < len(g.Kids); i++ {
				op := g.Kids[i]
				if op.Kind == GCap {
					op = op.Kids[0]
				}
				if op.Kind != GTok {
					continue
				}
				var push *LexRule
				for _, s := range l.reachable() {
					for j := range l.States[s] {
						if lr := &l.States[s][j]; lr.Name == op.Text && lr.Push != "" {
							push = lr
						}
					}
				}
				rep, cl := g.Kids[i+1], g.Kids[i+2]
				if rep.Kind != GStar {
					continue
				}
				for (rep.Kind == GStar || rep.Kind == GOnce || rep.Kind == GOpt || rep.Kind == GCap) && len(rep.Kids) == 1 {
					rep = rep.Kids[0]
				}
				if push == nil || rep.Kind != GRef || cl.Kind != GTok {
					continue
				}
				f := l.m.of(rep.Ref)
				if f == nil || f.Prod == nil {
					continue
				}
				k := push.Push + "/" + t.Name
				if !seen[k] {
					seen[k] = true
					out = append(out, struct {
						State, Closer string
						Push          *LexRule
						Owner, Frag   *NodeType
					}{push.Push, cl.Text, push, t, f})
				}
			}
		})
	}
	return out
}

// opensText reports whether a token enters a state that is left by a token
// depending on it, as the text of a literal is.
func (l *LexModel) opensText(name string) bool {
	for _, s := range l.reachable() {
		for _, lr := range l.States[s] {
			if lr.Name != name || lr.Push == "" {
				continue
			}
			for _, x := range l.States[lr.Push] {
				if x.Pop && x.Backref {
					return true
				}
			}
		}
	}
	return false
}

func checkStrings(r *Report, l *LexModel) {
	r.rule = "For every literal of the grammar that switches the tokeniser into a text state, the rules of that state are combined into one automaton over all inputs, for every way the state can be entered, and run beside a specification automaton that reads text unit by unit (escape, doubled introducer, interpolation start, terminator, plain character): every token must consist of whole units of its own kind, and text must never be rejected."
	lits := l.literals(r)
	isLit := map[string]bool{}
	for _, lit := range lits {
		isLit[lit.Push.Name+"/"+lit.Owner.Name] = true
	}
	for _, t := range l.m.Types {
		walkG(t.Prod, func(g *GNode) {
			if g.Kind != GTok || !l.opensText(g.Text) {
				return
			}
			r.ob(isLit[g.Text+"/"+t.Name], "literal:"+t.Name, t.Named.Obj().Pos(), "%s accepts a literal opened by %s but not every text inside it: its contents are not a repetition of text fragments", t.Name, g.Text)
		})
	}
	for _, lit := range lits {
		r.count("literals", 1)
		roles := l.textRoles(lit.Frag)
		pos := lit.Owner.Named.Obj().Pos()
		// Entering: the quote or delimiter must be exactly a group of the opener.
		insts, err := l.instances(lit.State)
		if err != nil {
			r.failAt("state:"+lit.State, r.p.pos(l.Pos), "state %s: %v", lit.State, err)
			continue
		}
		isQuote := false
		if ts, fin := langTexts(lit.Push.Pattern, 8); fin {
			isQuote = true
			for _, q := range []string{`"`, `'`} {
				r.ob(contains(ts, q), "opener:"+lit.State+":"+q, l.Pos, "a string cannot start with %s", q)
			}
			for _, t := range ts {
				r.ob(t == `"` || t == `'`, "opener:"+lit.State+":"+t, l.Pos, "a string starts with %q", t)
			}
		}
		for _, g := range insts {
			if len(g) < 2 {
				r.failAt("terminator:"+lit.State, r.p.pos(l.Pos), "the terminator of state %s does not depend on what opened it", lit.State)
				continue
			}
			for _, bol := range []bool{true, false} {
				if isQuote && !bol {
					continue
				}
				sp := &textSpec{bol: bol}
				if isQuote {
					sp.quote = g[1]
				} else {
					sp.delim = g[1]
				}
				interpPush := map[string]bool{}
				unicodePush := map[string]bool{}
				sp.roleOf = func(lr *LexRule) string {
					if lr.Name == lit.Closer && lr.Pop {
						return "end"
					}
					role := roles[lr.Name]
					switch {
					case lr.Elided:
						return "skipped text"
					case role == "":
						return "a token the grammar does not accept here"
					case role == "verbatim" && lr.Push == "" && !lr.Pop:
						return "verbatim"
					case role == "unicode" && lr.Push != "":
						unicodePush[lr.Push+":"+lr.Name] = true
						return "unicode"
					case strings.HasPrefix(role, "interp:") && lr.Push != "":
						interpPush[lr.Push+":"+role[7:]] = true
						// which of the two interpolations it is shows in its text
						if ok, _ := langMeets(lr.Pattern, `\$\{`); ok {
							if ok, _ := langMeets(lr.Pattern, `%\{`); !ok {
								return "expr"
							}
						}
						return "directive"
					}
					return "a token that changes the state unexpectedly"
				}
				special := "$%{}\\u\n\"'" + g[1]
				mc, err := l.machine(lit.State, g, special)
				if err != nil {
					r.failAt("state:"+lit.State, r.p.pos(l.Pos), "state %s: %v", lit.State, err)
					continue
				}
				where := lit.Owner.Name
				n := mc.explore(sp, func(rule *LexRule, input, why string) {
					name := "-"
					if rule != nil {
						name = rule.Name
					}
					if !isQuote && !bol && rule != nil && rule.Name == lit.Closer && strings.Contains(why, "plain text is read") {
						return // decided below, by what can precede it
					}
					// a rule that starts a line in the middle of it is only an
					// error if the position is reachable, see below
					r.failAt("text:"+where+":"+name+":"+firstWords(why, 9), r.p.pos(l.Pos), "%s, entered with %q: on %q: %s", where, g[1], input, why)
				})
				r.obligations += 1
				r.discharged += 1
				r.count("configurations", n)
				for ip := range interpPush {
					ps := strings.SplitN(ip, ":", 2)
					ok := false
					for _, lr := range l.States[ps[0]] {
						if lr.Name == ps[1] && lr.Pop {
							ok = true
						}
					}
					r.ob(ok, "interp:"+where+":"+ip, pos, "the interpolation of %s is closed by %s, which does not leave state %s", where, ps[1], ps[0])
				}
				for up := range unicodePush {
					ps := strings.SplitN(up, ":", 2)
					l.checkHex(r, where, ps[0], codeTokens(lit.Frag, ps[1]))
				}
			}
			if !isQuote {
				l.checkMidLine(r, lit.State, lit.Closer, lit.Owner.Name, g)
			}
		}
	}
	r.floor("literals", 2)
	r.assume = append(r.assume, "a back-reference to a heredoc delimiter behaves alike for all delimiters; the delimiters EOF, a and b_2 stand for all of them", "the parser library substitutes back-references as its source says")
}

// hexSpec reads the code of a unicode escape: four or eight hex digits, the
// rest of the input being whatever it is. Its states are "h<n>" while n digits
// have been read, "c<n>" once it is known that there are no more than n (or
// eight were read); marks are the number of digits before them.
type hexSpec struct {
	accepts map[string]bool
}

func (s *hexSpec) start() string { return "h0" }
func (s *hexSpec) step(st string, r rune) string {
	if st[0] == 'c' {
		return st
	}
	n := int(st[1] - '0')
	hex := r >= '0' && r <= '9' || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F'
	if n == 8 || !hex {
		return fmt.Sprintf("c%d", n)
	}
	return fmt.Sprintf("h%d", n+1)
}
func (s *hexSpec) mark(st string) string {
	if st[0] == 'h' {
		return st[1:]
	}
	return "more"
}
func (s *hexSpec) stepMark(m string, r rune) string { return m }
func (s *hexSpec) judge(rule *LexRule, main, mark string, eof bool) (bool, bool, string) {
	n := int(main[1] - '0')
	if main[0] == 'h' && n < 8 && !eof {
		return true, false, ""
	}
	if n < 4 {
		return true, true, "" // a malformed escape
	}
	want := "4"
	if n == 8 {
		want = "8"
	}
	switch {
	case rule == nil:
		return false, true, "no rule accepts the " + want + " hex digits of an escape"
	case mark != want:
		return false, true, fmt.Sprintf("rule %s does not read exactly the %s hex digits of an escape", rule.Name, want)
	case !rule.Pop:
		return false, true, fmt.Sprintf("rule %s does not return to the text after the escape", rule.Name)
	case rule.Elided || !s.accepts[rule.Name]:
		return false, true, fmt.Sprintf("the grammar does not accept %s as the code of an escape", rule.Name)
	}
	return true, true, ""
}

// checkHex decides that every complete escape is read in the state its
// introducer enters.
func (l *LexModel) checkHex(r *Report, where, state string, accepts map[string]bool) {
	insts, err := l.instances(state)
	if err != nil {
		r.failAt("state:"+state, r.p.pos(l.Pos), "state %s: %v", state, err)
		return
	}
	for _, g := range insts {
		mc, err := l.machine(state, g, "09afAFgG")
		if err != nil {
			r.failAt("state:"+state, r.p.pos(l.Pos), "state %s: %v", state, err)
			continue
		}
		n := mc.explore(&hexSpec{accepts: accepts}, func(rule *LexRule, input, why string) {
			name := "-"
			if rule != nil {
				name = rule.Name
			}
			r.failAt("code:"+where+":"+name+":"+firstWords(why, 9), r.p.pos(l.Pos), "%s: after a unicode escape introducer, on %q: %s", where, input, why)
		})
		r.obligations++
		r.discharged++
		r.count("configurations", n)
	}
}

// codeTokens is the set of tokens the text fragment captures directly after
// the introducer token.
func codeTokens(nt *NodeType, intro string) map[string]bool {
	out := map[string]bool{}
	walkG(nt.Prod, func(g *GNode) {
		if g.Kind != GSeq || len(g.Kids) < 2 || g.Kids[0].Kind != GTok || g.Kids[0].Text != intro || g.Kids[1].Kind != GCap {
			return
		}
		var rec func(g *GNode)
		rec = func(g *GNode) {
			switch g.Kind {
			case GTok:
				out[g.Text] = true
			case GAlt, GOnce:
				for _, k := range g.Kids {
					rec(k)
				}
			}
		}
		rec(g.Kids[1].Kids[0])
	})
	return out
}

func firstWords(s string, n int) string {
	f := strings.Fields(s)
	if len(f) > n {
		f = f[:n]
	}
	return strings.Join(f, " ")
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// followSpec records which rules' tokens can be followed by the delimiter word
// in the middle of a line.
type followSpec struct {
	delim string
	hit   map[string]string
}

func (s *followSpec) start() string { return "." }
func (s *followSpec) step(st string, r rune) string {
	switch {
	case r == '\n':
		return "n"
	case r < 0:
		return st
	}
	return "."
}
func (s *followSpec) mark(st string) string { return "m" + st + ":" }
func (s *followSpec) stepMark(m string, r rune) string {
	if strings.HasSuffix(m, "!") || strings.HasSuffix(m, "-") {
		return m
	}
	rest := m[strings.Index(m, ":")+1:]
	if rest == s.delim {
		if r < 0 || !isWordRune(r) {
			return m + "!"
		}
		return m + "-"
	}
	if r < 0 || !strings.HasPrefix(s.delim, rest+string(r)) {
		return m + "-"
	}
	return m + string(r)
}
func (s *followSpec) judge(rule *LexRule, main, mark string, eof bool) (bool, bool, string) {
	if rule == nil {
		return true, true, ""
	}
	switch {
	case strings.HasSuffix(mark, "!"):
		if strings.HasPrefix(mark, "m.") {
			return false, true, "follow"
		}
		return true, true, ""
	case strings.HasSuffix(mark, "-"):
		return true, true, ""
	}
	return true, eof, ""
}

// checkMidLine decides after which tokens the delimiter word, in the middle of
// a line, would be taken for the terminator.
func (l *LexModel) checkMidLine(r *Report, state, closer, owner string, g []string) {
	mc, err := l.machine(state, g, "$%{}\n"+g[1])
	if err != nil {
		return
	}
	// Does the closer match regardless of the line start? The tokeniser
	// restarts each match at the current position, so an anchor does not help.
	sp := &followSpec{delim: g[1]}
	var after []string
	seen := map[string]bool{}
	mc.explore(sp, func(rule *LexRule, input, why string) {
		if !seen[rule.Name] {
			seen[rule.Name] = true
			after = append(after, rule.Name)
		}
	})
	sort.Strings(after)
	for _, lr := range l.States[state] {
		lr := lr
		if lr.Name == closer {
			continue
		}
		name, bad := lr.Name, seen[lr.Name] && lr.Push == ""
		if lr.Push != "" {
			// back from an interpolation, anything can follow
			name, bad = "the end of "+lr.Name, true
			if !l.returns(lr.Push) {
				bad = false
			}
		}
		r.ob(!bad, "midline:"+owner+":"+name, l.Pos, "in a heredoc the delimiter word is taken for the terminator in the middle of a line, directly after %s", name)
	}
}

func (l *LexModel) returns(state string) bool {
	for _, lr := range l.States[state] {
		if lr.Pop {
			return true
		}
	}
	return false
}

var _ = syntax.Perl
