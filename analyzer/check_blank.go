package main

import (
	"fmt"
	"sort"
	"strings"
)

// E23: wherever a line may end, blank lines may follow and the line break may
// be written as CRLF.

func init() { checks["E23"] = withLex(checkBlankLines) }

// lineSpec looks at the tokens that start with a line break, or with blanks.
type lineSpec struct {
	names  map[string]bool // tokens of line breaks
	blanks bool            // only blanks are of interest
}

// States: "" at the start; "r" after a lone CR; "n" while only line breaks (and blanks)
// have been read from a text that starts with LF or CRLF; "w" while only
// blanks have; "n!" and "w!" once something else has; "x" for other text.
func (s *lineSpec) start() string { return "" }
func (s *lineSpec) step(st string, r rune) string {
	switch {
	case st == "" && r == '\n', st == "r" && r == '\n':
		return "n"
	case st == "" && r == '\r':
		return "r"
	case st == "" && (r == ' ' || r == '\t'):
		return "w"
	case st == "" || st == "r":
		return "x"
	case st == "n" && !strings.ContainsRune("\r\n\t ", r) || st == "w" && r != ' ' && r != '\t':
		return st + "!"
	}
	return st
}
func (s *lineSpec) mark(st string) string {
	if st == "r" {
		return "n"
	}
	return st
}
func (s *lineSpec) stepMark(m string, r rune) string { return m }
func (s *lineSpec) judge(rule *LexRule, main, mark string, eof bool) (bool, bool, string) {
	if main == "" || main == "r" {
		return true, eof || s.blanks && main == "r", ""
	}
	if main == "x" || s.blanks && main[0] != 'w' {
		return true, true, ""
	}
	breaks := main[0] == 'n'
	what := "a blank"
	if breaks {
		what = "a line break"
	}
	switch {
	case rule == nil:
		return false, true, what + " is not accepted"
	case strings.HasSuffix(mark, "!"):
		return false, true, fmt.Sprintf("rule %s reads %s together with what follows it", rule.Name, what)
	case rule.Push != "" || rule.Pop:
		return false, true, fmt.Sprintf("rule %s, which reads %s, changes the state", rule.Name, what)
	case !breaks && !rule.Elided:
		return false, true, fmt.Sprintf("blanks are read as %s, which the parser sees", rule.Name)
	case breaks && !rule.Elided:
		s.names[rule.Name] = true
	}
	return true, true, ""
}

// gAuto is the position automaton of a production.
type gAuto struct {
	nt       *NodeType
	leaves   []*GNode
	first    []int
	last     map[int]bool
	follow   [][]int
	nullable bool
}

func newAuto(nt *NodeType) *gAuto {
	a := &gAuto{nt: nt, last: map[int]bool{}}
	var rec func(g *GNode) (first, last []int, null bool)
	link := func(from, to []int) {
		for _, f := range from {
			for _, t := range to {
				dup := false
				for _, x := range a.follow[f] {
					dup = dup || x == t
				}
				if !dup {
					a.follow[f] = append(a.follow[f], t)
				}
			}
		}
	}
	rec = func(g *GNode) (first, last []int, null bool) {
		switch g.Kind {
		case GSeq:
			null = true
			for _, k := range g.Kids {
				f, l, n := rec(k)
				link(last, f)
				if null {
					first = append(first, f...)
				}
				if n {
					last = append(last, l...)
				} else {
					last = l
				}
				null = null && n
			}
			return
		case GAlt:
			for _, k := range g.Kids {
				f, l, n := rec(k)
				first = append(first, f...)
				last = append(last, l...)
				null = null || n
			}
			return
		case GOpt, GStar, GPlus, GOnce, GNonEmpty, GCap:
			first, last, null = rec(g.Kids[0])
			if g.Kind == GStar || g.Kind == GPlus {
				link(last, first)
			}
			if g.Kind == GOpt || g.Kind == GStar {
				null = true
			}
			if g.Kind == GNonEmpty {
				null = false
			}
			return
		case GLook:
			return nil, nil, true
		}
		i := len(a.leaves)
		a.leaves = append(a.leaves, g)
		a.follow = append(a.follow, nil)
		return []int{i}, []int{i}, false
	}
	f, l, n := rec(nt.Prod)
	a.first, a.nullable = f, n
	for _, x := range l {
		a.last[x] = true
	}
	return a
}

// blankCheck compares parser states: stacks of productions, each at the part
// read last.
type blankCheck struct {
	m     *Model
	autos map[*NodeType]*gAuto
	uses  map[*NodeType][]gFrame
	lf    map[string]bool
	memo  map[string]map[string][]gStack
	steps int
}

type gFrame struct {
	a *gAuto
	i int
}

// gStack is innermost first.
type gStack []gFrame

func (s gStack) key() string {
	var sb strings.Builder
	for _, f := range s {
		fmt.Fprintf(&sb, "%s@%d ", f.a.nt.Name, f.i)
	}
	return sb.String()
}

func leafSym(g *GNode) string {
	switch g.Kind {
	case GTok:
		return "<" + g.Text + ">"
	case GLit:
		return fmt.Sprintf("%q:%s", g.Text, g.Tok)
	}
	return g.String()
}

const gBottom = "(end)"

// moves lists the states after the next token, by token. gBottom stands for
// the end of everything known.
func (b *blankCheck) moves(s gStack) map[string][]gStack {
	k := s.key()
	if m, ok := b.memo[k]; ok {
		return m
	}
	out := map[string][]gStack{}
	seen := map[string]bool{}
	var enter func(a *gAuto, i int, rest gStack, depth int)
	var leave func(s gStack, depth int)
	enter = func(a *gAuto, i int, rest gStack, depth int) {
		ns := append(gStack{{a, i}}, rest...)
		g := a.leaves[i]
		if g.Kind != GRef {
			k := leafSym(g)
			if key := k + " " + ns.key(); !seen[key] {
				seen[key] = true
				out[k] = append(out[k], ns)
			}
			return
		}
		if depth > 60 {
			return
		}
		c := b.autos[b.m.of(g.Ref)]
		if c == nil {
			return
		}
		for _, x := range c.first {
			enter(c, x, ns, depth+1)
		}
		if c.nullable {
			leave(ns, depth+1)
		}
	}
	leave = func(s gStack, depth int) {
		if depth > 60 {
			return
		}
		if len(s) == 0 {
			out[gBottom] = []gStack{nil}
			return
		}
		f := s[0]
		for _, x := range f.a.follow[f.i] {
			enter(f.a, x, s[1:], depth)
		}
		if f.a.last[f.i] {
			leave(s[1:], depth)
		}
	}
	leave(s, 0)
	b.memo[k] = out
	return out
}

// simulates reports whether everything that can follow s can follow t.
func (b *blankCheck) simulates(t, s gStack, assumed map[string]bool) bool {
	if t.key() == s.key() {
		return true
	}
	k := t.key() + "/ " + s.key()
	if assumed[k] {
		return true
	}
	if b.steps++; b.steps > 200000 {
		return false
	}
	assumed[k] = true
	mt := b.moves(t)
	for sym, ss := range b.moves(s) {
		if sym == gBottom {
			if len(mt[gBottom]) == 0 {
				return false
			}
			continue
		}
		for _, s2 := range ss {
			ok := false
			for _, t2 := range mt[sym] {
				if t2.key() == s2.key() {
					ok = true
				}
			}
			for _, t2 := range mt[sym] {
				if ok {
					break
				}
				// Keep what is assumed only if it is confirmed.
				try := map[string]bool{}
				for a := range assumed {
					try[a] = true
				}
				if b.simulates(t2, s2, try) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// again decides that after s, which has just read a line break, another one
// changes nothing, in whatever s occurs in.
func (b *blankCheck) again(s gStack, depth int) (bool, gStack) {
	mv := b.moves(s)
	var names []string
	for n := range b.lf {
		names = append(names, n)
	}
	sort.Strings(names)
	all := true
	for _, n := range names {
		ok := false
		for _, t := range mv["<"+n+">"] {
			ok = ok || b.simulates(t, s, map[string]bool{})
		}
		all = all && ok
	}
	if all {
		return true, nil
	}
	bottom := s[len(s)-1].a.nt
	if len(mv[gBottom]) == 0 || bottom == b.m.Root || depth > 12 {
		return false, s
	}
	for _, u := range b.uses[bottom] {
		if ok, at := b.again(append(append(gStack{}, s...), u), depth+1); !ok {
			return false, at
		}
	}
	return true, nil
}

func checkBlankLines(r *Report, l *LexModel) {
	r.rule = "Every reachable lexer state that knows line breaks must read LF and CRLF as line break tokens of their own and blanks as skipped tokens. Over the position automata of the productions, every parser state just after a line break (a stack of productions, extended through all places a production is used in as far as needed) must allow a further line break that leads to a state simulating the one before it."
	m := l.m
	sp := &lineSpec{names: map[string]bool{}}
	// A state knows line breaks if it has the rule the initial state reads
	// them with.
	seenStates := 0
	for pass := 0; pass < 2; pass++ {
		for _, st := range l.reachable() {
			if pass == 0 && st != "Root" {
				continue
			}
			if pass == 1 {
				knows := false
				for _, lr := range l.States[st] {
					knows = knows || sp.names[lr.Name]
				}
				if !knows {
					continue
				}
			}
			insts, err := l.instances(st)
			if err != nil {
				r.failAt("state:"+st, r.p.pos(l.Pos), "state %s: %v", st, err)
				continue
			}
			for _, g := range insts {
				mc, err := l.machine(st, g, "\r\n\t aA_0")
				if err != nil {
					r.failAt("state:"+st, r.p.pos(l.Pos), "state %s: %v", st, err)
					continue
				}
				n := mc.explore(sp, func(rule *LexRule, input, why string) {
					if pass == 0 {
						return
					}
					r.failAt("lexer:"+st+":"+firstWords(why, 12), r.p.pos(l.Pos), "in state %s, on %q: %s", st, input, why)
				})
				r.count("configurations", n)
			}
			if pass == 1 {
				r.obligations++
				r.discharged++
				seenStates++
			}
		}
	}
	if len(sp.names) == 0 {
		r.failAt("linebreaks", r.p.pos(l.Pos), "no token of the initial state is a line break")
		return
	}
	b := &blankCheck{m: m, autos: map[*NodeType]*gAuto{}, uses: map[*NodeType][]gFrame{}, lf: sp.names, memo: map[string]map[string][]gStack{}}
	for _, t := range m.Types {
		if t.InTree && t.Prod != nil {
			b.autos[t] = newAuto(t)
		}
	}
	for _, t := range m.Types {
		a := b.autos[t]
		if a == nil {
			continue
		}
		r.count("productions", 1)
		for i, g := range a.leaves {
			if g.Kind == GRef {
				if c := m.of(g.Ref); c != nil {
					b.uses[c] = append(b.uses[c], gFrame{a, i})
				}
			}
		}
	}
	for _, t := range m.Types {
		a := b.autos[t]
		if a == nil {
			continue
		}
		n := 0
		for i, g := range a.leaves {
			if g.Kind != GTok || !b.lf[g.Text] {
				continue
			}
			n++
			r.count("line ends", 1)
			ok, at := b.again(gStack{{a, i}}, 0)
			where := ""
			for _, f := range at {
				where += " in " + f.a.nt.Name
			}
			r.ob(ok, fmt.Sprintf("blank:%s:%d", t.Name, n), t.Named.Obj().Pos(), "after line break %d of the production of %s, a blank line is not accepted everywhere what follows is (read%s)", n, t.Name, where)
		}
	}
	r.count("parser states", len(b.memo))
	r.floor("line ends", 10)
	r.assume = append(r.assume, "the parser library reads what its grammar allows (its choices between alternatives are not limited by the number of line breaks)")
}
