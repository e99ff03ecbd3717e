package main

import (
	"fmt"
	"sort"
	"strings"
)

// E22: the tokeniser's states follow the grammar. The productions are run
// against the stack of lexer states for all texts: in whatever state a
// production is read, each token it asks for can be produced there, and when it
// ends the tokeniser is back in the state it started in.

func init() {
	checks["E22"] = withLex(checkStates)
}

// spellSpec records which rules produce tokens, and which fixed texts.
type spellSpec struct {
	lits  map[string]bool
	fired map[*LexRule]bool
	texts map[spelling]bool
}

type spelling struct {
	rule *LexRule
	text string
}

func (s *spellSpec) start() string { return "=" }
func (s *spellSpec) step(st string, r rune) string {
	if st == "" || st == "-" {
		return "-"
	}
	if r < 0 {
		return st
	}
	t := st + string(r)
	for l := range s.lits {
		if strings.HasPrefix(l, t[1:]) {
			return t
		}
	}
	return "-"
}
func (s *spellSpec) mark(st string) string            { return st }
func (s *spellSpec) stepMark(m string, r rune) string { return m }
func (s *spellSpec) judge(rule *LexRule, main, mark string, eof bool) (bool, bool, string) {
	if rule != nil && mark != "=" {
		s.fired[rule] = true
		if mark != "" && mark != "-" && s.lits[mark[1:]] {
			s.texts[spelling{rule, mark[1:]}] = true
		}
	}
	return true, true, ""
}

// stateRun reads productions along with the lexer states.
type stateRun struct {
	l     *LexModel
	r     *Report
	lits  map[string]bool
	spell map[string]*spellSpec
	owner *NodeType
	entry string
	bad   map[string]bool
	work  []stateJob
	seen  map[string]bool
	from  map[string]string // how a production got into a state
	at    map[string][]string
}

type stateJob struct {
	t *NodeType
	s string
}

// spelled explores a state once.
func (x *stateRun) spelled(state string) *spellSpec {
	if s, ok := x.spell[state]; ok {
		return s
	}
	s := &spellSpec{lits: x.lits, fired: map[*LexRule]bool{}, texts: map[spelling]bool{}}
	x.spell[state] = s
	gs, err := x.l.instances(state)
	if err != nil {
		x.r.failAt("state:"+state, x.r.p.pos(x.l.Pos), "%v", err)
		return s
	}
	var special []string
	for t := range x.lits {
		special = append(special, t)
	}
	sort.Strings(special)
	for _, g := range gs {
		mc, err := x.l.machine(state, g, strings.Join(special, ""))
		if err != nil {
			x.r.failAt("state:"+state, x.r.p.pos(x.l.Pos), "state %s: %v", state, err)
			return s
		}
		x.r.count("configurations", mc.explore(s, func(*LexRule, string, string) {}))
	}
	x.r.count("states", 1)
	return s
}

// rulesFor lists the rules with which a state can produce a symbol.
func (x *stateRun) rulesFor(g *GNode, state string) []*LexRule {
	s := x.spelled(state)
	var out []*LexRule
	for i := range x.l.States[state] {
		lr := &x.l.States[state][i]
		if lr.Elided || !s.fired[lr] {
			continue
		}
		switch g.Kind {
		case GTok:
			if lr.Name == g.Text {
				out = append(out, lr)
			}
		case GLit:
			if s.texts[spelling{lr, g.Text}] && (g.Tok == "" || g.Tok == lr.Name) {
				out = append(out, lr)
			}
		default:
			out = append(out, lr)
		}
	}
	return out
}

// run is the set of state stacks after g, from a set of stacks before it. The
// bottom of each stack is the state the production was entered in.
func (x *stateRun) run(g *GNode, in []string) []string {
	switch g.Kind {
	case GSeq:
		for _, k := range g.Kids {
			in = x.run(k, in)
		}
		return in
	case GAlt:
		var out []string
		for _, k := range g.Kids {
			out = union(out, x.run(k, in))
		}
		return out
	case GOpt:
		return union(in, x.kids(g, in))
	case GStar, GPlus:
		out := []string(nil)
		cur := in
		if g.Kind == GStar {
			out = in
		}
		for {
			n := x.kids(g, cur)
			all := union(out, n)
			if len(all) == len(out) {
				return all
			}
			out, cur = all, n
			for _, st := range all {
				if strings.Count(st, " ") > 8 {
					x.fail("grows:"+x.owner.Name+":"+g.String(), "repeating %s in %s enters ever more lexer states (%s)", g, x.owner.Name, st)
					return in
				}
			}
		}
	case GOnce, GNonEmpty, GCap:
		return x.kids(g, in)
	case GLook:
		return in
	case GRef:
		t := x.l.m.of(g.Ref)
		if t == nil || t.Prod == nil {
			x.fail("no-production:"+x.owner.Name+":"+g.String(), "%s refers to %s, which has no production", x.owner.Name, g.Ref.Obj().Name())
			return in
		}
		for _, st := range in {
			x.enter(t, top(st))
		}
		return in
	case GLit, GTok, GNeg:
		var out []string
		sym := g
		for _, st := range in {
			rs := x.rulesFor(sym, top(st))
			x.r.obligations++
			if len(rs) == 0 {
				x.fail("unreadable:"+x.owner.Name+":"+g.String()+":"+top(st), "%s expects %s where the tokeniser is in state %s, which never produces it%s", x.owner.Name, g, top(st), x.path())
				out = union(out, []string{st}) // go on as if it had been there
				continue
			}
			x.r.discharged++
			for _, lr := range rs {
				switch {
				case lr.Push != "":
					out = union(out, []string{st + " " + lr.Push})
				case lr.Pop || lr.Return:
					i := strings.LastIndexByte(st, ' ')
					if i < 0 {
						x.fail("closes:"+x.owner.Name+":"+g.String()+":"+x.entry, "%s, read in state %s: its %s is token %s, which ends the state that was entered before it%s", x.owner.Name, x.entry, g, lr.Name, x.path())
						out = union(out, []string{st})
						continue
					}
					out = union(out, []string{st[:i]})
				default:
					out = union(out, []string{st})
				}
			}
		}
		return out
	}
	return in
}

func (x *stateRun) kids(g *GNode, in []string) []string {
	for _, k := range g.Kids {
		in = x.run(k, in)
	}
	return in
}

func (x *stateRun) fail(key, format string, a ...any) {
	x.bad[key] = true
	x.r.fail(key, x.owner.Named.Obj().Pos(), format, a...)
}

func (x *stateRun) path() string {
	var p []string
	k := x.owner.Name + " " + x.entry
	for k != "" && len(p) < 12 {
		p = append([]string{k}, p...)
		k = x.from[k]
	}
	return " (reached as " + strings.Join(p, " > ") + ")"
}

func (x *stateRun) enter(t *NodeType, state string) {
	k := t.Name + " " + state
	if x.seen[k] {
		return
	}
	x.seen[k] = true
	if x.owner != nil {
		x.from[k] = x.owner.Name + " " + x.entry
	}
	x.at[t.Name] = append(x.at[t.Name], state)
	x.work = append(x.work, stateJob{t, state})
}

func top(st string) string { return st[strings.LastIndexByte(st, ' ')+1:] }

func union(a, b []string) []string {
	out := append([]string{}, a...)
	for _, s := range b {
		if !contains(out, s) {
			out = append(out, s)
		}
	}
	return out
}

func checkStates(r *Report, l *LexModel) {
	r.rule = "The productions, starting with the root's in the initial state, are read along with the stack of lexer states, every state's token rules being explored as one automaton over all inputs. Each token a production asks for must be one that the state it is read in can produce; every production ends in the state it began in; skipped tokens do not change the state; and a production read in several states finds the same layout and comment tokens there."
	m := l.m
	x := &stateRun{l: l, r: r, lits: map[string]bool{}, spell: map[string]*spellSpec{}, bad: map[string]bool{}, seen: map[string]bool{}, from: map[string]string{}, at: map[string][]string{}}
	for _, t := range m.Types {
		walkG(t.Prod, func(g *GNode) {
			if g.Kind == GLit {
				x.lits[g.Text] = true
			}
		})
	}
	x.enter(m.Root, "Root")
	for len(x.work) > 0 {
		j := x.work[0]
		x.work = x.work[1:]
		x.owner, x.entry = j.t, j.s
		r.count("productions in a state", 1)
		for _, st := range x.run(j.t.Prod, []string{j.s}) {
			r.ob(st == j.s, "unbalanced:"+j.t.Name+":"+j.s, j.t.Named.Obj().Pos(), "%s, read in state %s, can end in state %s%s", j.t.Name, j.s, strings.Replace(st, " ", " > ", -1), x.path())
		}
	}
	// skipped tokens
	for _, s := range l.reachable() {
		sp := x.spelled(s)
		for i := range l.States[s] {
			if lr := &l.States[s][i]; lr.Elided && sp.fired[lr] {
				r.ob(lr.Push == "" && !lr.Pop && !lr.Return, "elided:"+s+":"+lr.Name, l.Pos, "skipping token %s leaves state %s", lr.Name, s)
			}
		}
	}
	// the same layout everywhere
	var names []string
	for n := range x.at {
		names = append(names, n)
	}
	sort.Strings(names)
	layout := func(s string) string {
		var out []string
		for i := range l.States[s] {
			if lr := &l.States[s][i]; lr.Elided && x.spelled(s).fired[lr] && !contains(out, lr.Pattern) {
				out = append(out, lr.Pattern)
			}
		}
		sort.Strings(out)
		return strings.Join(out, " ")
	}
	for _, n := range names {
		for _, s := range x.at[n][1:] {
			a := x.at[n][0]
			r.ob(layout(a) == layout(s), "layout:"+a+":"+s, l.Pos, "%s can be read in the states %s and %s, which skip different white space (%s and %s)", n, a, s, layout(a), layout(s))
		}
	}
	r.samples = append(r.samples, fmt.Sprintf("%d productions in %d states", len(names), len(x.spell)))
	r.floor("productions in a state", 60)
	r.floor("states", 5)
	r.assume = append(r.assume, "the parser library's literals match tokens by their text, whatever their kind; it tokenises as its source says: rules in order, the first that matches wins, Push and Pop change the state for the next token")
}
