package main

import (
	"fmt"
	"go/token"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// The tokeniser: its rules, read from the value the entry points hand to the
// parser library, and its behaviour, as an automaton over all inputs.

// LexRule is one rule of one lexer state.
type LexRule struct {
	Name    string
	Pattern string
	Push    string
	Pop     bool
	Return  bool
	Include string
	Elided  bool
	Backref bool
}

// LexModel is the tokeniser the entry points build.
type LexModel struct {
	m         *Model
	Raw       map[string][]LexRule
	States    map[string][]LexRule // with includes expanded
	Options   []*Term              // options other than the lexer
	Parse     map[string]*entryRun
	Pos       token.Pos
	pushers   map[string][]*LexRule
	errs      []string
	Elide     []string
	textCache map[string][]string
	langCache map[string]string
	fmtRuns   []*fmtRun
	speaking  map[*NodeType]bool // kinds of node that are never formatted as nothing
	multi     map[*NodeType]string
	verb      map[string]bool
	after     map[*NodeType]map[[2]int]bool
	indenters map[*ssa.Function]*indentFn
}

var backrefRe = regexp.MustCompile(`(\\+)(\d)`)

func hasBackref(p string) bool {
	m := backrefRe.FindStringSubmatch(p)
	return m != nil && len(m[1])%2 == 1
}

// substBackref expands references to the groups of the rule that entered the
// state, as the library does.
func substBackref(p string, groups []string) (string, error) {
	var err error
	out := backrefRe.ReplaceAllStringFunc(p, func(s string) string {
		m := backrefRe.FindStringSubmatch(s)
		n, _ := strconv.Atoi(m[2])
		if n >= len(groups) {
			err = fmt.Errorf("group %d of a rule with %d groups", n, len(groups)-1)
			return s
		}
		return m[1][:len(m[1])-1] + regexp.QuoteMeta(groups[n])
	})
	return out, err
}

func constStr(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	return t.strVal()
}

// findCall looks for the single call term of a name.
func findCall(t *Term, suffix string) *Term {
	var r *Term
	t.any(func(x *Term) bool {
		if x.Op == OCall && strings.HasSuffix(x.Sym, suffix) {
			r = x
			return true
		}
		return false
	})
	return r
}

const lexerPath = participlePath + "/lexer"

// unrollTables replaces segments made by going over a constant table by what
// they stand for.
func unrollTables(segs []*Term) []*Term {
	var out []*Term
	for _, s := range segs {
		if s.Op != OEach || s.Args[0].Op != OIdx || len(s.Args) != 2 || len(s.Args[1].Args[0].Args) != 0 {
			out = append(out, s)
			continue
		}
		tab := s.Args[0].Args[0]
		plain := tab.Op == OSeq
		if plain {
			for _, x := range tab.Args {
				plain = plain && x.Op != OEach && x.Op != OSpread && x.Op != ORep
			}
		}
		if !plain {
			out = append(out, s)
			continue
		}
		for i := range tab.Args {
			for _, x := range s.Args[1].Args[1].Args {
				out = append(out, readTable(x.subst(map[*Term]*Term{s.Args[0]: cInt(int64(i))})))
			}
		}
	}
	return out
}

// readTable evaluates the reads from constant tables in t.
func readTable(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec, at func(t *Term) *Term
	// at is what the address t points to, if known.
	at = func(t *Term) *Term {
		switch t.Op {
		case OIndexAddr:
			if i, ok := rec(t.Args[1]).intVal(); ok {
				b := t.Args[0]
				if b.Op != OSeq {
					if b = at(b); b == nil {
						b = rec(t.Args[0])
					}
				}
				if b.Op == OSeq && i >= 0 && int(i) < len(b.Args) {
					return b.Args[i]
				}
			}
		case OFieldAddr:
			if b := at(t.Args[0]); b != nil && b.Op == OStruct {
				return b.Args[t.N]
			}
		}
		return nil
	}
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok || len(t.Args) == 0 {
			if !ok {
				return t
			}
			return r
		}
		if t.Op == OLoad {
			if v := at(t.Args[0]); v != nil {
				memo[t] = v
				return v
			}
		}
		args := make([]*Term, len(t.Args))
		changed := false
		for i, a := range t.Args {
			args[i] = rec(a)
			changed = changed || args[i] != a
		}
		r := t
		if changed {
			r = rebuild(t, args)
		}
		if r.Op == OText && r.Sym == "regexp.QuoteMeta" && len(r.Args) == 1 {
			if s, ok := r.Args[0].strVal(); ok {
				r = cString(regexp.QuoteMeta(s))
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// readRules interprets the rules value.
func (l *LexModel) readRules(t *Term) error {
	if t.Op != OMap {
		return fmt.Errorf("the lexer rules are not a plain table: %.80s", t)
	}
	for _, in := range t.Args {
		if in.Op != OIns {
			return fmt.Errorf("the lexer rules are not a plain table")
		}
		name, ok := constStr(in.Args[0])
		if !ok {
			return fmt.Errorf("a lexer state has no constant name")
		}
		if in.Args[1].Op != OSeq {
			return fmt.Errorf("the rules of lexer state %s are not a plain list", name)
		}
		var rules []LexRule
		for _, r := range unrollTables(in.Args[1].Args) {
			lr := LexRule{}
			switch {
			case r.Op == OCall && r.Sym == lexerPath+".Include":
				s, ok := constStr(r.Args[0])
				if !ok {
					return fmt.Errorf("state %s includes a state without constant name", name)
				}
				lr.Include = s
			case r.Op == OCall && r.Sym == lexerPath+".Return":
				lr.Return = true
			case r.Op == OStruct && len(r.Args) == 3:
				a, ok1 := constStr(r.Args[0])
				b, ok2 := constStr(r.Args[1])
				if !ok1 || !ok2 {
					return fmt.Errorf("a rule of state %s has no constant name or pattern: %.100s", name, r)
				}
				lr.Name, lr.Pattern = a, b
				act := r.Args[2]
				for act.Op == OIface {
					act = act.Args[0]
				}
				switch {
				case act.Op == ONil:
				case act.Op == OCall && act.Sym == lexerPath+".Pop":
					lr.Pop = true
				case act.Op == OCall && act.Sym == lexerPath+".Push":
					s, ok := constStr(act.Args[0])
					if !ok {
						return fmt.Errorf("rule %s pushes a state without constant name", lr.Name)
					}
					lr.Push = s
				case act.Op == OStruct && strings.HasSuffix(typeKey(act.Typ), "lexer.ActionPush"):
					s, ok := constStr(act.Args[0])
					if !ok {
						return fmt.Errorf("rule %s pushes a state without constant name", lr.Name)
					}
					lr.Push = s
				case (act.Op == OStruct || act.Op == OZero) && strings.HasSuffix(typeKey(act.Typ), "lexer.ActionPop"):
					lr.Pop = true
				default:
					return fmt.Errorf("the action of rule %s is not understood: %.80s", lr.Name, act)
				}
				first, _ := utf8.DecodeRuneInString(lr.Name)
				lr.Elided = lr.Name != "" && unicode.IsLower(first)
				lr.Backref = hasBackref(lr.Pattern)
			default:
				return fmt.Errorf("a rule of state %s is not understood: %.100s", name, r)
			}
			rules = append(rules, lr)
		}
		l.Raw[name] = rules
	}
	return nil
}

// expand resolves includes.
func (l *LexModel) expand(state string, open map[string]bool) ([]LexRule, error) {
	if open[state] {
		return nil, fmt.Errorf("lexer state %s includes itself", state)
	}
	rules, ok := l.Raw[state]
	if !ok {
		return nil, fmt.Errorf("lexer state %s does not exist", state)
	}
	open[state] = true
	defer delete(open, state)
	var out []LexRule
	for _, r := range rules {
		if r.Include == "" {
			out = append(out, r)
			continue
		}
		in, err := l.expand(r.Include, open)
		if err != nil {
			return nil, err
		}
		out = append(out, in...)
	}
	return out, nil
}

// buildLex reads the tokeniser from the entry points' calls.
func buildLex(m *Model) (*LexModel, error) {
	l := &LexModel{m: m, Raw: map[string][]LexRule{}, States: map[string][]LexRule{}, Parse: map[string]*entryRun{}, pushers: map[string][]*LexRule{}}
	pk := m.p.spkg[m.p.etx.PkgPath]
	var def *Term
	for _, n := range []string{"Parse", "ParseString", "ParseBytes"} {
		fn := pk.Func(n)
		if fn == nil {
			return nil, fmt.Errorf("no entry point %s", n)
		}
		r := m.runEntry(fn)
		if r.und != nil && !m.opaque {
			m.opaque = true
			if again := m.runEntry(fn); again.und == nil {
				r = again
			} else {
				m.opaque = false
			}
		}
		l.Parse[n] = r
		if r.und != nil {
			return nil, fmt.Errorf("entry point %s: %s (%s)", n, r.und.Msg, m.p.pos(r.und.Pos))
		}
		for _, o := range r.outs {
			for _, f := range o.St.effs {
				if f.Kind == "call" && isParseCall(f.Name) && def == nil {
					def = f.Args[0]
					l.Pos = fn.Pos()
				}
			}
		}
	}
	if def == nil {
		return nil, fmt.Errorf("no entry point calls the parser library")
	}
	if def.Op == OExtract {
		def = def.Args[0]
	}
	if def.Op != OCall || def.Sym != participlePath+".MustBuild" && def.Sym != participlePath+".Build" {
		return nil, fmt.Errorf("the parser is not built in the entry points: %.100s", def)
	}
	g := def.Args[0]
	if g.Op != OIface || m.of(g.Typ) != m.Root {
		return nil, fmt.Errorf("the parser is built for a type other than the root of the tree: %.80s", g)
	}
	if def.Args[1].Op != OSeq {
		return nil, fmt.Errorf("the parser options are not a plain list: %.100s", def.Args[1])
	}
	var rules *Term
	for _, o := range def.Args[1].Args {
		if o.Op == OCall && o.Sym == participlePath+".Lexer" {
			d := o.Args[0]
			for d.Op == OIface || d.Op == OExtract {
				d = d.Args[0]
			}
			if d.Op != OCall || d.Sym != lexerPath+".MustStateful" && d.Sym != lexerPath+".New" {
				return nil, fmt.Errorf("the lexer definition is not understood: %.100s", d)
			}
			if n := len(d.Args); n > 1 && !(d.Args[1].Op == ONil || d.Args[1].Op == OSeq && len(d.Args[1].Args) == 0) {
				return nil, fmt.Errorf("the lexer has options that are not analysed: %.100s", d.Args[1])
			}
			rules = d.Args[0]
			continue
		}
		if o.Op == OCall && o.Sym == participlePath+".Elide" && o.Args[0].Op == OSeq {
			for _, x := range o.Args[0].Args {
				s, ok := constStr(x)
				if !ok {
					return nil, fmt.Errorf("Elide is given a name that is not constant")
				}
				l.Elide = append(l.Elide, s)
			}
		}
		l.Options = append(l.Options, o)
	}
	if rules == nil {
		return nil, fmt.Errorf("the parser is built without a lexer")
	}
	if err := l.readRules(rules); err != nil {
		return nil, err
	}
	for s := range l.Raw {
		rs, err := l.expand(s, map[string]bool{})
		if err != nil {
			return nil, err
		}
		for i := range rs {
			for _, e := range l.Elide {
				if rs[i].Name == e {
					rs[i].Elided = true
				}
			}
		}
		l.States[s] = rs
	}
	if l.States["Root"] == nil {
		return nil, fmt.Errorf("the lexer has no Root state")
	}
	for s := range l.States {
		for i := range l.States[s] {
			if p := l.States[s][i].Push; p != "" {
				l.pushers[p] = append(l.pushers[p], &l.States[s][i])
			}
		}
	}
	return l, nil
}

// lex gives the tokeniser model, or records why there is none.
func (c *Ctx) lex(r *Report) *LexModel {
	m := c.m(r)
	if m == nil {
		return nil
	}
	if c.lexm == nil && c.lexErr == nil {
		c.lexm, c.lexErr = buildLex(m)
	}
	if c.lexErr != nil {
		r.failAt("lexer", "-", "the tokeniser cannot be read: %v", c.lexErr)
		return nil
	}
	return c.lexm
}

func withLex(f func(r *Report, l *LexModel)) checkFn {
	return func(r *Report, c *Ctx) {
		if l := c.lex(r); l != nil {
			f(r, l)
		}
	}
}

// reachable lists the states in which tokenising can happen, sorted.
func (l *LexModel) reachable() []string {
	seen := map[string]bool{"Root": true}
	work := []string{"Root"}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		for _, r := range l.States[s] {
			if r.Push != "" && !seen[r.Push] {
				seen[r.Push] = true
				work = append(work, r.Push)
			}
		}
	}
	var out []string
	for s := range seen {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// instances lists the group values with which a state can be entered: exactly
// when they are finitely many, otherwise representatives.
func (l *LexModel) instances(state string) ([][]string, error) {
	need := false
	for _, r := range l.States[state] {
		if r.Backref {
			need = true
		}
	}
	if !need || state == "Root" {
		return [][]string{nil}, nil
	}
	seen := map[string]bool{}
	var out [][]string
	for _, p := range l.pushers[state] {
		re, err := syntax.Parse(p.Pattern, syntax.Perl)
		if err != nil {
			return nil, err
		}
		if p.Backref {
			return nil, fmt.Errorf("rule %s enters state %s with a pattern that itself refers back", p.Name, state)
		}
		gs := groupsOf(re)
		sets := [][]string{{""}}
		for _, g := range gs[1:] {
			ts, fin := []string(nil), false
			if g != nil {
				ts, fin = langTexts(g.String(), 8)
			}
			if !fin {
				ts = nil
				for _, w := range []string{"EOF", "a", "b_2"} {
					if g == nil {
						continue
					}
					if ok, _ := langMeets(g.String(), regexp.QuoteMeta(w)); ok {
						ts = append(ts, w)
					}
				}
				if ts == nil {
					return nil, fmt.Errorf("no delimiter of rule %s to analyse state %s with", p.Name, state)
				}
			}
			var next [][]string
			for _, s := range sets {
				for _, t := range ts {
					next = append(next, append(append([]string{}, s...), t))
				}
			}
			sets = next
		}
		for _, s := range sets {
			if k := strings.Join(s, "\x00"); !seen[k] {
				seen[k] = true
				out = append(out, s)
			}
		}
	}
	return out, nil
}

func groupsOf(re *syntax.Regexp) []*syntax.Regexp {
	out := make([]*syntax.Regexp, re.MaxCap()+1)
	var rec func(r *syntax.Regexp)
	rec = func(r *syntax.Regexp) {
		if r.Op == syntax.OpCapture {
			out[r.Cap] = r.Sub[0]
		}
		for _, s := range r.Sub {
			rec(s)
		}
	}
	rec(re)
	return out
}

// tokenLang is a pattern for (at least) the texts of the tokens of a name.
func (l *LexModel) tokenLang(name string) (string, bool) {
	var alts []string
	seen := map[string]bool{}
	for _, s := range l.reachable() {
		for _, r := range l.States[s] {
			if r.Name != name {
				continue
			}
			p := r.Pattern
			if r.Backref {
				p = strings.ReplaceAll(p, `\1`, `(?:\w+|["'])`)
				if hasBackref(p) {
					return "", false
				}
			}
			if !seen[p] {
				seen[p] = true
				alts = append(alts, "(?:"+p+")")
			}
		}
	}
	if alts == nil {
		return "", false
	}
	return strings.Join(alts, "|"), true
}

// ---------------------------------------------------------------------------
// The token automaton: reading one token in one state, for all inputs.

// lexMachine reads one token.
type lexMachine struct {
	rules []LexRule
	progs []*syntax.Prog
	alpha *alphabet
}

func (l *LexModel) machine(state string, groups []string, special string) (*lexMachine, error) {
	mc := &lexMachine{rules: l.States[state]}
	for _, r := range mc.rules {
		if r.Return {
			return nil, fmt.Errorf("state %s returns without consuming", state)
		}
		p := r.Pattern
		if r.Backref {
			var err error
			if p, err = substBackref(p, groups); err != nil {
				return nil, fmt.Errorf("rule %s: %v", r.Name, err)
			}
		}
		pr, _, err := compilePattern("^(?:" + p + ")")
		if err != nil {
			return nil, fmt.Errorf("rule %s: %v", r.Name, err)
		}
		mc.progs = append(mc.progs, pr)
	}
	mc.alpha = newAlphabet(mc.progs, special)
	return mc, nil
}

// lexPos is the state of reading one token.
type lexPos struct {
	th   [][]uint32
	best int
	prev rune
	main string // specification state
	mark string // specification state at the end of the best match
	text string
}

func (p *lexPos) key() string {
	return fmt.Sprintf("%v|%d|%d|%s|%s", p.th, p.best, prevClass(p.prev), p.main, p.mark)
}

// lexSpec is a specification automaton run beside the tokeniser.
type lexSpec interface {
	start() string
	step(s string, r rune) string // r is -1 at the end of input
	mark(s string) string
	stepMark(s string, r rune) string
	// judge is asked when the token is known; done=false asks for more input
	// (never at its end).
	judge(rule *LexRule, main, mark string, eof bool) (ok, done bool, why string)
}

// next reads one more character. hit reports that a rule matches the text
// read so far; without alive, the token is known.
func (mc *lexMachine) next(c *lexPos, r rune) (n *lexPos, hit, alive bool) {
	n = &lexPos{best: c.best, prev: r, main: c.main, mark: c.mark, text: c.text}
	if r >= 0 {
		n.text += string(r)
	}
	n.th = make([][]uint32, len(mc.progs))
	for i, p := range mc.progs {
		if len(c.th[i]) == 0 || n.best >= 0 && i > n.best {
			continue
		}
		var nx []uint32
		dup := map[uint32]bool{}
		for _, pc := range closure(p, c.th[i], syntax.EmptyOpContext(c.prev, r), false) {
			in := &p.Inst[pc]
			if in.Op == syntax.InstMatch {
				n.best = i
				hit = true
				break
			}
			if r >= 0 && in.MatchRune(r) && !dup[in.Out] {
				dup[in.Out] = true
				nx = append(nx, in.Out)
			}
		}
		n.th[i] = nx
	}
	for i := range n.th {
		if n.best >= 0 && i > n.best {
			n.th[i] = nil
		}
		if len(n.th[i]) > 0 {
			alive = true
		}
	}
	return n, hit, alive
}

// begin is the state before a token.
func (mc *lexMachine) begin() *lexPos {
	init := &lexPos{best: -1, prev: -1}
	for _, p := range mc.progs {
		init.th = append(init.th, []uint32{uint32(p.Start)})
	}
	return init
}

// explore reads one token on every possible input.
func (mc *lexMachine) explore(spec lexSpec, report func(rule *LexRule, input, why string)) int {
	init := mc.begin()
	init.main = spec.start()
	queue := []*lexPos{init}
	seen := map[string]bool{init.key(): true}
	for len(queue) > 0 {
		c := queue[0]
		queue = queue[1:]
		for _, r := range append([]rune{-1}, mc.alpha.reps...) {
			n, hit, alive := mc.next(c, r)
			if hit {
				n.mark = spec.mark(c.main)
			}
			n.main = spec.step(n.main, r)
			if n.mark != "" {
				n.mark = spec.stepMark(n.mark, r)
			}
			if !alive || r < 0 {
				if r < 0 && c == init {
					continue // no input: no token
				}
				var rule *LexRule
				if n.best >= 0 {
					rule = &mc.rules[n.best]
				}
				ok, done, why := spec.judge(rule, n.main, n.mark, r < 0)
				if !ok {
					report(rule, n.text, why)
					continue
				}
				if done || r < 0 {
					continue
				}
			}
			if k := n.key(); !seen[k] {
				seen[k] = true
				queue = append(queue, n)
			}
		}
	}
	return len(seen)
}
