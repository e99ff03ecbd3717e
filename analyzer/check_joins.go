package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
)

// Where the formatter's text may differ from what was read - separators,
// blanks, alternatives, quotes - it must still be read the same way.

// ---- tokens at the edges of texts ----

// endTerms lists the words with which a match can begin or end.
func endTerms(g *GNode, last bool) (out []*GNode, null bool) {
	switch g.Kind {
	case GLit, GTok:
		return []*GNode{g}, false
	case GSeq:
		null = true
		for i := range g.Kids {
			k := g.Kids[i]
			if last {
				k = g.Kids[len(g.Kids)-1-i]
			}
			o, n := endTerms(k, last)
			out = append(out, o...)
			if !n {
				return out, false
			}
		}
		return out, true
	case GAlt:
		for _, k := range g.Kids {
			o, n := endTerms(k, last)
			out = append(out, o...)
			null = null || n
		}
		return out, null
	case GOpt, GStar:
		out, _ = endTerms(g.Kids[0], last)
		return out, true
	case GPlus, GOnce, GNonEmpty, GCap:
		return endTerms(g.Kids[0], last)
	case GLook:
		return nil, true
	}
	return nil, false
}

// edgeSet is the tokens with which the texts of a node begin or end.
type edgeSet struct {
	m    map[string]rEdge
	null bool // can be without text
}

func (s *edgeSet) add(e rEdge) bool {
	k := e.key()
	if _, ok := s.m[k]; ok {
		return false
	}
	s.m[k] = e
	return true
}

func (s *edgeSet) list() []rEdge {
	var ks []string
	for k := range s.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []rEdge
	for _, k := range ks {
		out = append(out, s.m[k])
	}
	return out
}

type edgeKey struct {
	nt   *NodeType
	last bool
	trim bool // after a final line break was taken off
}

// solve computes the edges of all texts.
func (w *readWorld) solve() {
	w.edge = map[edgeKey]*edgeSet{}
	var keys []edgeKey
	for _, nt := range w.l.m.inTree() {
		if w.texts[nt] == nil {
			continue
		}
		for _, k := range []edgeKey{{nt, false, false}, {nt, true, false}, {nt, true, true}} {
			keys = append(keys, k)
			w.edge[k] = &edgeSet{m: map[string]rEdge{}}
		}
	}
	for again := true; again; {
		again = false
		for _, k := range keys {
			s := w.edge[k]
			for _, t := range w.texts[k.nt] {
				n, null := w.textEdges(t, k.last, k.trim)
				for _, e := range n {
					again = s.add(e) || again
				}
				if null && !s.null {
					s.null, again = true, true
				}
			}
		}
	}
}

// textEdges lists the edge tokens of a text. Of a text that is not read as it
// should be, which is reported, they are those of what it should be.
func (w *readWorld) textEdges(t *rText, last, trim bool) ([]rEdge, bool) {
	if t.solid {
		return w.edgesOf(t.events, last, trim, last && t.tail)
	}
	var out []rEdge
	ts, null := endTerms(t.run.nt.Prod, last)
	for _, g := range ts {
		for _, st := range sortedStates(w.l) {
			if r := w.ruleFor(st, g); r != nil && (last || w.ctxs[t.run.nt][st]) {
				e := rEdge{rule: r.Name, pre: st}
				if g.Kind == GLit {
					e.text = g.Text
				}
				out = append(out, e)
			}
		}
	}
	return out, null
}

func sortedStates(l *LexModel) []string {
	var out []string
	for s := range l.States {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// edgesOf lists the edge tokens of one sequence of tokens and parts.
func (w *readWorld) edgesOf(evs []rEvent, last, trim, gap bool) ([]rEdge, bool) {
	var out []rEdge
	for i := range evs {
		ev := evs[i]
		if last {
			ev = evs[len(evs)-1-i]
		}
		if !last && ev.gap {
			gap = true
		}
		es, null, left := w.eventEdges(ev, last, trim)
		for _, e := range es {
			e.gap = e.gap || gap
			out = append(out, e)
		}
		trim = left
		if !null {
			return out, false
		}
		if last && ev.gap {
			gap = true
		}
	}
	return out, true
}

// eventEdges lists the edge tokens of one token or part; left tells whether a
// line break is still to be taken off what is before it.
func (w *readWorld) eventEdges(ev rEvent, last, trim bool) (out []rEdge, null, left bool) {
	switch ev.kind {
	case 't':
		if trim && ev.rule == "LF" {
			return nil, true, false
		}
		return []rEdge{{rule: ev.rule, text: ev.text, pre: ev.pre, gs: ev.groups}}, false, false
	case 'c':
		s := w.edge[edgeKey{ev.nt, last, last && (trim || ev.trim != "")}]
		if s == nil {
			return []rEdge{{rule: "?" + ev.nt.Name, pre: ev.pre}}, false, false
		}
		return s.list(), s.null, trim && s.null
	}
	if ev.cap == nil {
		return []rEdge{{rule: "?", pre: ev.pre}}, false, false
	}
	ts, n := endTerms(ev.cap.Kids[0], last)
	for _, t := range ts {
		e := rEdge{pre: ev.pre, gs: ev.groups}
		if t.Kind == GTok {
			e.rule = t.Text
			if trim && t.Text == "LF" {
				n = true
			}
		} else {
			e.text = t.Text
			if r := w.ruleFor(ev.pre, t); r != nil {
				e.rule = r.Name
			}
		}
		out = append(out, e)
	}
	return out, n, false
}

// narrow gives the edges of a part with what is known about it on a path.
func (w *readWorld) narrow(t *rText, ev rEvent, last bool) ([]rEdge, bool) {
	if ev.kind != 'c' || w.texts[ev.nt] == nil {
		es, null, _ := w.eventEdges(ev, last, false)
		return es, null
	}
	var s edgeSet
	s.m = map[string]rEdge{}
	for _, x := range w.texts[ev.nt] {
		if !w.fits(t, ev, x.run.s) {
			continue
		}
		es, null := w.textEdges(x, last, last && ev.trim != "")
		for _, e := range es {
			s.add(e)
		}
		s.null = s.null || null
	}
	return s.list(), s.null
}

// fits reports whether a part can have a combination of fields.
func (w *readWorld) fits(t *rText, ev rEvent, s Shape) bool {
	return s == nil || t.run.tf.shapeFits(t.run.e, t.fl.st, ev.term, ev.nt, s)
}

// ---- tokens next to each other ----

func (w *readWorld) edgeLang(e rEdge) (string, bool) {
	if e.text != "" {
		return regexp.QuoteMeta(e.text), true
	}
	return w.l.tokenLang(e.rule)
}

func (w *readWorld) joins(t *rText) {
	evs := t.events
	for a := range evs {
		tails, _ := w.narrow(t, evs[a], true)
		gap := false
		for b := a + 1; b < len(evs); b++ {
			gap = gap || evs[b].gap
			heads, null := w.narrow(t, evs[b], false)
			if w.elides(evs[b].pre) {
				for _, x := range tails {
					for _, y := range heads {
						w.join(t, x, y, gap || x.gap || y.gap, evs[b:])
					}
				}
			}
			if !null {
				break
			}
		}
	}
}

// join decides whether two tokens stay apart.
func (w *readWorld) join(t *rText, a, b rEdge, gap bool, rest []rEvent) {
	if a.rule == "LF" || b.rule == "LF" && w.endsLine(a) {
		return
	}
	name := t.run.nt.Name
	pa, ok1 := w.edgeLang(a)
	pb, ok2 := w.edgeLang(b)
	if !ok1 || !ok2 {
		w.r.ob(false, "join:"+name, t.run.fn.Pos(), "%s: the tokens %s and %s are not understood (text: %s)", t.run.what(), a, b, t.fl)
		return
	}
	c := ""
	switch {
	case gap:
		pb, c = `[\t ]`, " after blanks"
	case b.text != "" && rest[0].kind == 't' && len(rest) > 1:
		// what follows a fixed word
		var alts []string
		known := true
		for i := 1; i < len(rest); i++ {
			es, null := w.narrow(t, rest[i], false)
			for _, e := range es {
				p, ok := w.edgeLang(e)
				known = known && ok
				if rest[i].gap || e.gap {
					p = `[\t ]`
				}
				alts = append(alts, "(?:"+p+")")
			}
			if !null {
				break
			}
			known = known && i+1 < len(rest)
		}
		if known && alts != nil {
			sort.Strings(alts)
			pb += "(?:" + strings.Join(alts, "|") + ")"
		}
	}
	key := a.rule + "\x00" + pa + "\x00" + a.pre + "\x00" + pb
	ex, seen := w.fused[key]
	if !seen {
		ex = w.fuse(a, pa, pb)
		w.fused[key] = ex
		w.r.count("neighbouring tokens", 1)
	}
	w.r.ob(ex == "", "join:"+name+":"+a.String()+" "+b.String(), t.run.fn.Pos(), "%s writes %s and %s%s next to each other, which are read as one token or cut elsewhere, as in %s (text: %s)", t.run.what(), a, b, c, ex, t.fl)
}

// endsLine reports tokens that cannot run over a line break.
func (w *readWorld) endsLine(e rEdge) bool {
	p, ok := w.edgeLang(e)
	if !ok {
		return false
	}
	k := "\x00lf" + p + e.pre
	v, seen := w.fused[k]
	if !seen {
		v = w.fuse(e, p, `\n`)
		w.fused[k] = v
	}
	return v == ""
}

// fuse looks for a text of the first token, followed by the second, that the
// tokeniser reads beyond the end of the first. "" means there is none.
func (w *readWorld) fuse(a rEdge, pa, pb string) string {
	insts := [][]string{a.gs}
	if a.gs == nil {
		if gs, err := w.l.instances(a.pre); err == nil {
			insts = gs
		}
	}
	for _, g := range insts {
		qa := pa
		if r := w.rule(a.pre, a.rule); r != nil && a.text == "" {
			qa = r.Pattern
			if r.Backref {
				p, err := substBackref(qa, g)
				if err != nil {
					continue
				}
				qa = p
			}
		}
		special := "\n"
		for _, p := range []string{qa, pb} {
			re, err := syntax.Parse(p, syntax.Perl)
			if err != nil {
				return err.Error()
			}
			special += litRunes(re)
		}
		mc, err := w.l.machine(a.pre, g, special)
		if err != nil {
			return err.Error()
		}
		sp, err := newJoinSpec(qa, pb)
		if err != nil {
			return err.Error()
		}
		found := ""
		mc.explore(sp, func(rule *LexRule, input, why string) {
			if found == "" {
				found = fmt.Sprintf("%q", input)
			}
		})
		if found != "" {
			return found
		}
	}
	return ""
}

func (w *readWorld) rule(state, name string) *LexRule {
	for i := range w.l.States[state] {
		if w.l.States[state][i].Name == name {
			return &w.l.States[state][i]
		}
	}
	return nil
}

// litRunes lists the characters a pattern tells apart.
func litRunes(re *syntax.Regexp) string {
	var sb strings.Builder
	var rec func(r *syntax.Regexp)
	rec = func(r *syntax.Regexp) {
		switch r.Op {
		case syntax.OpLiteral:
			sb.WriteString(string(r.Rune))
		case syntax.OpCharClass:
			for i := 0; i+1 < len(r.Rune); i += 2 {
				if r.Rune[i] < 128 {
					sb.WriteRune(r.Rune[i])
				}
				if r.Rune[i+1] < 128 {
					sb.WriteRune(r.Rune[i+1])
				}
			}
		}
		for _, s := range r.Sub {
			rec(s)
		}
	}
	rec(re)
	return sb.String()
}

// joinSpec follows all ways of cutting the input into a first token and a
// second one.
type joinSpec struct {
	a, b *syntax.Prog
	st   map[string]*joinState
}

type joinState struct {
	a, b []uint32
	done bool // the second token is complete
	open bool // the second token has begun
	prev rune
}

func newJoinSpec(a, b string) (*joinSpec, error) {
	pa, _, err := compilePattern("^(?:" + a + ")")
	if err != nil {
		return nil, err
	}
	pb, _, err := compilePattern("^(?:" + b + ")")
	if err != nil {
		return nil, err
	}
	return &joinSpec{a: pa, b: pb, st: map[string]*joinState{}}, nil
}

func (s *joinSpec) put(j *joinState) string {
	if len(j.a) == 0 && len(j.b) == 0 && !j.done {
		return "-"
	}
	k := fmt.Sprintf("%v|%v|%v|%d", j.a, j.b, j.done, prevClass(j.prev))
	s.st[k] = j
	return k
}

func (s *joinSpec) start() string {
	return s.put(&joinState{a: []uint32{uint32(s.a.Start)}, prev: -1})
}

func (s *joinSpec) advance(k string, r rune, first bool) string {
	c := s.st[k]
	if c == nil || r < 0 {
		return k
	}
	n := &joinState{prev: r, done: c.done}
	ctx := syntax.EmptyOpContext(c.prev, r)
	run := func(p *syntax.Prog, th []uint32, out *[]uint32) bool {
		end := false
		dup := map[uint32]bool{}
		for _, pc := range closure(p, th, ctx, false) {
			in := &p.Inst[pc]
			if in.Op == syntax.InstMatch {
				end = true
				continue
			}
			if in.MatchRune(r) && !dup[in.Out] {
				dup[in.Out] = true
				*out = append(*out, in.Out)
			}
		}
		return end
	}
	endA := false
	if first {
		endA = run(s.a, c.a, &n.a)
	}
	if run(s.b, c.b, &n.b) {
		n.done = true
	}
	if endA {
		dup := map[uint32]bool{}
		for _, x := range n.b {
			dup[x] = true
		}
		// the second token begins here; it has no left context
		for _, pc := range closure(s.b, []uint32{uint32(s.b.Start)}, syntax.EmptyOpContext(-1, r), false) {
			in := &s.b.Inst[pc]
			if in.Op != syntax.InstMatch && in.MatchRune(r) && !dup[in.Out] {
				dup[in.Out] = true
				n.b = append(n.b, in.Out)
			}
		}
	}
	sort.Slice(n.b, func(i, j int) bool { return n.b[i] < n.b[j] })
	return s.put(n)
}

func (s *joinSpec) step(k string, r rune) string { return s.advance(k, r, true) }

// mark keeps the ways in which the token read ends inside the second one.
func (s *joinSpec) mark(k string) string {
	c := s.st[k]
	if c == nil || len(c.b) == 0 && !c.done {
		return "-"
	}
	return s.put(&joinState{b: c.b, done: c.done, prev: c.prev})
}

func (s *joinSpec) stepMark(k string, r rune) string { return s.advance(k, r, false) }

func (s *joinSpec) judge(rule *LexRule, main, mark string, eof bool) (bool, bool, string) {
	if rule == nil || mark == "" || mark == "-" {
		return true, true, ""
	}
	c := s.st[mark]
	if c == nil || len(c.b) == 0 && !c.done {
		return true, true, ""
	}
	if eof && !c.done {
		// the input ends inside the second token
		end := false
		for _, pc := range closure(s.b, c.b, syntax.EmptyOpContext(c.prev, -1), false) {
			end = end || s.b.Inst[pc].Op == syntax.InstMatch
		}
		if !end {
			return true, true, ""
		}
	}
	return false, true, "runs on"
}

// ---- parts that run on ----

// partLink is a last part of known fields.
type partLink struct {
	cap *GNode
	nt  *NodeType
	s   Shape
}

// contsOn is conts where the last parts are known.
func (w *readWorld) contsOn(g *GNode, chain []partLink) (out [][]*GNode) {
	if len(chain) == 0 || !hasNode(g, chain[0].cap) {
		return w.conts(g)
	}
	switch g.Kind {
	case GCap:
		for _, a := range w.altsFor(chain[0].nt, chain[0].s) {
			out = append(out, w.contsOn(a, chain[1:])...)
		}
	case GOnce, GNonEmpty:
		out = w.contsOn(g.Kids[0], chain)
	case GAlt:
		for _, k := range g.Kids {
			out = append(out, w.contsOn(k, chain)...)
		}
	case GOpt:
		out = append([][]*GNode{{g.Kids[0]}}, w.contsOn(g.Kids[0], chain)...)
	case GStar, GPlus:
		star := w.star(g.Kids[0])
		out = append(out, []*GNode{g.Kids[0], star})
		for _, c := range w.contsOn(g.Kids[0], chain) {
			out = append(out, append(append([]*GNode{}, c...), star))
		}
	case GSeq:
		out = w.seqConts(g.Kids, chain)
	default:
		out = w.conts(g)
	}
	return out
}

func hasNode(g, x *GNode) bool {
	found := false
	walkG(g, func(y *GNode) { found = found || y == x })
	return found
}

// conts lists what can still follow a complete match within a longer match.
func (w *readWorld) conts(g *GNode) [][]*GNode {
	if c, ok := w.contOf[g]; ok {
		return c
	}
	w.contOf[g] = nil // within itself
	var out [][]*GNode
	switch g.Kind {
	case GRef:
		if nt := w.l.m.of(g.Ref); nt != nil && nt.Prod != nil && !nt.Capture {
			out = w.conts(nt.Prod)
		}
	case GCap, GOnce, GNonEmpty:
		out = w.conts(g.Kids[0])
	case GAlt:
		for _, k := range g.Kids {
			out = append(out, w.conts(k)...)
		}
	case GOpt:
		out = append(out, []*GNode{g.Kids[0]})
		out = append(out, w.conts(g.Kids[0])...)
	case GStar, GPlus:
		star := w.star(g.Kids[0])
		out = append(out, []*GNode{g.Kids[0], star})
		for _, c := range w.conts(g.Kids[0]) {
			out = append(out, append(append([]*GNode{}, c...), star))
		}
	case GSeq:
		out = w.seqConts(g.Kids, nil)
	}
	w.contOf[g] = out
	return out
}

func (w *readWorld) seqConts(kids []*GNode, chain []partLink) [][]*GNode {
	var out [][]*GNode
	for i := len(kids) - 1; i >= 0; i-- {
		for _, c := range w.contsOn(kids[i], chain) {
			out = append(out, append(append([]*GNode{}, c...), kids[i+1:]...))
		}
		if !w.l.m.nullable(kids[i]) {
			break
		}
	}
	return out
}

func (w *readWorld) star(g *GNode) *GNode {
	if s, ok := w.stars[g]; ok {
		return s
	}
	s := &GNode{Kind: GStar, Kids: []*GNode{g}}
	w.stars[g] = s
	return s
}

// firsts lists the words with which a sequence can begin.
func (w *readWorld) firsts(seq []*GNode, into map[*GNode]bool) {
	for _, g := range seq {
		w.firstOf(g, into, map[*GNode]bool{})
		if !w.l.m.nullable(g) {
			return
		}
	}
}

func (w *readWorld) firstOf(g *GNode, into, open map[*GNode]bool) {
	if open[g] {
		return
	}
	open[g] = true
	switch g.Kind {
	case GLit, GTok:
		into[g] = true
	case GRef:
		if nt := w.l.m.of(g.Ref); nt != nil && nt.Prod != nil {
			w.firstOf(nt.Prod, into, open)
		}
	case GLook:
	case GSeq:
		for _, k := range g.Kids {
			w.firstOf(k, into, open)
			if !w.l.m.nullable(k) {
				return
			}
		}
	default:
		for _, k := range g.Kids {
			w.firstOf(k, into, open)
		}
	}
}

// advance reads one word.
func (w *readWorld) advance(seq []*GNode, rule, text string) [][]*GNode {
	if len(seq) == 0 {
		return nil
	}
	g, tail := seq[0], seq[1:]
	with := func(gs ...*GNode) []*GNode { return append(append([]*GNode{}, gs...), tail...) }
	switch g.Kind {
	case GLit:
		if g.Text == text {
			return [][]*GNode{tail}
		}
		return nil
	case GTok:
		if g.Text == rule {
			return [][]*GNode{tail}
		}
		return nil
	case GRef:
		if nt := w.l.m.of(g.Ref); nt != nil && nt.Prod != nil {
			return w.advance(with(nt.Prod), rule, text)
		}
		return nil
	case GCap, GOnce, GNonEmpty:
		return w.advance(with(g.Kids[0]), rule, text)
	case GAlt:
		var out [][]*GNode
		for _, k := range g.Kids {
			out = append(out, w.advance(with(k), rule, text)...)
		}
		return out
	case GOpt:
		return append(w.advance(with(g.Kids[0]), rule, text), w.advance(tail, rule, text)...)
	case GStar:
		return append(w.advance(with(g.Kids[0], w.star(g.Kids[0])), rule, text), w.advance(tail, rule, text)...)
	case GPlus:
		return w.advance(with(g.Kids[0], w.star(g.Kids[0])), rule, text)
	case GSeq:
		return w.advance(with(g.Kids...), rule, text)
	case GLook:
		return w.advance(tail, rule, text)
	}
	return nil
}

// meets reports whether a token at an edge can be taken for a word.
func (w *readWorld) meets(g *GNode, e rEdge) bool {
	if g.Kind == GTok {
		return g.Text == e.rule
	}
	if e.text != "" {
		return g.Text == e.text
	}
	r := w.ruleFor(e.pre, g)
	return r != nil && r.Name == e.rule
}

// sepTok is a separator.
type sepTok struct{ rule, text string }

// runsOn looks for a token that continues a part after some separators.
func (w *readWorld) runsOn(core [][]*GNode, seps []sepTok, next []rEdge) (rEdge, bool) {
	cur := core
	for i, s := range seps {
		if i > 4 {
			break
		}
		var n [][]*GNode
		for _, c := range cur {
			n = append(n, w.advance(c, s.rule, s.text)...)
		}
		cur = n
	}
	fs := map[*GNode]bool{}
	for _, c := range cur {
		w.firsts(c, fs)
	}
	for _, e := range next {
		for g := range fs {
			if w.meets(g, e) {
				return e, true
			}
		}
	}
	return rEdge{}, false
}

// readCore is a way to read a node: its parts, and the separators that may
// follow them unrecorded.
type readCore struct {
	conts [][]*GNode
	opts  []*GNode
}

// altsFor lists the alternatives that can set a combination of fields.
func (w *readWorld) altsFor(nt *NodeType, s Shape) []*GNode {
	var out []*GNode
	for _, a := range alternatives(nt.Prod) {
		own := captures(a)
		fit := true
		for i := range s {
			if s[i] != Absent && !nt.St.Field(i).Embedded() && w.captured(nt, i) && !own[i] {
				fit = false
			}
		}
		if fit {
			out = append(out, a)
		}
	}
	return out
}

// core selects the reading of a combination of fields.
func (w *readWorld) cores(nt *NodeType, s Shape, chain []partLink) []readCore {
	var out []readCore
	for _, a := range w.altsFor(nt, s) {
		for a.Kind == GOnce || a.Kind == GNonEmpty {
			a = a.Kids[0]
		}
		kids := []*GNode{a}
		if a.Kind == GSeq {
			kids = a.Kids
		}
		c := readCore{}
		n := len(kids)
		for n > 1 && kids[n-1].Kind == GOpt && len(captures(kids[n-1])) == 0 {
			c.opts = append([]*GNode{kids[n-1]}, c.opts...)
			n--
		}
		c.conts = w.seqConts(kids[:n], chain)
		out = append(out, c)
	}
	return out
}

func (w *readWorld) captured(nt *NodeType, i int) bool { return captures(nt.Prod)[i] }

// optTexts lists the texts of an optional separator.
func optTexts(g *GNode) [][]sepTok {
	switch g.Kind {
	case GLit:
		return [][]sepTok{{{"", g.Text}}}
	case GTok:
		return [][]sepTok{{{g.Text, ""}}}
	case GOpt, GStar:
		return append([][]sepTok{nil}, optTexts(g.Kids[0])...)
	case GPlus:
		one := optTexts(g.Kids[0])
		var out [][]sepTok
		for _, o := range one {
			out = append(out, o, append(append([]sepTok{}, o...), o...))
		}
		return out
	case GAlt:
		var out [][]sepTok
		for _, k := range g.Kids {
			out = append(out, optTexts(k)...)
		}
		return out
	case GSeq:
		out := [][]sepTok{nil}
		for _, k := range g.Kids {
			var n [][]sepTok
			for _, o := range out {
				for _, t := range optTexts(k) {
					n = append(n, append(append([]sepTok{}, o...), t...))
				}
			}
			out = n
		}
		return out
	case GOnce, GNonEmpty, GCap:
		return optTexts(g.Kids[0])
	}
	return [][]sepTok{nil}
}

// tailEnd is how a part can end: the separators written there, and the last
// parts within it.
type tailEnd struct {
	seps  []sepTok
	chain []partLink
}

// tails lists the ends of a part.
func (w *readWorld) tailSeps(nt *NodeType, fit func(s Shape) bool, trim bool, depth int) []tailEnd {
	seen := map[string]bool{}
	var out []tailEnd
	put := func(seps []sepTok, chain []partLink) {
		k := fmt.Sprint(seps)
		for _, c := range chain {
			k += fmt.Sprintf("|%p%s", c.cap, c.s.key())
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, tailEnd{seps, chain})
		}
	}
	for _, t := range w.texts[nt] {
		if fit != nil && !fit(t.run.s) {
			continue
		}
		var seps []sepTok
		i := len(t.events) - 1
		cut := trim
		for ; i >= 0; i-- {
			ev := t.events[i]
			if ev.kind == 't' && (ev.inOpt || ev.blank) {
				if cut && ev.rule == "LF" {
					cut = false
					continue
				}
				cut = false
				seps = append([]sepTok{{ev.rule, ev.text}}, seps...)
				continue
			}
			break
		}
		if i < 0 || depth > 3 {
			put(seps, nil)
			continue
		}
		ev := t.events[i]
		switch {
		case ev.kind == 'c' && w.texts[ev.nt] != nil:
			shapes := map[string]Shape{}
			var keys []string
			for _, x := range w.texts[ev.nt] {
				if k := x.run.s.key(); w.fits(t, ev, x.run.s) && shapes[k] == nil {
					shapes[k] = x.run.s
					keys = append(keys, k)
				}
			}
			for _, k := range keys {
				for _, e := range w.tailSeps(ev.nt, func(s Shape) bool { return s.key() == k }, cut || ev.trim != "", depth+1) {
					var chain []partLink
					if ev.cap != nil {
						chain = append([]partLink{{ev.cap, ev.nt, shapes[k]}}, e.chain...)
					}
					put(append(append([]sepTok{}, e.seps...), seps...), chain)
				}
			}
			continue
		case ev.kind == 'f' && ev.cap != nil:
			ts, _ := endTerms(ev.cap.Kids[0], true)
			for _, x := range ts {
				if x.Kind == GTok && x.Text == "LF" && !cut {
					put(append([]sepTok{{"LF", "\n"}}, seps...), nil)
				}
			}
		}
		put(seps, nil)
	}
	return out
}

// spacingEvent reports a blank line of a list.
func (w *readWorld) spacingEvent(t *rText, ev rEvent) bool {
	if ev.kind != 'f' || ev.cap == nil || ev.trim != "" {
		return false
	}
	ts := terminalsOf(ev.cap.Kids[0])
	for _, x := range ts {
		if x.Kind != GTok || x.Text != "LF" {
			return false
		}
	}
	return len(ts) > 0
}

// boundaries checks that no part runs on into what follows it.
func (w *readWorld) boundaries(t *rText) {
	evs := t.events
	for a := range evs {
		ev := evs[a]
		if ev.kind != 'c' || ev.nt.Prod == nil || w.texts[ev.nt] == nil {
			continue
		}
		shapes := map[string]Shape{}
		for _, x := range w.texts[ev.nt] {
			if w.fits(t, ev, x.run.s) {
				shapes[x.run.s.key()] = x.run.s
			}
		}
		var seps []sepTok
		var opts []*GNode
		blank := false
		for b := a + 1; b < len(evs); b++ {
			n := evs[b]
			opts = append(opts, n.opts...)
			if n.kind == 't' && (n.inOpt || n.blank) {
				seps = append(seps, sepTok{n.rule, n.text})
				continue
			}
			if w.spacingEvent(t, n) {
				seps = append(seps, sepTok{"LF", "\n"})
				blank = true
				continue
			}
			next, null := w.narrow(t, n, false)
			// a next element that is a blank line or starts with one is no content
			var heads []rEdge
			for _, h := range next {
				if h.rule != "LF" {
					heads = append(heads, h)
				}
			}
			list := n.list || blank
			for _, s := range shapes {
				s := s
				if len(heads) > 0 {
					w.boundary(t, ev, s, seps, opts, blank, list, heads)
				}
			}
			if !null {
				// an element that is only a blank line separates what is around it
				only := n.kind == 'c' && len(heads) < len(next)
				if only {
					seps = append(seps, sepTok{"LF", "\n"})
					blank = true
					continue
				}
				break
			}
		}
	}
}

func (w *readWorld) boundary(t *rText, ev rEvent, s Shape, seps []sepTok, opts []*GNode, blank, list bool, heads []rEdge) {
	for _, end := range w.tailSeps(ev.nt, func(x Shape) bool { return x.key() == s.key() }, ev.trim != "", 0) {
		for _, core := range w.cores(ev.nt, s, end.chain) {
			all := append(append([]*GNode{}, core.opts...), opts...)
			if len(all) == 0 && !blank && !list {
				continue
			}
			// how the source may have separated them
			srcs := [][]sepTok{nil}
			if len(all) > 6 {
				all = all[:6]
			}
			for _, o := range all {
				var n [][]sepTok
				for _, x := range srcs {
					for _, y := range optTexts(o) {
						n = append(n, append(append([]sepTok{}, x...), y...))
					}
				}
				srcs = n
			}
			if blank {
				var n [][]sepTok
				for _, x := range srcs {
					n = append(n, append(append([]sepTok{}, x...), sepTok{"LF", "\n"}), append(append([]sepTok{}, x...), sepTok{"LF", "\n"}, sepTok{"LF", "\n"}))
				}
				srcs = n
			}
			w.r.count("boundaries", 1)
			printed := append(append([]sepTok{}, end.seps...), seps...)
			for _, h := range heads {
				e, on := w.runsOn(core.conts, printed, []rEdge{h})
				if !on {
					continue
				}
				free := false
				for _, x := range srcs {
					if _, y := w.runsOn(core.conts, x, []rEdge{h}); !y {
						free = true
					}
				}
				if !free {
					continue // never next to each other in a parsed tree
				}
				w.r.ob(false, "runs-on:"+t.run.nt.Name+":"+ev.nt.Name+" "+e.String(), t.run.fn.Pos(), "%s writes %s followed by %s without a separator that keeps it from being read as part of the %s (text: %s)", t.run.what(), ev, e, ev.nt.Name, t.fl)
			}
		}
	}
}

// ---- alternatives that are not recorded ----

func (w *readWorld) alternatives(t *rText) {
	for _, ev := range t.events {
		for _, p := range ev.picks {
			heads, _ := w.narrow(t, ev, false)
			for i := 0; i < p.j; i++ {
				fs := map[*GNode]bool{}
				w.firsts([]*GNode{p.g.Kids[i]}, fs)
				for _, h := range heads {
					for g := range fs {
						w.r.count("alternatives", 1)
						w.r.ob(!w.meets(g, h), "alternative:"+t.run.nt.Name+":"+h.String(), t.run.fn.Pos(), "%s writes %s, which can begin with %s and is then read by the earlier alternative %s (text: %s)", t.run.what(), ev, h, p.g.Kids[i], t.fl)
					}
				}
			}
		}
	}
}

// ---- quotes ----

// quotes checks that the quote written around a text does not occur inside it.
func (w *readWorld) quotes(t *rText) {
	for a, ev := range t.events {
		if ev.kind != 't' {
			continue
		}
		r := w.rule(ev.pre, ev.rule)
		if r == nil || r.Push == "" {
			continue
		}
		ts, fin := langTexts(r.Pattern, 8)
		closer := w.closerIn(r.Push)
		if !fin || len(ts) < 2 || closer == nil {
			continue
		}
		for _, src := range ts {
			if src != ev.text {
				w.quote(t, t.events[a+1:], ev.text, src, closer.Name)
			}
		}
	}
}

func (w *readWorld) closerIn(state string) *LexRule {
	for i := range w.l.States[state] {
		r := &w.l.States[state][i]
		if r.Backref && r.Pop {
			return r
		}
	}
	return nil
}

// quote considers a text that was read between other quotes.
func (w *readWorld) quote(t *rText, evs []rEvent, q, src, closer string) {
	// the pieces of plain text between the quotes
	var at []*Term
	e := t.run.e
	for _, ev := range evs {
		if ev.rule == closer && ev.kind == 't' {
			break
		}
		nt, p := ev.nt, ev.term
		if ev.kind == 'c' && nt.Prod != nil {
			for i := 0; i < nt.St.NumFields(); i++ {
				if w.capturesText(nt, i, q, src) {
					at = append(at, t.run.tf.fieldLoad(p, nt, i))
				}
			}
		} else if ev.kind == 'f' && ev.cap != nil {
			if _, ft, i, ok := t.run.tf.nodeField(ev.term); ok && w.capturesText(ft, i, q, src) {
				at = append(at, ev.term)
			}
		}
	}
	if len(at) == 0 {
		return
	}
	if len(at) > 4 {
		at = at[:4]
	}
	w.r.count("quotes", 1)
	vals := []string{"x", q}
	n := 1
	for range at {
		n *= len(vals)
	}
	for c := 1; c < n; c++ {
		m := map[*Term]*Term{}
		d := c
		for _, x := range at {
			m[x] = cString(vals[d%len(vals)])
			d /= len(vals)
		}
		if w.consistent(e, t.fl.st, m) {
			w.r.ob(false, "quote:"+t.run.nt.Name+":"+q, t.run.fn.Pos(), "%s writes %s around text that may contain it (it was read between %s) (text: %s)", t.run.what(), q, src, t.fl)
			return
		}
	}
	w.r.ob(true, "quote:"+t.run.nt.Name, t.run.fn.Pos(), "")
}

// capturesText reports fields holding plain text in which the quote can occur.
func (w *readWorld) capturesText(nt *NodeType, i int, q, src string) bool {
	if !types.Identical(nt.St.Field(i).Type().Underlying(), types.Typ[types.String]) {
		return false
	}
	p, ok := w.l.textOf(nt, i)
	if !ok {
		return false
	}
	yes, _ := langMeets(p, regexp.QuoteMeta(q))
	return yes
}

// consistent reports whether values for some texts agree with what is known on
// the path.
func (w *readWorld) consistent(e *Engine, st *State, m map[*Term]*Term) bool {
	s := st.clone()
	holds := func(t *Term, v bool) bool {
		y := t.subst(m)
		if y == t {
			return true
		}
		if x := e.eval(s, y); x >= 0 {
			return (x == 1) == v
		}
		return true
	}
	// the elements a quantified fact is about
	elems := func(q *Term) []map[*Term]*Term {
		b := q.Args[0]
		var out []map[*Term]*Term
		seen := map[*Term]bool{}
		for x := range m {
			x.any(func(y *Term) bool {
				if y.Op == OIndexAddr && len(b.Args) > 0 && y.Args[0] == b.Args[0] && !seen[y.Args[1]] {
					seen[y.Args[1]] = true
					out = append(out, map[*Term]*Term{b: y.Args[1]})
				}
				return false
			})
		}
		return out
	}
	for t, v := range st.facts.b {
		switch t.Op {
		case OForall, OExists:
			// none of the alternatives, for any element, or some of them
			none := t.Op == OForall && v || t.Op == OExists && !v
			if t.Op == OForall && !v {
				continue
			}
			es := elems(t)
			if len(es) == 0 {
				continue
			}
			some := false
			for _, sub := range es {
				for _, x := range t.Args[1:] {
					if x.Op != OAlt {
						some = true
						continue
					}
					gs := x.Args[0].Args
					all := true
					for _, g := range gs {
						if !holds(g.subst(sub), true) {
							all = false
						}
					}
					if none && all && w.decided(e, s, gs, sub, m) {
						return false
					}
					some = some || all
				}
			}
			if !none && !some {
				return false
			}
		default:
			if !holds(t, v) {
				return false
			}
		}
	}
	return true
}

// decided reports whether all conditions have a known value.
func (w *readWorld) decided(e *Engine, st *State, gs []*Term, sub, m map[*Term]*Term) bool {
	for _, g := range gs {
		if e.eval(st, g.subst(sub).subst(m)) < 0 {
			return false
		}
	}
	return true
}

// ---- driver ----

func (w *readWorld) checkJoins() {
	w.contOf, w.stars = map[*GNode][][]*GNode{}, map[*GNode]*GNode{}
	w.solve()
	for _, nt := range w.l.m.inTree() {
		for _, t := range w.texts[nt] {
			if !t.solid {
				continue
			}
			w.joins(t)
			w.boundaries(t)
			w.alternatives(t)
			w.quotes(t)
		}
	}
}
