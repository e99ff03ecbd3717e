package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
)

// Formatted text is read back as the same construct: every text a formatter
// can write is matched against the production of its node, token by token, and
// the places where it may differ from what was read (separators, optional
// words, quotes) are checked not to change the reading.

func init() {
	checks["E19"] = withLex(checkReads)
}

// lexCtx is a stack of tokeniser states.
type lexCtx struct {
	state  string
	groups []string // nil: not known
	up     *lexCtx
	cap    *GNode // the capture that entered the state, if it was captured
}

type rPos struct {
	i, off int
	ctx    *lexCtx
	inOpt  bool
	opts   []*GNode
	picks  []rPick
	list   bool
}

type rPick struct {
	g *GNode
	j int
}

// rEvent is one token or part of a text, as matched.
type rEvent struct {
	kind   byte // 't' token, 'f' captured text, 'c' part
	item   int
	text   string
	rule   string
	cap    *GNode
	nt     *NodeType
	term   *Term
	trim   string
	pre    string
	groups []string
	post   string
	gap    bool
	inOpt  bool
	blank  bool // a blank line of a list
	opts   []*GNode
	picks  []rPick
	list   bool // a new element of a list may begin here
}

func (e rEvent) String() string {
	switch e.kind {
	case 't':
		return fmt.Sprintf("%q", e.text)
	case 'c':
		return "<" + e.term.String() + ">"
	}
	return e.term.String()
}

// rText is one text with its reading.
type rText struct {
	run    *fmtRun
	fl     *flat
	events []rEvent
	tail   bool // ends in blanks
	ok     bool
	solid  bool // the events are those of a reading
}

type readFrame struct {
	p   *Term
	nt  *NodeType
	cnt []int
}

func (fr *readFrame) inc(i int) *readFrame {
	n := &readFrame{p: fr.p, nt: fr.nt, cnt: append([]int{}, fr.cnt...)}
	n.cnt[i]++
	return n
}

type matcher struct {
	w       *readWorld
	run     *fmtRun
	fl      *flat
	events  []rEvent
	steps   int
	best    [2]int
	want    map[string]bool
	swap    *[2]string // a word taken for another one
	skip    *[2]int    // a line break passed over
	wanted  map[string]bool
	unended *GNode // a word whose final line break is missing
}

type readWorld struct {
	l      *LexModel
	r      *Report
	ctxs   map[*NodeType]map[string]bool
	texts  map[*NodeType][]*rText
	edge   map[edgeKey]*edgeSet
	contOf map[*GNode][][]*GNode
	stars  map[*GNode]*GNode
	res    map[string]*regexp.Regexp
	fused  map[string]string
}

// rEdge is a token at the edge of a text.
type rEdge struct {
	rule string
	text string // "" if it is any token of the rule
	gap  bool   // there are blanks outside it
	pre  string
	gs   []string
}

func (e rEdge) key() string { return fmt.Sprintf("%s|%s|%v|%s", e.rule, e.text, e.gap, e.pre) }

func (e rEdge) String() string {
	if e.text != "" {
		return fmt.Sprintf("%q", e.text)
	}
	return e.rule
}

// ---- states in which productions begin ----

func (w *readWorld) contexts() error {
	w.ctxs = map[*NodeType]map[string]bool{}
	type job struct {
		nt *NodeType
		st string
	}
	work := []job{{w.l.m.Root, "Root"}}
	var err error
	seen := map[string]bool{}
	add := func(nt *NodeType, st string) {
		if w.ctxs[nt] == nil {
			w.ctxs[nt] = map[string]bool{}
		}
		if !seen[nt.Name+" "+st] {
			seen[nt.Name+" "+st] = true
			w.ctxs[nt][st] = true
			work = append(work, job{nt, st})
		}
	}
	w.ctxs[w.l.m.Root] = map[string]bool{"Root": true}
	for len(work) > 0 {
		j := work[0]
		work = work[1:]
		// nil: cannot be read here (it would end the surrounding text)
		var rec func(g *GNode, st []string) []string
		rec = func(g *GNode, st []string) []string {
			switch g.Kind {
			case GTok, GLit:
				if r := w.ruleFor(st[len(st)-1], g); r != nil {
					if r.Push != "" {
						return append(append([]string{}, st...), r.Push)
					} else if r.Pop {
						if len(st) == 1 {
							return nil
						}
						return st[:len(st)-1]
					}
				}
				return st
			case GRef:
				if nt := w.l.m.of(g.Ref); nt != nil && nt.Prod != nil && !nt.Capture {
					add(nt, st[len(st)-1])
				}
				return st
			case GCap:
				return rec(g.Kids[0], st)
			case GAlt:
				var out []string
				for _, k := range g.Kids {
					x := rec(k, st)
					if x == nil {
						continue
					}
					if out == nil {
						out = x
					} else if len(x) != len(out) && err == nil {
						err = fmt.Errorf("alternatives of %s leave the tokeniser in different states", j.nt.Name)
					}
				}
				return out
			case GLook, GNeg:
				return st
			case GOpt, GStar:
				if x := rec(g.Kids[0], st); x != nil && len(x) != len(st) && err == nil {
					err = fmt.Errorf("an optional part of %s changes the state of the tokeniser", j.nt.Name)
				}
				return st
			}
			for _, k := range g.Kids {
				if st = rec(k, st); st == nil {
					return nil
				}
			}
			return st
		}
		if j.nt.Prod != nil {
			out := rec(j.nt.Prod, []string{j.st})
			if out == nil {
				delete(w.ctxs[j.nt], j.st)
			} else if len(out) != 1 && err == nil {
				err = fmt.Errorf("%s does not leave the tokeniser in the state in which it began", j.nt.Name)
			}
		}
	}
	return err
}

// captureField is the type of a field that is filled by a Capture method.
func (m *Model) captureField(nt *NodeType, i int) *NodeType {
	t := nt.St.Field(i).Type()
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	if x := m.of(t); x != nil && x.Capture {
		return x
	}
	return nil
}

// ruleFor is the rule that makes the tokens a terminal stands for.
func (w *readWorld) ruleFor(state string, g *GNode) *LexRule {
	rs := w.l.States[state]
	if g.Kind == GTok {
		for i := range rs {
			if rs[i].Name == g.Text {
				return &rs[i]
			}
		}
		return nil
	}
	for i := range rs {
		if rs[i].Backref || rs[i].Return {
			continue
		}
		if re := w.re(rs[i].Pattern); re != nil {
			if loc := re.FindStringIndex(g.Text); loc != nil && loc[1] > 0 {
				if loc[1] == len(g.Text) {
					return &rs[i]
				}
				return nil
			}
		}
	}
	return nil
}

func (w *readWorld) re(p string) *regexp.Regexp {
	if re, ok := w.res[p]; ok {
		return re
	}
	re, err := regexp.Compile("^(?:" + p + ")")
	if err != nil {
		re = nil
	}
	w.res[p] = re
	return re
}

// lexText reads one token of a known text.
func (w *readWorld) lexText(ctx *lexCtx, text string) (*LexRule, int, []string) {
	for i := range w.l.States[ctx.state] {
		r := &w.l.States[ctx.state][i]
		if r.Return {
			return nil, 0, nil
		}
		p := r.Pattern
		if r.Backref {
			if ctx.groups == nil {
				continue
			}
			q, err := substBackref(p, ctx.groups)
			if err != nil {
				continue
			}
			p = q
		}
		re := w.re(p)
		if re == nil {
			continue
		}
		if loc := re.FindStringSubmatchIndex(text); loc != nil && loc[1] > 0 {
			var gs []string
			for k := 0; 2*k < len(loc); k++ {
				g := ""
				if loc[2*k] >= 0 {
					g = text[loc[2*k]:loc[2*k+1]]
				}
				gs = append(gs, g)
			}
			return r, loc[1], gs
		}
	}
	return nil, 0, nil
}

func (w *readWorld) elides(state string) bool {
	for _, r := range w.l.States[state] {
		if r.Elided {
			return true
		}
	}
	return false
}

// after is the state after a token.
func after(ctx *lexCtx, r *LexRule, gs []string, cap *GNode) *lexCtx {
	switch {
	case r == nil:
		return ctx
	case r.Push != "":
		return &lexCtx{state: r.Push, groups: gs, up: ctx, cap: cap}
	case r.Pop:
		return ctx.up
	}
	return ctx
}

// ---- matching a text against a production ----

func (x *matcher) item(i int) *fItem {
	if i < len(x.fl.items) {
		return &x.fl.items[i]
	}
	return nil
}

// settle skips blanks.
func (x *matcher) settle(ps rPos) (rPos, bool) {
	gap := false
	for {
		it := x.item(ps.i)
		if it == nil || ps.ctx == nil {
			return ps, gap
		}
		switch it.kind {
		case 'p':
			if !x.w.elides(ps.ctx.state) {
				return ps, gap
			}
			ps.i, ps.off, gap = ps.i+1, 0, true
		case 'l':
			if x.skip != nil && ps.i == x.skip[0] && ps.off == x.skip[1] {
				ps.off++
			}
			if ps.off >= len(it.text) {
				ps.i, ps.off = ps.i+1, 0
				continue
			}
			r, n, _ := x.w.lexText(ps.ctx, it.text[ps.off:])
			if r == nil || !r.Elided {
				return ps, gap
			}
			ps.off += n
			gap = true
		default:
			return ps, gap
		}
	}
}

func (x *matcher) miss(ps rPos, want string) bool {
	ps, _ = x.settle(ps)
	at := [2]int{ps.i, ps.off}
	if at[0] > x.best[0] || at[0] == x.best[0] && at[1] > x.best[1] {
		x.best, x.want, x.wanted = at, map[string]bool{}, map[string]bool{}
	}
	if at == x.best {
		x.want[want] = true
	}
	return false
}

// emit consumes one token or part.
func (x *matcher) emit(ps rPos, ev rEvent, next rPos, k func(ps rPos) bool) bool {
	ev.inOpt, ev.opts, ev.picks, ev.list = ps.inOpt, ps.opts, ps.picks, ps.list
	ev.pre, ev.groups = ps.ctx.state, ps.ctx.groups
	if next.ctx == nil {
		return x.miss(ps, "the end of a surrounding text")
	}
	ev.post = next.ctx.state
	next.inOpt = ps.inOpt
	if ps.inOpt {
		next.opts, next.list = ps.opts, ps.list
	} else {
		next.opts, next.list = nil, false
	}
	next.picks = nil
	x.events = append(x.events, ev)
	n := len(x.events)
	if k(next) {
		return true
	}
	x.events = x.events[:n-1]
	return false
}

// captures lists the fields a grammar node stores into.
func captures(g *GNode) map[int]bool {
	out := map[int]bool{}
	walkG(g, func(g *GNode) {
		if g.Kind == GCap {
			out[g.Field] = true
		}
	})
	return out
}

// blankable reports lists whose elements can be blank lines.
func (w *readWorld) blankable(g *GNode) bool {
	yes := false
	walkG(g, func(g *GNode) {
		if g.Kind == GCap && len(g.Kids) == 1 && g.Kids[0].Kind == GRef {
			if nt := w.l.m.of(g.Kids[0].Ref); nt != nil && w.blankAlt(nt) != nil {
				yes = true
			}
		}
	})
	return yes
}

// blankAlt is the alternative of a production that stands for blank lines.
func (w *readWorld) blankAlt(nt *NodeType) *GNode {
	for _, a := range alternatives(nt.Prod) {
		only, some := true, false
		walkG(a, func(g *GNode) {
			switch g.Kind {
			case GTok:
				some = true
				only = only && g.Text == "LF"
			case GLit, GRef:
				only = false
			}
		})
		if only && some {
			return a
		}
	}
	return nil
}

func alternatives(g *GNode) []*GNode {
	for g != nil {
		switch {
		case g.Kind == GAlt:
			return g.Kids
		case (g.Kind == GOnce || g.Kind == GSeq || g.Kind == GNonEmpty) && len(g.Kids) == 1:
			g = g.Kids[0]
		default:
			return []*GNode{g}
		}
	}
	return nil
}

func (x *matcher) m(g *GNode, fr *readFrame, ps rPos, k func(fr *readFrame, ps rPos) bool) bool {
	if x.steps++; x.steps > 400000 {
		return false
	}
	switch g.Kind {
	case GSeq:
		var seq func(n int, fr *readFrame, ps rPos) bool
		seq = func(n int, fr *readFrame, ps rPos) bool {
			if n == len(g.Kids) {
				return k(fr, ps)
			}
			return x.m(g.Kids[n], fr, ps, func(fr *readFrame, ps rPos) bool { return seq(n+1, fr, ps) })
		}
		return seq(0, fr, ps)
	case GAlt:
		own := captures(g.Kids[0])
		same := len(own) > 0
		for _, a := range g.Kids[1:] {
			c := captures(a)
			if len(c) != len(own) {
				same = false
			}
			for i := range c {
				same = same && own[i]
			}
		}
		for j, a := range g.Kids {
			p := ps
			if same && j > 0 {
				p.picks = append(append([]rPick{}, ps.picks...), rPick{g, j})
			}
			if x.m(a, fr, p, k) {
				return true
			}
		}
		return false
	case GOnce, GNonEmpty:
		return x.m(g.Kids[0], fr, ps, k)
	case GOpt:
		if len(captures(g)) == 0 {
			p := ps
			p.opts = append(append([]*GNode{}, ps.opts...), g)
			q := p
			q.inOpt = true
			if x.m(g.Kids[0], fr, q, func(fr *readFrame, r rPos) bool { r.inOpt = ps.inOpt; return k(fr, r) }) {
				return true
			}
			return k(fr, p)
		}
		return x.m(g.Kids[0], fr, ps, k) || k(fr, ps)
	case GStar, GPlus:
		if len(captures(g)) == 0 && !ps.inOpt {
			p := ps
			p.opts = append(append([]*GNode{}, ps.opts...), g)
			p.inOpt = true
			return x.loop(g.Kids[0], fr, p, g.Kind == GPlus, false, func(fr *readFrame, r rPos) bool { r.inOpt = false; return k(fr, r) })
		}
		return x.loop(g.Kids[0], fr, ps, g.Kind == GPlus, x.w.blankable(g), k)
	case GLook:
		return k(fr, ps)
	case GLit, GTok:
		return x.terminal(g, fr, ps, func(ps rPos) bool { return k(fr, ps) })
	case GCap:
		return x.capture(g, fr, ps, k)
	}
	return x.miss(ps, "("+g.String()+" is not supported)")
}

func (x *matcher) loop(body *GNode, fr *readFrame, ps rPos, must, blanks bool, k func(fr *readFrame, ps rPos) bool) bool {
	again := func(fr *readFrame, q rPos) bool {
		return x.m(body, fr, q, func(fr *readFrame, r rPos) bool {
			if r.i == q.i && r.off == q.off {
				return false
			}
			if !r.inOpt {
				r.list = true
			}
			return x.loop(body, fr, r, false, blanks, k)
		})
	}
	if again(fr, ps) {
		return true
	}
	if blanks {
		// further blank lines
		if x.breakThen(ps, func(p rPos) bool { return x.loop(body, fr, p, must, blanks, k) }) {
			return true
		}
	}
	if must {
		return false
	}
	return k(fr, ps)
}

// breakThen consumes one line break that stands for a blank line.
func (x *matcher) breakThen(ps rPos, k func(ps rPos) bool) bool {
	q, gap := x.settle(ps)
	it := x.item(q.i)
	if it == nil || it.kind != 'l' || q.ctx == nil {
		return false
	}
	r, n, _ := x.w.lexText(q.ctx, it.text[q.off:])
	if r == nil || r.Name != "LF" {
		return false
	}
	next := q
	next.off += n
	q.inOpt = true
	return x.emit(q, rEvent{kind: 't', item: q.i, text: it.text[q.off : q.off+n], rule: "LF", gap: gap, blank: true}, next, func(p rPos) bool {
		p.inOpt = ps.inOpt
		return k(p)
	})
}

// breaks consumes any number of line breaks.
func (x *matcher) breaks(ps rPos, k func(ps rPos) bool) bool {
	return x.breakThen(ps, func(ps rPos) bool { return x.breaks(ps, k) }) || k(ps)
}

// absorbs reports productions that end in a list that can hold blank lines.
func (w *readWorld) absorbs(nt *NodeType) bool {
	if nt.Prod == nil {
		return false
	}
	g := nt.Prod
	for {
		switch g.Kind {
		case GSeq, GOnce:
			g = g.Kids[len(g.Kids)-1]
			continue
		case GStar, GPlus:
			return w.blankable(g)
		}
		return false
	}
}

// terminal matches a word of the grammar that is not recorded.
func (x *matcher) terminal(g *GNode, fr *readFrame, ps rPos, k func(ps rPos) bool) bool {
	q, gap := x.settle(ps)
	it := x.item(q.i)
	if it == nil {
		return x.miss(q, g.String())
	}
	switch it.kind {
	case 'l':
		r, n, gs := x.w.lexText(q.ctx, it.text[q.off:])
		if r == nil {
			return x.miss(q, g.String())
		}
		t := it.text[q.off : q.off+n]
		if x.swap != nil && g.Kind == GLit && g.Text == x.swap[1] && t == x.swap[0] {
			t = g.Text
		}
		if g.Kind == GLit && t != g.Text || g.Kind == GTok && r.Name != g.Text {
			x.miss(q, g.String())
			if g.Kind == GLit && x.best == [2]int{q.i, q.off} {
				x.wanted[g.Text] = true
			}
			return false
		}
		if g.Kind == GLit && g.Tok != "" && g.Tok != r.Name {
			return x.miss(q, g.String())
		}
		next := q
		next.off += n
		next.ctx = after(q.ctx, r, gs, nil)
		return x.emit(q, rEvent{kind: 't', item: q.i, text: t, rule: r.Name, gap: gap}, next, k)
	case 'f':
		// the closing delimiter repeats the opening one
		if g.Kind == GTok && x.w.l.closerTok(g.Text) && q.ctx.cap != nil && it.altered == "" && it.trim == "" {
			if i, _, _, _, ok := partStep(fr.p, it.term); ok && i == q.ctx.cap.Field {
				next := q
				next.i, next.off, next.ctx = q.i+1, 0, q.ctx.up
				return x.emit(q, rEvent{kind: 'f', item: q.i, term: it.term, cap: &GNode{Kind: GCap, Kids: []*GNode{g}}, rule: g.Text, gap: gap}, next, k)
			}
		}
	}
	return x.miss(q, g.String())
}

// part returns the field and element an item belongs to.
func (x *matcher) part(fr *readFrame, it *fItem) (i, n int, direct, ok bool) {
	if it == nil || it.term == nil || it.kind == 'l' || it.kind == 'p' {
		return
	}
	i, n, _, direct, ok = partStep(fr.p, it.term)
	return
}

// partAt finds where the text of a part continues.
func (x *matcher) partAt(fr *readFrame, field, elem, from int) (*Term, bool) {
	for j := from; j < len(x.fl.items); j++ {
		it := &x.fl.items[j]
		if it.kind == 'l' || it.kind == 'p' {
			continue
		}
		i, n, part, direct, ok := partStep(fr.p, it.term)
		if ok && i == field && (n < 0 || n == elem) && !direct {
			return part, true
		}
		return nil, false
	}
	return nil, false
}

func (x *matcher) capture(g *GNode, fr *readFrame, ps rPos, k func(fr *readFrame, ps rPos) bool) bool {
	f := g.Field
	q, gap := x.settle(ps)
	it := x.item(q.i)
	elem := fr.cnt[f]
	kid := g.Kids[0]
	if kid.Kind == GRef {
		nt := x.w.l.m.of(kid.Ref)
		if nt == nil {
			return x.miss(q, g.String())
		}
		if it != nil && it.kind == 'c' {
			if i, n, direct, ok := x.part(fr, it); ok && direct && i == f && (n < 0 || n == elem) {
				next := q
				next.i, next.off = q.i+1, 0
				return x.emit(q, rEvent{kind: 'c', item: q.i, term: it.term, nt: nt, cap: g, gap: gap, trim: it.trim}, next, func(ps rPos) bool {
					if x.w.absorbs(nt) {
						return x.breaks(ps, func(ps rPos) bool { return k(fr.inc(f), ps) })
					}
					return k(fr.inc(f), ps)
				})
			}
		}
		if part, ok := x.partAt(fr, f, elem, q.i); ok {
			in := &readFrame{p: part, nt: nt, cnt: make([]int, nt.St.NumFields())}
			return nt.Prod != nil && x.m(nt.Prod, in, ps, func(_ *readFrame, ps rPos) bool { return k(fr.inc(f), ps) })
		}
		if nt.Prod != nil && x.w.l.m.nullable(nt.Prod) && !x.later(fr, f, elem, q.i) && elem == 0 {
			return k(fr.inc(f), ps)
		}
		return x.miss(q, nt.Name)
	}
	// recorded words
	one := func(rule *LexRule, ev rEvent, next rPos, gs []string) bool {
		next.ctx = after(q.ctx, rule, gs, g)
		ev.cap, ev.gap = g, gap
		return x.emit(q, ev, next, func(ps rPos) bool { return k(fr.inc(f), ps) })
	}
	terms := terminalsOf(kid)
	state := q.ctx.state
	var rule *LexRule
	for _, t := range terms {
		if r := x.w.ruleFor(state, t); r != nil {
			rule = r
		}
	}
	list := kindOfField(fr.nt.St.Field(f).Type()) == keepList
	if !list && elem > 0 {
		// joined to the text already written
		return false
	}
	cf := x.w.l.m.captureField(fr.nt, f)
	if it != nil && it.kind == 'l' && cf != nil {
		// the rest of a word written by the node it is captured from
		if j := q.i + 1; x.item(j) != nil {
			jt := x.item(j)
			if i, n, _, ok := x.part(fr, jt); ok && i == f && (n < 0 || n == elem) && jt.trim == "" {
				if cut, ok := x.composed(g, cf, it.text[q.off:], jt, x.item(j+1)); ok {
					next := q
					next.i, next.off = j+1, cut
					return one(rule, rEvent{kind: 'f', item: j, term: jt.term}, next, nil)
				}
			}
		}
	}
	if it != nil && it.kind == 'l' && cf == nil {
		// a marker before a text that was stored without it
		rest := it.text[q.off:]
		if jt := x.item(q.i + 1); jt != nil && jt.kind == 'f' && strings.HasPrefix(jt.altered, "without:") && rest == strings.TrimPrefix(jt.altered, "without:") {
			if i, n, direct, ok := x.part(fr, jt); ok && direct && i == f && (n < 0 || n == elem) {
				next := q
				next.i, next.off = q.i+2, 0
				return one(rule, rEvent{kind: 'f', item: q.i + 1, term: jt.term}, next, nil)
			}
		}
		// a word that is written because the field says so
		if r, n, gs := x.w.lexText(q.ctx, rest); r != nil {
			t := rest[:n]
			for _, tm := range terms {
				if tm.Kind == GLit && tm.Text == t || tm.Kind == GTok && tm.Text == r.Name {
					next := q
					next.off += n
					if one(r, rEvent{kind: 't', item: q.i, text: t, rule: r.Name}, next, gs) {
						return true
					}
					break
				}
			}
		}
		return x.miss(q, g.String())
	}
	if it == nil || it.kind != 'f' && it.kind != 'b' && it.kind != 'c' {
		return x.miss(q, g.String())
	}
	i, n, direct, ok := x.part(fr, it)
	if !ok || i != f || !(n < 0 || n == elem) || !direct && cf == nil {
		return x.miss(q, g.String())
	}
	if cf != nil {
		cut, ok := x.composed(g, cf, "", it, x.item(q.i+1))
		if !ok {
			return x.miss(q, "the whole of "+g.String())
		}
		next := q
		next.i, next.off = q.i+1, cut
		return one(rule, rEvent{kind: 'f', item: q.i, term: it.term}, next, nil)
	}
	if !x.w.readsAs(fr.nt, g) {
		return x.miss(q, "text that is a "+kid.String())
	}
	next := q
	next.i, next.off = q.i+1, 0
	return one(rule, rEvent{kind: 'f', item: q.i, term: it.term}, next, nil)
}

// readsAs reports whether every text the field can hold is read by this
// capture, when the field is captured at several places.
func (w *readWorld) readsAs(nt *NodeType, g *GNode) bool {
	sites := 0
	walkG(nt.Prod, func(x *GNode) {
		if x.Kind == GCap && x.Field == g.Field && x.Kids[0].String() != g.Kids[0].String() {
			sites++
		}
	})
	if sites == 0 {
		return true
	}
	all, ok := w.l.textOf(nt, g.Field)
	if !ok {
		return true
	}
	var alts []string
	for _, t := range terminalsOf(g.Kids[0]) {
		if t.Kind == GLit {
			alts = append(alts, regexp.QuoteMeta(t.Text))
		} else if p, ok := w.l.tokenLang(t.Text); ok {
			alts = append(alts, p)
		}
	}
	if kindOfField(nt.St.Field(g.Field).Type()) == keepText {
		return true
	}
	in, _ := langWithin(all, "(?:"+strings.Join(alts, "|")+")")
	return in
}

// later reports whether a part is still to come.
func (x *matcher) later(fr *readFrame, field, elem, from int) bool {
	for j := from; j < len(x.fl.items); j++ {
		if i, n, _, ok := x.part(fr, x.item(j)); ok && i == field && (n < 0 || n == elem) {
			return true
		}
	}
	return false
}

// terminalsOf lists the words below a capture.
func terminalsOf(g *GNode) []*GNode {
	var out []*GNode
	walkG(g, func(g *GNode) {
		if g.Kind == GLit || g.Kind == GTok {
			out = append(out, g)
		}
	})
	return out
}

// composed decides whether a literal, the text of a value filled by a Capture
// method, and a prefix of the next literal make a whole word.
func (x *matcher) composed(g *GNode, cf *NodeType, before string, it, next *fItem) (int, bool) {
	var word string
	group := ""
	for _, t := range terminalsOf(g.Kids[0]) {
		if t.Kind == GLit {
			word += "|" + regexp.QuoteMeta(t.Text)
			continue
		}
		p, ok := x.w.l.tokenLang(t.Text)
		if !ok {
			return 0, false
		}
		word += "|" + p
		if re, err := syntax.Parse(p, syntax.Perl); err == nil {
			gs := groupsOf(re)
			if len(gs) == 2 && gs[1] != nil {
				group = gs[1].String()
			}
		}
	}
	word = "(?:" + strings.TrimPrefix(word, "|") + ")"
	// a text that is kept whole
	if before == "" && x.w.whole(cf) {
		return 0, true
	}
	own := ""
	switch it.kind {
	case 'f':
		own = group
	case 'c':
		for _, f := range x.w.l.fmtRuns {
			if f.nt != cf {
				continue
			}
			for _, o := range f.outs {
				fs, err := x.w.l.flats(f, o)
				if o.Panic || err != nil {
					continue
				}
				for _, fl := range fs {
					s := ""
					for _, y := range fl.items {
						switch y.kind {
						case 'l':
							s += regexp.QuoteMeta(y.text)
						case 'f':
							if group == "" {
								return 0, false
							}
							s += "(?:" + group + ")"
						default:
							return 0, false
						}
					}
					own += "|" + s
				}
			}
		}
		own = strings.TrimPrefix(own, "|")
	}
	if own == "" {
		return 0, false
	}
	lim := 0
	if next != nil && next.kind == 'l' {
		lim = len(next.text)
		if lim > 4 {
			lim = 4
		}
	}
	own = regexp.QuoteMeta(before) + "(?:" + own + ")"
	for cut := 0; cut <= lim; cut++ {
		suf := ""
		if cut > 0 {
			suf = regexp.QuoteMeta(next.text[:cut])
		}
		if in, _ := langWithin(own+suf, word); in {
			return cut, true
		}
	}
	// reported, and taken for the word it is meant to be
	if in, _ := langWithin(own+`\n`, word); in {
		x.unended = g
		return 0, true
	}
	return 0, false
}

// whole reports whether a value of a Capture type is written as one text.
func (w *readWorld) whole(cf *NodeType) bool {
	any := false
	for _, f := range w.l.fmtRuns {
		if f.nt != cf {
			continue
		}
		for _, o := range f.outs {
			if o.Panic {
				continue
			}
			fs, err := w.l.flats(f, o)
			if err != nil {
				return false
			}
			for _, fl := range fs {
				for _, it := range fl.items {
					if it.kind != 'f' && it.kind != 'b' {
						return false
					}
				}
				if len(fl.items) != 1 {
					return false
				}
				any = true
			}
		}
	}
	return any
}

// read matches one text against its production.
func (w *readWorld) read(f *fmtRun, fl *flat, ctx *lexCtx, swap *[2]string, skip *[2]int) (*rText, *matcher) {
	x := &matcher{w: w, run: f, fl: fl, best: [2]int{-1, 0}, swap: swap, skip: skip}
	t := &rText{run: f, fl: fl}
	fr := &readFrame{p: f.p, nt: f.nt, cnt: make([]int, f.nt.St.NumFields())}
	t.ok = x.m(f.nt.Prod, fr, rPos{ctx: ctx}, func(_ *readFrame, ps rPos) bool {
		q, gap := x.settle(ps)
		if q.i < len(fl.items) {
			return x.miss(q, "the end")
		}
		if q.ctx != ctx {
			return false
		}
		t.tail = gap
		t.events = append([]rEvent{}, x.events...)
		// options at the end
		return true
	})
	if !t.ok {
		t.events = w.rough(f, fl, ctx)
		t.ok = w.unwrapped(f, fl, ctx, t)
	}
	t.solid = t.ok
	return t, x
}

// misread reports why a text does not match. A wrong word is reported and then
// taken for the right one, to see what else is wrong.
func (w *readWorld) misread(f *fmtRun, fl *flat, ctx *lexCtx, t *rText, x *matcher) {
	name := f.nt.Name
	if g := x.unended; g != nil {
		w.r.ob(false, "reads:"+name+":"+g.Kids[0].String()+" without its line break", f.fn.Pos(), "%s writes %s, where the line break that ends the %s is missing: the text that follows is read as part of it", f.what(), fl, g.Kids[0])
	}
	if t.ok {
		return
	}
	if x.steps > 400000 {
		w.r.ob(false, "reads:"+name, f.fn.Pos(), "%s: too many readings of %s", f.what(), fl)
		return
	}
	report := func(want string) {
		w.r.ob(false, "reads:"+name+":"+x.found()+" for "+want, f.fn.Pos(), "%s writes %s, which the grammar does not read as a %s: at %s it expects %s", f.what(), fl, name, x.found(), want)
	}
	if it := x.item(x.best[0]); it != nil && it.kind == 'l' && x.swap == nil {
		if r, n, _ := w.lexText(&lexCtx{state: "Root"}, it.text[x.best[1]:]); r != nil && r.Name != "LF" {
			for _, want := range sortedSet(x.wanted) {
				t2, x2 := w.read(f, fl, ctx, &[2]string{it.text[x.best[1] : x.best[1]+n], want}, x.skip)
				if t2.ok || x2.best[0] > x.best[0] {
					report(strconv.Quote(want))
					*t = *t2
					if !t2.ok {
						w.misread(f, fl, ctx, t, x2)
					}
					t.ok = false
					return
				}
			}
		}
	}
	report(strings.Join(sortedSet(x.want), " or "))
	if it := x.item(x.best[0]); it != nil && it.kind == 'l' && x.skip == nil && strings.HasPrefix(it.text[x.best[1]:], "\n") {
		at := x.best
		t2, x2 := w.read(f, fl, ctx, x.swap, &at)
		if t2.ok || x2.best[0] > x.best[0] {
			*t = *t2
			if !t2.ok {
				w.misread(f, fl, ctx, t, x2)
			}
			t.ok = false
		}
	}
}

// unwrapped accepts a part that is written without the parentheses around it:
// another alternative of the production reads it by itself.
func (w *readWorld) unwrapped(f *fmtRun, fl *flat, ctx *lexCtx, t *rText) bool {
	if len(fl.items) != 1 || fl.items[0].kind != 'c' || fl.items[0].nt == nil || fl.items[0].trim != "" {
		return false
	}
	field, _, _, direct, ok := partStep(f.p, fl.items[0].term)
	if !ok || direct {
		return false
	}
	var bare *GNode
	wrapped := false
	for _, a := range alternatives(f.nt.Prod) {
		if a.Kind == GCap && a.Kids[0].Kind == GRef && w.l.m.of(a.Kids[0].Ref) == fl.items[0].nt {
			bare = a
		}
		for _, b := range alternatives(a) {
			if b.Kind == GSeq && len(b.Kids) == 3 && b.Kids[0].Kind == GLit && b.Kids[2].Kind == GLit && b.Kids[1].Kind == GCap && b.Kids[1].Field == field {
				wrapped = true
			}
		}
	}
	if bare == nil || !wrapped {
		return false
	}
	for i := range t.events {
		t.events[i].cap = bare
	}
	w.r.count("redundant parentheses left out", 1)
	return true
}

// rough lists the tokens and parts of a text that does not match.
func (w *readWorld) rough(f *fmtRun, fl *flat, ctx *lexCtx) []rEvent {
	var out []rEvent
	x := &matcher{w: w, run: f, fl: fl}
	ps := rPos{ctx: ctx}
	for {
		q, gap := x.settle(ps)
		it := x.item(q.i)
		if it == nil || q.ctx == nil {
			return out
		}
		ev := rEvent{item: q.i, gap: gap, pre: q.ctx.state, groups: q.ctx.groups, trim: it.trim, term: it.term}
		next := q
		switch it.kind {
		case 'l':
			r, n, gs := w.lexText(q.ctx, it.text[q.off:])
			if r == nil {
				return out
			}
			ev.kind, ev.text, ev.rule = 't', it.text[q.off:q.off+n], r.Name
			next.off += n
			next.ctx = after(q.ctx, r, gs, nil)
			if next.ctx == nil {
				return out
			}
		case 'c':
			ev.kind, ev.nt = 'c', it.nt
			next.i, next.off = q.i+1, 0
		default:
			ev.kind = 'f'
			if _, nt, i, ok := f.tf.nodeField(it.term); ok {
				walkG(nt.Prod, func(g *GNode) {
					if g.Kind == GCap && g.Field == i && ev.cap == nil {
						ev.cap = g
					}
				})
			}
			next.i, next.off = q.i+1, 0
		}
		ev.post = next.ctx.state
		out = append(out, ev)
		ps = next
	}
}

func (x *matcher) found() string {
	it := x.item(x.best[0])
	if it == nil {
		return "the end"
	}
	switch it.kind {
	case 'l':
		rest := it.text[x.best[1]:]
		if strings.HasPrefix(rest, "\n") {
			return "a line break"
		}
		if r, n, _ := x.w.lexText(&lexCtx{state: "Root"}, rest); r != nil {
			return fmt.Sprintf("%q", rest[:n])
		}
		return fmt.Sprintf("%q", rest)
	case 'p':
		return "blanks"
	}
	s := it.term.String()
	return regexp.MustCompile(`\[[^\]]*\]`).ReplaceAllString(s, "")
}

func sortedSet(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func checkReads(r *Report, l *LexModel) {
	r.rule = "Every text a formatter can write (all node kinds, field combinations and paths) is matched against the production of its node, with the words of its literals read by the token rules of the state it is read in: required words present, nothing else, in order. Where the reading leaves a choice the tree does not record (separators, alternatives, quotes), the written choice is checked not to change the reading: no part runs on into what follows, no earlier alternative begins the same way. Tokens written next to each other are run through the token automaton: no rule may read past the first one."
	w := &readWorld{l: l, r: r, texts: map[*NodeType][]*rText{}, res: map[string]*regexp.Regexp{}, fused: map[string]string{}}
	runs := l.formats(r)
	if err := w.contexts(); err != nil {
		r.fail("states", l.Pos, "%v", err)
		return
	}
	for _, f := range runs {
		if f.und != nil {
			r.undecided(f.what(), f.und)
			continue
		}
		if f.nt.Prod == nil || f.nt.Capture {
			continue
		}
		for _, o := range f.outs {
			if o.Panic {
				continue
			}
			fs, err := l.flats(f, o)
			if err != nil {
				r.ob(false, "text:"+f.nt.Name, o.Pos, "cannot read the text written by %s: %v", f.what(), err)
				continue
			}
			for _, fl := range fs {
				bad := false
				for _, ctx := range w.start(f.nt) {
					t, x := w.read(f, fl, ctx, nil, nil)
					if n := len(w.texts[f.nt]); n == 0 || w.texts[f.nt][n-1].fl != fl {
						w.texts[f.nt] = append(w.texts[f.nt], t)
					}
					r.count("texts", 1)
					if t.ok && x.unended == nil {
						continue
					}
					bad = true
					w.misread(f, fl, ctx, t, x)
				}
				if !bad {
					r.ob(true, f.what(), f.fn.Pos(), "")
				}
			}
		}
	}
	r.floor("texts", 200)
	w.checkJoins()
}

// start lists the states in which the text of a node is read.
func (w *readWorld) start(nt *NodeType) []*lexCtx {
	if w.ctxs[nt]["Root"] {
		return []*lexCtx{{state: "Root"}}
	}
	var out []*lexCtx
	for _, s := range sortedSet(w.ctxs[nt]) {
		gs, err := w.l.instances(s)
		if err != nil {
			gs = [][]string{nil}
		}
		for _, g := range gs {
			out = append(out, &lexCtx{state: s, groups: g})
		}
	}
	return out
}
