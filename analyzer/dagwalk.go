package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["D11"] = withDag(checkWalkers)
	checks["D12"] = withDag(checkOrder)
	checks["D16"] = withDag(checkRaces)
}

// walker is one goroutine started by an operation.
type walker struct {
	dm     *dagModel
	s      *dagSummary
	p      *post
	start  *Effect
	e      *Engine
	outs   []Outcome
	und    *Undecided
	loops  []*loopRec
	ids    *Term // channel the walk delivers on
	signal *Term // channel the consumer stops it with
	dir    string
}

func (dm *dagModel) walkers(s *dagSummary) []*walker {
	var out []*walker
	for _, p := range s.posts {
		for _, f := range p.st.effs {
			if f.Kind != "go" {
				continue
			}
			w := &walker{dm: dm, s: s, p: p, start: f}
			w.e, w.outs, w.und = dm.runGo(s, p, f, func(l *loopRec) { w.loops = append(w.loops, l) })
			for id, o := range p.st.heap {
				if o.kind != 'h' {
					continue
				}
				c, ok := o.typ.Underlying().(*types.Chan)
				if !ok {
					continue
				}
				t := mk(OObj, "", id, nil)
				if types.Identical(c.Elem(), dm.d.key) {
					w.ids = t
				} else {
					w.signal = t
				}
			}
			out = append(out, w)
		}
	}
	return out
}

// ---- D11: the protocol ----

// Protocol states of a walk, as a set of bits.
const (
	wRunning = 1 << iota
	wStopped
	wClosed
)

type protocol struct {
	w    *walker
	r    *Report
	bad  func(key string, pos token.Pos, format string, a ...any)
	seen map[string]bool
}

// step is the set of states after an effect.
func (c *protocol) step(states int, x *Effect) int {
	w := c.w
	next := 0
	switch x.Kind {
	case "each":
		all := states
		last := states
		for {
			n := all
			last = 0
			for _, a := range x.Alts {
				l := c.run(all, a.Effs)
				last |= l
				n |= l
			}
			if n == all {
				break
			}
			all = n
		}
		return all | last
	case "clear", "fill", "store", "mapset", "mapdel", "appendinto":
		return states
	case "close":
		switch {
		case x.Args[0] == w.ids:
			if states&wClosed != 0 {
				c.bad("closed twice", x.Pos, "the walk can close its ID channel twice")
			}
			return wClosed
		case x.Args[0] == w.signal:
			c.bad("signal closed", x.Pos, "the walk closes the channel its consumer signals on: a later stop would panic")
			return states
		}
		return states
	case "send":
		if x.Args[0] == w.ids {
			c.bad("blocking send", x.Pos, "the walk delivers an ID without also waiting for the stop request: it stays blocked when the consumer has gone")
			if states&wClosed != 0 {
				c.bad("send after close", x.Pos, "the walk can deliver an ID after closing the channel")
			}
			return states
		}
		c.bad("send elsewhere", x.Pos, "the walk sends on a channel its consumer does not receive from")
		return states
	case "recv":
		c.bad("blocking receive", x.Pos, "the walk waits for a stop request that need not come")
		return wStopped
	case "select":
		choice, _ := x.Args[0].intVal()
		sends, stops := false, false
		for _, y := range x.Args[1:] {
			switch {
			case y.Sym == "send" && y.Args[0] == w.ids:
				sends = true
			case y.Sym == "recv" && y.Args[0] == w.signal:
				stops = true
			default:
				c.bad("other channel", x.Pos, "the walk waits for a channel other than its own two")
			}
		}
		if sends && states&wClosed != 0 {
			c.bad("send after close", x.Pos, "the walk can deliver an ID after closing the channel")
		}
		if x.Name == "blocking" {
			if states&wStopped != 0 {
				c.bad("wait after stop", x.Pos, "the walk can wait again after it was asked to stop")
			}
			if sends && !stops {
				c.bad("blocking send", x.Pos, "the walk delivers an ID without also waiting for the stop request: it stays blocked when the consumer has gone")
			}
			if !sends {
				c.bad("blocking receive", x.Pos, "the walk waits for a stop request that need not come")
			}
		} else if sends && states&wStopped != 0 {
			c.bad("wait after stop", x.Pos, "the walk can deliver an ID after it was asked to stop")
		}
		if choice >= 0 {
			y := x.Args[1+choice]
			if y.Sym == "recv" && y.Args[0] == w.signal {
				return wStopped
			}
		}
		return states
	}
	c.bad("effect:"+x.Kind, x.Pos, "the walk has the effect %s, which may wait for something else", x.Kind+" "+x.Name)
	next |= states
	return next
}

func (c *protocol) run(states int, effs []*Effect) int {
	for _, x := range effs {
		states = c.step(states, x)
	}
	return states
}

func checkWalkers(r *Report, dm *dagModel) {
	r.rule = "typestate of every walker goroutine over all its paths: each delivery waits for the stop request as well, nothing is offered or awaited after a stop request was taken, the ID channel is closed exactly once and last, the signal channel is never closed and has room for a request, and the queue shrinks by one vertex per round while only neighbours of that vertex join it"
	r.assume = append([]string{"a consumer sends at most one stop request, or closes the signal channel", "the graph does not change while a walk is in progress"}, dagAssume...)
	for _, s := range dm.exported() {
		if s.und != nil || s.why != "" {
			if !r.usable(dm, s) {
				continue
			}
		}
		ws := dm.walkers(s)
		for _, p := range s.posts {
			gos := 0
			for _, f := range p.st.effs {
				switch f.Kind {
				case "go":
					gos++
				case "close":
					r.ob(false, "caller closes:"+s.name, f.Pos, "%s itself closes a channel of the walk", s.name)
				case "send":
					if len(ws) > 0 {
						r.ob(false, "caller sends:"+s.name, f.Pos, "%s itself sends on a channel", s.name)
					}
				}
			}
			if gos > 0 {
				r.ob(gos == 1, "one goroutine:"+s.name, p.o.Pos, "%s starts %d goroutines for one walk", s.name, gos)
			}
			// Channels that are handed out belong to a started walk.
			for _, res := range p.o.Results {
				if res.Typ == nil || res.Op == ONil {
					continue
				}
				if _, ok := res.Typ.Underlying().(*types.Chan); ok && res.Op == OObj {
					r.ob(gos == 1, "orphan:"+s.name, p.o.Pos, "%s hands out a channel on a path that starts no walk", s.name)
				}
			}
		}
		for _, w := range ws {
			r.count("walks", 1)
			if w.und != nil {
				r.undecided(s.name+" goroutine", w.und)
				continue
			}
			if !r.ob(w.ids != nil && w.signal != nil, "channels:"+s.name, w.start.Pos, "the channels of the walk started by %s are not found", s.name) {
				continue
			}
			// Whoever starts the walk gets both of its channels.
			res := s.fn.Signature.Results()
			for i, t := range w.p.o.Results {
				if _, ok := res.At(i).Type().Underlying().(*types.Chan); ok {
					r.ob(t == w.ids || t == w.signal, "handed out:"+s.name, w.p.o.Pos, "%s starts a walk and does not hand out its channels: one of them is %s", s.name, t)
				}
			}
			c := w.p.st.heap[w.signal.N].capN
			n, known := int64(0), false
			if c != nil {
				n, known = c.intVal()
			}
			r.ob(known && n >= 1, "capacity:"+s.name, w.start.Pos, "the signal channel of %s has no room for a stop request: the consumer would block", s.name)
			pr := &protocol{w: w, r: r, bad: func(key string, pos token.Pos, format string, a ...any) {
				r.ob(false, key+":"+s.name, pos, "%s (started by %s)", fmt.Sprintf(format, a...), s.name)
			}}
			for _, o := range w.outs {
				r.paths++
				if o.Panic {
					r.ob(o.Implied, "panic:"+s.name, o.Pos, "the walk started by %s can panic: %s", s.name, o.Reason)
					continue
				}
				end := pr.run(wRunning, o.St.effs)
				r.ob(end == wClosed, "closed:"+s.name, o.Pos, "a path of the walk started by %s ends without closing the ID channel", s.name)
			}
			b := w.bfs()
			r.ob(b.why == "" || b.shrinks, "ends:"+s.name, b.pos, "the walk started by %s need not end: %s", s.name, b.why)
			r.covers(w.e)
		}
	}
	r.floor("walks", 2)
}

// ---- D12: breadth-first order ----

type bfsResult struct {
	why     string
	pos     token.Pos
	shrinks bool // the rounds end, whatever the order
}

// flatSends counts the deliveries directly on a path (not in inner loops).
func (w *walker) flatSends(effs []*Effect) (sent []*Term, stopped, inner bool) {
	for _, x := range effs {
		switch x.Kind {
		case "send":
			if x.Args[0] == w.ids {
				sent = append(sent, x.Args[1])
			}
		case "select":
			c, _ := x.Args[0].intVal()
			if c < 0 {
				continue
			}
			y := x.Args[1+c]
			if y.Sym == "send" && y.Args[0] == w.ids {
				sent = append(sent, y.Args[1])
			} else if y.Sym == "recv" && y.Args[0] == w.signal {
				stopped = true
			}
		case "recv":
			if x.Args[0] == w.signal {
				stopped = true
			}
		case "each":
			for _, a := range x.Alts {
				s, _, in := w.flatSends(a.Effs)
				if len(s) > 0 || in {
					inner = true
				}
			}
		}
	}
	return
}

func cellOf(l *loopRec, h *Term) *cell {
	for _, c := range l.cells {
		if c.hole == h {
			return c
		}
	}
	return nil
}

// dirOf is the table the walk is expected to follow.
func (w *walker) dirOf() string {
	if w.dir != "" {
		return w.dir
	}
	if strings.Contains(w.s.name, "Ancestor") {
		return "in"
	}
	return "out"
}

func (w *walker) isRow(m, x *Term) bool {
	if m.Op == OMapVer {
		m = m.Args[0]
	}
	if m.Op != OLookup || m.Args[1] != x {
		return false
	}
	f, ok := w.dm.fieldOfMap(m.Args[0])
	return ok && w.dm.role[f] == w.dirOf()
}

// neighbour reports whether k is the generic neighbour of x.
func (w *walker) neighbour(k, x *Term) (b *Term, ok bool) {
	for k.Op == OLookup && w.isRow(k.Args[0], x) {
		k = k.Args[1]
	}
	if k.Op == OKey && w.isRow(k.Args[0], x) {
		return k, true
	}
	return nil, false
}

// setBase strips what a loop itself added to a set under its own keys.
func (w *walker) setBase(m *Term, l *loopRec, b, x *Term) *Term {
	for i := 0; i < 8; i++ {
		if m.Op == OObj {
			if o := l.entry.heap[m.N]; o != nil {
				m = o.val
				continue
			}
			return m
		}
		if m.Op == OMap {
			if len(m.Args) == 0 {
				return m
			}
			for _, y := range m.Args[1:] {
				if y.Op != OIns || y.Args[0] == b {
					return nil
				}
				if _, ok := w.neighbour(y.Args[0], x); !ok {
					return nil
				}
			}
			m = m.Args[0]
			continue
		}
		if m.Op != OHole {
			return m
		}
		if cellOf(l, m) != nil {
			return m
		}
		d := w.e.holes[m]
		if d == nil {
			return nil
		}
		for _, st := range d.steps {
			v := st.val
			if v == m {
				continue
			}
			if v.Op != OMap || len(v.Args) == 0 || v.Args[0] != m {
				return nil
			}
			for _, y := range v.Args[1:] {
				if y.Op != OIns {
					return nil
				}
				if _, ok := w.neighbour(y.Args[0], x); !ok {
					return nil
				}
			}
		}
		m = d.entry
	}
	return m
}

// visitedTest reads a guard as "b is (not) in the set".
func visitedTest(g *Term) (set, k *Term, in, ok bool) {
	in = true
	if g.Op == ONot {
		g, in = g.Args[0], false
	}
	if g.Op == OHas {
		return g.Args[0], g.Args[1], in, true
	}
	if g.Op == OLookup && isBoolType(g.Typ) {
		return g.Args[0], g.Args[1], in, true
	}
	return
}

// join reads a segment as "the neighbours of x that are not in the set".
type enqueue struct {
	only bool // only neighbours of x, at most once each
	all  bool // every neighbour outside the set
	none bool // none inside the set
	why  string
}

// reads interprets one appended (or inserted) segment. set is the base of the
// visited set, or nil where everything is new.
func (w *walker) reads(seg *Term, l *loopRec, x, start *Term, isSet func(m *Term, b *Term) (visited, known bool), item func(p *Term) *Term) enqueue {
	if seg.Op != OEach {
		return enqueue{why: "something other than neighbours joins"}
	}
	b := seg.Args[0]
	if _, ok := w.neighbour(b, x); !ok {
		return enqueue{why: fmt.Sprintf("what joins is not taken from the %sbound edges of the vertex just taken", w.dirOf())}
	}
	q := enqueue{only: true, all: true, none: true}
	for _, a := range seg.Args[1:] {
		gs, pl := altParts(a)
		in, out := false, false
		other := false
		for _, g := range gs {
			s, k, pos, ok := visitedTest(g)
			if ok {
				if kb, isN := w.neighbour(k, x); isN && kb == b {
					v, known := isSet(s, b)
					if known {
						if v == false { // nothing is in an empty set
							if pos {
								in, out = true, true
							}
							continue
						}
						if pos {
							in = true
						} else {
							out = true
						}
						continue
					}
				}
			}
			// A neighbour is never the start vertex: the graph has no cycles.
			if n := g; n.Op == ONot && n.Args[0].Op == OBin && n.Args[0].Sym == "==" {
				e := n.Args[0]
				if e.Args[0] == b && e.Args[1] == start || e.Args[1] == b && e.Args[0] == start {
					continue
				}
			}
			other = true
		}
		if in && out {
			continue // impossible
		}
		n := 0
		for _, y := range pl {
			k := item(y)
			if k == nil {
				return enqueue{why: "what joins is not understood"}
			}
			if kb, ok := w.neighbour(k, x); !ok || kb != b {
				return enqueue{why: "something other than the neighbour joins"}
			}
			n++
		}
		if n > 1 {
			q.only, q.none = false, false
			q.why = "a neighbour joins twice"
		}
		if n == 0 && !in {
			q.all = false
			q.why = "a neighbour that was not met before can be left out"
		}
		if n > 0 && !out {
			q.none = false
			if q.why == "" {
				q.why = "a vertex met before can join again"
			}
		}
		if n > 0 && other {
			q.all = false
			if q.why == "" {
				q.why = "whether a neighbour joins depends on something else"
			}
		}
	}
	return q
}

func altParts(a *Term) (guards, payload []*Term) {
	if a.Op != OAlt {
		return nil, []*Term{a}
	}
	return a.Args[0].Args, a.Args[1].Args
}

// bfs checks that the loop that delivers the IDs is a breadth-first search.
func (w *walker) bfs() bfsResult {
	var main *loopRec
	for _, l := range w.loops {
		sends := false
		for _, b := range l.run.backs {
			s, _, _ := w.flatSends(b.st.effs)
			sends = sends || len(s) > 0
		}
		if sends {
			if main != nil && main.fn == l.fn && main.pos == l.pos {
				main = l
				continue
			}
			if main != nil {
				return bfsResult{why: "IDs are delivered by more than one loop", pos: l.pos}
			}
			main = l
		}
	}
	if main == nil {
		return bfsResult{why: "no loop delivers the IDs", pos: w.start.Pos}
	}
	l := main
	res := bfsResult{pos: l.pos}
	fail := func(f string, a ...any) bfsResult {
		if res.why == "" {
			res.why = fmt.Sprintf(f, a...)
		}
		return res
	}
	for _, o := range w.outs {
		s, _, _ := w.flatSends(o.St.effs)
		for _, x := range o.St.effs {
			if x.Kind == "each" {
				continue
			}
		}
		if len(s) > 0 {
			// Deliveries of an interrupted last round are part of the loop.
			pre := false
			for _, x := range o.St.effs {
				if x.Kind == "each" && x.Prefix {
					pre = true
				}
			}
			if !pre {
				return fail("an ID is delivered outside the walk's rounds")
			}
		}
	}
	// What is delivered?
	var head *Term
	for _, b := range l.run.backs {
		s, stopped, inner := w.flatSends(b.st.effs)
		if inner {
			return fail("a round delivers any number of IDs")
		}
		if stopped {
			return fail("a round goes on after a stop request")
		}
		if len(s) != 1 {
			return fail("a round can deliver %d IDs instead of one", len(s))
		}
		if head != nil && head != s[0] {
			return fail("rounds deliver different things")
		}
		head = s[0]
	}
	if head == nil || head.Op != OLoad && head.Op != OIndexAddr {
		return fail("what a round delivers is not the head of the queue")
	}
	at := head
	if at.Op == OLoad {
		at = at.Args[0]
	}
	if at.Op != OIndexAddr {
		return fail("what a round delivers is not the head of the queue")
	}
	qh, idx := at.Args[0], at.Args[1]
	q := cellOf(l, qh)
	if q == nil {
		return fail("what a round delivers is not taken from a queue that the rounds update")
	}
	var ic *cell
	if n, ok := idx.intVal(); ok {
		if n != 0 {
			return fail("a round delivers element %d of the queue instead of the first", n)
		}
	} else if ic = cellOf(l, idx); ic == nil {
		return fail("a round delivers an element of the queue other than the first")
	} else if n, ok := ic.entry.intVal(); !ok || n != 0 {
		return fail("the walk does not start with the first element of the queue")
	}
	sr := w.search(l, q, ic, head, w.startKey(), false)
	return sr.bfsResult
}

// pending is what is left of the list before the loop.
func (l *loopRec) pending(q, ic *cell) []*Term {
	segs := l.e.segsOf(l.entry, q.entry)
	if ic != nil {
		n, _ := ic.entry.intVal()
		for ; n > 0 && len(segs) > 0 && segs[0].Op != OEach && segs[0].Op != OSpread; n-- {
			segs = segs[1:]
		}
		if n > 0 {
			return nil
		}
	}
	return segs
}

// joining is what joins the list in a round that takes one vertex off it.
func (l *loopRec) joining(q, ic *cell, b *edgeState, lifo bool) (rest []*Term, why string) {
	nv := l.e.getCell(b.fr, b.st, q, b)
	segs := l.e.segsOf(b.st, nv)
	if ic != nil {
		iv := l.e.getCell(b.fr, b.st, ic, b)
		if iv != mkAdd(ic.hole, cInt(1)) {
			return nil, "a round does not move on by one element"
		}
		if nv == q.hole {
			segs = nil
		} else if len(segs) == 0 || segs[0].Op != OSpread || segs[0].Args[0] != q.hole {
			return nil, "a round drops elements of the queue"
		} else {
			segs = segs[1:]
		}
	} else {
		if len(segs) == 0 || segs[0].Op != OSpread || !isTaken(segs[0].Args[0], q.hole, lifo) {
			return nil, "a round does not take exactly the first vertex off the queue, or others join in front"
		}
		segs = segs[1:]
	}
	return segs, ""
}

// drains checks that a search ends only when its list is empty.
func (w *walker) drains(l *loopRec, q, ic *cell) string {
	bound := mkLen(q.hole)
	var left *Term
	if ic != nil {
		left = ic.hole
	} else {
		left = cInt(0)
	}
	empties := func(t *Term, v bool) bool {
		// left < len(q) is false
		if !v {
			return t == mkLt(left, bound) || t == mkNot(mkEq(left, bound)) || ic == nil && t == mkNot(mkEq(bound, cInt(0)))
		}
		return t == mkNot(mkLt(left, bound)) || t == mkEq(left, bound) || ic == nil && (t == mkEq(bound, cInt(0)) || t == mkLt(bound, cInt(1)))
	}
	leave := func(st *State, effs []*Effect, pos token.Pos) string {
		_, stopped, _ := w.flatSends(effs)
		if stopped {
			return ""
		}
		for _, c := range st.pc[l.n0:] {
			if empties(c.T, c.V) {
				return ""
			}
		}
		return "the walk can end before the queue is empty"
	}
	for _, x := range l.run.exits {
		if y := leave(x.st, x.st.effs, l.pos); y != "" {
			return y
		}
	}
	for _, o := range l.run.outs {
		if o.Panic && o.Implied {
			continue
		}
		if y := leave(o.St, o.St.effs, o.Pos); y != "" {
			return y
		}
	}
	if l.ctl != nil {
		c := l.run.cond
		if c == nil || !empties(c, l.inSucc != 0) {
			return "the walk can end before the queue is empty"
		}
	}
	return ""
}

// starts checks that segs are the neighbours of the start vertex.
func (w *walker) starts(l *loopRec, segs []*Term, start *Term, item func(*Term) *Term, itself *bool) string {
	got := false
	for _, y := range segs {
		if y.Op == OIns && y.Args[0] == start && itself != nil {
			*itself = true
			continue
		}
		en := w.reads(y, l, start, start, func(m, k *Term) (bool, bool) {
			base := w.setBase(m, l, k, start)
			if base == nil || base.Op != OMap {
				return false, false
			}
			for _, z := range base.Args {
				if z.Op != OIns || z.Args[0] != start {
					return false, false
				}
			}
			return false, true
		}, item)
		if !en.only || !en.all {
			if en.why == "" {
				en.why = "they differ"
			}
			return en.why
		}
		if got {
			return "the neighbours of the start vertex join twice"
		}
		got = true
	}
	if !got {
		return "the neighbours of the start vertex are missing"
	}
	return ""
}

// searched describes a loop that searches the graph.
type searched struct {
	bfsResult
	vis    *cell // the set of vertices met
	itself bool  // which starts with the start vertex itself
}

// search checks that a loop takes the vertices one by one off its queue (head
// is the one taken) and has the neighbours not met before join it, until
// nothing is left.
func (w *walker) search(l *loopRec, q, ic *cell, head, start *Term, lifo bool) (sr searched) {
	res := &sr.bfsResult
	res.pos = l.pos
	fail := func(f string, a ...any) searched {
		if res.why == "" {
			res.why = fmt.Sprintf(f, a...)
		}
		return sr
	}
	// The set of vertices met so far.
	var vis *cell
	visOf := func(m, b, x *Term) (*cell, bool) { // nil cell: an empty set
		base := w.setBase(m, l, b, x)
		if base == nil {
			return nil, false
		}
		if base.Op == OMap && len(base.Args) == 0 {
			return nil, true
		}
		if c := cellOf(l, base); c != nil {
			return c, true
		}
		return nil, false
	}
	item := func(p *Term) *Term { return p }
	insItem := func(p *Term) *Term {
		if p.Op != OIns {
			return nil
		}
		return p.Args[0]
	}
	// Rounds.
	shrinks := true
	var why string
	note := func(f string, a ...any) {
		if why == "" {
			why = fmt.Sprintf(f, a...)
		}
	}
	for _, b := range l.run.backs {
		segs, y := l.joining(q, ic, b, lifo)
		if y != "" {
			return fail("%s", y)
		}
		if len(segs) != 1 {
			return fail("the neighbours of the vertex taken do not join the queue exactly once")
		}
		en := w.reads(segs[0], l, head, start, func(m, k *Term) (bool, bool) {
			c, ok := visOf(m, k, head)
			if !ok {
				return false, false
			}
			if c == nil {
				return false, true
			}
			if vis != nil && vis != c {
				return false, false
			}
			vis = c
			return true, true
		}, item)
		if !en.only {
			return fail("%s", en.why)
		}
		if !en.all || !en.none {
			note("%s", en.why)
		}
	}
	if shrinks {
		res.shrinks = true
	}
	if why != "" {
		return fail("%s", why)
	}
	if vis == nil {
		return fail("nothing keeps a vertex from being met twice")
	}
	// The set follows the queue.
	for _, b := range l.run.backs {
		nv := l.e.getCell(b.fr, b.st, vis, b)
		if nv.Op != OMap || len(nv.Args) == 0 || nv.Args[0] != vis.hole {
			return fail("the set of vertices met is not extended")
		}
		got := false
		for _, y := range nv.Args[1:] {
			if y.Op == OIns {
				k := y.Args[0]
				if k == head || k == start {
					if !truthy(y) {
						return fail("a vertex met is marked as not met")
					}
					sr.itself = sr.itself || k == start
					continue
				}
				return fail("the set of vertices met gets something that is not in the queue")
			}
			en := w.reads(y, l, head, start, func(m, k *Term) (bool, bool) {
				c, ok := visOf(m, k, head)
				return c != nil, ok && (c == nil || c == vis)
			}, insItem)
			if !en.only || !en.all {
				return fail("a vertex that joins the queue is not always marked as met")
			}
			for _, a := range y.Args[1:] {
				_, pl := altParts(a)
				for _, z := range pl {
					if !truthy(z) {
						return fail("a vertex met is marked as not met")
					}
				}
			}
			got = true
		}
		if !got {
			return fail("a vertex that joins the queue is not marked as met")
		}
	}
	// The first round.
	if y := w.starts(l, l.pending(q, ic), start, item, nil); y != "" {
		return fail("the queue does not start with the neighbours of the start vertex: %s", y)
	}
	ve := vis.entry
	if ve.Op == OObj && l.entry.heap[ve.N] != nil {
		ve = l.entry.heap[ve.N].val
	}
	if ve.Op != OMap {
		return fail("the set of vertices met does not start with the neighbours of the start vertex")
	}
	if y := w.starts(l, ve.Args, start, insItem, &sr.itself); y != "" {
		return fail("the set of vertices met does not start with the neighbours of the start vertex: %s", y)
	}
	if y := w.drains(l, q, ic); y != "" {
		return fail("%s", y)
	}
	sr.vis = vis
	return sr
}

func truthy(ins *Term) bool {
	if ins.Op != OIns {
		return false
	}
	if b, ok := ins.Args[1].boolVal(); ok {
		return b
	}
	return true
}

// isTail recognises q[1:].
func isTail(t, q *Term) bool {
	if t.Op != OSlice || t.Args[0] != q {
		return false
	}
	n, ok := t.Args[1].intVal()
	if !ok || n != 1 {
		return false
	}
	return t.Args[2] == mkLen(q)
}

func isTaken(t, q *Term, lifo bool) bool {
	if lifo {
		return isInit(t, q)
	}
	return isTail(t, q)
}

// isInit recognises q[:len(q)-1].
func isInit(t, q *Term) bool {
	if t.Op != OSlice || t.Args[0] != q {
		return false
	}
	n, ok := t.Args[1].intVal()
	return ok && n == 0 && t.Args[2] == mkAdd(mkLen(q), cInt(-1))
}

// startKey is the ID the walk was asked for.
func (w *walker) startKey() *Term {
	for i, p := range w.s.fn.Params {
		if i > 0 && types.Identical(p.Type(), w.dm.d.key) {
			return w.s.param(i)
		}
	}
	return nil
}

func checkOrder(r *Report, dm *dagModel) {
	r.rule = "the loop that delivers IDs is a breadth-first search of the right edge table: it starts with the neighbours of the start vertex, delivers the head of a queue once per round, appends exactly the neighbours not met before and marks them as they join, and ends only when the queue is empty or a stop was requested; the ordered lists are exactly what such a walk delivers"
	r.assume = append([]string{"the graph does not change while a walk is in progress", "breadth-first search with marking on entry visits each reachable vertex once, in order of distance (textbook argument, not mechanised)"}, dagAssume...)
	for _, s := range dm.exported() {
		if !strings.HasSuffix(s.name, "Walker") && !strings.HasPrefix(s.name, "GetOrdered") {
			continue
		}
		if !r.usable(dm, s) {
			continue
		}
		ws := dm.walkers(s)
		for _, w := range ws {
			r.count("walks", 1)
			if w.und != nil {
				r.undecided(s.name+" goroutine", w.und)
				continue
			}
			b := w.bfs()
			r.ob(b.why == "", "bfs:"+s.name, b.pos, "the walk started by %s is not known to visit every relative once, breadth first: %s", s.name, b.why)
			r.covers(w.e)
		}
		for _, p := range s.posts {
			r.paths++
			if fails, _ := s.failed(p); fails {
				continue
			}
			var w *walker
			for _, x := range ws {
				if x.p == p {
					w = x
				}
			}
			if !r.ob(w != nil, "walk:"+s.name, p.o.Pos, "%s succeeds without starting a walk", s.name) {
				continue
			}
			res := p.o.Results[0]
			if strings.HasPrefix(s.name, "GetOrdered") {
				r.count("ordered lists", 1)
				segs := s.e.segsOf(p.st, res)
				ok := len(segs) == 1 && w.ids != nil && isDrain(segs[0], w.ids)
				r.ob(ok, "list:"+s.name, p.o.Pos, "%s does not return exactly what the walk delivers, in that order", s.name)
			} else {
				r.ob(res == w.ids, "result:"+s.name, p.o.Pos, "%s does not return the channel the walk delivers on", s.name)
				for _, x := range p.o.Results[1:] {
					if x.Op == OObj {
						r.ob(x == w.signal, "signal:"+s.name, p.o.Pos, "%s does not return the channel the walk listens to", s.name)
					}
				}
				// Nothing may take IDs away before the consumer does.
				for _, f := range p.st.effs {
					r.ob(f.Kind != "recv" && f.Kind != "each", "steal:"+s.name, f.Pos, "%s itself receives from the walk", s.name)
				}
			}
		}
	}
	r.floor("walks", 4)
	r.floor("ordered lists", 2)
}

// isDrain recognises "every value received from ch, in order".
func isDrain(seg, ch *Term) bool {
	if seg.Op != OEach || len(seg.Args) != 2 {
		return false
	}
	if !seg.Args[0].contains(ch) {
		return false
	}
	gs, pl := altParts(seg.Args[1])
	return len(gs) == 0 && len(pl) == 1 && pl[0].Op == OSym && strings.HasPrefix(pl[0].Sym, "recv")
}

// ---- D16: walks and queries ----

// reach collects the functions a goroutine or query can call.
func reachFns(fn *ssa.Function, into map[*ssa.Function]bool) {
	if into[fn] {
		return
	}
	into[fn] = true
	for _, c := range staticCallees(fn) {
		reachFns(c, into)
	}
}

func checkRaces(r *Report, dm *dagModel) {
	r.rule = "the fields of the graph that a walker goroutine can touch are disjoint from those any query writes; a walker writes nothing but its own variables and channels; variables it shares with its starter are not written after it is started; and no package variable is written by either"
	r.assume = append([]string{"the consumer calls only queries while walks are in progress"}, dagAssume...)
	writes := map[int]map[string]token.Pos{} // field -> queries writing it
	for _, s := range dm.exported() {
		if dagMutators[s.name] {
			continue
		}
		if !r.usable(dm, s) {
			continue
		}
		r.count("queries", 1)
		for _, p := range s.posts {
			r.paths++
			for _, d := range p.deltas {
				note := func(f int) {
					if writes[f] == nil {
						writes[f] = map[string]token.Pos{}
					}
					writes[f][s.name] = d.pos
				}
				if d.kind == "fill" {
					for f, ro := range dm.role {
						if ro == "cache" {
							note(f)
						}
					}
					continue
				}
				note(d.field)
			}
		}
		fns := map[*ssa.Function]bool{}
		reachFns(s.fn, fns)
		for fn := range fns {
			for _, g := range globalWrites(fn) {
				r.ob(false, "global:"+s.name, g, "%s writes a package variable", s.name)
			}
		}
	}
	for _, s := range dm.exported() {
		for _, w := range dm.walkers(s) {
			r.count("walks", 1)
			if w.und != nil {
				r.undecided(s.name+" goroutine", w.und)
				continue
			}
			r.covers(w.e)
			body := w.e.funcs[w.start.Args[0].Sym]
			fns := map[*ssa.Function]bool{}
			if body != nil {
				reachFns(body, fns)
			}
			// functions reached through function values
			for fn := range w.e.Inlined {
				fns[fn] = true
			}
			// tables handed to the walk rather than read by it
			for _, o := range w.outs {
				for _, t := range termsOf(o) {
					t.any(func(x *Term) bool {
						if x.Op == OLoad && x.Args[0].Op == OFieldAddr && x.Args[0].Args[0] == dm.g {
							r.count("field accesses", 1)
							qs := sortedKeys(writes[x.Args[0].N])
							r.ob(len(qs) == 0, "field:"+s.name+":"+dm.st.Field(x.Args[0].N).Name(), w.start.Pos, "the walk started by %s uses %s while %s can write it", s.name, dm.st.Field(x.Args[0].N).Name(), strings.Join(qs, ", "))
						}
						return false
					})
				}
			}
			var list []*ssa.Function
			for fn := range fns {
				list = append(list, fn)
			}
			sort.Slice(list, func(i, j int) bool { return list[i].Pos() < list[j].Pos() })
			for _, fn := range list {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						fa, ok := in.(*ssa.FieldAddr)
						if !ok || !isGraphPtr(fa.X.Type(), dm.st) {
							continue
						}
						r.count("field accesses", 1)
						qs := sortedKeys(writes[fa.Field])
						r.ob(len(qs) == 0, "field:"+s.name+":"+dm.st.Field(fa.Field).Name(), fa.Pos(), "the walk started by %s uses %s in %s while %s can write it", s.name, dm.st.Field(fa.Field).Name(), fn.Name(), strings.Join(qs, ", "))
					}
				}
			}
			for _, o := range w.outs {
				if o.Panic {
					continue
				}
				for id, ob := range w.p.st.heap {
					n := o.St.heap[id]
					if n != nil && n.val != ob.val {
						r.ob(false, "shared:"+s.name, ob.pos, "the walk started by %s writes a variable of its starter", s.name)
					}
				}
				var walk func(x *Effect)
				walk = func(x *Effect) {
					for _, a := range x.Alts {
						for _, y := range a.Effs {
							walk(y)
						}
					}
					switch x.Kind {
					case "each", "send", "recv", "select", "close":
					default:
						r.ob(false, "write:"+s.name, x.Pos, "the walk started by %s has the effect %s", s.name, x.Kind)
					}
				}
				for _, x := range o.St.effs {
					walk(x)
				}
			}
			for _, fn := range list {
				for _, g := range globalWrites(fn) {
					r.ob(false, "global:"+s.name, g, "the walk started by %s writes a package variable", s.name)
				}
			}
			r.ob(true, "walk:"+s.name, w.start.Pos, "")
		}
	}
	// Captured variables are settled before the walk starts.
	for fn := range dm.p.allFns() {
		if fnPkgPath(fn) != dm.p.dag.PkgPath {
			continue
		}
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				for _, st := range storesAfter(b, i, g) {
					r.ob(false, "late:"+fn.Name(), st.Pos(), "%s writes a variable that the walk it started uses", fn.Name())
				}
			}
		}
	}
	r.floor("queries", 15)
	r.floor("walks", 4)
	r.floor("field accesses", 4)
}

// termsOf lists the terms of an outcome's conditions and effects.
func termsOf(o Outcome) []*Term {
	var out []*Term
	for _, c := range o.St.pc {
		out = append(out, c.T)
	}
	var walk func(x *Effect)
	walk = func(x *Effect) {
		out = append(out, x.Args...)
		if x.Binder != nil {
			out = append(out, x.Binder)
		}
		for _, a := range x.Alts {
			for _, g := range a.Guards {
				out = append(out, g.T)
			}
			for _, y := range a.Effs {
				walk(y)
			}
		}
	}
	for _, x := range o.St.effs {
		walk(x)
	}
	return out
}

func isGraphPtr(t types.Type, s *types.Struct) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	x, ok := p.Elem().Underlying().(*types.Struct)
	return ok && types.Identical(x, s)
}

// globalWrites lists stores to package variables in a function.
func globalWrites(fn *ssa.Function) []token.Pos {
	var out []token.Pos
	if fn.Name() == "init" || !strings.HasPrefix(fnPkgPath(fn), "github.com/hexbee-net/") {
		return nil
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if g := rootGlobal(in.Addr); g != nil {
					out = append(out, in.Pos())
				}
			case *ssa.MapUpdate:
				if g := rootGlobal(in.Map); g != nil {
					out = append(out, in.Pos())
				}
			}
		}
	}
	return out
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
}

// storesAfter lists writes, after the go statement, to variables it captured.
func storesAfter(b *ssa.BasicBlock, i int, g *ssa.Go) []ssa.Instruction {
	caught := map[ssa.Value]bool{}
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		for _, x := range mc.Bindings {
			caught[x] = true
		}
	}
	for _, x := range g.Call.Args {
		caught[x] = true
	}
	var out []ssa.Instruction
	scan := func(ins []ssa.Instruction) {
		for _, in := range ins {
			switch in := in.(type) {
			case *ssa.Store:
				if caught[in.Addr] {
					out = append(out, in)
				}
			case *ssa.MapUpdate:
				if caught[in.Map] {
					out = append(out, in)
				}
			}
		}
	}
	scan(b.Instrs[i+1:])
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock)
	rec = func(x *ssa.BasicBlock) {
		if seen[x] {
			return
		}
		seen[x] = true
		scan(x.Instrs)
		for _, y := range x.Succs {
			rec(y)
		}
	}
	for _, y := range b.Succs {
		rec(y)
	}
	return out
}
