package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Trees linked by a loop over a list of nodes still to visit, instead of by
// recursion. Such a loop takes one node at a time off its list, links what it
// is responsible for, and puts all children of the node on the list; as every
// node has finitely many below it and none twice, it ends with everything below
// the nodes it started with linked.

// workElem tells how the elements of a list of pending nodes hold a node, and
// the parent it is to get.
type workElem struct {
	typ    types.Type
	st     *types.Struct // nil: the element is the node
	node   int
	parent int // -1: nodes on the list have their parent already
}

// workElems lists the ways in which elements of a type can be read.
func (m *Model) workElems(t types.Type) []workElem {
	if isNodeType(m, t) {
		return []workElem{{typ: t, parent: -1}}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var fs []int
	for i := 0; i < st.NumFields(); i++ {
		if isNodeType(m, st.Field(i).Type()) {
			fs = append(fs, i)
		}
	}
	if len(fs) != 2 {
		return nil
	}
	return []workElem{{t, st, fs[0], fs[1]}, {t, st, fs[1], fs[0]}}
}

// of splits an element.
func (w *workElem) of(el *Term) (node, parent *Term) {
	if w.st == nil {
		return unIface(el), nil
	}
	part := func(i int) *Term {
		if el.Op == OStruct {
			return unIface(el.Args[i])
		}
		return unIface(mkField(el, i, w.typ))
	}
	return part(w.node), part(w.parent)
}

// at reads the element of a list at an index.
func (w *workElem) at(list, i *Term) (node, parent *Term) {
	a := mkIndexAddr(list, i)
	if w.st == nil {
		return unIface(mkLoad(a, w.typ)), nil
	}
	part := func(f int) *Term { return unIface(mkLoad(mkFieldAddr(a, f, w.typ), w.st.Field(f).Type())) }
	return part(w.node), part(w.parent)
}

// workList is the effect of a loop over pending nodes: "linked" for a node that
// gets a parent and has everything below it linked, "below" for one that has
// everything below it linked.
func (m *Model) workList(l *loopRec) *Effect {
	if !l.while {
		return nil
	}
	for _, q := range l.cells {
		if q.hole == nil || q.typ == nil {
			continue
		}
		sl, ok := q.typ.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		type taken struct {
			ic   *cell
			at   *Term
			lifo bool
		}
		ways := []taken{{nil, cInt(0), false}, {nil, mkAdd(mkLen(q.hole), cInt(-1)), true}}
		for _, i := range l.cells {
			if i.hole != nil && i != q && i.entry != nil {
				if n, ok := i.entry.intVal(); ok && n >= 0 {
					ways = append(ways, taken{i, i.hole, false})
				}
			}
		}
		if isNodeType(m, sl.Elem()) {
			if f := m.workLevels(l, q); f != nil {
				return f
			}
		}
		for _, we := range m.workElems(sl.Elem()) {
			for _, way := range ways {
				n, p := we.at(q.hole, way.at)
				why := m.workRound(l, q, way.ic, &we, n, p, way.lifo)
				if debugDag {
					println("work list", n.String(), why)
				}
				if why != "" {
					continue
				}
				if f := m.workEnd(l, q, way.ic, &we, n); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// workEnd accepts a loop over pending nodes, n being the one a round takes.
func (m *Model) workEnd(l *loopRec, q, ic *cell, we *workElem, n *Term) *Effect {
	f, sure := m.workDone(l, q, ic, we)
	if f == nil {
		return nil
	}
	if sure {
		// only nodes that are there are ever on the list
		var outs []Outcome
		for _, o := range l.run.outs {
			if v, ok := o.St.facts.b[mkEq(n, theNil)]; ok && v {
				continue
			}
			if t, ok := lastNil(o); ok && t.Op == OLoad && t.Args[0].Op == OIndexAddr && t.Args[0].Args[0] == q.hole {
				continue
			}
			outs = append(outs, o)
		}
		l.run.outs = outs
	}
	if m.workLoops == nil {
		m.workLoops = map[*ssa.BasicBlock]bool{}
	}
	m.workLoops[l.header] = true
	return f
}

// workLevels recognises a loop that replaces its list by the children of all
// nodes on it.
func (m *Model) workLevels(l *loopRec, q *cell) *Effect {
	w := &walker{e: l.e}
	if w.drains(l, q, nil) != "" || len(l.run.backs) == 0 {
		return nil
	}
	for _, b := range l.run.backs {
		if debugDag {
			println("levels", l.e.getCell(b.fr, b.st, q, b).String(), effList(b.st.effs))
		}
		segs := l.e.segsOf(b.st, l.e.getCell(b.fr, b.st, q, b))
		if m.foreign(b.st.effs, func(*Term) bool { return true }) != nil || len(segs) != 1 {
			return nil
		}
		all := func(y, list *Term) (*Term, bool) { // each element of a list
			if y.Op != OEach || len(y.Args) != 2 || y.Args[0].Op != OIdx || y.Args[0].Args[0] != list {
				return nil, false
			}
			return plainAlt(y.Args[1], mkNot(mkEq(mkLoad(mkIndexAddr(list, y.Args[0]), nil), theNil)))
		}
		in, ok := all(segs[0], q.hole)
		if !ok {
			return nil
		}
		n := unIface(mkLoad(mkIndexAddr(q.hole, segs[0].Args[0]), nil))
		kids := mk(OCall, "children", 0, nil, n)
		c, ok := all(in, kids)
		if in.Op == OSpread && in.Args[0] == kids {
			c, ok = nil, true
		}
		if !ok || c != nil && unIface(c) != unIface(mkLoad(mkIndexAddr(kids, in.Args[0]), nil)) {
			return nil
		}
		sets := false
		for _, f := range b.st.effs {
			if f.Kind != "each" || f.Prefix || f.Binder.Op != OIdx || f.Binder.Args[0] != q.hole || len(f.Alts) == 0 {
				continue
			}
			n := unIface(mkLoad(mkIndexAddr(q.hole, f.Binder), nil))
			kids := mk(OCall, "children", 0, nil, n)
			every := true
			for _, a := range f.Alts {
				some := false
				for _, g := range a.Effs {
					if g.Kind != "each" || g.Prefix || g.Binder.Op != OIdx || g.Binder.Args[0] != kids || len(g.Alts) == 0 {
						continue
					}
					own := true
					for _, x := range g.Alts {
						own = own && m.ownLink(nil, x.Effs, mkLoad(mkIndexAddr(kids, g.Binder), nil), n) == 1
					}
					some = some || own
				}
				every = every && some
			}
			sets = sets || every
		}
		if !sets {
			return nil
		}
	}
	return m.workEnd(l, q, nil, &workElem{typ: q.typ.Underlying().(*types.Slice).Elem(), parent: -1}, theNil)
}

// lastNil is the term whose absence made a path panic.
func lastNil(o Outcome) (*Term, bool) {
	for i := len(o.St.pc) - 1; i >= 0; i-- {
		c := o.St.pc[i]
		var t *Term
		if c.V {
			c.T.any(func(x *Term) bool {
				if x.Sym == "==" && len(x.Args) == 2 && x.Args[1] == theNil {
					t = unIface(x.Args[0])
				}
				return false
			})
		}
		if t != nil {
			return t, true
		}
	}
	return nil, false
}

// workRound checks the rounds of a loop that takes node n, which is to get
// parent p, off its list.
func (m *Model) workRound(l *loopRec, q, ic *cell, we *workElem, n, p *Term, lifo bool) string {
	w := &walker{e: l.e}
	if y := w.drains(l, q, ic); y != "" {
		return y
	}
	kids := mk(OCall, "children", 0, nil, n)
	for _, b := range l.run.backs {
		rest, why := l.joining(q, ic, b, lifo)
		if why != "" {
			return why
		}
		if m.foreign(b.st.effs, func(*Term) bool { return true }) != nil {
			return "a round does more than linking"
		}
		_, hi := l.e.interval(b.st, mkLen(kids))
		none := hi == 0
		if _, hi := l.e.lenInterval(b.st, kids); hi == 0 {
			none = true
		}
		if p != nil {
			own := false
			for _, f := range b.st.effs {
				if f.Kind == "store" && m.linkOf(f.Args[0]) == n {
					own = unIface(f.Args[1]) == p
				}
			}
			if !own {
				return "the node taken does not get its parent"
			}
		}
		if none && len(rest) == 0 {
			continue
		}
		if len(rest) != 1 {
			return "the children of the node taken do not join exactly once"
		}
		y := rest[0]
		switch {
		case y.Op == OSpread && p == nil && y.Args[0] == kids:
		case y.Op == OEach && len(y.Args) == 2 && y.Args[0].Op == OIdx && y.Args[0].Args[0] == kids:
			el, ok := plainAlt(y.Args[1], nil)
			if !ok {
				return "not every child joins"
			}
			c, cp := we.of(el)
			if c != unIface(mkLoad(mkIndexAddr(kids, y.Args[0]), nil)) || p != nil && cp != n {
				return "what joins is not a child with its parent"
			}
		default:
			return "what joins is not the children: " + y.String()
		}
		if p == nil {
			own := false
			for _, f := range b.st.effs {
				if f.Kind != "each" || f.Prefix || f.Binder.Op != OIdx || f.Binder.Args[0] != kids {
					continue
				}
				all := len(f.Alts) > 0
				for _, a := range f.Alts {
					all = all && m.ownLink(nil, a.Effs, mkLoad(mkIndexAddr(kids, f.Binder), nil), n) == 1
				}
				own = own || all
			}
			if !own {
				return "the children do not get their parent"
			}
		}
	}
	return ""
}

// plainAlt is the only element of an alternative under no condition but one.
func plainAlt(t, but *Term) (*Term, bool) {
	if t.Op != OAlt || len(t.Args[0].Args) > 1 || len(t.Args[0].Args) == 1 && t.Args[0].Args[0] != but || len(t.Args[1].Args) != 1 {
		return nil, false
	}
	return t.Args[1].Args[0], true
}

// workDone is what a loop over pending nodes has done in the end, and whether
// all nodes it starts with are there.
func (m *Model) workDone(l *loopRec, q, ic *cell, we *workElem) (done *Effect, sure bool) {
	link := func(el *Term) *Effect {
		n, p := we.of(el)
		if p == nil {
			return &Effect{Kind: "below", Args: []*Term{n}, Pos: l.pos, Fn: l.fn}
		}
		return &Effect{Kind: "linked", Args: []*Term{n, p}, Pos: l.pos, Fn: l.fn}
	}
	there := func(el *Term) bool {
		n, _ := we.of(el)
		if el.Op == OIface || el.Op == OStruct && el.Args[we.node].Op == OIface {
			return true
		}
		return l.e.eval(l.entry, mkEq(n, theNil)) == 0 || l.e.nonNil != nil && l.e.nonNil(l.entry, n)
	}
	segs := l.pending(q, ic)
	if len(segs) != 1 {
		return nil, false
	}
	y := segs[0]
	switch {
	case y.Op == OEach && len(y.Args) == 2 && y.Args[0].Op == OIdx:
		el, ok := plainAlt(y.Args[1], nil)
		if !ok {
			return nil, false
		}
		return &Effect{Kind: "each", Binder: y.Args[0], Alts: []EffAlt{{Effs: []*Effect{link(el)}}}, Pos: l.pos, Fn: l.fn}, there(el)
	case y.Op == OSpread:
		if we.st != nil {
			return nil, false
		}
		b := mk(OIdx, "", 0, nil, y.Args[0])
		return &Effect{Kind: "each", Binder: b, Alts: []EffAlt{{Effs: []*Effect{link(mkLoad(mkIndexAddr(y.Args[0], b), nil))}}}, Pos: l.pos, Fn: l.fn}, there(mkLoad(mkIndexAddr(y.Args[0], b), nil))
	case y.Op != OEach:
		return link(y), there(y)
	}
	return nil, false
}

// workLists reports whether a function has a loop that carries a list of nodes.
func (m *Model) workLists(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok || len(b.Preds) < 2 {
				continue
			}
			sl, ok := p.Type().Underlying().(*types.Slice)
			if !ok || len(m.workElems(sl.Elem())) == 0 {
				continue
			}
			for _, q := range b.Preds {
				if b.Dominates(q) {
					return true
				}
			}
		}
	}
	return false
}
