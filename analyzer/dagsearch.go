package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Reachability computed by a loop over a list of vertices still to visit,
// instead of by recursion.

// searchers marks the functions that remember sets of vertices found that way:
// they are treated like the recursive ones.
func (dm *dagModel) searchers() {
	done := map[*ssa.Function]bool{}
	found := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if done[fn] {
			return
		}
		done[fn] = true
		if !dm.rec[fn] && (dm.searches(fn) || dm.gathers(fn)) {
			found[fn] = true
		}
		for _, c := range staticCallees(fn) {
			if dm.p.inModule(fnPkgPath(c)) {
				visit(c)
			}
		}
	}
	for _, fn := range dm.methods() {
		visit(fn)
	}
	// Whoever remembers what a search finds is a closure function; the
	// searches themselves are seen as part of it.
	for ch := true; ch; {
		ch = false
		for fn := range done {
			if dm.rec[fn] {
				continue
			}
			for _, c := range staticCallees(fn) {
				if found[c] && !found[fn] {
					found[fn], ch = true, true
				}
			}
			if k, s, _ := dm.closureShape(fn); k >= 0 && s >= 0 && found[fn] && dm.touchesCache(fn) {
				dm.rec[fn], ch = true, true
			}
		}
	}
}

// touchesCache reports whether a function itself uses remembered answers.
func (dm *dagModel) touchesCache(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && dm.role[fa.Field] == "cache" {
				if n := namedOf(fa.X.Type()); n != nil && types.Identical(n, dm.d.graph) {
					return true
				}
			}
		}
	}
	return false
}

// searches reports whether a function has a loop that carries a list of IDs.
func (dm *dagModel) searches(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok && len(b.Preds) > 1 && dm.isKeys(p.Type()) {
				for _, q := range b.Preds {
					if b.Dominates(q) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (dm *dagModel) isKeys(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), dm.d.key)
}

// searchResult is what a search leaves in its set of vertices met.
func (dm *dagModel) searchResult(l *loopRec, c *cell) *Term {
	if c.hole == nil || !l.while {
		return nil
	}
	for _, q := range l.cells {
		if q.hole == nil || q == c || !dm.isKeys(q.typ) {
			continue
		}
		type taken struct {
			ic   *cell
			at   *Term
			lifo bool
		}
		ways := []taken{{nil, cInt(0), false}, {nil, mkAdd(mkLen(q.hole), cInt(-1)), true}}
		for _, i := range l.cells {
			if i.hole != nil && i.hole != q.hole && i.entry != nil {
				if n, ok := i.entry.intVal(); ok && n >= 0 {
					ways = append(ways, taken{i, i.hole, false})
				}
			}
		}
		for _, way := range ways {
			start := dm.startOf(l, q, way.ic)
			if start == nil {
				continue
			}
			head := mkLoad(mkIndexAddr(q.hole, way.at), dm.d.key)
			for _, dir := range []string{"out", "in"} {
				w := &walker{dm: dm, e: l.e, dir: dir}
				sr := w.search(l, q, way.ic, head, start, way.lifo)
				if debugDag {
					println("search", dir, head.String(), sr.why)
				}
				if sr.why == "" && sr.vis == c && dm.keepsSets(l, c) {
					return dm.reached(dir, start, sr.itself)
				}
				if c.obj != 0 && len(c.path) == 0 && c.phi == nil && c.addr == nil && c.m == nil {
					itself, why := w.searchLate(l, q, way.ic, c, head, start, way.lifo)
					if debugDag {
						println("searchLate", dir, head.String(), why)
					}
					if why == "" && dm.keepsSets(l, c) {
						return dm.reached(dir, start, itself)
					}
				}
			}
		}
	}
	return nil
}

func (dm *dagModel) reached(dir string, start *Term, itself bool) *Term {
	t := mk(OCall, "reach:"+dir, 0, nil, start)
	es := []*Term{mk(OBase, "", 0, nil, t)}
	if itself {
		es = append(es, mk(OIns, "", 0, nil, start, start))
	}
	return mk(OMap, "", 0, nil, es...)
}

// startOf is the vertex whose neighbours the list starts with.
func (dm *dagModel) startOf(l *loopRec, q, ic *cell) *Term {
	for _, y := range l.pending(q, ic) {
		if y.Op != OEach || y.Args[0].Op != OKey {
			return nil
		}
		m := y.Args[0].Args[0]
		if m.Op == OMapVer {
			m = m.Args[0]
		}
		if m.Op == OLookup {
			return m.Args[1]
		}
	}
	return nil
}

// keepsSets requires that what joins the set maps vertices to themselves.
func (dm *dagModel) keepsSets(l *loopRec, c *cell) bool {
	ok := func(es []*Term) bool {
		for _, y := range es {
			if y.Op != OHole && y.Op != OBase && !setEntry(y) {
				return false
			}
		}
		return true
	}
	e := c.entry
	if e.Op == OObj && l.entry.heap[e.N] != nil {
		e = l.entry.heap[e.N].val
	}
	if e.Op != OMap || !ok(e.Args) {
		return false
	}
	for _, b := range l.run.backs {
		if v := l.e.getCell(b.fr, b.st, c, b); v == nil || v.Op != OMap || !ok(v.Args) {
			return false
		}
	}
	return true
}

// searchLate checks a search that marks a vertex when it takes it, and passes
// over those marked before.
func (w *walker) searchLate(l *loopRec, q, ic, vis *cell, head, start *Term, lifo bool) (itself bool, why string) {
	inVis := func(m, b *Term) bool { return w.setBase(m, l, b, head) == vis.hole }
	item := func(p *Term) *Term { return p }
	expands := false
	for _, b := range l.run.backs {
		rest, why := l.joining(q, ic, b, lifo)
		if why != "" {
			return false, why
		}
		met, tested := false, false
		for _, c := range b.st.pc[l.n0:] {
			g := c.term()
			if s, k, in, ok := visitedTest(g); ok && k == head && (s == vis.hole || s.Op == OMap && len(s.Args) == 1 && (s.Args[0] == vis.hole || s.Args[0].Op == OBase && s.Args[0].Args[0] == vis.hole)) {
				met, tested = in, true
			}
		}
		if !tested {
			return false, "a round does not ask whether it met its vertex before"
		}
		v := l.e.getCell(b.fr, b.st, vis, b)
		if met {
			if len(rest) > 0 || v != vis.hole && !(v.Op == OMap && len(v.Args) == 1 && v.Args[0] == vis.hole) {
				return false, "a vertex met before is not passed over"
			}
			continue
		}
		expands = true
		if v.Op != OMap || len(v.Args) != 2 || v.Args[0] != vis.hole || v.Args[1].Op != OIns || v.Args[1].Args[0] != head || !truthy(v.Args[1]) {
			return false, "the vertex taken is not marked as met"
		}
		if len(rest) != 1 {
			return false, "the neighbours of the vertex taken do not join exactly once"
		}
		en := w.reads(rest[0], l, head, start, func(m, k *Term) (bool, bool) {
			if inVis(m, k) {
				return true, true
			}
			if m.Op == OMap && len(m.Args) == 2 && m.Args[0] == vis.hole && m.Args[1].Op == OIns && m.Args[1].Args[0] == head {
				return true, true
			}
			return false, false
		}, item)
		if !en.only || !en.all {
			return false, en.why
		}
	}
	if !expands {
		return false, "no round goes on to the neighbours"
	}
	if y := w.starts(l, l.pending(q, ic), start, item, nil); y != "" {
		return false, y
	}
	ve := vis.entry
	if ve.Op == OObj && l.entry.heap[ve.N] != nil {
		ve = l.entry.heap[ve.N].val
	}
	if ve.Op != OMap {
		return false, "the set of vertices met is not new"
	}
	for _, y := range ve.Args {
		if y.Op != OIns || y.Args[0] != start || !truthy(y) {
			return false, "the set of vertices met is not new"
		}
		itself = true
	}
	return itself, w.drains(l, q, ic)
}
