package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

// runGo analyses the body of a goroutine started on a path.
func (dm *dagModel) runGo(s *dagSummary, p *post, f *Effect, onLoop func(*loopRec)) (*Engine, []Outcome, *Undecided) {
	e := dm.engine()
	e.Inlined = map[*ssa.Function]bool{}
	defer func() {
		for fn := range e.Inlined {
			dm.inlined[fn] = true
		}
	}()
	e.onLoop = onLoop
	e.funcs = s.e.funcs
	fv := f.Args[0]
	fn := e.funcs[fv.Sym]
	if fn == nil {
		return e, nil, &Undecided{Msg: "the goroutine's function is not known", Pos: f.Pos}
	}
	e.objSeq, e.symSeq = s.e.objSeq, s.e.symSeq
	e.nonNil = func(old func(*State, *Term) bool) func(*State, *Term) bool {
		return func(st *State, t *Term) bool { return t.Op == OObj || old(st, t) }
	}(e.nonNil)
	var outs []Outcome
	var und *Undecided
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(*Undecided); ok {
					und = u
					return
				}
				panic(r)
			}
		}()
		st := p.st.clone()
		st.effs = nil
		st.pcAt = map[*Term]int{}
		e.stack = nil
		outs = e.Call(st, fn, f.Args[1:], fv.Args)
	}()
	return e, outs, und
}

// checkStale (D04).
func checkStale(r *Report, dm *dagModel) {
	r.rule = "on every path, for every edge added or removed between x and y, no remembered descendants survive for x or anything above it and no remembered ancestors survive for y or anything below it; remembered answers are only written as the closure of their own vertex"
	r.assume = dagAssume
	r.constructor(dm)
	r.closures(dm, true)
	r.floor("operations", 20)
	x, y, k := dm.sym("x"), dm.sym("y"), dm.sym("k")
	was := fAtom("out", x, y)
	for _, s := range dm.exported() {
		if !r.usable(dm, s) {
			continue
		}
		for _, p := range s.posts {
			for _, d := range p.deltas {
				if d.kind == "cacheSet" {
					dir := dm.cacheDir[d.field]
					ok := dir != "" && p.same(p.out, "out") && p.same(p.in, "in")
					if ok {
						why := decide(func() {
							ok = p.holds(fImp(d.guard, fIff(p.member(d.val, y), reachF(dir, d.row, y))))
						})
						ok = ok && why == ""
					}
					r.ob(ok, "remember:"+s.name, d.pos, "%s remembers an answer for a vertex that need not be right", s.name)
				}
				if d.kind == "replace" && dm.role[d.field] == "cache" {
					o := p.st.heap[d.val.N]
					r.ob(d.val.Op == OObj && o != nil && o.val.Op == OMap && len(o.val.Args) == 0, "remember:"+s.name, d.pos, "%s replaces the remembered answers by something not empty", s.name)
				}
			}
			changed := false
			for _, view := range []*F{p.out, p.in} {
				ch := fOr(fAnd(view, fNot(was)), fAnd(was, fNot(view)))
				if unsat(fAnd(p.pcF, ch)) {
					continue
				}
				changed = true
				c := dm.sym("c")
				implied := fAnd(was, fExists(c, fAnd(fAtom("out", x, c), fAtom("reach", c, y))))
				if p.holds(fImp(ch, implied)) {
					continue // removing implied edges keeps every answer right
				}
				for f, cache := range p.cache {
					name := dm.st.Field(f).Name()
					dir := dm.cacheDir[f]
					if dir == "" {
						// nothing is ever remembered here
						continue
					}
					var hit *F
					what := ""
					if dir == "out" {
						hit = fOr(fAtom("=", k, x), fAtom("reach", k, x))
						what = "descendants of a vertex at or above the edge's source"
					} else {
						hit = fOr(fAtom("=", k, y), fAtom("reach", y, k))
						what = "ancestors of a vertex at or below the edge's target"
					}
					left := cache.subst(map[*Term]*Term{p.X: k})
					r.ob(p.holds(fImp(fAnd(ch, hit), fNot(left))), "stale:"+s.name+":"+name, p.o.Pos, "%s changes an edge but can keep remembered %s (%s) %s", s.name, what, name, p.when())
				}
			}
			if changed {
				r.count("paths changing edges", 1)
				for _, d := range p.deltas {
					if d.kind == "fill" && p.afterChange(d) {
						r.ob(false, "late:"+s.name, d.pos, "%s asks for reachability in the middle of changing the edges", s.name)
					}
				}
			} else {
				r.ob(true, "stale:"+s.name, p.o.Pos, "")
			}
		}
	}
	r.floor("paths changing edges", 3)
	n := 0
	for _, d := range dm.cacheDir {
		if d != "" {
			n++
		}
	}
	r.count("remembered directions", n)
}

// afterChange reports whether a closure is computed after an edge changed.
func (p *post) afterChange(d *delta) bool {
	for _, x := range p.deltas {
		switch x.kind {
		case "addEdge", "delEdge", "setRow", "delRow", "clearRow":
			if x.top < d.top {
				return true
			}
		}
	}
	return false
}

// values checks that every key of a result map holds that vertex's value.
func (p *post) values(t *Term) bool {
	es, ok := p.resultEntries(t)
	if !ok {
		return false
	}
	var good func(es []*Term) bool
	good = func(es []*Term) bool {
		for _, x := range es {
			switch x.Op {
			case OIns:
				v := x.Args[1]
				if v.Op != OLookup {
					return false
				}
				f, ok := p.dm.fieldOfMap(v.Args[0])
				if !ok || p.dm.role[f] != "V" || p.key(v.Args[1]) != p.key(x.Args[0]) {
					return false
				}
			case OBase:
				f, ok := p.dm.fieldOfMap(x.Args[0])
				if !ok || p.dm.role[f] != "V" {
					return false
				}
			case ODel:
			case OEach:
				for _, a := range x.Args[1:] {
					if !good(a.Args[1].Args) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return good(es)
}

func (p *post) resultEntries(t *Term) ([]*Term, bool) {
	if t.Op == OObj {
		o := p.st.heap[t.N]
		if o != nil && o.val.Op == OMap {
			return o.val.Args, true
		}
		return nil, o != nil && o.val.Op == OZero
	}
	if t.Op == OMap {
		return t.Args, true
	}
	if t.Op == ONil {
		return nil, true
	}
	return nil, false
}

// resultMap checks the keys and values of a map of vertices.
func (r *Report) resultMap(s *dagSummary, p *post, spec *F, what string) {
	t := p.o.Results[0]
	var mem *F
	why := decide(func() { mem = p.entriesOf(t, p.X) })
	if why != "" {
		r.ob(false, "result:"+s.name, p.o.Pos, "%s: %s", s.name, why)
		return
	}
	r.ob(p.holds(fIff(mem, spec)), "result:"+s.name, p.o.Pos, "%s: %s", s.name, p.diff(mem, spec, "the result can contain a vertex that is not "+what, "the result can miss a vertex that is "+what))
	r.ob(p.values(t), "values:"+s.name, p.o.Pos, "%s does not map every ID to the value of that vertex %s", s.name, p.when())
}

// checkClosure (D05).
func checkClosure(r *Report, dm *dagModel) {
	r.rule = "each recursive reachability function returns exactly the neighbours of the vertex and everything reachable from them, recursing only to neighbours; the exported queries map exactly these IDs to their values"
	r.assume = dagAssume
	r.closures(dm, true)
	for name, dir := range map[string]string{"GetAncestors": "in", "GetDescendants": "out"} {
		s := dm.op(r, name)
		if s == nil {
			continue
		}
		id := s.param(1)
		n := 0
		for _, p := range s.posts {
			if bad, _ := s.failed(p); bad || p.o.Panic {
				continue
			}
			n++
			r.resultMap(s, p, reachF(dir, id, p.X), map[string]string{"in": "an ancestor", "out": "a descendant"}[dir])
		}
		r.ob(n > 0, "success:"+name, s.fn.Pos(), "%s never succeeds", name)
	}
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	}
	return false
}

// checkFresh (D09).
func checkFresh(r *Report, dm *dagModel) {
	r.rule = "every map, set or slice returned by an exported operation of the graph or of Set is storage allocated by that call, kept neither in the graph nor in an operand, with nothing shared inside"
	r.assume = dagAssume
	r.floor("collections", 12)
	fresh := func(name string, st *State, t *Term, stored map[int]token.Pos, pos token.Pos) {
		r.count("collections", 1)
		if t.Op == ONil {
			r.ob(true, "fresh:"+name, pos, "")
			return
		}
		ok := t.Op == OObj && st.heap[t.N] != nil
		if t.Op == OMap {
			ok = false
		}
		if !r.ob(ok, "fresh:"+name, pos, "%s hands out %s, which it did not make for this call", name, t) {
			return
		}
		_, kept := stored[t.N]
		r.ob(!kept, "kept:"+name, pos, "%s keeps the collection it hands out", name)
		for a, v := range st.overlay {
			r.ob(!v.contains(t) || a == nil, "kept:"+name, pos, "%s keeps the collection it hands out", name)
		}
		for m, log := range st.mapLog {
			for _, x := range log {
				r.ob(!x.contains(t), "kept:"+name, pos, "%s keeps the collection it hands out in %s", name, m)
			}
		}
	}
	for _, s := range dm.exported() {
		if !r.usable(dm, s) {
			continue
		}
		rs := s.fn.Signature.Results()
		for _, p := range s.posts {
			if p.o.Panic {
				continue
			}
			for i := 0; i < rs.Len(); i++ {
				if refType(rs.At(i).Type()) {
					fresh(s.name, p.st, p.o.Results[i], p.stored, p.o.Pos)
				}
			}
		}
	}
	for _, ss := range dm.setOps(r) {
		rs := ss.fn.Signature.Results()
		for _, o := range ss.outs {
			if o.Panic {
				continue
			}
			for i := 0; i < rs.Len(); i++ {
				if refType(rs.At(i).Type()) {
					fresh("Set."+ss.fn.Name(), o.St, o.Results[i], nil, o.Pos)
				}
			}
		}
	}
}

// checkReduce (D13).
func checkReduce(r *Report, dm *dagModel) {
	r.rule = "on every path the edges left are exactly those x to y for which no child of x reaches y, in both tables; vertices and values are untouched; no remembered answer that the reduction relies on can be missing"
	r.assume = append([]string{"removing from an acyclic graph exactly the edges implied by another child keeps every reachability relation (transitive reduction theorem)"}, dagAssume...)
	r.closures(dm, true)
	x, y, c := dm.sym("x"), dm.sym("y"), dm.sym("c")
	was := fAtom("out", x, y)
	dm.needC = false
	delete(dm.sums, "ReduceTransitively")
	s := dm.op(r, "ReduceTransitively")
	if s == nil {
		return
	}
	spec := fAnd(was, fNot(fExists(c, fAnd(fAtom("out", x, c), fAtom("reach", c, y)))))
	for _, p := range s.posts {
		if p.o.Panic {
			r.ob(false, "panic", p.o.Pos, "ReduceTransitively can panic: %s", p.o.Reason)
			continue
		}
		r.count("paths", 1)
		for _, v := range []struct {
			f    *F
			name string
		}{{p.out, "outbound"}, {p.in, "inbound"}} {
			r.ob(p.holds(fIff(v.f, spec)), "reduce:"+v.name, p.o.Pos, "ReduceTransitively, %s table: %s", v.name, p.diff(v.f, spec, "an implied edge can be left", "an edge that is not implied can be removed"))
		}
		r.ob(p.same(p.V, "V"), "vertices", p.o.Pos, "ReduceTransitively changes the vertices")
		r.ob(p.sameVals(), "values", p.o.Pos, "ReduceTransitively changes the value of a vertex")
	}
	r.floor("paths", 1)
	if !dm.needC {
		return
	}
	relies := false
	for _, c := range dm.clos {
		relies = relies || c.fills
	}
	anyCaches = true
	for _, p := range s.posts {
		relies = relies || !p.o.Panic && !(p.holds(fIff(p.out, spec)) && p.holds(fIff(p.in, spec)))
	}
	anyCaches = false
	if !relies {
		return
	}
	// The reduction takes remembered answers for granted once those of the
	// roots were asked for: whatever is remembered must be remembered for
	// everything below (above) it too.
	for _, s := range dm.exported() {
		if !r.usable(dm, s) {
			continue
		}
		for _, p := range s.posts {
			for f, cache := range p.cache {
				dir := dm.cacheDir[f]
				if dir != "out" {
					continue
				}
				below := cache.subst(map[*Term]*Term{x: y})
				r.ob(p.holds(fImp(fAnd(cache, reachF(dir, x, y)), below)), "closed:"+s.name, p.o.Pos, "%s can discard the remembered answer of a vertex and keep that of one above it, which ReduceTransitively relies on %s", s.name, p.when())
			}
		}
	}
}

// checkStructure (D14).
func checkStructure(r *Report, dm *dagModel) {
	r.rule = "the value returned on every path of each structural query equals its definition over the vertices and edges"
	r.assume = dagAssume
	q := dm.sym("q")
	noParent := func(x *Term) *F { return fNot(fExists(q, fAtom("out", q, x))) }
	noChild := func(x *Term) *F { return fNot(fExists(q, fAtom("out", x, q))) }
	type spec struct {
		f    func(s *dagSummary, p *post) *F
		what string
	}
	specs := map[string]spec{
		"GetRoots":    {func(s *dagSummary, p *post) *F { return fAnd(fAtom("V", p.X), noParent(p.X)) }, "a vertex without parents"},
		"GetLeaves":   {func(s *dagSummary, p *post) *F { return fAnd(fAtom("V", p.X), noChild(p.X)) }, "a vertex without children"},
		"GetVertices": {func(s *dagSummary, p *post) *F { return fAtom("V", p.X) }, "a vertex"},
		"GetParents":  {func(s *dagSummary, p *post) *F { return fAtom("out", p.X, s.param(1)) }, "a parent"},
		"GetChildren": {func(s *dagSummary, p *post) *F { return fAtom("out", s.param(1), p.X) }, "a child"},
	}
	for _, name := range sortedKeys(specs) {
		s := dm.op(r, name)
		if s == nil {
			continue
		}
		n := 0
		for _, p := range s.posts {
			if bad, _ := s.failed(p); bad || p.o.Panic {
				continue
			}
			n++
			r.resultMap(s, p, specs[name].f(s, p), specs[name].what)
		}
		r.ob(n > 0, "success:"+name, s.fn.Pos(), "%s never succeeds", name)
	}
	if s := dm.op(r, "IsEdge"); s != nil {
		for _, p := range s.posts {
			if p.o.Panic {
				continue
			}
			edge := fAtom("out", s.param(1), s.param(2))
			var got *F
			why := decide(func() { got = p.cond(p.o.Results[0]) })
			if why != "" {
				r.ob(false, "result:IsEdge", p.o.Pos, "IsEdge: %s", why)
				continue
			}
			if bad, _ := s.failed(p); bad {
				r.ob(p.holds(fImp(got, edge)), "result:IsEdge", p.o.Pos, "IsEdge can report an edge that is not there %s", p.when())
			} else {
				r.ob(p.holds(fIff(got, edge)), "result:IsEdge", p.o.Pos, "IsEdge: %s", p.diff(got, edge, "an edge that is not there is reported", "an edge that is there is not reported"))
			}
		}
	}
	if s := dm.op(r, "GetVertex"); s != nil {
		for _, p := range s.posts {
			if bad, _ := s.failed(p); bad || p.o.Panic {
				continue
			}
			t := p.o.Results[0]
			for t.Op == OIface || t.Op == OConv {
				t = t.Args[0]
			}
			ok := t.Op == OLookup && p.key(t.Args[1]) == s.param(1)
			if ok {
				f, isF := dm.fieldOfMap(t.Args[0])
				ok = isF && dm.role[f] == "V"
			}
			r.ob(ok, "result:GetVertex", p.o.Pos, "GetVertex does not return the value stored for the ID %s", p.when())
		}
	}
	if s := dm.op(r, "GetOrder"); s != nil {
		for _, p := range s.posts {
			r.ob(!p.o.Panic && p.counts(p.o.Results[0], "V"), "result:GetOrder", p.o.Pos, "GetOrder does not return the number of vertices")
		}
	}
	if s := dm.op(r, "GetSize"); s != nil {
		for _, p := range s.posts {
			r.ob(!p.o.Panic && p.countsEdges(p.o.Results[0]), "result:GetSize", p.o.Pos, "GetSize does not return the number of edges")
		}
	}
}

// counts reports whether t is the number of vertices.
func (p *post) counts(t *Term, role string) bool {
	if t.Op == OLen {
		m := t.Args[0]
		if f, ok := p.dm.fieldOfMap(m); ok && p.dm.role[f] == role {
			return true
		}
		if m.Op == OObj || m.Op == OMap {
			var f *F
			return decide(func() { f = p.entriesOf(m, p.X) }) == "" && p.holds(fIff(f, fAtom(role, p.X)))
		}
		return false
	}
	// one added for every key
	if t.Op == OCall && t.Sym == "sum" && len(t.Args) == 1 && t.Args[0].Op == OEach {
		ea := t.Args[0]
		b := ea.Args[0]
		if b.Op != OKey {
			return false
		}
		f, ok := p.dm.fieldOfMap(b.Args[0])
		if !ok || p.dm.role[f] != role {
			return false
		}
		for _, a := range ea.Args[1:] {
			for _, x := range a.Args[1].Args {
				if n, ok := x.intVal(); !ok || n != 1 {
					return false
				}
			}
		}
		return true
	}
	return false
}

// countsEdges reports whether t adds up the sizes of all rows of a table.
func (p *post) countsEdges(t *Term) bool {
	if t.Op == OBin && t.Sym == "+" {
		if n, ok := t.Args[1].intVal(); ok && n == 0 {
			return p.countsEdges(t.Args[0])
		}
		if n, ok := t.Args[0].intVal(); ok && n == 0 {
			return p.countsEdges(t.Args[1])
		}
	}
	if t.Op != OCall || t.Sym != "sum" || len(t.Args) != 1 || t.Args[0].Op != OEach {
		return false
	}
	ea := t.Args[0]
	b := ea.Args[0]
	if b.Op != OKey {
		return false
	}
	f, ok := p.dm.fieldOfMap(b.Args[0])
	if !ok {
		return false
	}
	role := p.dm.role[f]
	if role == "cache" {
		return false
	}
	for _, a := range ea.Args[1:] {
		total := fFalse
		n := 0
		for _, x := range a.Args[1].Args {
			if k, ok := x.intVal(); ok && k == 0 {
				continue
			}
			n++
			var row *Term
			if x.Op == OLen && x.Args[0].Op == OLookup {
				row = x.Args[0]
			} else if x.Op == OCall && x.Sym == "sum" && len(x.Args) == 1 && x.Args[0].Op == OEach {
				in := x.Args[0]
				if in.Args[0].Op == OKey && in.Args[0].Args[0].Op == OLookup {
					row = in.Args[0].Args[0]
					for _, y := range in.Args[1:] {
						if len(y.Args[0].Args) > 0 {
							return false
						}
						for _, z := range y.Args[1].Args {
							if k, ok := z.intVal(); !ok || k != 1 {
								return false
							}
						}
					}
				}
			}
			if row == nil {
				return false
			}
			rf, ok := p.dm.fieldOfMap(row.Args[0])
			if !ok || row.Args[0].Op != OLoad || p.key(row.Args[1]) != p.key(b) {
				return false
			}
			rr := p.dm.role[rf]
			if rr != "out" && rr != "in" || role != "V" && rr != role {
				return false
			}
			total = fTrue
		}
		if n > 1 {
			return false
		}
		if total.op == 'F' {
			// nothing is added: the row must be empty
			var g *F
			if decide(func() { g = fAnd(p.dom(b), p.conds(a.Args[0].Args)) }) != "" {
				return false
			}
			d := role
			if d == "V" {
				return false
			}
			if !valid(fImp(g, fNot(edgeF(d, p.key(b), p.Y)))) {
				return false
			}
		}
	}
	return true
}

// setOp is one analysed method of Set.
type setOp struct {
	fn   *ssa.Function
	e    *Engine
	outs []Outcome
	args []*Term
}

func (dm *dagModel) setOps(r *Report) []*setOp {
	var out []*setOp
	for _, fn := range methodsOf(dm.p, dm.d.set) {
		if !token.IsExported(fn.Name()) {
			continue
		}
		e := dm.engine()
		e.dyncall = func(e *Engine, st *State, f *Term, args []*Term, pos token.Pos) ([]Outcome, bool) {
			if f.Op != OSym {
				return nil, false
			}
			t := mk(OCall, "cb:"+f.Sym, 0, nil, args...)
			sig, ok := f.Typ.Underlying().(*types.Signature)
			if !ok || sig.Results().Len() != 1 {
				return nil, false
			}
			if t.Typ == nil {
				t.Typ = sig.Results().At(0).Type()
			}
			return []Outcome{{St: st, Results: []*Term{t}, Pos: pos}}, true
		}
		op := &setOp{fn: fn, e: e}
		for i, p := range fn.Params {
			t := mk(OSym, fmt.Sprintf("p%d", i), 0, p.Type())
			if t.Typ == nil {
				t.Typ = p.Type()
			}
			// Symbols are shared by name: sets and IDs get names of their own.
			if dm.isSet(p.Type()) {
				t = mk(OSym, fmt.Sprintf("set%d", i), 0, p.Type())
				if t.Typ == nil {
					t.Typ = p.Type()
				}
			}
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				t = mk(OSym, "callback", 0, p.Type())
				if t.Typ == nil {
					t.Typ = p.Type()
				}
			}
			op.args = append(op.args, t)
		}
		old := e.nonNil
		e.nonNil = func(st *State, t *Term) bool { return t.Op == OSym && t.Sym == "callback" || old(st, t) }
		outs, und := e.runFn(fn, func(st *State) []*Term { return op.args })
		r.functions[fn.String()] = true
		r.covers(e)
		r.count("set operations", 1)
		if und != nil {
			r.undecided("Set."+fn.Name(), und)
			continue
		}
		op.outs = outs
		r.paths += len(outs)
		out = append(out, op)
	}
	return out
}

func init() { checks["D15"] = withDag(checkSets) }

// specSets are the set operations the property defines.
var specSets = map[string]bool{"Add": true, "Delete": true, "Includes": true, "Intersection": true, "Difference": true, "Filter": true, "List": true, "Copy": true}

// checkSets (D15).
func checkSets(r *Report, dm *dagModel) {
	r.rule = "membership of the result of every path of each Set method equals the set-algebra definition over membership in the operands, elements are stored under themselves, and operands are not written"
	r.assume = []string{"sets are built by this package's methods, which store every element under itself", "elements equal themselves (no NaN)", "callbacks passed to Filter have no effect on the sets"}
	x := dm.sym("x")
	in := func(t *Term) *F { return fAtom("in:"+t.Sym, x) }
	found := map[string]bool{}
	for _, op := range dm.setOps(r) {
		name := op.fn.Name()
		found[name] = true
		a := op.args
		for _, o := range op.outs {
			p := &post{rel: &rel{dm: dm, e: op.e, st: o.St}, o: o, X: x, Y: dm.sym("y"), stored: map[int]token.Pos{}}
			why := decide(func() { p.pcF = p.pc() })
			if why != "" {
				r.ob(false, "set:"+name, o.Pos, "Set.%s: %s", name, why)
				continue
			}
			if !p.feasible() {
				continue
			}
			if o.Panic && !specSets[name] {
				continue
			}
			if o.Panic {
				// a nil set cannot take an element
				ok := name == "Add" && strings.Contains(o.Reason, "nil")
				r.ob(ok, "panic:"+name, o.Pos, "Set.%s can panic: %s %s", name, o.Reason, p.when())
				continue
			}
			mutates := name == "Add" || name == "Delete"
			if !mutates && specSets[name] {
				for _, f := range o.St.effs {
					r.ob(f.Kind == "call", "operand:"+name, f.Pos, "Set.%s changes something: %s", name, f.Kind)
				}
				if len(o.St.effs) == 0 {
					r.ob(true, "operand:"+name, o.Pos, "")
				}
			}
			isSetResult := func(spec *F) {
				t := o.Results[0]
				var mem *F
				why := decide(func() { mem = p.entriesOf(t, x) })
				if why != "" {
					r.ob(false, "set:"+name, o.Pos, "Set.%s: %s", name, why)
					return
				}
				r.ob(p.holds(fIff(mem, spec)), "set:"+name, o.Pos, "Set.%s: %s", name, p.diff(mem, spec, "the result can hold an element it should not", "the result can miss an element"))
				es, ok := p.resultEntries(t)
				r.ob(ok && p.selfMapped(es), "self:"+name, o.Pos, "Set.%s stores an element under another key", name)
			}
			switch name {
			case "Add", "Delete":
				es := op.e.mapEntries(o.St, a[0])
				mem := fFalse
				why := decide(func() { mem = p.entries(es, x) })
				spec := fOr(in(a[0]), fAtom("=", x, a[1]))
				if name == "Delete" {
					spec = fAnd(in(a[0]), fNot(fAtom("=", x, a[1])))
				}
				r.ob(why == "" && p.holds(fIff(mem, spec)), "set:"+name, o.Pos, "Set.%s does not change exactly the named element %s", name, why)
				r.ob(p.selfMapped(es), "self:"+name, o.Pos, "Set.%s stores an element under another key", name)
				for _, f := range o.St.effs {
					r.ob((f.Kind == "mapset" || f.Kind == "mapdel") && f.Args[0] == a[0], "operand:"+name, f.Pos, "Set.%s has the effect %s", name, f)
				}
			case "Includes":
				var got *F
				why := decide(func() { got = p.cond(o.Results[0]) })
				r.ob(why == "" && p.holds(fIff(got, in(a[0]).subst(map[*Term]*Term{x: a[1]}))), "set:"+name, o.Pos, "Set.Includes does not report membership %s", why)
			case "Intersection":
				isSetResult(fAnd(in(a[0]), in(a[1])))
			case "Difference":
				isSetResult(fAnd(in(a[0]), fNot(in(a[1]))))
			case "Copy":
				isSetResult(in(a[0]))
			case "Filter":
				isSetResult(fAnd(in(a[0]), p.cond(mk(OCall, "cb:callback", 0, nil, x))))
			case "List":
				r.ob(p.lists(o.Results[0], a[0]), "set:List", o.Pos, "Set.List does not list each element once %s", p.when())
			default:
				// an operation added to the ones specified: whatever set it fills
				// or returns has to map every element to itself
				r.count("other set operations", 1)
				for _, f := range o.St.effs {
					if f.Kind == "mapset" {
						r.ob(p.key(f.Args[1]) == p.key(f.Args[2]), "self:"+name, f.Pos, "Set.%s stores an element under another key", name)
					}
				}
				for _, t := range o.Results {
					if es, ok := p.resultEntries(t); ok {
						r.ob(p.selfMapped(es), "self:"+name, o.Pos, "Set.%s stores an element under another key", name)
					}
				}
			}
		}
	}
	for n := range specSets {
		r.ob(found[n], "set:"+n, token.NoPos, "Set has no analysable method %s", n)
	}
}

// selfMapped reports whether every entry maps an element to itself.
func (p *post) selfMapped(es []*Term) bool {
	for _, x := range es {
		switch x.Op {
		case OIns:
			if p.key(x.Args[0]) != p.key(x.Args[1]) {
				return false
			}
		case OBase:
			if !p.dm.isSetTerm(x.Args[0], p.st) {
				return false
			}
		case OEach:
			for _, a := range x.Args[1:] {
				if !p.selfMapped(a.Args[1].Args) {
					return false
				}
			}
		}
	}
	return true
}

// lists reports whether the slice t has each element of set m exactly once.
func (p *post) lists(t, m *Term) bool {
	if t.Op == ONil {
		return p.holds(p.empty(m))
	}
	if t.Op != OObj {
		return false
	}
	o := p.st.heap[t.N]
	if o == nil || o.val.Op != OSeq {
		return false
	}
	if len(o.val.Args) == 0 {
		return p.holds(p.empty(m))
	}
	if len(o.val.Args) != 1 || o.val.Args[0].Op != OEach {
		return false
	}
	ea := o.val.Args[0]
	b := ea.Args[0]
	if b.Op != OKey || b.Args[0] != m {
		return false
	}
	for _, a := range ea.Args[1:] {
		if len(a.Args[1].Args) == 0 {
			var g *F
			if decide(func() { g = fAnd(p.dom(b), p.conds(a.Args[0].Args)) }) != "" || !unsat(g) {
				return false
			}
			continue
		}
		if len(a.Args[1].Args) != 1 || p.key(a.Args[1].Args[0]) != p.key(b) {
			return false
		}
	}
	return true
}
