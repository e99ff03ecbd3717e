package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Reachability collected by a recursive function into a set it is handed (or
// shares with the function that declares it), instead of returned.

// gatherer is one analysed function of that kind.
type gatherer struct {
	busy  bool
	fn    *ssa.Function
	keyAt int
	args  []*Term // the other arguments, as given by the outer call
	acc   *Term   // the set it fills
	dir   string
	entry bool // it puts the vertex it is given in the set, too
	why   string
}

// gatherShape finds the ID parameter of a function that returns nothing, or
// the set it was given.
func (dm *dagModel) gatherShape(fn *ssa.Function) int {
	if rs := fn.Signature.Results(); rs.Len() > 1 || rs.Len() == 1 && !dm.isSet(rs.At(0).Type()) {
		return -1
	}
	k := -1
	for i, p := range fn.Params {
		if types.Identical(p.Type(), dm.d.key) {
			if k >= 0 {
				return -1
			}
			k = i
		}
	}
	return k
}

// gathers reports whether a function may leave the collecting to another one.
func (dm *dagModel) gathers(fn *ssa.Function) bool {
	for _, c := range staticCallees(fn) {
		if dm.rec[c] && dm.gatherShape(c) >= 0 {
			return true
		}
	}
	for _, c := range fn.AnonFuncs {
		if dm.gatherShape(c) >= 0 && c.Signature.Recv() == nil && len(c.Params) == 1 {
			return true
		}
	}
	return false
}

// gather gives calls of such functions their meaning.
func (dm *dagModel) gather(e *Engine, st *State, fn *ssa.Function, args, bindings []*Term, pos token.Pos) ([]Outcome, bool) {
	k := dm.gatherShape(fn)
	if k < 0 || k >= len(args) {
		return nil, false
	}
	if g := dm.gathering; g != nil && g.busy && g.fn == fn {
		for i, a := range args {
			if i != k && a != g.args[i] {
				g.why = "it hands on something else than it was given"
			}
		}
		es := e.mapEntries(st, g.acc)
		v := e.newVersion(g.acc, &mapVersion{entry: mk(OMap, "", 0, nil, es...), args: []*Term{mk(OCall, "gather", 0, nil, args[k])}})
		st.mapLog[g.acc] = []*Term{mk(OBase, "", 0, nil, v)}
		st.facts.dropMentioning(g.acc)
		return g.returns(st, g.acc, pos), true
	}
	if dm.gathering != nil || !dm.rec[fn] && len(bindings) == 0 {
		return nil, false
	}
	// the set handed over must be new
	fresh := func(t *Term) bool {
		if t == nil || t.Op != OObj || st.heap[t.N] == nil {
			return false
		}
		o := st.heap[t.N]
		return o.kind == 'm' && o.val.Op == OMap && len(o.val.Args) == 0
	}
	var acc *Term
	n := 0
	g := &gatherer{fn: fn, keyAt: k, busy: true}
	as := append([]*Term{}, args...)
	s2 := st.clone()
	s2.effs = nil
	for i, a := range args {
		if i != k && dm.isSet(fn.Params[i].Type()) && fresh(a) {
			acc = a
			n++
		}
	}
	for i, b := range bindings {
		if b.Op == OObj && st.heap[b.N] != nil && fn.FreeVars[i].Type() != nil {
			if p, ok := fn.FreeVars[i].Type().Underlying().(*types.Pointer); ok && dm.isSet(p.Elem()) && fresh(st.heap[b.N].val) {
				acc = st.heap[b.N].val
				n++
			}
		}
	}
	if n != 1 {
		return nil, false
	}
	g.acc = mk(OSym, "gathered", 0, nil) // see isGathered
	g.acc.Typ = dm.setTyp(fn)
	for i, a := range as {
		if a == acc {
			as[i] = g.acc
		}
	}
	for _, b := range bindings {
		if b.Op == OObj && s2.heap[b.N] != nil && s2.heap[b.N].val == acc {
			o := *s2.heap[b.N]
			o.val = g.acc
			s2.heap[b.N] = &o
		}
	}
	v := mk(OSym, "v", 0, nil)
	v.Typ = dm.d.key
	as[k] = v
	g.args = as
	dm.gathering = g
	outs := e.Call(s2, fn, as, bindings)
	dm.gathering = nil
	if g.why == "" {
		g.why = dm.isGather(e, g, outs, v, len(st.pc))
	}
	if debugDag {
		println("gather", fn.Name(), g.dir, g.entry, g.why)
	}
	if g.why != "" {
		return nil, false
	}
	dm.paths += len(outs)
	o := *st.heap[acc.N]
	o.val = dm.reached(g.dir, args[k], g.entry)
	st.heap[acc.N] = &o
	return g.returns(st, acc, pos), true
}

func (g *gatherer) returns(st *State, acc *Term, pos token.Pos) []Outcome {
	o := Outcome{St: st, Pos: pos, Fn: g.fn}
	if g.fn.Signature.Results().Len() == 1 {
		o.Results = []*Term{acc}
	}
	return []Outcome{o}
}

func (dm *dagModel) setTyp(fn *ssa.Function) types.Type {
	for _, p := range fn.Params {
		if dm.isSet(p.Type()) {
			return p.Type()
		}
	}
	for _, f := range fn.FreeVars {
		if p, ok := f.Type().Underlying().(*types.Pointer); ok && dm.isSet(p.Elem()) {
			return p.Elem()
		}
	}
	return nil
}

// isGather checks one call against the rule: given a set that holds, with a
// vertex, all it reaches, each neighbour of the vertex given that is not in
// the set joins it with all that it reaches.
func (dm *dagModel) isGather(e *Engine, g *gatherer, outs []Outcome, x *Term, n0 int) string {
	if why := onlyDone(g.fn); why != "" {
		return why
	}
	for _, dir := range []string{"out", "in"} {
		w := &walker{dm: dm, e: e, dir: dir}
		why := w.gathersAll(g, outs, x, n0)
		if why == "" {
			g.dir = dir
			return ""
		}
		if debugDag {
			println("gather", dir, why)
		}
	}
	return "it does not collect what the vertex reaches"
}

// onlyDone requires the loops of a function to end only when they are done.
func onlyDone(fn *ssa.Function) string {
	for _, h := range fn.Blocks {
		in := map[*ssa.BasicBlock]bool{h: true}
		var add func(x *ssa.BasicBlock)
		add = func(x *ssa.BasicBlock) {
			if !in[x] {
				in[x] = true
				for _, p := range x.Preds {
					add(p)
				}
			}
		}
		for _, b := range h.Preds {
			if h.Dominates(b) {
				add(b)
			}
		}
		if len(in) == 1 {
			continue
		}
		for x := range in {
			for _, s := range x.Succs {
				if !in[s] && x != h {
					return "it can leave its loop early"
				}
			}
		}
	}
	return ""
}

func (w *walker) gathersAll(g *gatherer, outs []Outcome, x *Term, n0 int) string {
	e := w.e
	seen := 0
	for _, o := range outs {
		if o.Panic {
			return "it can panic"
		}
		if !onlyTouches(o.St.effs, g.acc) {
			return "it changes something else"
		}
		for _, t := range o.Results {
			if t != g.acc {
				return "it does not return the set it was given"
			}
		}
		es := e.mapEntries(o.St, g.acc)
		met, none := false, false
		for _, c := range o.St.pc[n0:] {
			s, k, in, ok := visitedTest(c.term())
			switch {
			case ok && k == x && s == g.acc:
				if in {
					met = true
				}
			case ok && k == x && w.isEdges(s):
				if !in {
					none = true
				}
			default:
				return "what it does depends on " + c.term().String()
			}
		}
		if met {
			if len(es) != 1 || es[0].Op != OBase || es[0].Args[0] != g.acc {
				return "it goes on from a vertex met before"
			}
			continue
		}
		if len(es) == 1 && es[0].Op == OBase && es[0].Args[0] == g.acc {
			if !none {
				return "it can stop before it sees the neighbours"
			}
			continue
		}
		if len(es) != 1 || es[0].Op != OBase || es[0].Args[0].Op != OMapVer {
			return "what it leaves in the set is not understood"
		}
		ver := e.versions[es[0].Args[0]]
		if ver == nil || ver.binder == nil {
			return "it does not go through the neighbours"
		}
		b, ok := w.neighbour(ver.binder, x)
		if !ok || b != ver.binder {
			return "it does not go through the neighbours"
		}
		self := false
		for i, y := range ver.entry.Args {
			switch {
			case i == 0 && y.Op == OBase && y.Args[0] == g.acc:
			case y.Op == OIns && y.Args[0] == x && setEntry(y):
				self = true
			default:
				return "the set changes before the neighbours are seen"
			}
		}
		if seen > 0 && g.entry != self {
			return "it keeps the vertex itself only sometimes"
		}
		g.entry = self
		seen++
		if len(ver.steps) != 1 {
			return "a neighbour is treated in several ways"
		}
		marks := false
		for _, c := range ver.steps[0].guards {
			s, k, in, ok := visitedTest(c)
			kb, isN := (*Term)(nil), false
			if ok {
				kb, isN = w.neighbour(k, x)
			}
			if !ok || in || !isN || kb != b || !g.isAcc(s) {
				return "whether a neighbour is followed depends on " + c.String()
			}
		}
		r := e.versions[ver.steps[0].val]
		if r != nil && r.binder == nil && len(r.args) == 0 {
			// the neighbour joins after it was followed
			for _, y := range r.entry.Args[1:] {
				if y.Op != OIns {
					return "the set changes otherwise"
				}
				if k, ok := w.neighbour(y.Args[0], x); !ok || k != b || !setEntry(y) {
					return "something other than the neighbour joins"
				}
				marks = true
			}
			r = e.versions[r.entry.Args[0].Args[0]]
		}
		if r == nil || r.binder != nil || len(r.args) != 1 || r.args[0].Sym != "gather" {
			return "a neighbour is not followed"
		}
		if to, ok := w.neighbour(r.args[0].Args[0], x); !ok || to != b {
			return "something other than the neighbour is followed"
		}
		for i, y := range r.entry.Args {
			if i == 0 || y.Op == OHole {
				continue
			}
			if y.Op != OIns {
				return "the set changes otherwise"
			}
			if k, ok := w.neighbour(y.Args[0], x); !ok || k != b || !setEntry(y) {
				return "something other than the neighbour joins"
			}
			marks = true
		}
		if !marks && !self {
			return "a neighbour does not join"
		}
		if marks && self {
			return "a neighbour joins before it is followed, and is then passed over"
		}
	}
	if seen == 0 {
		return "it never follows a neighbour"
	}
	return ""
}

// isAcc reports whether m is the set being filled, as it is in a round.
func (g *gatherer) isAcc(m *Term) bool {
	if m.Op != OMap {
		return m == g.acc
	}
	for i, y := range m.Args {
		if i == 0 && (y.Op != OBase || y.Args[0] != g.acc) || i > 0 && y.Op != OHole {
			return false
		}
	}
	return len(m.Args) > 0
}

// isEdges reports whether m is the map of the edges the walker follows.
func (w *walker) isEdges(m *Term) bool {
	f, ok := w.dm.fieldOfMap(m)
	return ok && w.dm.role[f] == w.dirOf()
}

func onlyTouches(effs []*Effect, acc *Term) bool {
	for _, f := range effs {
		switch f.Kind {
		case "mapset":
			if f.Args[0] != acc {
				return false
			}
		case "each":
			for _, a := range f.Alts {
				if !onlyTouches(a.Effs, acc) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// isGathered recognises the stand-in for the set a gatherer fills.
func isGathered(t *Term) bool { return t.Op == OSym && t.Sym == "gathered" }
