package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dagSummary is what the engine found about one exported operation.
type dagSummary struct {
	fn    *ssa.Function
	name  string
	e     *Engine
	posts []*post
	und   *Undecided
	why   string // an outcome without a relational reading
	whyAt token.Pos
	errIx int
}

// summary analyses one exported method of the graph.
func (dm *dagModel) summary(fn *ssa.Function) *dagSummary {
	if s := dm.sums[fn.Name()]; s != nil {
		return s
	}
	s := &dagSummary{fn: fn, name: fn.Name(), errIx: -1}
	dm.sums[s.name] = s
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if types.Identical(rs.At(i).Type(), types.Universe.Lookup("error").Type()) {
			s.errIx = i
		}
	}
	s.e = dm.engine()
	args := s.e.symArgs(fn)
	args[0] = dm.g
	for i := 1; i < len(args); i++ {
		n := fmt.Sprintf("p%d", i)
		args[i] = mk(OSym, n, 0, fn.Params[i].Type())
		if args[i].Typ == nil {
			args[i].Typ = fn.Params[i].Type()
		}
	}
	outs, und := s.e.runFn(fn, func(st *State) []*Term { return args })
	s.und = und
	for _, o := range outs {
		p, why := dm.newPost(s.e, o, "")
		if why != "" {
			if s.why == "" {
				s.why = why
				s.whyAt = o.Pos
			}
			continue
		}
		if !p.feasible() {
			continue
		}
		s.posts = append(s.posts, p)
	}
	dm.paths += len(outs)
	return s
}

func (s *dagSummary) param(i int) *Term {
	return mk(OSym, fmt.Sprintf("p%d", i), 0, s.fn.Params[i].Type())
}

// failed reports whether the outcome returns an error, and which.
func (s *dagSummary) failed(p *post) (bool, string) {
	if s.errIx < 0 {
		return false, ""
	}
	t := p.o.Results[s.errIx]
	if s.e.eval(p.st, mkEq(t, theNil)) == 1 {
		return false, ""
	}
	if t.Op == OLoad && t.Args[0].Op == OGlobal {
		if g := dm_errName(t.Args[0].Sym); g != "" {
			return true, g
		}
	}
	return true, "?" + t.String()
}

func dm_errName(sym string) string {
	return sym[strings.LastIndex(sym, ".")+1:]
}

// exported lists the exported operations of the graph.
func (dm *dagModel) exported() []*dagSummary {
	var out []*dagSummary
	for _, fn := range dm.methods() {
		if token.IsExported(fn.Name()) {
			out = append(out, dm.summary(fn))
		}
	}
	return out
}

// usable reports operations that have no relational summary.
func (r *Report) usable(dm *dagModel, s *dagSummary) bool {
	r.count("operations", 1)
	r.functions[s.fn.String()] = true
	r.covers(s.e)
	if s.und != nil {
		r.undecided(s.name, s.und)
		return false
	}
	if s.why != "" {
		r.ob(false, "summary:"+s.name, s.whyAt, "%s: %s", s.name, s.why)
		return false
	}
	r.paths += len(s.posts)
	return true
}

func (dm *dagModel) op(r *Report, name string) *dagSummary {
	for _, fn := range dm.methods() {
		if fn.Name() == name {
			s := dm.summary(fn)
			if !r.usable(dm, s) {
				return nil
			}
			return s
		}
	}
	r.ob(false, "missing:"+name, token.NoPos, "AcyclicGraph has no method %s", name)
	return nil
}

func withDag(f func(r *Report, dm *dagModel)) checkFn {
	return func(r *Report, c *Ctx) {
		if c.dm == nil && c.dmErr == nil {
			c.dm, c.dmErr = newDagModel(c.p)
		}
		if c.dmErr != nil {
			r.ob(false, "graph", token.NoPos, "the graph cannot be read: %v", c.dmErr)
			return
		}
		f(r, c.dm)
	}
}

func init() {
	checks["D01"] = withDag(checkViews)
	checks["D02"] = withDag(checkAcyclic)
	checks["D03"] = withDag(checkEnds)
	checks["D04"] = withDag(checkStale)
	checks["D05"] = withDag(checkClosure)
	checks["D06"] = withDag(checkRefused)
	checks["D07"] = withDag(checkErrors)
	checks["D08"] = withDag(checkMutations)
	checks["D09"] = withDag(checkFresh)
	checks["D10"] = withDag(checkQueries)
	checks["D13"] = withDag(checkReduce)
	checks["D14"] = withDag(checkStructure)
}

var dagAssume = []string{
	"graphs are made by NewAcyclicGraph and used only through its methods",
	"vertex IDs equal themselves (no NaN keys)",
	"the graph's invariants (the two edge views agree, edges join vertices, no cycles, remembered answers are current) hold before an operation; D01-D04 show that every operation and the constructor keep them",
}

// constructor checks that a new graph starts with empty tables.
func (r *Report) constructor(dm *dagModel) {
	for fn := range dm.p.allFns() {
		if fn.Pkg != nil || fnPkgPath(fn) != dm.p.dag.PkgPath || fn.Origin() == nil {
			continue
		}
	}
	var ctor *ssa.Function
	for _, m := range dm.p.spkg[dm.p.dag.PkgPath].Members {
		if f, ok := m.(*ssa.Function); ok && f.Name() == "NewAcyclicGraph" {
			ctor = f
		}
	}
	if ctor == nil {
		r.ob(false, "constructor", token.NoPos, "NewAcyclicGraph not found")
		return
	}
	e := dm.p.engine()
	outs, und := e.runFn(ctor, func(st *State) []*Term { return nil })
	if und != nil {
		r.undecided("NewAcyclicGraph", und)
		return
	}
	r.covers(e)
	for _, o := range outs {
		if o.Panic {
			r.ob(false, "constructor", o.Pos, "NewAcyclicGraph can panic")
			continue
		}
		g := o.Results[0]
		if !r.ob(g.Op == OObj && len(o.St.effs) == 0, "constructor:fresh", o.Pos, "NewAcyclicGraph does not return a graph of its own") {
			continue
		}
		v := o.St.heap[g.N].val
		seen := map[int]string{}
		for i := 0; i < dm.st.NumFields(); i++ {
			name := dm.st.Field(i).Name()
			if dm.role[i] == "other" {
				continue
			}
			ok := false
			var x *Term
			if v.Op == OStruct && i < len(v.Args) {
				x = v.Args[i]
				if x.Op == OObj {
					y := o.St.heap[x.N].val
					ok = y != nil && (y.Op == OMap && len(y.Args) == 0 || y.Op == OZero)
					if other := seen[x.N]; other != "" {
						r.ob(false, "constructor:"+name, o.Pos, "a new graph uses one map for %s and %s", other, name)
					}
					seen[x.N] = name
				}
			}
			r.ob(ok, "constructor:"+name, o.Pos, "in a new graph %s is not an empty map", name)
		}
	}
}

// checkViews (D01): both views of the edges agree after every operation.
func checkViews(r *Report, dm *dagModel) {
	r.rule = "for every path through every exported operation, the edges in the outbound table afterwards are exactly those in the inbound table"
	r.assume = dagAssume
	r.constructor(dm)
	r.floor("operations", 20)
	for _, s := range dm.exported() {
		if !r.usable(dm, s) {
			continue
		}
		for _, p := range s.posts {
			if p.out == p.in {
				r.ob(true, "views:"+s.name, p.o.Pos, "")
			} else {
				r.ob(p.holds(fIff(p.out, p.in)), "views:"+s.name, p.o.Pos, "%s: %s", s.name, p.diff(p.out, p.in, "an edge is recorded for its source but not for its target", "an edge is recorded for its target but not for its source"))
			}
			r.ob(len(p.alias) == 0, "alias:"+s.name, p.aliasAt, "%s stores %s in the graph, so that one change shows in two places", s.name, strings.Join(p.alias, ", "))
		}
	}
}

// diff words the direction in which two relations differ.
func (p *post) diff(a, b *F, only1, only2 string) string {
	if !p.holds(fImp(a, b)) {
		return only1 + " " + p.when()
	}
	return only2 + " " + p.when()
}

func (p *post) when() string {
	var cs []string
	for _, c := range p.st.pc {
		s := c.term().String()
		if len(s) < 80 {
			cs = append(cs, s)
		}
	}
	if len(cs) == 0 {
		return ""
	}
	return "(when " + strings.Join(cs, " and ") + ")"
}

// changed reports whether the path may change what a relation says.
func (p *post) same(now *F, rel string) bool {
	var was *F
	switch rel {
	case "V":
		was = fAtom("V", p.X)
	default:
		was = fAtom("out", p.X, p.Y)
	}
	return now.key == was.key || p.holds(fIff(now, was))
}

// sameVals reports whether no value of a vertex changes on the path.
func (p *post) sameVals() bool {
	for _, d := range p.vals {
		if d.kind == "replace" {
			return false
		}
		if d.val.Op == OLookup {
			if f, ok := p.dm.fieldOfMap(d.val.Args[0]); ok && p.dm.role[f] == "V" && p.key(d.val.Args[1]) == d.row {
				continue
			}
		}
		// a value stored for a vertex that did not exist before
		if !p.holds(fImp(d.guard, fNot(fAtom("V", d.row)))) || !p.dm.dropped(p, d) {
			return false
		}
	}
	return true
}

// dropped reports whether the vertex stored by d is gone in the end.
func (dm *dagModel) dropped(p *post, d *delta) bool {
	return p.holds(fImp(d.guard, fNot(p.V.subst(map[*Term]*Term{p.X: d.row}))))
}

// checkAcyclic (D02).
func checkAcyclic(r *Report, dm *dagModel) {
	r.rule = "every edge a path adds goes from x to y only where y does not already reach x and x is not y, at most one edge is added, and the loop error is returned only where the target reaches the source"
	r.assume = dagAssume
	r.floor("operations", 20)
	r.closures(dm, false)
	x, y := dm.sym("x"), dm.sym("y")
	for _, s := range dm.exported() {
		if !r.usable(dm, s) {
			continue
		}
		for _, p := range s.posts {
			added := fAnd(p.out, fNot(fAtom("out", x, y)))
			if unsat(fAnd(p.pcF, added)) {
				r.ob(true, "cycle:"+s.name, p.o.Pos, "")
			} else {
				r.count("paths adding an edge", 1)
				r.ob(p.holds(fImp(added, fAnd(fNot(fAtom("=", x, y)), fNot(fAtom("reach", y, x))))), "cycle:"+s.name, p.o.Pos, "%s can close a cycle %s", s.name, p.when())
				x2, y2 := dm.sym("x2"), dm.sym("y2")
				two := added.subst(map[*Term]*Term{x: x2, y: y2})
				r.ob(p.holds(fImp(fAnd(added, two), fAnd(fAtom("=", x, x2), fAtom("=", y, y2)))), "one:"+s.name, p.o.Pos, "%s can add several edges at once, which together may close a cycle", s.name)
			}
			// the inbound view decides ancestors
			addedIn := fAnd(p.in, fNot(fAtom("out", x, y)))
			if p.in.key != p.out.key && !unsat(fAnd(p.pcF, addedIn)) {
				r.ob(p.holds(fImp(addedIn, fAnd(fNot(fAtom("=", x, y)), fNot(fAtom("reach", y, x))))), "cycle:"+s.name, p.o.Pos, "%s can close a cycle in the parents' view %s", s.name, p.when())
			}
			if bad, err := s.failed(p); bad && err == "ErrEdgeLoop" {
				r.count("loop errors", 1)
				a, b := s.param(1), s.param(2)
				r.ob(p.holds(fAtom("reach", b, a)), "loop:"+s.name, p.o.Pos, "%s returns the loop error although the target does not reach the source %s", s.name, p.when())
			}
		}
	}
	r.floor("paths adding an edge", 1)
	r.floor("loop errors", 1)
}

// checkEnds (D03).
func checkEnds(r *Report, dm *dagModel) {
	r.rule = "after every path through every exported operation, both ends of every edge in either table are vertices"
	r.assume = dagAssume
	r.constructor(dm)
	r.floor("operations", 20)
	x, y := dm.sym("x"), dm.sym("y")
	for _, s := range dm.exported() {
		if !r.usable(dm, s) {
			continue
		}
		for _, p := range s.posts {
			for _, v := range []struct {
				f    *F
				name string
			}{{p.out, "outbound"}, {p.in, "inbound"}} {
				vy := p.V.subst(map[*Term]*Term{x: y})
				r.ob(p.holds(fImp(v.f, p.V)), "source:"+s.name+":"+v.name, p.o.Pos, "%s can leave an edge in the %s table whose source is not a vertex %s", s.name, v.name, p.when())
				r.ob(p.holds(fImp(v.f, vy)), "target:"+s.name+":"+v.name, p.o.Pos, "%s can leave an edge in the %s table whose target is not a vertex %s", s.name, v.name, p.when())
			}
		}
	}
}

// checkRefused (D06).
func checkRefused(r *Report, dm *dagModel) {
	r.rule = "on every path that returns an error the vertices, their values and both edge tables are unchanged"
	r.assume = dagAssume
	r.floor("operations", 20)
	for _, s := range dm.exported() {
		if !r.usable(dm, s) {
			continue
		}
		for _, p := range s.posts {
			if bad, _ := s.failed(p); bad || p.o.Panic {
				r.count("failing paths", 1)
				p.unchanged(r, s, "although it returns an error")
			}
		}
	}
	r.floor("failing paths", 30)
}

func (p *post) unchanged(r *Report, s *dagSummary, what string) {
	r.ob(p.same(p.V, "V"), "vertices:"+s.name, p.o.Pos, "%s changes the vertices %s %s", s.name, what, p.when())
	r.ob(p.sameVals(), "values:"+s.name, p.o.Pos, "%s changes the value of a vertex %s %s", s.name, what, p.when())
	r.ob(p.same(p.out, "out"), "edges:"+s.name, p.o.Pos, "%s changes the outbound edges %s %s", s.name, what, p.when())
	r.ob(p.same(p.in, "in"), "edges in:"+s.name, p.o.Pos, "%s changes the inbound edges %s %s", s.name, what, p.when())
}

var dagMutators = map[string]bool{"AddVertex": true, "DeleteVertex": true, "AddEdge": true, "DeleteEdge": true, "ReduceTransitively": true}

// checkQueries (D10).
func checkQueries(r *Report, dm *dagModel) {
	r.rule = "no path through an operation other than the five mutators changes the vertices, their values or an edge table, and the goroutines they start only read"
	r.assume = dagAssume
	for _, s := range dm.exported() {
		if dagMutators[s.name] {
			continue
		}
		if !r.usable(dm, s) {
			continue
		}
		r.count("queries", 1)
		for _, p := range s.posts {
			p.unchanged(r, s, "although it only asks")
			for _, f := range p.st.effs {
				if f.Kind == "go" {
					r.goroutine(dm, s, p, f)
				}
			}
		}
	}
	r.floor("queries", 15)
	r.floor("goroutines", 2)
}

// goroutine checks that a goroutine changes nothing of the graph.
func (r *Report) goroutine(dm *dagModel, s *dagSummary, p *post, f *Effect) {
	r.count("goroutines", 1)
	_, outs, und := dm.runGo(s, p, f, nil)
	if und != nil {
		r.undecided(s.name+" goroutine", und)
		return
	}
	for _, o := range outs {
		var walk func(x *Effect)
		walk = func(x *Effect) {
			if x.Kind == "each" {
				for _, a := range x.Alts {
					for _, y := range a.Effs {
						walk(y)
					}
				}
				return
			}
			ok := isComm(x)
			r.ob(ok, "goroutine:"+s.name, x.Pos, "the goroutine started by %s has the effect %s", s.name, x.Kind)
		}
		for _, x := range o.St.effs {
			walk(x)
		}
	}
}

type errCond struct {
	name string
	f    *F
}

// conditions gives, per operation, when each documented error applies.
func (dm *dagModel) conditions(s *dagSummary) (errs []errCond, known bool) {
	empty := func(t *Term) *F { return fAtom("=", t, cString("")) }
	v := func(t *Term) *F { return fAtom("V", t) }
	switch s.name {
	case "AddVertex":
		id := s.param(1)
		return []errCond{{"ErrVertexIDEmpty", empty(id)}, {"ErrVertexDuplicate", v(id)}}, true
	case "GetVertex", "DeleteVertex", "GetParents", "GetChildren", "GetAncestors", "GetDescendants", "GetOrderedAncestors", "GetOrderedDescendants", "AncestorsWalker", "DescendantsWalker":
		id := s.param(1)
		return []errCond{{"ErrVertexIDEmpty", empty(id)}, {"ErrVertexNotFound", fAnd(fNot(v(id)), fNot(empty(id)))}}, true
	case "AddEdge", "IsEdge", "DeleteEdge":
		a, b := s.param(1), s.param(2)
		errs = []errCond{
			{"ErrEdgeSourceIDEmpty", empty(a)}, {"ErrEdgeTargetIDEmpty", empty(b)}, {"ErrEdgeSourceTargetIdentical", fAtom("=", a, b)},
			{"ErrEdgeSourceIDNotFound", fAnd(fNot(v(a)), fNot(empty(a)))}, {"ErrEdgeTargetIDNotFound", fAnd(fNot(v(b)), fNot(empty(b)))},
		}
		edge := fAtom("out", a, b)
		switch s.name {
		case "AddEdge":
			errs = append(errs, errCond{"ErrEdgeDuplicate", edge}, errCond{"ErrEdgeLoop", fAtom("reach", b, a)})
		case "DeleteEdge":
			errs = append(errs, errCond{"ErrEdgeNotFound", fAnd(fNot(edge), v(a), v(b), fNot(fAtom("=", a, b)))})
		}
		return errs, true
	case "GetOrder", "GetSize", "GetLeaves", "GetRoots", "GetVertices", "ReduceTransitively", "String":
		return nil, true
	}
	return nil, false
}

// checkErrors (D07).
func checkErrors(r *Report, dm *dagModel) {
	r.rule = "each path that returns an error returns the documented value for a misuse that its conditions imply, each path without error excludes every documented misuse, and no path panics"
	r.assume = dagAssume
	r.closures(dm, false)
	r.floor("operations", 20)
	for _, s := range dm.exported() {
		if !r.usable(dm, s) {
			continue
		}
		conds, known := dm.conditions(s)
		if !known {
			r.count("operations without documented errors", 1)
		}
		for _, p := range s.posts {
			if p.o.Panic {
				r.ob(false, "panic:"+s.name+":"+p.o.Reason, p.o.Pos, "%s can panic: %s %s", s.name, p.o.Reason, p.when())
				continue
			}
			if !known {
				continue
			}
			bad, name := s.failed(p)
			if bad {
				r.count("failing paths", 1)
				var c *F
				for _, x := range conds {
					if x.name == name {
						c = x.f
					}
				}
				if !r.ob(c != nil, "error:"+s.name+":"+name, p.o.Pos, "%s returns %s, which is not documented for it %s", s.name, name, p.when()) {
					continue
				}
				r.ob(p.dm.errorIs(name), "errvar:"+name, p.o.Pos, "%s is not a fixed error value of its own", name)
				r.ob(p.holds(c), "error:"+s.name+":"+name, p.o.Pos, "%s returns %s although that misuse need not have happened %s", s.name, name, p.when())
				continue
			}
			for _, x := range conds {
				r.ob(p.holds(fNot(x.f)), "missing:"+s.name+":"+x.name, p.o.Pos, "%s can succeed although it should return %s %s", s.name, x.name, p.when())
			}
		}
	}
	r.floor("failing paths", 30)
	r.distinctErrors(dm)
}

func (dm *dagModel) errorIs(name string) bool {
	return dm.p.errGlobal(dm.p.dag.PkgPath+"."+name) != ""
}

// distinctErrors checks that the documented error values differ.
func (r *Report) distinctErrors(dm *dagModel) {
	n := 0
	for _, m := range dm.p.spkg[dm.p.dag.PkgPath].Members {
		if g, ok := m.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "Err") {
			n++
			r.ob(dm.errorIs(g.Name()), "errvar:"+g.Name(), g.Pos(), "%s is not set once to an error of its own", g.Name())
		}
	}
	r.count("error values", n)
	r.floor("error values", 11)
}

// checkMutations (D08).
func checkMutations(r *Report, dm *dagModel) {
	r.rule = "on every successful path the vertices, values and edges afterwards are exactly those before with the named change"
	r.assume = dagAssume
	r.constructor(dm)
	x, y := dm.sym("x"), dm.sym("y")
	was := fAtom("out", x, y)
	for _, name := range []string{"AddVertex", "DeleteVertex", "AddEdge", "DeleteEdge"} {
		s := dm.op(r, name)
		if s == nil {
			continue
		}
		n := 0
		for _, p := range s.posts {
			if p.o.Panic {
				r.ob(false, "panic:"+s.name, p.o.Pos, "%s can panic: %s", s.name, p.o.Reason)
				continue
			}
			if bad, _ := s.failed(p); bad {
				continue
			}
			n++
			V, out := fAtom("V", x), was
			a := s.param(1)
			switch name {
			case "AddVertex":
				V = fOr(V, fAtom("=", x, a))
			case "DeleteVertex":
				V = fAnd(V, fNot(fAtom("=", x, a)))
				out = fAnd(was, fNot(fAtom("=", x, a)), fNot(fAtom("=", y, a)))
			case "AddEdge":
				out = fOr(was, fAnd(fAtom("=", x, a), fAtom("=", y, s.param(2))))
			case "DeleteEdge":
				out = fAnd(was, fNot(fAnd(fAtom("=", x, a), fAtom("=", y, s.param(2)))))
			}
			r.ob(p.holds(fIff(p.V, V)), "vertices:"+name, p.o.Pos, "%s does not leave exactly the vertices it should %s", name, p.when())
			r.ob(p.holds(fIff(p.out, out)), "edges:"+name, p.o.Pos, "%s does not leave exactly the outbound edges it should %s", name, p.when())
			r.ob(p.holds(fIff(p.in, out)), "edges in:"+name, p.o.Pos, "%s does not leave exactly the inbound edges it should %s", name, p.when())
			r.ob(len(p.alias) == 0, "alias:"+name, p.aliasAt, "%s stores %s in the graph", name, strings.Join(p.alias, ", "))
			if name != "AddVertex" {
				r.ob(p.sameVals(), "values:"+name, p.o.Pos, "%s changes the value of a vertex %s", name, p.when())
				continue
			}
			good := false
			for _, d := range p.vals {
				good = d.kind == "addV" && d.row == a && d.val == s.param(2) && p.holds(d.guard)
				if !good {
					break
				}
			}
			r.ob(good, "value:"+name, p.o.Pos, "AddVertex does not store the value given under the ID given")
		}
		r.ob(n > 0, "success:"+name, s.fn.Pos(), "%s never succeeds", name)
	}
}

// closures requires that the reachability functions compute closures.
func (r *Report) closures(dm *dagModel, report bool) {
	for _, k := range sortedKeys(dm.clos) {
		c := dm.clos[k]
		r.count("reachability functions", 1)
		if c.eng != nil {
			r.covers(c.eng)
		}
		ok := c.dir != ""
		if report {
			r.ob(ok, "closure:"+c.fn.Name(), c.pos, "%s does not compute a transitive closure: %s", c.fn.Name(), c.why)
		} else if ok {
			r.ob(true, "closure:"+c.fn.Name(), c.pos, "")
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func (dm *dagModel) dump(names []string) {
	for _, k := range sortedKeys(dm.clos) {
		c := dm.clos[k]
		fmt.Println("closure", k, "dir", c.dir, "why", c.why, "fills", c.fills)
		if len(names) == 0 {
			dumpOutcomes(dm.p, c.outs)
		}
	}
	for _, fn := range dm.methods() {
		for _, n := range names {
			if n == fn.Name() {
				e := dm.engine()
				args := e.symArgs(fn)
				args[0] = dm.g
				outs, und := e.runFn(fn, func(st *State) []*Term { return args })
				if und != nil {
					fmt.Println("undecided:", und.Msg, dm.p.pos(und.Pos))
				}
				fmt.Println("=====", n)
				dumpOutcomes(dm.p, outs)
				if token.IsExported(n) {
					s := dm.summary(fn)
					fmt.Println("why:", s.why)
					for _, p := range s.posts {
						fmt.Println("POST at", dm.p.pos(p.o.Pos), "\n  pc", p.pcF, "\n  V ", p.V, "\n  out", p.out, "\n  in ", p.in)
						for f, c := range p.cache {
							fmt.Println("  ", dm.st.Field(f).Name(), c)
						}
					}
				}
			}
		}
	}
}
