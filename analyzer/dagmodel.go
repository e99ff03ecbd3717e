package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dagModel knows what the fields of the graph mean and summarises its
// recursive reachability functions.
type dagModel struct {
	gathering *gatherer
	p         *Prog
	d         *dagInst
	st        *types.Struct
	role      map[int]string // field -> "V", "out", "in" or "cache"
	roleIdx   map[string]int
	cacheDir  map[int]string // cache field -> direction of the closure it remembers
	clos      map[string]*closureFn
	rec       map[*ssa.Function]bool
	inlined   map[*ssa.Function]bool
	g         *Term
	paths     int
	holes     int
	needC     bool // some result relied on remembered answers being closed
	collected []func(r *Report)
	sums      map[string]*dagSummary
}

// closureFn is a function found to return a transitive closure.
type closureFn struct {
	fn     *ssa.Function
	key    string
	keyIdx int
	setIdx int // result that is the set
	errIdx int
	dir    string // "out", "in", or "" while unknown
	busy   bool
	why    string // why it is not a closure
	errs   []Outcome
	common []Cond
	param  *Term
	caches []int // cache fields it may write
	fills  bool
	own    bool // exactly the answer for the ID itself is remembered afterwards
	trying bool
	pos    token.Pos
	outs   []Outcome
	eng    *Engine
}

func newDagModel(p *Prog) (*dagModel, error) {
	dm := &dagModel{p: p, d: p.instDag(), role: map[int]string{}, roleIdx: map[string]int{}, cacheDir: map[int]string{}, clos: map[string]*closureFn{}, rec: map[*ssa.Function]bool{}, inlined: map[*ssa.Function]bool{}, sums: map[string]*dagSummary{}}
	if dm.d == nil {
		return nil, fmt.Errorf("AcyclicGraph[K, T] and Set[T] not found")
	}
	s, ok := dm.d.graph.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("AcyclicGraph is not a struct")
	}
	dm.st = s
	var unknown []int
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		m, ok := f.Type().Underlying().(*types.Map)
		if !ok || !types.Identical(m.Key(), dm.d.key) {
			// Nothing is known of what it holds.
			dm.role[i] = "other"
			continue
		}
		n := strings.ToLower(f.Name())
		switch {
		case types.Identical(m.Elem(), dm.d.val):
			dm.setRole(i, "V")
		case strings.Contains(n, "cache"):
			dm.setRole(i, "cache")
		case strings.Contains(n, "inbound") || strings.Contains(n, "parents") || strings.Contains(n, "incoming"):
			dm.setRole(i, "in")
		case strings.Contains(n, "outbound") || strings.Contains(n, "children") || strings.Contains(n, "outgoing"):
			dm.setRole(i, "out")
		default:
			unknown = append(unknown, i)
		}
	}
	for _, i := range unknown {
		r := "cache"
		for _, q := range [][2]string{{"out", "GetChildren"}, {"in", "GetParents"}} {
			if _, known := dm.roleIdx[q[0]]; known {
				continue
			}
			for _, fn := range dm.methods() {
				if fn.Name() == q[1] && dm.reads(fn, i, map[*ssa.Function]bool{}) {
					r = q[0]
				}
			}
		}
		if !dm.isSet(s.Field(i).Type().Underlying().(*types.Map).Elem()) {
			r = "other"
		}
		dm.setRole(i, r)
	}
	for _, r := range []string{"V", "in", "out"} {
		if _, ok := dm.roleIdx[r]; !ok {
			return nil, fmt.Errorf("no field of the graph holds %s", map[string]string{"V": "the vertices", "in": "the inbound edges", "out": "the outbound edges"}[r])
		}
	}
	dm.g = mk(OSym, "g", 0, types.NewPointer(dm.d.graph))
	// Caches remember the direction that their closure function computes.
	for _, fn := range dm.methods() {
		dm.findRec(fn, nil, map[*ssa.Function]bool{})
	}
	dm.heads()
	dm.searchers()
	for _, fn := range dm.recList() {
		if k, s, _ := dm.closureShape(fn); k >= 0 && s >= 0 && fn.Signature.Recv() != nil && len(fn.Params) == 2 {
			dm.closure(fn, []*Term{dm.g, mk(OSym, "v", 0, dm.d.key)})
		}
	}
	for f, role := range dm.role {
		if role == "cache" && dm.cacheDir[f] == "" {
			// Some closure function takes the tables as arguments: its
			// callers tell which.
			for _, s := range dm.exported() {
				_ = s
			}
			dm.sums = map[string]*dagSummary{}
			break
		}
	}
	return dm, nil
}

// reads reports whether fn, or a function it calls, uses the field.
func (dm *dagModel) reads(fn *ssa.Function, field int, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fa.Field == field {
				if n := namedOf(fa.X.Type()); n != nil && types.Identical(n, dm.d.graph) {
					return true
				}
			}
		}
	}
	for _, c := range staticCallees(fn) {
		if dm.p.inModule(fnPkgPath(c)) && dm.reads(c, field, seen) {
			return true
		}
	}
	return false
}

// heads leaves one function of every group of mutually recursive ones: the
// others are seen as part of it.
func (dm *dagModel) heads() {
	callees := map[*ssa.Function][]*ssa.Function{}
	reach := func(from, to, not *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			cs, ok := callees[f]
			if !ok {
				for _, c := range staticCallees(f) {
					if dm.rec[c] {
						cs = append(cs, c)
					}
				}
				callees[f] = cs
			}
			for _, c := range cs {
				if c == not || seen[c] {
					continue
				}
				seen[c] = true
				if c == to || walk(c) {
					return true
				}
			}
			return false
		}
		return walk(from)
	}
	list := dm.recList()
	done := map[*ssa.Function]bool{}
	for _, f := range list {
		if done[f] {
			continue
		}
		var group []*ssa.Function
		for _, x := range list {
			if x == f || reach(f, x, nil) && reach(x, f, nil) {
				group = append(group, x)
				done[x] = true
			}
		}
		if len(group) < 2 {
			continue
		}
		var best *ssa.Function
		bestScore := 0
		for _, h := range group {
			k, s, er := dm.closureShape(h)
			if k < 0 || s < 0 {
				continue
			}
			score := 1
			if er >= 0 {
				score++
			}
			for _, x := range group {
				if x != h && reach(x, x, h) {
					score = 0
				}
			}
			if score == 0 {
				continue
			}
			for fn := range dm.p.allFns() {
				if dm.rec[fn] {
					continue
				}
				for _, c := range staticCallees(fn) {
					if c == h {
						score += 10
					}
				}
			}
			if score > bestScore {
				best, bestScore = h, score
			}
		}
		if best == nil {
			continue
		}
		for _, x := range group {
			if x != best {
				delete(dm.rec, x)
			}
		}
	}
}

func (dm *dagModel) setRole(i int, r string) {
	dm.role[i] = r
	if r != "cache" && r != "other" {
		if _, dup := dm.roleIdx[r]; dup {
			dm.role[i] = "cache"
			if r == "V" {
				dm.role[i] = "other"
			}
			return
		}
		dm.roleIdx[r] = i
	}
}

// methods are the declared methods of the graph, in order.
func (dm *dagModel) methods() []*ssa.Function { return methodsOf(dm.p, dm.d.graph) }

func methodsOf(p *Prog, t *types.Named) []*ssa.Function {
	var out []*ssa.Function
	seen := map[string]bool{}
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.ssa.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			n := ms.At(i).Obj().Name()
			if seen[n] {
				continue
			}
			seen[n] = true
			if fn := p.method(t, n); fn != nil {
				out = append(out, fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// findRec marks the functions that can call themselves.
func (dm *dagModel) findRec(fn *ssa.Function, path []*ssa.Function, done map[*ssa.Function]bool) {
	for i, f := range path {
		if f == fn {
			for _, x := range path[i:] {
				dm.rec[x] = true
			}
			return
		}
	}
	if done[fn] {
		return
	}
	path = append(path[:len(path):len(path)], fn)
	for _, c := range staticCallees(fn) {
		if dm.p.inModule(fnPkgPath(c)) {
			dm.findRec(c, path, done)
		}
	}
	done[fn] = true
}

func staticCallees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					out = append(out, f)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				out = append(out, mc.Fn.(*ssa.Function))
			}
		}
	}
	return out
}

func (dm *dagModel) recList() []*ssa.Function {
	var out []*ssa.Function
	for f := range dm.rec {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (dm *dagModel) isSet(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && types.Identical(m.Key(), dm.d.key) && types.Identical(m.Elem(), dm.d.key)
}

// closureShape finds the ID parameter, the set result and the error result.
func (dm *dagModel) closureShape(fn *ssa.Function) (key, set, err int) {
	key, set, err = -1, -1, -1
	for i, p := range fn.Params {
		if types.Identical(p.Type(), dm.d.key) {
			if key >= 0 {
				return -1, -1, -1
			}
			key = i
		}
		if dm.isSet(p.Type()) {
			return -1, -1, -1
		}
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		switch t := rs.At(i).Type(); {
		case dm.isSet(t) && set < 0:
			set = i
		case types.Identical(t, types.Universe.Lookup("error").Type()) && err < 0:
			err = i
		default:
			return -1, -1, -1
		}
	}
	return
}

// engine returns an engine that understands the graph.
func (dm *dagModel) engine() *Engine {
	e := dm.p.engine()
	e.contract = dm.contract
	e.gather = dm.gather
	e.Inlined = dm.inlined
	e.closed = dm.searchResult
	e.distinct = func(a, b *Term) bool {
		x, y := dm.sentinel(a), dm.sentinel(b)
		return x != "" && y != "" && x != y
	}
	e.nonNil = func(st *State, t *Term) bool {
		switch t.Op {
		case OSym:
			return t == dm.g || isGathered(t) || strings.HasPrefix(t.Sym, "chan:")
		case OLoad:
			if a := t.Args[0]; a.Op == OFieldAddr && a.Args[0] == dm.g {
				return true
			} else if a.Op == OGlobal {
				return dm.p.errGlobal(a.Sym) != ""
			}
		case OMapVer:
			return true
		case OLookup:
			// inner sets of existing entries are made, never nil
			return dm.isEdgeOrCache(t.Args[0]) && (st == nil || st.facts.b[mk(OHas, "", 0, nil, t.Args[0], t.Args[1])])
		case OCall:
			return strings.HasPrefix(t.Sym, "closure:")
		}
		return false
	}
	return e
}

// fieldOfMap says which graph field a map term is a version of.
func (dm *dagModel) fieldOfMap(m *Term) (int, bool) {
	switch m.Op {
	case OLoad:
		if a := m.Args[0]; a.Op == OFieldAddr && a.Args[0] == dm.g {
			return a.N, true
		}
	case OMapVer:
		return dm.fieldOfMap(m.Args[0])
	case OMap:
		if len(m.Args) > 0 && m.Args[0].Op == OBase {
			return dm.fieldOfMap(m.Args[0].Args[0])
		}
	}
	return 0, false
}

func (dm *dagModel) isEdgeOrCache(m *Term) bool {
	f, ok := dm.fieldOfMap(m)
	return ok && dm.role[f] != "V" && dm.role[f] != "other"
}

func (dm *dagModel) fieldTerm(i int) *Term {
	return mkLoad(mkFieldAddr(dm.g, i, dm.d.graph), dm.st.Field(i).Type())
}

// edgesTouched reports whether the edges may have changed on this path.
func (dm *dagModel) edgesTouched(st *State) bool {
	for m, log := range st.mapLog {
		if len(log) == 0 {
			continue
		}
		x := m
		if x.Op == OLookup {
			x = x.Args[0]
		}
		if f, ok := dm.fieldOfMap(x); ok && (dm.role[f] == "in" || dm.role[f] == "out") {
			return true
		}
	}
	for a := range st.overlay {
		if a.Op == OFieldAddr && a.Args[0] == dm.g && (dm.role[a.N] == "in" || dm.role[a.N] == "out") {
			return true
		}
	}
	return false
}

// sentinel is the identity of the error variable t reads, or "".
func (dm *dagModel) sentinel(t *Term) string {
	if t.Op == OLoad && t.Args[0].Op == OGlobal {
		return dm.p.errGlobal(t.Args[0].Sym)
	}
	return ""
}

// contract replaces calls of closure functions by their meaning.
func (dm *dagModel) contract(e *Engine, st *State, fn *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool) {
	if fnName(fn) == "errors.Is" && len(args) == 2 {
		// The errors compared are plain values made by errors.New.
		x, y := args[0], args[1]
		if (x.Op == ONil || dm.sentinel(x) != "") && (y.Op == ONil || dm.sentinel(y) != "") {
			return []Outcome{{St: st, Results: []*Term{cBool(x == y)}, Pos: pos, Fn: fn}}, true
		}
	}
	if !dm.rec[fn] {
		return nil, false
	}
	k, s, er := dm.closureShape(fn)
	if k < 0 || s < 0 {
		return nil, false
	}
	c := dm.closure(fn, args)
	id := args[c.keyIdx]
	sub := map[*Term]*Term{c.param: id}
	var outs []Outcome
	if !c.busy {
		for _, o := range c.errs {
			s2 := st.clone()
			ok := true
			for _, cd := range o.St.pc {
				if !e.assume(s2, cd.T.subst(sub), cd.V) {
					ok = false
					break
				}
			}
			if ok {
				o2 := Outcome{St: s2, Pos: o.Pos, Fn: fn}
				for _, r := range o.Results {
					o2.Results = append(o2.Results, r.subst(sub))
				}
				outs = append(outs, o2)
			}
		}
	}
	for _, cd := range c.common {
		if !e.assume(st, cd.T.subst(sub), cd.V) {
			return outs, true
		}
	}
	name := "closure:" + c.key
	if dm.edgesTouched(st) {
		name += "@later"
	}
	set := mk(OCall, name, 0, nil, id)
	if set.Typ == nil {
		set.Typ = fn.Signature.Results().At(s).Type()
	}
	st.addEff(&Effect{Kind: "fill", Name: c.key, Args: []*Term{id}, Pos: pos, Fn: fn})
	for _, f := range c.caches {
		m := e.load(st, mkFieldAddr(dm.g, f, dm.d.graph), dm.st.Field(f).Type())
		if _, ok := dm.fieldOfMap(m); !ok {
			continue
		}
		es := e.mapEntries(st, m)
		v := e.newVersion(m, &mapVersion{entry: mk(OMap, "", 0, nil, es...), args: []*Term{set}})
		st.mapLog[m] = []*Term{mk(OBase, "", 0, nil, v)}
		st.facts.dropMentioning(m)
	}
	rs := make([]*Term, fn.Signature.Results().Len())
	rs[s] = set
	if er >= 0 {
		rs[er] = theNil
	}
	return append(outs, Outcome{St: st, Results: rs, Pos: pos, Fn: fn}), true
}

// cachesOf lists the cache fields a function may reach.
func (dm *dagModel) cachesOf(fn *ssa.Function, args []*Term) []int {
	found := map[int]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if n := namedOf(fa.X.Type()); n != nil && types.Identical(n, dm.d.graph) && dm.role[fa.Field] == "cache" {
						found[fa.Field] = true
					}
				}
			}
		}
		for _, c := range staticCallees(f) {
			if dm.p.inModule(fnPkgPath(c)) {
				walk(c)
			}
		}
	}
	walk(fn)
	for _, a := range args {
		if f, ok := dm.fieldOfMap(a); ok && dm.role[f] == "cache" {
			found[f] = true
		}
	}
	var out []int
	for f := range found {
		out = append(out, f)
	}
	sort.Ints(out)
	return out
}

// closure analyses one specialisation of a recursive function.
func (dm *dagModel) closure(fn *ssa.Function, args []*Term) *closureFn {
	k, s, er := dm.closureShape(fn)
	key := fn.Name()
	for i, a := range args {
		if i != k && a != dm.g {
			key += "," + a.String()
		}
	}
	if c := dm.clos[key]; c != nil {
		return c
	}
	c := &closureFn{fn: fn, key: key, keyIdx: k, setIdx: s, errIdx: er, busy: true, param: mk(OSym, "v", 0, dm.d.key), pos: fn.Pos()}
	dm.clos[key] = c
	c.caches = dm.cachesOf(fn, args)
	e := dm.engine()
	var as []*Term
	for i, a := range args {
		if i == k {
			a = c.param
		}
		as = append(as, a)
	}
	outs, und := e.runFn(fn, func(st *State) []*Term { return as })
	c.busy = false
	c.eng = e
	if und != nil {
		c.why = fmt.Sprintf("%s at %s", und.Msg, dm.p.pos(und.Pos))
		return c
	}
	c.outs = outs
	dm.paths += len(outs)
	var succ []Outcome
	for _, o := range outs {
		if o.Panic {
			c.why = "it can panic: " + o.Reason
			return c
		}
		if er >= 0 && e.eval(o.St, mkEq(o.Results[er], theNil)) != 1 {
			if len(o.St.effs) > 0 {
				c.why = "it has effects although it fails"
				return c
			}
			c.errs = append(c.errs, o)
			continue
		}
		succ = append(succ, o)
	}
	if len(succ) == 0 {
		c.why = "it never succeeds"
		return c
	}
	for _, cd := range succ[0].St.pc {
		all := true
		for _, o := range succ[1:] {
			has := false
			for _, x := range o.St.pc {
				if x == cd {
					has = true
				}
			}
			if !has {
				all = false
			}
		}
		if all {
			c.common = append(c.common, cd)
		}
	}
	c.trying = true
	for _, dir := range []string{"out", "in"} {
		if why := dm.isClosure(c, succ, dir); why == "" {
			c.dir = dir
			c.why = ""
			return c
		} else if c.why == "" || dir == dm.likelyDir(c) {
			c.why = why
		}
	}
	return c
}

// likelyDir picks the direction whose edges the function reads.
func (dm *dagModel) likelyDir(c *closureFn) string {
	for _, o := range c.outs {
		for _, f := range o.St.effs {
			if f.Kind == "each" && f.Binder.Op == OKey && f.Binder.Args[0].Op == OLookup {
				if fi, ok := dm.fieldOfMap(f.Binder.Args[0].Args[0]); ok {
					return dm.role[fi]
				}
			}
		}
	}
	return "out"
}

// errGlobal returns the identity of an error variable that is only set by its
// declaration.
func (p *Prog) errGlobal(name string) string {
	if p.errs == nil {
		p.errs = map[string]string{}
		n := map[string]int{}
		for _, pk := range p.ssa.AllPackages() {
			if !p.inModule(pk.Pkg.Path()) {
				continue
			}
			for fn := range p.allFns() {
				if fn.Pkg != pk {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						g, ok := st.Addr.(*ssa.Global)
						if !ok {
							continue
						}
						n[g.String()]++
						v := st.Val
						if mi, ok := v.(*ssa.MakeInterface); ok {
							v = mi.X
						}
						if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
							switch fnName(c.Call.StaticCallee()) {
							case "errors.New", "fmt.Errorf":
								p.errs[g.String()] = g.String()
							}
						}
					}
				}
			}
		}
		for k, v := range n {
			if v != 1 {
				delete(p.errs, k)
			}
		}
	}
	return p.errs[strings.TrimPrefix(name, "&")]
}
