package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["E11"] = withLex(checkLinks)
}

// Parent links. A linking function is a recursive function that (itself or
// through what it calls) sets parent links. Its contract is one of
//
//	A(parent, n): n's parent is parent, and everything below n is linked
//	B(n):         everything below n is linked, n's own link is untouched
//
// where "below n is linked" means each child's parent is the node listing it,
// at every depth. A contract is accepted when the body establishes it assuming
// the accepted contracts for the recursive calls.

type linkRule struct {
	fn     *ssa.Function
	node   int // parameter holding the node
	parent int // parameter holding the parent, -1 for B
}

// parentField is the index of the parent link in the node header.
func (m *Model) parentField() int {
	st, ok := m.Header.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type().Underlying(), m.Node) {
			return i
		}
	}
	return -1
}

func (m *Model) callTargets() *callTargets {
	if m.targets == nil {
		m.targets = newCallTargets(m.p.allFns(), func(fn *ssa.Function) bool { return fnPkgPath(fn) == m.p.etx.PkgPath })
	}
	return m.targets
}

// linkers finds the recursive functions that set parent links.
func (m *Model) linkers() map[*ssa.Function]bool {
	if m.linkFns != nil {
		return m.linkFns
	}
	pf := m.parentField()
	direct := map[*ssa.Function]bool{}
	calls := map[*ssa.Function][]*ssa.Function{}
	targets := m.callTargets()
	for fn := range m.p.allFns() {
		if fnPkgPath(fn) != m.p.etx.PkgPath {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if a, ok := s.Addr.(*ssa.FieldAddr); ok && a.Field == pf && namedOf(a.X.Type()) == m.Header {
						if _, local := a.X.(*ssa.Alloc); !local { // not a header being built
							direct[fn] = true
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					calls[fn] = append(calls[fn], targets.callees(c)...)
				}
			}
		}
	}
	reach := func(from *ssa.Function, hit func(*ssa.Function) bool) bool {
		seen := map[*ssa.Function]bool{}
		var rec func(f *ssa.Function) bool
		rec = func(f *ssa.Function) bool {
			for _, g := range calls[f] {
				if hit(g) {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if rec(g) {
						return true
					}
				}
			}
			return false
		}
		return rec(from)
	}
	m.setters = map[*ssa.Function]bool{}
	m.linkFns = map[*ssa.Function]bool{}
	for fn := range calls {
		if fn.Synthetic != "" || fn.Name() == "init" {
			continue
		}
		sets := direct[fn] || reach(fn, func(g *ssa.Function) bool { return direct[g] })
		if sets && fn.Signature.Results().Len() == 0 {
			m.setters[fn] = true
		}
		if sets && (reach(fn, func(g *ssa.Function) bool { return g == fn }) || m.takesNode(fn) && m.workLists(fn)) {
			m.linkFns[fn] = true
		}
	}
	return m.linkFns
}

func (m *Model) takesNode(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isNodeType(m, p.Type()) {
			return true
		}
	}
	return false
}

func isNodeType(m *Model, t types.Type) bool {
	return types.Identical(t.Underlying(), m.Node)
}

// linkContract leaves calls of linking functions as effects.
func (m *Model) linkContract(e *Engine, st *State, fn *ssa.Function, args []*Term, pos token.Pos, root *ssa.Function) ([]Outcome, bool) {
	if !m.linkers()[fn] && !(m.opaque && m.setters[fn]) || fn == root && len(e.stack) == 0 {
		return nil, false
	}
	st.addEff(&Effect{Kind: "call", Name: fnName(fn), Args: args, Pos: pos, Fn: fn})
	if fn.Signature.Results().Len() > 0 {
		return nil, false
	}
	return []Outcome{{St: st, Pos: pos}}, true
}

// linkEngine interprets functions that link trees.
func (m *Model) linkEngine(root *ssa.Function) *Engine {
	e := m.p.engine()
	m.nodeContracts(e, root, map[string]bool{})
	prev := e.contract
	e.contract = func(e *Engine, st *State, fn *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool) {
		if os, ok := m.linkContract(e, st, fn, args, pos, root); ok {
			return os, true
		}
		return prev(e, st, fn, args, pos)
	}
	m.nodeInvoke(e)
	return e
}

// nodeInvoke models the node interface on unknown nodes.
func (m *Model) nodeInvoke(e *Engine) {
	e.work = m.workList
	e.invoke = func(e *Engine, st *State, recv *Term, f *types.Func, args []*Term, pos token.Pos) ([]Outcome, bool) {
		var t *Term
		switch f.Name() {
		case "Node":
			t = mk(OCall, "header", 0, nil, recv)
		case "Children":
			t = mk(OCall, "children", 0, nil, recv)
		default:
			return nil, false
		}
		if t.Typ == nil {
			t.Typ = f.Type().(*types.Signature).Results().At(0).Type()
		}
		return []Outcome{{St: st, Results: []*Term{t}, Pos: pos}}, true
	}
	prev := e.nonNil
	e.nonNil = func(st *State, t *Term) bool {
		if t.Op == OCall && t.Sym == "header" {
			return true
		}
		if t.Op == OLoad && t.Args[0].Op == OIndexAddr {
			x := t.Args[0].Args[0]
			if x.Op == OCall && x.Sym == "children" {
				return true
			}
			// elements of a list the parser filled
			if x.any(func(y *Term) bool { return y.Op == OSym && len(y.Sym) > 7 && y.Sym[:7] == "parsed$" }) {
				return true
			}
		}
		return prev != nil && prev(st, t)
	}
}

func unIface(t *Term) *Term {
	for t != nil && (t.Op == OIface || t.Op == OConv) {
		t = t.Args[0]
	}
	return t
}

// headerOf tells which node an address of a parent link belongs to.
func (m *Model) linkOf(addr *Term) *Term {
	if addr.Op != OFieldAddr || addr.N != m.parentField() {
		return nil
	}
	h := addr.Args[0]
	if h.Op == OCall && h.Sym == "header" {
		return unIface(h.Args[0])
	}
	if h.Op == OFieldAddr {
		return unIface(h.Args[0])
	}
	return nil
}

// ownLink reports whether effects set the parent of child c: 1 as wanted, -1
// to something else, 0 not at all.
func (m *Model) ownLink(rules []linkRule, effs []*Effect, c, parent *Term) int {
	c, parent = unIface(c), unIface(parent)
	own := 0
	set := func(p *Term) {
		own = -1
		if unIface(p) == parent {
			own = 1
		}
	}
	for _, f := range effs {
		if f.Kind == "store" && len(f.Args) > 1 && m.linkOf(f.Args[0]) == c {
			set(f.Args[1])
		}
		if f.Kind == "linked" && f.Args[0] == c {
			set(f.Args[1])
		}
		if f.Kind == "call" {
			for _, r := range rules {
				if f.Fn != r.fn || len(f.Args) <= r.node || unIface(f.Args[r.node]) != c {
					continue
				}
				if r.parent >= 0 && unIface(f.Args[r.parent]) == parent {
					own = 1
				}
			}
		}
	}
	return own
}

// belowLinked reports whether effects link everything below child c.
func (m *Model) belowLinked(rules []linkRule, effs []*Effect, c, parent *Term) bool {
	c, parent = unIface(c), unIface(parent)
	for _, f := range effs {
		if (f.Kind == "linked" || f.Kind == "below") && f.Args[0] == c {
			return true
		}
		if f.Kind != "call" {
			continue
		}
		for _, r := range rules {
			if f.Fn == r.fn && len(f.Args) > r.node && unIface(f.Args[r.node]) == c && (r.parent < 0 || unIface(f.Args[r.parent]) == parent) {
				return true
			}
		}
	}
	return false
}

// childLinks checks that effects link every element of a list to parent.
func (m *Model) childLinks(e *Engine, st *State, rules []linkRule, effs []*Effect, list, parent *Term, fresh bool) bool {
	if _, hi := e.lenInterval(st, list); hi == 0 {
		return true
	}
	if _, hi := e.interval(st, mkLen(list)); hi == 0 {
		return true
	}
	own, below := fresh && unIface(parent).Op == ONil, false
	for _, f := range effs {
		if f.Kind != "each" || f.Prefix || f.Binder.Op != OIdx || f.Binder.Args[0] != list {
			continue
		}
		sets, reaches := len(f.Alts) > 0, len(f.Alts) > 0
		for _, a := range f.Alts {
			c := mkLoad(mkIndexAddr(list, f.Binder), nil)
			switch m.ownLink(rules, a.Effs, c, parent) {
			case -1:
				return false
			case 0:
				sets = false
			}
			reaches = reaches && m.belowLinked(rules, a.Effs, c, parent)
		}
		own, below = own || sets, below || reaches
	}
	return own && below
}

// foreign returns a write that is not a parent link of a node in hand.
func (m *Model) foreign(effs []*Effect, ok func(n *Term) bool) *Effect {
	for _, f := range effs {
		switch f.Kind {
		case "each":
			for _, a := range f.Alts {
				if x := m.foreign(a.Effs, ok); x != nil {
					return x
				}
			}
		case "store":
			if n := m.linkOf(f.Args[0]); n == nil || !ok(n) {
				return f
			}
		case "linked", "below":
		case "call":
			if f.Fn == nil || !m.linkers()[f.Fn] {
				return f
			}
		default:
			return f
		}
	}
	return nil
}

// linkRun analyses one linking function.
type linkRun struct {
	e    *Engine
	args []*Term
	outs []Outcome
	und  *Undecided
}

func (m *Model) linkRuns() map[*ssa.Function]*linkRun {
	if m.linkMemo != nil {
		return m.linkMemo
	}
	m.linkMemo = map[*ssa.Function]*linkRun{}
	for fn := range m.linkers() {
		run := &linkRun{e: m.linkEngine(fn)}
		run.outs, run.und = run.e.runClosure(fn, func(st *State) (args, bindings []*Term) {
			cells := map[*ssa.Alloc]*Term{}
			run.args = run.e.symArgs(fn)
			for i, p := range fn.Params {
				if isNodeType(m, p.Type()) && len(fn.Params) == 1 {
					st.facts.b[mkEq(run.args[i], theNil)] = false
				}
				if _, ok := p.Type().Underlying().(*types.Signature); ok {
					// always handed the same function
					if fs, ok := m.callTargets().of(p); ok && len(fs) == 1 {
						if bs, ok := m.callTargets().closed(run.e, st, fs[0], cells); ok {
							run.args[i] = m.callTargets().funcTerm(run.e, fs[0], bs)
						}
					}
				}
			}
			bs, ok := m.callTargets().closed(run.e, st, fn, cells)
			if !ok {
				run.e.undecided(fn.Pos(), "a recursive function literal that sets parent links shares variables with the function around it")
			}
			return run.args, bs
		})
		m.linkMemo[fn] = run
	}
	return m.linkMemo
}

// onNonNil drops outcomes that need a nil node.
func (m *Model) nilNode(o Outcome, n *Term) bool {
	v, ok := o.St.facts.b[mkEq(n, theNil)]
	return ok && v
}

// linkRules computes the accepted contracts.
func (m *Model) linkRules() []linkRule {
	var cand []linkRule
	for fn := range m.linkers() {
		for i, p := range fn.Params {
			if !isNodeType(m, p.Type()) {
				continue
			}
			cand = append(cand, linkRule{fn, i, -1})
			for j, q := range fn.Params {
				if j != i && isNodeType(m, q.Type()) {
					cand = append(cand, linkRule{fn, i, j})
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		var keep []linkRule
		for _, c := range cand {
			if m.linkHolds(c, cand) {
				keep = append(keep, c)
			} else {
				ch = true
			}
		}
		cand = keep
	}
	return cand
}

func (m *Model) linkHolds(c linkRule, rules []linkRule) bool {
	run := m.linkRuns()[c.fn]
	if run.und != nil {
		return false
	}
	n := run.args[c.node]
	found := false
	for _, o := range run.outs {
		if m.nilNode(o, n) {
			continue
		}
		if o.Panic {
			return false
		}
		found = true
		own := c.parent < 0
		for _, f := range o.St.effs {
			if f.Kind == "store" && m.linkOf(f.Args[0]) == n {
				own = c.parent >= 0 && unIface(f.Args[1]) == unIface(run.args[c.parent])
			}
		}
		list := mk(OCall, "children", 0, nil, n)
		below := m.childLinks(run.e, o.St, rules, o.St.effs, list, n, false)
		for _, f := range o.St.effs {
			if f.Kind == "linked" && f.Args[0] == unIface(n) {
				own, below = c.parent >= 0 && f.Args[1] == unIface(run.args[c.parent]), true
			}
			if f.Kind == "below" && f.Args[0] == unIface(n) {
				below = true
			}
			// left to another linking function
			for _, r := range rules {
				if f.Kind == "call" && f.Fn == r.fn && f.Fn != c.fn && len(f.Args) > r.node && unIface(f.Args[r.node]) == unIface(n) {
					if r.parent < 0 {
						below = true
					} else if c.parent >= 0 && unIface(f.Args[r.parent]) == unIface(run.args[c.parent]) {
						below, own = true, true
					}
				}
			}
		}
		if !own || !below {
			return false
		}
		if m.foreign(o.St.effs, func(x *Term) bool { return true }) != nil {
			return false
		}
	}
	return found
}

// linkPanics reports panicking paths of the linking functions.
func (m *Model) linkPanics(r *Report) {
	for fn, run := range m.linkRuns() {
		r.covers(run.e)
		if run.und != nil {
			r.undecided("linking by "+fn.Name(), run.und)
			continue
		}
		r.paths += len(run.outs)
		for _, o := range run.outs {
			if !o.Panic {
				r.ob(true, "link:"+fn.Name(), o.Pos, "")
				continue
			}
			nilArg := false
			for i, p := range fn.Params {
				if isNodeType(m, p.Type()) && m.nilNode(o, run.args[i]) {
					nilArg = true
				}
			}
			r.ob(nilArg && o.Implied, "link:"+fn.Name(), o.Pos, "%s panics: %s", fn, o.Reason)
		}
	}
}

func checkLinks(r *Report, l *LexModel) {
	m := l.m
	r.rule = "Every recursive function that sets parent links is checked, path by path, against the contract that each child of the node it is given gets that node as parent and is itself linked the same way (recursive calls by contract); the three entry points and UpdateParentRefs must apply it to every top-level item of the tree they return, with no parent, and nothing else may set a parent link."
	rules := m.linkRules()
	for _, c := range rules {
		r.ob(true, "rule:"+c.fn.Name(), c.fn.Pos(), "")
	}
	for fn, run := range m.linkRuns() {
		r.covers(run.e)
		r.paths += len(run.outs)
		r.count("linking functions", 1)
		if run.und != nil {
			r.undecided("linking by "+fn.Name(), run.und)
			continue
		}
		ok := false
		for _, c := range rules {
			if c.fn == fn {
				ok = true
			}
		}
		r.ob(ok, "links:"+fn.Name(), fn.Pos(), "%s does not give every child of its node that node as parent at every depth: %s", fn, m.linkTrouble(run))
	}
	itemsOf := func(v *Term) []*Term {
		var out []*Term
		for i := 0; i < m.Root.St.NumFields(); i++ {
			f := m.Root.St.Field(i)
			if c := m.of2(f.Type()); c == nil || !c.IsNode {
				continue
			}
			if _, ptr := v.Typ.(*types.Pointer); !ptr {
				out = append(out, mkField(v, i, m.Root.Named))
			} else {
				out = append(out, mkLoad(mkFieldAddr(v, i, m.Root.Named), f.Type()))
			}
		}
		return out
	}
	// entry points
	for _, n := range []string{"Parse", "ParseString", "ParseBytes"} {
		run := l.Parse[n]
		r.covers(run.e)
		good := 0
		for _, o := range run.outs {
			r.paths++
			if o.Panic || len(o.Results) != 2 || run.e.eval(o.St, mkEq(o.Results[0], theNil)) == 1 {
				continue
			}
			good++
			v := o.Results[0]
			if !r.ob(v.Op == OObj && o.St.heap[v.N] != nil, "tree:"+n, o.Pos, "%s does not return the tree it parsed: %s", n, v) {
				continue
			}
			tree := o.St.heap[v.N].val
			after := o.St.effs
			for i, f := range o.St.effs {
				if f.Kind == "call" && isParseCall(f.Name) {
					after = o.St.effs[i+1:]
				}
			}
			for _, it := range itemsOf(tree) {
				r.count("roots", 1)
				r.ob(m.childLinks(run.e, o.St, rules, after, it, theNil, true), "root:"+n, o.Pos, "%s returns a tree whose items are not all linked (after parsing: %s)", n, effList(after))
			}
		}
		r.ob(good > 0, "succeeds:"+n, run.fn.Pos(), "%s never returns a tree", n)
	}
	r.floor("roots", 3)
	// refreshing
	upd := m.p.method(m.Root.Named, "UpdateParentRefs")
	if r.ob(upd != nil, "refresh", m.Root.Named.Obj().Pos(), "there is no UpdateParentRefs on %s", m.Root.Name) {
		e := m.linkEngine(upd)
		p := m.nodePtr(m.Root)
		outs, und := e.runFn(upd, func(st *State) []*Term {
			st.facts.b[mkEq(p, theNil)] = false
			return []*Term{p}
		})
		r.covers(e)
		if und != nil {
			r.undecided("UpdateParentRefs", und)
		}
		for _, o := range outs {
			r.paths++
			if o.Panic {
				r.ob(o.Implied, "refresh:panic", o.Pos, "UpdateParentRefs panics: %s", o.Reason)
				continue
			}
			for _, it := range itemsOf(p) {
				r.ob(m.childLinks(e, o.St, rules, o.St.effs, it, theNil, false), "refresh:root", o.Pos, "UpdateParentRefs does not link every item (%s)", effList(o.St.effs))
			}
		}
	}
	r.count("linking functions and loops", r.counts["linking functions"]+len(m.workLoops))
	r.floor("linking functions and loops", 1)
	// nobody else
	pf := m.parentField()
	reached := map[string]bool{}
	for f := range r.functions {
		reached[f] = true
	}
	n := 0
	for fn := range m.p.allFns() {
		if !m.p.inModule(fnPkgPath(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || a.Field != pf || namedOf(a.X.Type()) != m.Header {
					continue
				}
				n++
				if _, local := a.X.(*ssa.Alloc); local {
					continue // a header being built
				}
				r.ob(reached[fn.String()], "setter:"+fn.Name(), in.Pos(), "%s sets a parent link", fn)
			}
		}
	}
	r.count("parent stores", n)
	r.floor("parent stores", 1)
	r.assume = append(r.assume, "children are listed exactly once (E12), so a node has one parent", "headers are reached through Node (checked by E12)")
}

func effList(fs []*Effect) string {
	s := ""
	for i, f := range fs {
		if i > 0 {
			s += "; "
		}
		if f.Kind == "call" && isParseCall(f.Name) {
			s += "parse"
			continue
		}
		s += f.String()
	}
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	if s == "" {
		return "nothing is done"
	}
	return s
}

func (m *Model) linkTrouble(run *linkRun) string {
	for _, o := range run.outs {
		if o.Panic {
			continue
		}
		return effList(o.St.effs)
	}
	return "it never returns"
}
