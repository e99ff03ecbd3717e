package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// controlling returns the test in the loop header that decides whether to go
// on, and which successor stays in the loop.
func controlling(l *Loop) (*ssa.If, int) {
	ins := l.header.Instrs
	c, ok := ins[len(ins)-1].(*ssa.If)
	if !ok {
		return nil, 0
	}
	a, b := l.blocks[l.header.Succs[0]], l.blocks[l.header.Succs[1]]
	switch {
	case a && !b:
		return c, 0
	case b && !a:
		return c, 1
	}
	return nil, 0
}

func (e *Engine) enterLoop(fr *Frame, st *State, from *ssa.BasicBlock, l *Loop, out *[]Outcome) {
	e.phis(fr, from, l.header)
	ctl, inSucc := controlling(l)
	if ctl != nil {
		if cond, ok := e.probe(fr, st, l, ctl); ok {
			if v, is := cond.boolVal(); is && !(v == (inSucc == 0) && e.openBound(fr, st, l, ctl)) {
				for _, in := range l.header.Instrs {
					if n, ok := in.(*ssa.Next); ok {
						st.iter[-1-e.value(fr, n.Iter).id] = 1
					}
				}
				e.instrs(fr, st, l.header, 0, out)
				return
			}
		}
	}
	for _, in := range l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			id := e.value(fr, n.Iter).id
			if st.iter[-1-id] == 1 && st.iter[id] > 0 {
				e.undecided(in.Pos(), "what %s ranges over changes during the loop", fr.fn)
			}
			delete(st.iter, -1-id)
		}
	}
	e.runLoop(fr, st, l, ctl, inSucc, out)
}

// openBound reports whether an index loop that surely runs once is bounded by
// a length that is not known.
func (e *Engine) openBound(fr *Frame, st *State, l *Loop, ctl *ssa.If) bool {
	b, ok := ctl.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		c, ok := v.(*ssa.Call)
		if !ok {
			continue
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			x := c.Call.Args[0]
			if in, ok := x.(ssa.Instruction); ok && l.blocks[in.Block()] {
				return false
			}
			if _, phi := x.(*ssa.Phi); phi {
				// a list that changes during the loop
				return false
			}
			t, ok := fr.env[x]
			if !ok || t.Op != OObj || st.heap[t.N] == nil || st.heap[t.N].val == nil || st.heap[t.N].val.Op != OSeq {
				return false
			}
			_, known := e.lenTerm(st, t).intVal()
			return !known
		}
	}
	return false
}

// probe evaluates the header test on the entry values.
func (e *Engine) probe(fr *Frame, st *State, l *Loop, ctl *ssa.If) (*Term, bool) {
	f, s := fr.clone(), st.clone()
	f.col = nil
	f.force = nil
	for _, in := range l.header.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			return e.value(f, in.Cond), true
		case *ssa.Jump, *ssa.Return, *ssa.Panic:
			return nil, false
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.MultiConvert, *ssa.Field, *ssa.Extract, *ssa.Range:
			e.simple(f, s, in)
		case *ssa.Next:
			if v, ok := e.nextConcrete(f, s, in); ok {
				f.env[in] = v
				continue
			}
			return nil, false
		case *ssa.Defer, *ssa.Go, *ssa.Select, *ssa.Send, *ssa.RunDefers:
			return nil, false
		default:
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return nil, false
			}
			as := e.step(f, s, in)
			if len(as) != 1 || as[0].out != nil {
				return nil, false
			}
			s = as[0].st
			if v, ok := in.(ssa.Value); ok && as[0].val != nil {
				f.env[v] = as[0].val
			}
		}
	}
	return nil, false
}

// nextConcrete unrolls iteration over a map literal or constant string.
func (e *Engine) nextConcrete(fr *Frame, st *State, in *ssa.Next) (*Term, bool) {
	it := e.value(fr, in.Iter)
	if _, ok := st.elems[it]; ok {
		return nil, false
	}
	x := it.Args[0]
	if in.IsString {
		s, ok := x.strVal()
		if !ok {
			return nil, false
		}
		pos := st.iter[it.id]
		if pos >= len(s) {
			return mk(OTuple, "", 0, nil, cBool(false), cInt(0), cInt(0)), true
		}
		for i, r := range s[pos:] {
			if i == 0 {
				n := len(string(r))
				st.iter[it.id] = pos + n
				return mk(OTuple, "", 0, nil, cBool(true), cInt(int64(pos)), cInt(int64(r))), true
			}
		}
		return nil, false
	}
	es := e.mapEntries(st, x)
	for _, y := range es {
		if y.Op != OIns {
			return nil, false
		}
	}
	pos := st.iter[it.id]
	if pos >= len(es) {
		return mk(OTuple, "", 0, nil, cBool(false), theNil, theNil), true
	}
	st.iter[it.id] = pos + 1
	return mk(OTuple, "", 0, nil, cBool(true), es[pos].Args[0], es[pos].Args[1]), true
}

// part is one stretch of a loop's domain.
type part struct {
	binder *Term
	plain  bool
	setups []func(f *Frame, s *State) bool
	phiVal *Term // value of the induction variable during an iteration
	exact  bool  // binder is an ascending index from 0 over the whole domain
}

type induction struct {
	phi   *ssa.Phi
	final *Term
}

type loopRun struct {
	backs, exits []*edgeState
	outs         []Outcome
	cond         *Term
}

func (e *Engine) iterate(fr *Frame, st *State, l *Loop, ctl *ssa.If, succ int, assumeCond bool, setup func(f *Frame, s *State) bool) loopRun {
	var r loopRun
	f, s := fr.clone(), st.clone()
	s.effs = nil
	col := &collector{loop: l, condIf: ctl, noForce: !assumeCond}
	f.col = col
	f.force = nil
	if ctl != nil {
		f.force = map[*ssa.If]int{ctl: succ}
	}
	if setup != nil && !setup(f, s) {
		return r
	}
	e.instrs(f, s, l.header, 0, &r.outs)
	r.backs, r.exits, r.cond = col.back, col.exits, col.cond
	return r
}

func (r *loopRun) add(x loopRun) {
	r.backs = append(r.backs, x.backs...)
	r.exits = append(r.exits, x.exits...)
	r.outs = append(r.outs, x.outs...)
	if r.cond == nil {
		r.cond = x.cond
	}
}

// cell is a storage location that may change between iterations.
type cell struct {
	phi  *ssa.Phi
	obj  int
	path []int
	addr *Term // overlay
	m    *Term // map log
	typ  types.Type

	entry *Term
	cur   *Term // value at the start of the generic iteration
	hole  *Term
	wrap  *Term // value from the second iteration on
	count bool  // counts the iterations: stays below their number
	tried bool
	grows bool // starts at zero or above and is never negative
}

func (c *cell) key() string {
	switch {
	case c.phi != nil:
		return "p" + c.phi.Name()
	case c.addr != nil:
		return fmt.Sprintf("o%d", c.addr.id)
	case c.m != nil:
		return fmt.Sprintf("m%d", c.m.id)
	}
	return fmt.Sprintf("h%d%v", c.obj, c.path)
}

func (e *Engine) getCell(f *Frame, s *State, c *cell, es *edgeState) *Term {
	switch {
	case c.phi != nil:
		if es == nil {
			return f.env[c.phi]
		}
		for i, p := range es.to.Preds {
			if p == es.from {
				return e.value(es.fr, c.phi.Edges[i])
			}
		}
	case c.addr != nil:
		return e.load(s, c.addr, c.typ)
	case c.m != nil:
		return mk(OMap, "", 0, nil, s.mapLog[c.m]...)
	}
	o := s.heap[c.obj]
	v := o.val
	t := o.typ
	for _, n := range c.path {
		v = e.fieldOf(v, n, t)
		t = fieldType(t, n)
	}
	return v
}

func (e *Engine) putCell(f *Frame, s *State, c *cell, v *Term) {
	switch {
	case c.phi != nil:
		f.env[c.phi] = v
	case c.addr != nil:
		e.overlayStore(s, c.addr, v)
	case c.m != nil:
		if v.Op == OMap {
			s.mapLog[c.m] = v.Args
		} else {
			s.mapLog[c.m] = []*Term{v}
		}
	default:
		o := s.heap[c.obj]
		var steps []pathStep
		t := o.typ
		for _, n := range c.path {
			steps = append(steps, pathStep{field: n, typ: t})
		}
		if o.kind == 'm' && v.Op != OMap {
			v = mk(OMap, "", 0, nil, v)
		}
		e.setObj(s, c.obj, e.setPath(s, mk(OObj, "", c.obj, nil), o.val, o.typ, steps, v, token.NoPos))
	}
}

// changed lists locations that differ between the start of the iteration and
// a back edge.
func (e *Engine) changed(st, start *State, b *edgeState, known map[string]*cell) []*cell {
	var out []*cell
	add := func(c *cell) {
		if known[c.key()] == nil {
			known[c.key()] = c
			out = append(out, c)
		}
	}
	var ids []int
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o0, o1 := start.heap[id], b.st.heap[id]
		if o1 == nil || o0 == o1 || o0.val == o1.val {
			continue
		}
		var rec func(a, b *Term, t types.Type, path []int)
		rec = func(a, b *Term, t types.Type, path []int) {
			if a == b {
				return
			}
			if a.Op == OStruct || b.Op == OStruct {
				if s, _ := structOf(t); s != nil {
					for i := 0; i < s.NumFields(); i++ {
						rec(e.fieldOf(a, i, t), e.fieldOf(b, i, t), s.Field(i).Type(), append(path[:len(path):len(path)], i))
					}
					return
				}
			}
			add(&cell{obj: id, path: path, typ: t})
		}
		rec(o0.val, o1.val, o0.typ, nil)
	}
	var ks []*Term
	for k, v := range b.st.overlay {
		if start.overlay[k] != v {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		var t types.Type
		if k.Typ != nil {
			t = elemType(k.Typ)
			if p, ok := k.Typ.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
		}
		add(&cell{addr: k, typ: t})
	}
	var ms []*Term
	for k, v := range b.st.mapLog {
		w := start.mapLog[k]
		same := len(v) == len(w)
		for i := 0; same && i < len(v); i++ {
			same = v[i] == w[i]
		}
		if !same {
			ms = append(ms, k)
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	for _, k := range ms {
		add(&cell{m: k})
	}
	return out
}

func loopPhis(l *Loop) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// fixpoint finds the loop-carried cells and analyses one generic iteration.
func (e *Engine) fixpoint(fr *Frame, st *State, l *Loop, ctl *ssa.If, inSucc int, pt *part, ind *induction, assumeCond bool) (loopRun, []*cell) {
	known := map[string]*cell{}
	var cells []*cell
	for _, p := range loopPhis(l) {
		if ind != nil && p == ind.phi {
			continue
		}
		c := &cell{phi: p, typ: p.Type(), entry: fr.env[p]}
		c.cur = c.entry
		known[c.key()] = c
		cells = append(cells, c)
	}
	name := func(c *cell) string {
		e.symSeq++
		switch {
		case c.phi != nil:
			if c.phi.Comment != "" {
				return fmt.Sprintf("%s$%d", c.phi.Comment, e.symSeq)
			}
			return fmt.Sprintf("%s$%d", c.phi.Name(), e.symSeq)
		}
		return fmt.Sprintf("cell$%d", e.symSeq)
	}
	makeHole := func(c *cell) {
		c.hole = mk(OHole, name(c), 0, nil)
		c.hole.Typ = c.typ
		if c.phi == nil && c.m == nil && c.addr == nil && len(c.path) == 0 {
			if o := st.heap[c.obj]; o.kind == 'a' {
				e.holeLen[c.hole] = e.lenTerm(st, mk(OObj, "", c.obj, nil))
			}
		}
		c.cur = c.hole
		if n, ok := c.entry.intVal(); ok && n == 0 && c.phi != nil {
			c.count = true
		}
		if n, ok := c.entry.intVal(); ok && n >= 0 && c.phi != nil && !c.tried {
			c.grows = true
		}
	}
	var bound *Term
	if pt != nil && pt.binder != nil && !pt.plain {
		bound = e.domainLen(st, pt.binder)
	}
	counted := func(c *cell) *Term {
		if c.count && c.hole != nil && c.wrap == nil {
			return bound
		}
		return nil
	}
	wrapOK := pt != nil && pt.exact && pt.binder != nil && !pt.plain
	for round := 0; ; round++ {
		if round > 40 {
			e.undecided(l.header.Instrs[0].Pos(), "loop in %s does not stabilise", l.header.Parent())
		}
		var run loopRun
		anyWrap := false
		for _, c := range cells {
			if c.wrap != nil {
				anyWrap = true
			}
		}
		var starts = map[*edgeState]*State{}
		doRun := func(first int) {
			var setups []func(f *Frame, s *State) bool
			if pt != nil && len(pt.setups) > 0 {
				setups = pt.setups
			} else {
				setups = []func(f *Frame, s *State) bool{func(*Frame, *State) bool { return true }}
			}
			for _, su := range setups {
				var start *State
				r := e.iterate(fr, st, l, ctl, inSucc, assumeCond, func(f *Frame, s *State) bool {
					if ind != nil && pt != nil && pt.phiVal != nil {
						f.env[ind.phi] = pt.phiVal
					}
					if !su(f, s) {
						return false
					}
					if first >= 0 {
						if !e.assume(s, mkLt(pt.binder, cInt(1)), first == 1) {
							return false
						}
					}
					for _, c := range cells {
						v := c.cur
						if c.wrap != nil {
							if first == 1 {
								v = c.entry
							} else {
								v = c.wrap
							}
						}
						e.putCell(f, s, c, v)
					}
					for _, c := range cells {
						if c.grows && c.hole != nil && c.wrap == nil {
							if lo, ok := s.facts.lo[c.hole]; !ok || lo < 0 {
								s.facts.lo[c.hole] = 0
							}
						}
						if n := counted(c); n != nil {
							if !e.assume(s, mkLt(c.hole, n), true) || !e.assume(s, mkLt(c.hole, cInt(0)), false) {
								return false
							}
						}
					}
					start = s.clone()
					return true
				})
				for _, b := range r.backs {
					starts[b] = start
				}
				run.add(r)
			}
		}
		if anyWrap {
			doRun(1)
			doRun(0)
		} else {
			doRun(-1)
		}
		again := false
		for _, b := range run.backs {
			for _, c := range e.changed(st, starts[b], b, known) {
				if c.addr != nil && pt != nil && pt.binder != nil && c.addr.contains(pt.binder) {
					continue
				}
				if c.m != nil && pt != nil && pt.binder != nil && c.m.contains(pt.binder) {
					continue
				}
				// new cells start as holes right away
				switch {
				case c.addr != nil:
					c.entry = e.load(st, c.addr, c.typ)
				default:
					c.entry = e.getCell(fr, st, c, nil)
				}
				makeHole(c)
				cells = append(cells, c)
				again = true
			}
		}
		if again {
			continue
		}
		for _, c := range cells {
			if counted(c) != nil {
				for _, b := range run.backs {
					if v := e.getCell(b.fr, b.st, c, b); v != c.hole && v != mkAdd(c.hole, cInt(1)) {
						c.count = false
						again = true
					}
				}
			}
			if c.grows && c.hole != nil && c.wrap == nil {
				for _, b := range run.backs {
					v := e.getCell(b.fr, b.st, c, b)
					if v != c.hole && e.eval(b.st, mkLt(v, cInt(0))) != 0 {
						c.grows, c.tried = false, true
						again = true
					}
				}
			}
			if c.hole != nil && c.wrap == nil {
				continue
			}
			vals := map[*Term]bool{}
			for _, b := range run.backs {
				vals[e.getCell(b.fr, b.st, c, b)] = true
			}
			if c.wrap != nil {
				ok := len(vals) == 1 && vals[c.wrap]
				if !ok {
					c.wrap = nil
					makeHole(c)
					again = true
				}
				continue
			}
			if len(vals) == 0 || len(vals) == 1 && vals[c.entry] {
				continue
			}
			if len(vals) == 1 && wrapOK {
				var w *Term
				for v := range vals {
					w = v
				}
				if w.isConst() && c.entry.isConst() {
					c.wrap = w
					again = true
					continue
				}
			}
			makeHole(c)
			again = true
		}
		if !again {
			return run, cells
		}
	}
}

// runLoop summarises a loop whose bound is not concrete.
func (e *Engine) runLoop(fr *Frame, st *State, l *Loop, ctl *ssa.If, inSucc int, out *[]Outcome) {
	// First pass: find the shape of the test.
	var parts []*part
	var ind *induction
	if ctl != nil {
		run, cells := e.fixpoint(fr, st, l, ctl, inSucc, nil, nil, false)
		parts, ind = e.domain(fr, st, l, ctl, inSucc, run, cells)
	}
	whileLoop := parts == nil
	if whileLoop {
		e.symSeq++
		parts = []*part{{binder: mk(OWhile, fmt.Sprint(e.symSeq), 0, nil)}}
	}
	e.runParts(fr, st, l, ctl, inSucc, parts, 0, ind, whileLoop, out)
}

func (e *Engine) runParts(fr *Frame, st *State, l *Loop, ctl *ssa.If, inSucc int, parts []*part, i int, ind *induction, whileLoop bool, out *[]Outcome) {
	leave := func(x *edgeState) {
		x.fr.col = fr.col
		x.fr.force = fr.force
		e.goTo(x.fr, x.st, x.from, x.to, out)
	}
	if i == len(parts) {
		if ctl == nil {
			return // only early exits
		}
		r := e.iterate(fr, st, l, ctl, 1-inSucc, whileLoop, func(f *Frame, s *State) bool {
			s.effs = st.effs
			if ind != nil && ind.final != nil {
				f.env[ind.phi] = ind.final
			}
			for _, in := range l.header.Instrs {
				if n, ok := in.(*ssa.Next); ok {
					it := e.value(f, n.Iter)
					s.elems[it] = mk(OTuple, "", 0, nil, cBool(false), theNil, theNil)
				}
			}
			return true
		})
		*out = append(*out, r.outs...)
		for _, x := range r.exits {
			leave(x)
		}
		return
	}
	p := parts[i]
	if p.plain {
		r := e.iterate(fr, st, l, ctl, inSucc, false, func(f *Frame, s *State) bool {
			s.effs = st.effs
			if ind != nil && p.phiVal != nil {
				f.env[ind.phi] = p.phiVal
			}
			return p.setups[0](f, s)
		})
		*out = append(*out, r.outs...)
		for _, x := range r.exits {
			leave(x)
		}
		for _, b := range r.backs {
			f := b.fr.clone()
			f.col, f.force = fr.col, fr.force
			e.phis(f, b.from, l.header)
			e.runParts(f, b.st, l, ctl, inSucc, parts, i+1, ind, whileLoop, out)
		}
		return
	}
	f2, s2, ok := e.summarise(fr, st, l, ctl, inSucc, p, ind, whileLoop, leave, out)
	if ok {
		e.runParts(f2, s2, l, ctl, inSucc, parts, i+1, ind, whileLoop, out)
	}
}

// stopFlag is a flag that every iteration sets and that ends the loop as soon
// as it differs from its first value.
type stopFlag struct {
	c  *cell
	b0 bool
	as []*Term // the alternatives that end the loop
}

func (f *stopFlag) lit() *Term {
	if f.b0 {
		return f.c.hole
	}
	return mkNot(f.c.hole)
}

func (f *stopFlag) exists(b *Term) *Term {
	return mk(OExists, "", 0, nil, append([]*Term{b}, f.as...)...)
}

func (e *Engine) stopFlags(run loopRun, cells []*cell, n0 int, binder *Term) []*stopFlag {
	var out []*stopFlag
	for _, c := range cells {
		if c.hole == nil || c.addr != nil || c.m != nil || !isBoolType(c.typ) || len(run.backs) == 0 {
			continue
		}
		b0, ok := c.entry.boolVal()
		if !ok {
			continue
		}
		f := &stopFlag{c: c, b0: b0}
		for _, b := range run.backs {
			v := e.getCell(b.fr, b.st, c, b)
			if v == nil || v.any(func(x *Term) bool { return x.Op == OHole }) {
				ok = false
				break
			}
			held := false
			var gs []*Term
			for _, g := range b.st.pc[n0:] {
				t := g.term()
				if t == f.lit() {
					held = true
				} else if t.any(func(x *Term) bool { return x.Op == OHole }) {
					ok = false
				} else {
					gs = append(gs, t)
				}
			}
			if !held {
				ok = false
				break
			}
			if b0 {
				v = mkNot(v)
			}
			if x, isC := v.boolVal(); isC {
				if !x {
					continue
				}
			} else {
				gs = append(gs, v)
			}
			f.as = append(f.as, mkAlt(gs, nil))
		}
		if ok && len(f.as) > 0 {
			out = append(out, f)
		}
	}
	return out
}

// loopRec describes one summarised loop to a check.
type loopRec struct {
	e      *Engine
	fn     *ssa.Function
	header *ssa.BasicBlock
	pos    token.Pos
	binder *Term
	while  bool
	entry  *State
	n0     int // conditions that held before the loop
	run    loopRun
	ctl    *ssa.If
	inSucc int
	cells  []*cell
	alts   []altData
}

// altData is one path through a generic iteration.
type altData struct {
	guards []*Term
	back   *edgeState
}

func (e *Engine) summarise(fr *Frame, st *State, l *Loop, ctl *ssa.If, inSucc int, p *part, ind *induction, whileLoop bool, leave func(*edgeState), out *[]Outcome) (*Frame, *State, bool) {
	run, cells := e.fixpoint(fr, st, l, ctl, inSucc, p, ind, whileLoop)
	n0 := len(st.pc)
	guardsOf := func(s *State) []*Term {
		var gs []*Term
		for _, c := range s.pc[n0:] {
			gs = append(gs, c.term())
		}
		return gs
	}
	stops := e.stopFlags(run, cells, n0, p.binder)
	stopped := func(s *State) *stopFlag {
		for _, c := range s.pc[n0:] {
			for _, f := range stops {
				if c.T == f.c.hole && c.V != f.b0 {
					return f
				}
			}
		}
		return nil
	}
	// Early exits.
	var exitGuards [][]*Term
	for _, x := range run.exits {
		if stopped(x.st) == nil {
			exitGuards = append(exitGuards, guardsOf(x.st))
		}
	}
	for _, o := range run.outs {
		if !o.Panic || !o.Implied {
			exitGuards = append(exitGuards, guardsOf(o.St))
		}
	}
	dropped := map[*Term]bool{}
	for _, g := range exitGuards {
		if len(g) == 1 {
			dropped[mkNot(g[0])] = true
		}
	}
	var alts []altData
	for _, b := range run.backs {
		var gs []*Term
		for _, g := range guardsOf(b.st) {
			for _, f := range stops {
				// holds in every iteration
				if g == f.lit() {
					g = cBool(true)
				}
			}
			if !dropped[g] && g != cBool(true) {
				gs = append(gs, g)
			}
		}
		alts = append(alts, altData{gs, b})
	}
	for _, c := range cells {
		if c.hole == nil {
			continue
		}
		d := &holeDef{entry: c.entry}
		for _, a := range alts {
			d.steps = append(d.steps, holeStep{a.guards, e.getCell(a.back.fr, a.back.st, c, a.back)})
		}
		e.holes[c.hole] = d
	}
	rec := &loopRec{e: e, fn: fr.fn, header: l.header, pos: l.header.Instrs[0].Pos(), binder: p.binder, while: whileLoop, entry: st, n0: n0, run: run, ctl: ctl, inSucc: inSucc, cells: cells, alts: alts}
	if e.onLoop != nil {
		e.onLoop(rec)
	}
	// Effects of the full iterations.
	var each *Effect
	{
		var eas []EffAlt
		any := false
		for _, a := range alts {
			var gs []Cond
			for _, g := range a.guards {
				gs = append(gs, asCond(g))
			}
			if len(a.back.st.effs) > 0 {
				any = true
			}
			eas = append(eas, EffAlt{Guards: gs, Effs: a.back.st.effs})
		}
		if any {
			each = &Effect{Kind: "each", Binder: p.binder, Alts: mergeEffAlts(eas), Pos: l.header.Instrs[0].Pos(), Fn: fr.fn}
		}
	}
	if each != nil && e.work != nil {
		if f := e.work(rec); f != nil {
			each = f
			run.outs = rec.run.outs
		}
	}
	witness := func(s *State, f *Frame) (*State, map[*Term]*Term) {
		e.symSeq++
		w := mk(p.binder.Op, fmt.Sprintf("some$%d", e.symSeq), 0, nil, p.binder.Args...)
		w.Typ = p.binder.Typ
		m := map[*Term]*Term{p.binder: w}
		n := s.clone()
		n.pc = st.pc[:n0:n0]
		var gs []*Term
		stop := stopped(s)
		for _, c := range s.pc[n0:] {
			t := c.term()
			if stop != nil && t.any(func(x *Term) bool { return x == stop.c.hole }) {
				continue
			}
			if t.contains(p.binder) || t.any(func(x *Term) bool { return x.Op == OHole }) {
				gs = append(gs, t)
			} else {
				n.pc = append(n.pc, c)
			}
		}
		if len(gs) > 0 || true {
			n.pc = append(n.pc, Cond{mk(OExists, "", 0, nil, p.binder, mkAlt(gs, nil)), true})
			n.facts.b[mk(OExists, "", 0, nil, p.binder, mkAlt(gs, nil))] = true
		}
		n.facts.rename(p.binder, m)
		if stop != nil {
			t := stop.exists(p.binder)
			n.pc = append(n.pc, Cond{t, true})
			n.facts.b[t] = true
			m[stop.c.hole] = cBool(!stop.b0)
			n.facts.rename(stop.c.hole, m)
			delete(n.facts.b, cBool(true))
			delete(n.facts.b, cBool(false))
		}
		for id, o := range n.heap {
			if v := o.val.subst(m); v != o.val {
				oo := *o
				oo.val = v
				n.heap[id] = &oo
			}
		}
		for k, v := range n.overlay {
			delete(n.overlay, k)
			n.overlay[k.subst(m)] = v.subst(m)
		}
		for k, v := range n.mapLog {
			var w []*Term
			for _, x := range v {
				w = append(w, x.subst(m))
			}
			delete(n.mapLog, k)
			n.mapLog[k.subst(m)] = w
		}
		effs := st.effs[:len(st.effs):len(st.effs)]
		if each != nil {
			pre := *each
			pre.Prefix = true
			effs = append(effs, &pre)
		}
		for _, x := range s.effs {
			effs = append(effs, substEff(x, m))
		}
		n.effs = effs
		for k := range st.elems {
			n.elems[k] = st.elems[k]
		}
		if f != nil {
			for k, v := range f.env {
				f.env[k] = v.subst(m)
			}
			for i := range f.defers {
				for j := range f.defers[i].args {
					f.defers[i].args[j] = f.defers[i].args[j].subst(m)
				}
			}
		}
		return n, m
	}
	for _, o := range run.outs {
		o2 := o
		var m map[*Term]*Term
		o2.St, m = witness(o.St, nil)
		o2.Results = nil
		for _, r := range o.Results {
			o2.Results = append(o2.Results, r.subst(m))
		}
		*out = append(*out, o2)
	}
	for _, x := range run.exits {
		x.st, _ = witness(x.st, x.fr)
		leave(x)
	}
	// Normal completion.
	f, s := fr.clone(), st.clone()
	for _, b := range run.backs {
		for id, o := range b.st.heap {
			if _, ok := st.heap[id]; !ok {
				oo := *o
				oo.loop = true
				s.heap[id] = &oo
			}
		}
	}
	for _, g := range exitGuards {
		t := mk(OForall, "", 0, nil, p.binder, mkAlt(g, nil))
		if len(g) > 0 {
			s.facts.b[t] = true
			s.pc = append(s.pc, Cond{t, true})
		}
	}
	if each != nil {
		s.addEff(each)
	}
	if len(run.backs) == 0 && ctl == nil {
		return nil, nil, false
	}
	for _, c := range cells {
		if c.hole == nil && c.wrap == nil {
			continue
		}
		v := e.finalValue(s, st, c, alts, p)
		if e.closed != nil {
			if t := e.closed(rec, c); t != nil {
				v = t
			}
		}
		for _, f := range stops {
			if f.c == c {
				v = f.exists(p.binder)
				if f.b0 {
					v = mkNot(v)
				}
			}
		}
		if c.addr != nil && v == nil {
			continue
		}
		e.putCell(f, s, c, v)
	}
	return f, s, true
}

func asCond(t *Term) Cond {
	if t.Op == ONot {
		return Cond{t.Args[0], false}
	}
	return Cond{t, true}
}

func substEff(x *Effect, m map[*Term]*Term) *Effect {
	n := *x
	n.Args = nil
	for _, a := range x.Args {
		n.Args = append(n.Args, a.subst(m))
	}
	if x.Binder != nil {
		n.Binder = x.Binder.subst(m)
	}
	n.Alts = nil
	for _, a := range x.Alts {
		var b EffAlt
		for _, g := range a.Guards {
			b.Guards = append(b.Guards, Cond{g.T.subst(m), g.V})
		}
		for _, f := range a.Effs {
			b.Effs = append(b.Effs, substEff(f, m))
		}
		n.Alts = append(n.Alts, b)
	}
	return &n
}

func (f *Facts) rename(x *Term, m map[*Term]*Term) {
	for k, v := range f.b {
		if k.contains(x) {
			delete(f.b, k)
			f.b[k.subst(m)] = v
		}
	}
	for k, v := range f.lo {
		if k.contains(x) {
			delete(f.lo, k)
			f.lo[k.subst(m)] = v
		}
	}
	for k, v := range f.hi {
		if k.contains(x) {
			delete(f.hi, k)
			f.hi[k.subst(m)] = v
		}
	}
	for k, v := range f.ne {
		if k.contains(x) {
			delete(f.ne, k)
			f.ne[k.subst(m)] = v
		}
	}
}

// finalDef says which loop left a value behind.
type finalDef struct {
	hole   *Term
	binder *Term
	guards [][]*Term
	seq    int
}

// finalValue gives the closed form of a carried cell after all iterations.
func (e *Engine) finalValue(s, st *State, c *cell, alts []altData, p *part) *Term {
	if c.wrap != nil {
		// The first iteration leaves wrap behind; no iteration leaves entry.
		v := mk(OHole, fmt.Sprintf("last$%d", c.wrap.id), 0, nil, c.entry, c.wrap, p.binder)
		v.Typ = c.typ
		if b, ok := c.wrap.boolVal(); ok && c.entry == cBool(!b) {
			ex := mk(OExists, "", 0, nil, p.binder, mkAlt(nil, nil))
			if b {
				return ex
			}
			return mkNot(ex)
		}
		return v
	}
	var vals []*Term
	for _, a := range alts {
		vals = append(vals, e.getCell(a.back.fr, a.back.st, c, a.back))
	}
	opaque := func() *Term {
		e.symSeq++
		t := mk(OHole, fmt.Sprintf("%s!%d", c.hole.Sym, e.symSeq), 0, nil)
		t.Typ = c.typ
		if l, ok := e.holeLen[c.hole]; ok {
			e.holeLen[t] = l
		}
		d := &finalDef{hole: c.hole, binder: p.binder, seq: e.symSeq}
		for _, a := range alts {
			d.guards = append(d.guards, a.guards)
		}
		e.finals[t] = d
		if c.m != nil || c.phi == nil && c.addr == nil && len(c.path) == 0 && st.heap[c.obj].kind == 'm' {
			return mk(OMap, "", 0, nil, t)
		}
		return t
	}
	h := c.hole
	mkAlts := func(payload func(i int) ([]*Term, bool)) ([]*Term, bool) {
		var as []*Term
		for i, a := range alts {
			pl, ok := payload(i)
			if !ok {
				return nil, false
			}
			as = append(as, mkAlt(a.guards, pl))
		}
		return as, true
	}
	isMap := c.m != nil
	if c.phi == nil && c.addr == nil && c.m == nil && len(c.path) == 0 && st.heap[c.obj].kind == 'm' {
		isMap = true
	}
	if isMap {
		as, ok := mkAlts(func(i int) ([]*Term, bool) {
			v := vals[i]
			if v == h {
				return nil, true
			}
			if v.Op != OMap || len(v.Args) == 0 || v.Args[0] != h {
				return nil, false
			}
			return v.Args[1:], true
		})
		if !ok && c.m != nil {
			if v := e.loopVersion(c, alts, vals, p); v != nil {
				return v
			}
		}
		if !ok {
			return opaque()
		}
		var base []*Term
		if c.entry.Op == OMap {
			base = c.entry.Args
		}
		return mk(OMap, "", 0, nil, append(append([]*Term(nil), base...), mkEach(p.binder, as))...)
	}
	// contents of an array written by index
	if c.phi == nil && c.addr == nil && len(c.path) == 0 && st.heap[c.obj].kind == 'a' {
		entry := c.entry
		if entry.Op == OSeq && len(entry.Args) == 1 && entry.Args[0].Op == ORep {
			rep := entry.Args[0]
			as, ok := mkAlts(func(i int) ([]*Term, bool) {
				v := vals[i]
				if v == h && p.exact {
					return []*Term{rep.Args[0]}, true
				}
				if v.Op == OUpd && v.Args[0] == h && (p.exact && v.Args[1] == p.binder || e.counts(v.Args[1])) {
					return []*Term{v.Args[2]}, true
				}
				return nil, false
			})
			if ok && e.domainLen(s, p.binder) == rep.Args[1] {
				return mk(OSeq, "", 0, nil, mkEach(p.binder, as))
			}
		}
		if t := e.mappedInPlace(s, c, alts, vals, p); t != nil {
			return t
		}
		// contents accumulated through a slice header kept in a cell never
		// reach here; anything else is opaque
		return opaque()
	}
	typ := c.typ
	switch {
	case isStringType(typ) || typ != nil && isBuilder(typ):
		as, ok := mkAlts(func(i int) ([]*Term, bool) {
			v := vals[i]
			if v == h {
				return nil, true
			}
			if v.Op == OStr && v.Args[0] == h {
				for _, x := range v.Args[1:] {
					if x.contains(h) {
						return nil, false
					}
				}
				return v.Args[1:], true
			}
			return nil, false
		})
		if ok {
			return mkStr(c.entry, mkEach(p.binder, as))
		}
		return opaque()
	case isBoolType(typ):
		// The value is only ever raised to true, or only ever lowered.
		for _, b := range []bool{true, false} {
			op := "or"
			if !b {
				op = "and"
			}
			good := true
			var ex []*Term
			for i, v := range vals {
				if v == h {
					continue
				}
				if x, ok := v.boolVal(); ok && x == b {
					ex = append(ex, mkAlt(alts[i].guards, nil))
					continue
				}
				if v.Op == OBin && v.Sym == op && v.Args[0] == h && !v.Args[1].contains(h) {
					g := v.Args[1]
					if !b {
						g = mkNot(g)
					}
					ex = append(ex, mkAlt(append(alts[i].guards[:len(alts[i].guards):len(alts[i].guards)], g), nil))
					continue
				}
				good = false
			}
			for _, x := range ex {
				if x.contains(h) {
					good = false
				}
			}
			if !good || len(ex) == 0 {
				continue
			}
			t := mk(OExists, "", 0, nil, append([]*Term{p.binder}, ex...)...)
			if !b {
				t = mkNot(t)
			}
			if x, ok := c.entry.boolVal(); ok {
				if x == b {
					return c.entry
				}
				return t
			}
			o := mk(OBin, op, 0, nil, c.entry, t)
			o.Typ = typ
			return o
		}
		return opaque()
	case isIntType(typ):
		if t := e.foldMax(s, c, alts, vals, p); t != nil {
			return t
		}
		as, ok := mkAlts(func(i int) ([]*Term, bool) {
			v := vals[i]
			if v == h {
				return []*Term{cInt(0)}, true
			}
			if v.Op == OBin && v.Sym == "+" {
				if v.Args[0] == h && !v.Args[1].contains(h) {
					return []*Term{v.Args[1]}, true
				}
				if v.Args[1] == h && !v.Args[0].contains(h) {
					return []*Term{v.Args[0]}, true
				}
				// h + x + const
				if k, isK := v.Args[1].intVal(); isK {
					if in := v.Args[0]; in.Op == OBin && in.Sym == "+" {
						if in.Args[0] == h && !in.Args[1].contains(h) {
							return []*Term{mkAdd(in.Args[1], cInt(k))}, true
						}
						if in.Args[1] == h && !in.Args[0].contains(h) {
							return []*Term{mkAdd(in.Args[0], cInt(k))}, true
						}
					}
				}
			}
			return nil, false
		})
		if ok {
			t := mk(OCall, "sum", 0, nil, mkEach(p.binder, as))
			t.Typ = typ
			return mkAdd(t, c.entry)
		}
		return opaque()
	}
	if typ != nil {
		if _, ok := typ.Underlying().(*types.Slice); ok {
			rev := false
			as, ok := mkAlts(func(i int) ([]*Term, bool) {
				v := vals[i]
				if v == h {
					return nil, true
				}
				if v.Op != OObj {
					return nil, false
				}
				o := alts[i].back.st.heap[v.N]
				if o == nil || o.val.Op != OSeq || len(o.val.Args) == 0 {
					return nil, false
				}
				a := o.val.Args
				if f := a[0]; f.Op == OSpread && f.Args[0] == h {
					return a[1:], true
				}
				return nil, false
			})
			_ = rev
			if ok {
				nie := c.entry.Op == ONil || c.entry.Op == OObj && st.heap[c.entry.N] != nil && st.heap[c.entry.N].nilIfEmpty
				each := mkEach(p.binder, as)
				if !e.localSlice(st, c.entry) {
					s.addEff(&Effect{Kind: "appendinto", Args: []*Term{c.entry}, Pos: token.NoPos})
				}
				segs := append(append([]*Term(nil), e.segsOf(st, c.entry)...), each)
				return e.newSlice(s, typ, segs, nie, token.NoPos)
			}
		}
	}
	return opaque()
}

// counts reports whether h numbers the iterations from 0.
// mappedInPlace is what a loop makes of a list when each turn replaces at
// most the element it is at.
func (e *Engine) mappedInPlace(s *State, c *cell, alts []altData, vals []*Term, p *part) *Term {
	if len(c.entry.Args) != 1 || c.entry.Op != OSeq || c.entry.Args[0].Op != OSpread || !p.exact {
		return nil
	}
	src, b := c.entry.Args[0].Args[0], p.binder
	if b.Op != OIdx || b.Args[0] != src {
		return nil
	}
	et := elemType(c.typ)
	// Nothing has happened yet to the element the turn is at.
	now, was := mkLoad(mk(OIndexAddr, "", 0, nil, c.hole, b), et), mkLoad(mkIndexAddr(src, b), et)
	m := map[*Term]*Term{now: was}
	var as []*Term
	for i, a := range alts {
		x := was
		if v := vals[i]; v != c.hole {
			if v.Op != OUpd || v.Args[0] != c.hole || v.Args[1] != b {
				return nil
			}
			x = v.Args[2].subst(m)
		}
		var gs []*Term
		for _, g := range a.guards {
			gs = append(gs, g.subst(m))
			if gs[len(gs)-1].contains(c.hole) {
				return nil
			}
		}
		if x.contains(c.hole) {
			return nil
		}
		as = append(as, mkAlt(gs, []*Term{x}))
	}
	return mk(OSeq, "", 0, nil, mkEach(b, as))
}

func (e *Engine) counts(h *Term) bool {
	d := e.holes[h]
	if d == nil || len(d.steps) == 0 {
		return false
	}
	if n, ok := d.entry.intVal(); !ok || n != 0 {
		return false
	}
	for _, s := range d.steps {
		if s.val != mkAdd(h, cInt(1)) {
			return false
		}
	}
	return true
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// foldMax recognises the running maximum of an expression.
func (e *Engine) foldMax(s *State, c *cell, alts []altData, vals []*Term, p *part) *Term {
	h := c.hole
	var x *Term
	for i, v := range vals {
		if v == h {
			continue
		}
		if v.Op == OCall && v.Sym == "max" && len(v.Args) == 2 && (v.Args[0] == h || v.Args[1] == h) {
			y := v.Args[0]
			if y == h {
				y = v.Args[1]
			}
			if y.contains(h) || x != nil && x != y {
				return nil
			}
			x = y
			continue
		}
		if v.contains(h) || x != nil && x != v {
			return nil
		}
		// replaced: only when larger
		g := false
		for _, t := range alts[i].guards {
			if t == mkLt(h, v) || t == mkNot(mkLt(v, h)) {
				g = true
			}
		}
		if !g {
			return nil
		}
		x = v
	}
	if x == nil {
		return nil
	}
	for i, v := range vals {
		if v != h {
			continue
		}
		// kept: only when not smaller, or irrelevant guard combination
		g := false
		for _, t := range alts[i].guards {
			if t == mkNot(mkLt(h, x)) || t == mkLt(x, h) {
				g = true
			}
		}
		if !g {
			// a filtered maximum: still an upper bound under the filter only
			var rest []*Term
			for _, t := range alts[i].guards {
				rest = append(rest, t)
			}
			if len(rest) == 0 {
				return nil
			}
			// Some elements do not take part; the bound holds for the others.
			as := []*Term{}
			for j := range alts {
				if vals[j] == h && j == i {
					continue
				}
				as = append(as, mkAlt(filterGuards(alts[j].guards, h), []*Term{x}))
			}
			t := mk(OCall, "foldmax", 0, nil, c.entry, mkEach(p.binder, as))
			t.Typ = c.typ
			return t
		}
	}
	t := mk(OCall, "foldmax", 0, nil, c.entry, mkEach(p.binder, []*Term{mkAlt(nil, []*Term{x})}))
	t.Typ = c.typ
	return t
}

func filterGuards(gs []*Term, h *Term) []*Term {
	var out []*Term
	for _, g := range gs {
		if !g.contains(h) {
			out = append(out, g)
		}
	}
	return out
}

func (e *Engine) domainLen(st *State, b *Term) *Term {
	switch b.Op {
	case OIdx:
		if b.Args[0].Op == ORange {
			return mkSub(b.Args[0].Args[1], b.Args[0].Args[0])
		}
		return e.lenTerm(st, b.Args[0])
	case OKey:
		return mkLen(b.Args[0])
	}
	return nil
}

// mkEach builds a quantified segment and normalises its alternatives.
func mkEach(binder *Term, alts []*Term) *Term {
	type ad struct {
		g  []*Term
		pl *Term
	}
	var as []ad
	for _, a := range alts {
		as = append(as, ad{a.Args[0].Args, a.Args[1]})
	}
	// Merge alternatives with equal payload and one complementary guard.
	for again := true; again; {
		again = false
	outer:
		for i := range as {
			for j := range as {
				if i == j || as[i].pl != as[j].pl {
					continue
				}
				if m, ok := mergeGuards(as[i].g, as[j].g); ok {
					as[i].g = m
					as = append(as[:j], as[j+1:]...)
					again = true
					break outer
				}
			}
		}
	}
	var out []*Term
	for _, a := range as {
		out = append(out, mkAlt(a.g, a.pl.Args))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) == 1 && len(out[0].Args[0].Args) == 0 && len(out[0].Args[1].Args) == 1 {
		pl := out[0].Args[1].Args[0]
		if binder.Op == OIdx && binder.Sym == "" && binder.Args[0].Op != ORange {
			if pl.Op == OLoad && pl.Args[0].Op == OIndexAddr && pl.Args[0].Args[0] == binder.Args[0] && pl.Args[0].Args[1] == binder && !isStringTerm(binder.Args[0]) {
				return mk(OSpread, "", 0, nil, binder.Args[0])
			}
		}
	}
	return mk(OEach, "", 0, nil, append([]*Term{binder}, out...)...)
}

// mergeGuards merges two guard lists that are equal up to one complementary
// literal, or where one implies the other.
func mergeGuards(a, b []*Term) ([]*Term, bool) {
	in := func(t *Term, l []*Term) bool {
		for _, x := range l {
			if x == t {
				return true
			}
		}
		return false
	}
	var onlyA, onlyB []*Term
	for _, t := range a {
		if !in(t, b) {
			onlyA = append(onlyA, t)
		}
	}
	for _, t := range b {
		if !in(t, a) {
			onlyB = append(onlyB, t)
		}
	}
	switch {
	case len(onlyA) == 0:
		return a, true
	case len(onlyB) == 0:
		return b, true
	case len(onlyA) == 1 && len(onlyB) == 1 && onlyA[0] == mkNot(onlyB[0]):
		var m []*Term
		for _, t := range a {
			if t != onlyA[0] {
				m = append(m, t)
			}
		}
		return m, true
	}
	// a&c , b&!c&... : drop the complementary literal from the longer one
	for _, x := range onlyA {
		if in(mkNot(x), onlyB) {
			if len(onlyA) == 1 {
				// a = common + x ; b = common + !x + rest: union is (common+x) | ...
				return nil, false
			}
		}
	}
	return nil, false
}

func mergeEffAlts(as []EffAlt) []EffAlt {
	key := func(es []*Effect) string {
		s := ""
		for _, x := range es {
			s += x.String() + "\n"
		}
		return s
	}
	terms := func(gs []Cond) []*Term {
		var ts []*Term
		for _, g := range gs {
			ts = append(ts, g.term())
		}
		return ts
	}
	for again := true; again; {
		again = false
	outer:
		for i := range as {
			for j := range as {
				if i == j || key(as[i].Effs) != key(as[j].Effs) {
					continue
				}
				if m, ok := mergeGuards(terms(as[i].Guards), terms(as[j].Guards)); ok {
					var gs []Cond
					for _, t := range m {
						gs = append(gs, asCond(t))
					}
					as[i].Guards = gs
					as = append(as[:j:j], as[j+1:]...)
					again = true
					break outer
				}
			}
		}
	}
	return as
}

// domain recognises what a loop iterates over from its controlling test.
func (e *Engine) domain(fr *Frame, st *State, l *Loop, ctl *ssa.If, inSucc int, run loopRun, cells []*cell) ([]*part, *induction) {
	cond := run.cond
	if cond == nil {
		return nil, nil
	}
	if inSucc == 1 {
		cond = mkNot(cond)
	}
	// Iterators.
	if cond.Op == OCall && cond.Sym == "next.ok" {
		return e.iterDomain(fr, st, l, cond.Args[0]), nil
	}
	if cond.Op == OCall && cond.Sym == "recv.ok" {
		b := mk(OChan, "", 0, nil, cond.Args[0])
		return []*part{{binder: b}}, nil
	}
	neg := false
	c := cond
	if c.Op == ONot {
		neg = true
		c = c.Args[0]
	}
	if c.Op != OBin {
		return nil, nil
	}
	find := func(t *Term) (*cell, int64, bool) {
		d := int64(0)
		if t.Op == OBin && t.Sym == "+" {
			if k, ok := t.Args[1].intVal(); ok {
				d = k
				t = t.Args[0]
			}
		}
		for _, x := range cells {
			if x.phi != nil && x.hole == t {
				return x, d, true
			}
		}
		return nil, 0, false
	}
	noHoles := func(t *Term) bool {
		for _, x := range cells {
			if x.hole != nil && t.contains(x.hole) {
				return false
			}
		}
		return true
	}
	stepOf := func(x *cell) (int64, bool) {
		var s int64
		for i, b := range run.backs {
			v := e.getCell(b.fr, b.st, x, b)
			var d int64
			if v.Op == OBin && v.Sym == "+" && v.Args[0] == x.hole {
				k, ok := v.Args[1].intVal()
				if !ok {
					return 0, false
				}
				d = k
			} else {
				return 0, false
			}
			if i > 0 && d != s {
				return 0, false
			}
			s = d
		}
		return s, len(run.backs) > 0
	}
	// ascending: h+d < B, or !(h+d == B)
	asc := c.Sym == "<" && !neg || c.Sym == "==" && neg
	if asc {
		x, d, ok := find(c.Args[0])
		bound := c.Args[1]
		if !ok && c.Sym == "==" {
			x, d, ok = find(c.Args[1])
			bound = c.Args[0]
		}
		if ok && noHoles(bound) {
			// h < B-1 arises from h+1 < B with constants folded
			if s, ok := stepOf(x); ok && s == 1 {
				return e.indexParts(fr, st, l, ctl, x, d, bound)
			}
		}
	}
	// descending: h+d >= 0 i.e. !(h+d < 0); h > 0 i.e. !(h < 1)
	if c.Sym == "<" && neg {
		x, d, ok := find(c.Args[0])
		if ok {
			if s, ok := stepOf(x); ok && s == -1 {
				k, isK := c.Args[1].intVal()
				if isK {
					// last value of the index used: h runs entry..k-d
					// element position: h when k-d == 0, h-1 when k-d == 1
					off := k - d
					top := mkAdd(x.entry, cInt(-off)) // highest position
					n := mkAdd(top, cInt(1))
					dom := n
					var b *Term
					if n.Op == OLen {
						b = mk(OIdx, "rev", 0, nil, n.Args[0])
					} else {
						b = mk(OIdx, "rev", 0, nil, mk(ORange, "", 0, nil, cInt(0), n))
					}
					b.Typ = types.Typ[types.Int]
					_ = dom
					return []*part{{binder: b, phiVal: mkAdd(b, cInt(off))}}, &induction{phi: x.phi, final: cInt(off - 1)}
				}
			}
		}
	}
	return nil, nil
}

// indexParts builds the domain of an ascending index loop.
func (e *Engine) indexParts(fr *Frame, st *State, l *Loop, ctl *ssa.If, x *cell, d int64, bound *Term) ([]*part, *induction) {
	start := mkAdd(x.entry, cInt(d))
	ind := &induction{phi: x.phi, final: mkAdd(bound, cInt(-d))}
	if k, ok := start.intVal(); !ok || k != 0 {
		b := mk(OIdx, "", 0, nil, mk(ORange, "", 0, nil, start, bound))
		b.Typ = types.Typ[types.Int]
		return []*part{{binder: b, phiVal: mkAdd(b, cInt(-d))}}, ind
	}
	// The slice whose length bounds the loop, if it is local.
	if obj := e.lenOperand(fr, ctl); obj != nil && obj.Op == OObj && st.heap[obj.N] != nil && e.lenTerm(st, obj) == bound {
		o := st.heap[obj.N]
		if o.val.Op == OSeq && !(bound.Op == OLen && bound.Args[0] != obj && !overKeys(o.val)) {
			if ps := e.seqParts(obj, o.val.Args, d); ps != nil {
				return ps, ind
			}
		}
	}
	var b *Term
	if bound.Op == OLen {
		b = mk(OIdx, "", 0, nil, bound.Args[0])
	} else {
		b = mk(OIdx, "", 0, nil, mk(ORange, "", 0, nil, cInt(0), bound))
	}
	b.Typ = types.Typ[types.Int]
	if e.activeBinder(st, b) {
		e.symSeq++
		b = mk(OIdx, fmt.Sprintf("in$%d", e.symSeq), 0, nil, b.Args...)
		b.Typ = types.Typ[types.Int]
	}
	return []*part{{binder: b, phiVal: mkAdd(b, cInt(-d)), exact: true, setups: []func(f *Frame, s *State) bool{func(f *Frame, s *State) bool {
		s.active = append(s.active[:len(s.active):len(s.active)], b)
		return true
	}}}}, ind
}

// overKeys reports whether a list has one element per key of a map.
func overKeys(seq *Term) bool {
	for _, sg := range seq.Args {
		if sg.Op == OEach && sg.Args[0].Op == OKey {
			return true
		}
	}
	return false
}

func (e *Engine) activeBinder(st *State, b *Term) bool {
	for _, x := range st.active {
		if x == b {
			return true
		}
	}
	return false
}

// seqParts splits a loop over a locally built list into its segments.
func (e *Engine) seqParts(obj *Term, segs []*Term, d int64) []*part {
	var ps []*part
	concrete := true
	for i, sg := range segs {
		sg := sg
		var pos *Term
		if concrete {
			pos = cInt(int64(i))
		} else {
			e.symSeq++
			pos = mk(OSym, fmt.Sprintf("pos$%d", e.symSeq), 0, types.Typ[types.Int])
		}
		switch sg.Op {
		case ORep:
			return nil
		case OSpread:
			concrete = false
			b := mk(OIdx, "", 0, nil, sg.Args[0])
			b.Typ = types.Typ[types.Int]
			e.symSeq++
			pos = mk(OSym, fmt.Sprintf("pos$%d", e.symSeq), 0, types.Typ[types.Int])
			ps = append(ps, &part{binder: b, phiVal: mkAdd(pos, cInt(-d)), setups: []func(f *Frame, s *State) bool{func(f *Frame, s *State) bool {
				s.elems[obj] = mk(OList, "", 0, nil, pos, mkLoad(mkIndexAddr(sg.Args[0], b), elemType(sg.Args[0].Typ)))
				return true
			}}})
		case OEach:
			concrete = false
			e.symSeq++
			pos = mk(OSym, fmt.Sprintf("pos$%d", e.symSeq), 0, types.Typ[types.Int])
			p := &part{binder: sg.Args[0], phiVal: mkAdd(pos, cInt(-d))}
			for _, a := range sg.Args[1:] {
				a := a
				if len(a.Args[1].Args) > 1 {
					return nil
				}
				if len(a.Args[1].Args) == 0 {
					continue
				}
				el := a.Args[1].Args[0]
				if el.Op == OEach || el.Op == OSpread || el.Op == ORep {
					return nil
				}
				p.setups = append(p.setups, func(f *Frame, s *State) bool {
					for _, g := range a.Args[0].Args {
						if !e.assume(s, g, true) {
							return false
						}
					}
					s.elems[obj] = mk(OList, "", 0, nil, pos, el)
					return true
				})
			}
			if len(p.setups) == 0 {
				continue
			}
			ps = append(ps, p)
		default:
			ps = append(ps, &part{plain: true, phiVal: mkAdd(pos, cInt(-d)), setups: []func(f *Frame, s *State) bool{func(f *Frame, s *State) bool {
				s.elems[obj] = mk(OList, "", 0, nil, pos, sg)
				return true
			}}})
		}
	}
	return ps
}

// lenOperand finds x in a loop test of the form i < len(x).
func (e *Engine) lenOperand(fr *Frame, ctl *ssa.If) *Term {
	b, ok := ctl.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, v := range []ssa.Value{b.Y, b.X} {
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if t, ok := fr.env[c.Call.Args[0]]; ok {
					return t
				}
			}
		}
	}
	return nil
}

// iterDomain is the domain of a range over a map or string.
func (e *Engine) iterDomain(fr *Frame, st *State, l *Loop, it *Term) []*part {
	x := it.Args[0]
	if isStringTerm(x) {
		b := mk(OIdx, "", 0, nil, x)
		b.Typ = types.Typ[types.Int]
		return []*part{{binder: b, exact: false}}
	}
	es := e.mapEntries(st, x)
	for _, y := range es {
		if y.Op == ODel || y.Op == OHole {
			es = nil
		}
	}
	if e.ordered && (len(es) > 1 || len(es) == 1 && es[0].Op != OIns) {
		// entries come in any order, whatever order they were put in
		es = nil
	}
	if es == nil {
		es = []*Term{mk(OBase, "", 0, nil, e.mapVersion(st, x))}
	}
	var vt types.Type
	if x.Op == OObj && st.heap[x.N] != nil {
		vt = elemType(st.heap[x.N].typ)
	} else {
		vt = elemType(x.Typ)
	}
	var ps []*part
	for _, y := range es {
		y := y
		switch y.Op {
		case OIns:
			ps = append(ps, &part{plain: true, setups: []func(f *Frame, s *State) bool{func(f *Frame, s *State) bool {
				s.elems[it] = mk(OTuple, "", 0, nil, cBool(true), y.Args[0], y.Args[1])
				return true
			}}})
		case OBase:
			m := y.Args[0]
			k := mk(OKey, "", 0, nil, m)
			if e.activeBinder(st, k) {
				e.symSeq++
				k = mk(OKey, fmt.Sprintf("in$%d", e.symSeq), 0, nil, m)
			}
			if k.Typ == nil && x.Typ != nil {
				if mt, ok := x.Typ.Underlying().(*types.Map); ok {
					k.Typ = mt.Key()
				}
			}
			ps = append(ps, &part{binder: k, setups: []func(f *Frame, s *State) bool{func(f *Frame, s *State) bool {
				s.active = append(s.active[:len(s.active):len(s.active)], k)
				s.facts.b[mk(OHas, "", 0, nil, m, k)] = true
				v := mk(OLookup, "", 0, nil, m, k)
				if v.Typ == nil {
					v.Typ = vt
				}
				v = e.lookupVal(s, m, k, v)
				s.elems[it] = mk(OTuple, "", 0, nil, cBool(true), k, v)
				return true
			}}})
		case OEach:
			p := &part{binder: y.Args[0]}
			for _, a := range y.Args[1:] {
				a := a
				if len(a.Args[1].Args) == 0 {
					continue
				}
				if len(a.Args[1].Args) > 1 || a.Args[1].Args[0].Op != OIns {
					return []*part{e.versionPart(st, it, x, vt)}
				}
				ins := a.Args[1].Args[0]
				p.setups = append(p.setups, func(f *Frame, s *State) bool {
					for _, g := range a.Args[0].Args {
						if !e.assume(s, g, true) {
							return false
						}
					}
					s.elems[it] = mk(OTuple, "", 0, nil, cBool(true), ins.Args[0], ins.Args[1])
					return true
				})
			}
			ps = append(ps, p)
		}
	}
	if ps == nil {
		ps = []*part{e.versionPart(st, it, x, vt)}
	}
	return ps
}

func (e *Engine) versionPart(st *State, it, x *Term, vt types.Type) *part {
	m := e.mapVersion(st, x)
	k := mk(OKey, "", 0, nil, m)
	return &part{binder: k, setups: []func(f *Frame, s *State) bool{func(f *Frame, s *State) bool {
		v := mk(OLookup, "", 0, nil, m, k)
		if v.Typ == nil {
			v.Typ = vt
		}
		s.elems[it] = mk(OTuple, "", 0, nil, cBool(true), k, v)
		return true
	}}}
}

// holeDef describes a value carried by a summarised loop: its value before
// the loop and after each kind of iteration.
type holeDef struct {
	entry *Term
	steps []holeStep
}

type holeStep struct {
	guards []*Term
	val    *Term
}

// loopVersion gives a new version to a map that contracts replaced in a loop.
func (e *Engine) loopVersion(c *cell, alts []altData, vals []*Term, p *part) *Term {
	v := &mapVersion{entry: c.entry, binder: p.binder}
	for i, x := range vals {
		if x == c.hole || x.Op == OMap && len(x.Args) == 1 && x.Args[0] == c.hole {
			continue
		}
		if x.Op != OMap || len(x.Args) == 0 || x.Args[0].Op != OBase || x.Args[0].Args[0].Op != OMapVer {
			return nil
		}
		if len(x.Args) > 1 {
			if !isGathered(c.m) {
				return nil
			}
			v.steps = append(v.steps, holeStep{guards: alts[i].guards, val: e.newVersion(c.m, &mapVersion{entry: x})})
			continue
		}
		v.steps = append(v.steps, holeStep{guards: alts[i].guards, val: x.Args[0].Args[0]})
	}
	return mk(OMap, "", 0, nil, mk(OBase, "", 0, nil, e.newVersion(c.m, v)))
}

// mapVersion describes a version of a map made by a contract (id) or by a
// loop over contracts (binder, steps).
type mapVersion struct {
	entry  *Term
	args   []*Term
	binder *Term
	steps  []holeStep
}

func (e *Engine) newVersion(m *Term, v *mapVersion) *Term {
	e.symSeq++
	t := mk(OMapVer, fmt.Sprintf("v%d", e.symSeq), 0, nil, m)
	t.Typ = m.Typ
	e.versions[t] = v
	return t
}
