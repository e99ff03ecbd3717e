package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type types_ = types.Type

// The engine is an abstract interpreter over SSA. It computes, for one
// function, a finite summary: a set of outcomes (return or panic), each with
// the path facts it needs, the abstract results, and the effects on memory
// that was visible before the call. Loops are not executed: each loop body is
// analysed once for a generic iteration (values carried between iterations
// are replaced by unknowns until a fixpoint is reached) and turned into
// quantified segments and effects ("for each element ..."). Calls inside the
// analysed module are expanded unless a contract replaces them.

// Cond is a branch condition taken on a path.
type Cond struct {
	T *Term
	V bool
}

func (c Cond) term() *Term {
	if c.V {
		return c.T
	}
	return mkNot(c.T)
}

// Obj is a locally allocated object. Objects are immutable; writes replace
// the entry in State.heap.
type Obj struct {
	id         int
	typ        types.Type // type of the contents
	kind       byte       // 'c' cell, 'a' array/slice backing, 'm' map, 'h' channel
	val        *Term
	nilIfEmpty bool // slice value that is nil when it has no elements
	pos        token.Pos
	loop       bool // allocated once per iteration of a summarised loop
	capN       *Term
}

// Effect is something a function does to memory or to other goroutines.
type Effect struct {
	Kind   string // store, mapset, mapdel, appendinto, send, recv, close, select, go, call, each, clear
	Args   []*Term
	Binder *Term
	Alts   []EffAlt
	Prefix bool // an early-exited loop: holds for the iterations before the exit
	Pos    token.Pos
	Fn     *ssa.Function
	Name   string
	Note   string
	Ret    *Term // error returned by a call
	Before *Term // what a call overwrites
}

// EffAlt is one alternative of a quantified effect.
type EffAlt struct {
	Guards []Cond
	Effs   []*Effect
}

func (f *Effect) String() string {
	if f.Kind == "each" {
		var sb strings.Builder
		fmt.Fprintf(&sb, "each %s", f.Binder)
		if f.Prefix {
			sb.WriteString(" (prefix)")
		}
		sb.WriteString(" {")
		for _, a := range f.Alts {
			sb.WriteString(" [")
			for i, g := range a.Guards {
				if i > 0 {
					sb.WriteString(" && ")
				}
				sb.WriteString(g.term().String())
			}
			sb.WriteString("] =>")
			for _, x := range a.Effs {
				sb.WriteString(" " + x.String() + ";")
			}
		}
		sb.WriteString(" }")
		return sb.String()
	}
	var as []string
	for _, a := range f.Args {
		as = append(as, a.String())
	}
	return f.Kind + " " + f.Name + "(" + strings.Join(as, ", ") + ")"
}

// State is the abstract state on one path.
type State struct {
	heap    map[int]*Obj
	overlay map[*Term]*Term
	mapLog  map[*Term][]*Term
	facts   *Facts
	pc      []Cond
	pcAt    map[*Term]int // effects that preceded a condition
	effs    []*Effect
	iter    map[int]int     // positions of concretely unrolled iterators
	elems   map[*Term]*Term // loop domain object -> OEach segment it iterates
	reads   map[*Term]bool
	active  []*Term // binders of the loops being analysed
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, overlay: map[*Term]*Term{}, mapLog: map[*Term][]*Term{}, facts: newFacts(), iter: map[int]int{}, elems: map[*Term]*Term{}, pcAt: map[*Term]int{}}
}

func (s *State) clone() *State {
	n := &State{
		heap:    make(map[int]*Obj, len(s.heap)+4),
		overlay: make(map[*Term]*Term, len(s.overlay)),
		mapLog:  make(map[*Term][]*Term, len(s.mapLog)),
		facts:   s.facts.clone(),
		pc:      s.pc[:len(s.pc):len(s.pc)],
		effs:    s.effs[:len(s.effs):len(s.effs)],
		iter:    make(map[int]int, len(s.iter)),
		elems:   make(map[*Term]*Term, len(s.elems)),
		pcAt:    make(map[*Term]int, len(s.pcAt)),
		active:  s.active[:len(s.active):len(s.active)],
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.overlay {
		n.overlay[k] = v
	}
	for k, v := range s.mapLog {
		n.mapLog[k] = v[:len(v):len(v)]
	}
	for k, v := range s.iter {
		n.iter[k] = v
	}
	for k, v := range s.elems {
		n.elems[k] = v
	}
	for k, v := range s.pcAt {
		n.pcAt[k] = v
	}
	return n
}

func (s *State) addEff(f *Effect) { s.effs = append(s.effs, f) }

// Outcome is one way a call can end.
type Outcome struct {
	Panic   bool
	Reason  string
	Results []*Term
	St      *State
	Pos     token.Pos
	Fn      *ssa.Function
	Implied bool // an implicit runtime panic (nil dereference, index, ...)
}

// Undecided is raised (as a panic) when the engine cannot model something.
type Undecided struct {
	Msg string
	Pos token.Pos
	Fn  *ssa.Function
}

// Engine holds the configuration of one analysis.
type Engine struct {
	prog   *ssa.Program
	fset   *token.FileSet
	objSeq int
	symSeq int
	callN  int
	steps  int
	limit  int

	loops map[*ssa.Function][]*Loop
	funcs map[string]*ssa.Function // OFunc/OClosure symbols

	inlineOK   func(fn *ssa.Function) bool
	contract   func(e *Engine, st *State, fn *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool)
	gather     func(e *Engine, st *State, fn *ssa.Function, args, bindings []*Term, pos token.Pos) ([]Outcome, bool)
	invoke     func(e *Engine, st *State, recv *Term, m *types.Func, args []*Term, pos token.Pos) ([]Outcome, bool)
	dyncall    func(e *Engine, st *State, fn *Term, args []*Term, pos token.Pos) ([]Outcome, bool)
	external   func(e *Engine, st *State, fn *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool)
	nonNil     func(st *State, t *Term) bool
	distinct   func(a, b *Term) bool // both terms are known to differ
	nonEmpty   func(st *State, t *Term) bool
	onAssume   func(st *State, t *Term, v bool) bool
	decide     func(st *State, t *Term) int
	ordered    bool // the order of iterations matters
	lenHook    func(st *State, x *Term) (int64, int64)
	onLoop     func(*loopRec)
	work       func(*loopRec) *Effect      // what a loop amounts to, if known
	closed     func(*loopRec, *cell) *Term // what a loop leaves in a variable, if a check knows better
	onContract func(st *State, fn *ssa.Function, nt *NodeType, recv *Term, pos token.Pos) []Outcome
	mapValue   func(st *State, m, k *Term, typ types.Type) *Term
	ignoreNil  bool // do not split on possible nil dereferences

	stack      []*ssa.Function
	Inlined    map[*ssa.Function]bool // functions expanded (coverage)
	nPaths     int
	curFn      *ssa.Function
	sites      int
	noPanic    bool
	holeLen    map[*Term]*Term
	holes      map[*Term]*holeDef
	finals     map[*Term]*finalDef // values of carried variables after a loop
	versions   map[*Term]*mapVersion
	globalInit func(name string) *Term
}

func newEngine(prog *ssa.Program, fset *token.FileSet) *Engine {
	return &Engine{prog: prog, fset: fset, loops: map[*ssa.Function][]*Loop{}, funcs: map[string]*ssa.Function{}, limit: 400000, Inlined: map[*ssa.Function]bool{}, holeLen: map[*Term]*Term{}, holes: map[*Term]*holeDef{}, finals: map[*Term]*finalDef{}, versions: map[*Term]*mapVersion{}}
}

func (e *Engine) undecided(pos token.Pos, format string, a ...any) {
	panic(&Undecided{Msg: fmt.Sprintf(format, a...), Pos: pos, Fn: e.curFn})
}

func (e *Engine) newObj(st *State, kind byte, typ types.Type, val *Term, pos token.Pos) *Term {
	e.objSeq++
	st.heap[e.objSeq] = &Obj{id: e.objSeq, typ: typ, kind: kind, val: val, pos: pos}
	t := mk(OObj, "", e.objSeq, nil)
	return t
}

func (e *Engine) setObj(st *State, id int, val *Term) {
	o := *st.heap[id]
	o.val = val
	st.heap[id] = &o
}

func (e *Engine) fresh(name string, typ types.Type) *Term {
	e.symSeq++
	t := mk(OSym, fmt.Sprintf("%s$%d", name, e.symSeq), 0, typ)
	return t
}

func (e *Engine) funcTerm(fn *ssa.Function) *Term {
	name := fn.String()
	e.funcs[name] = fn
	t := mk(OFunc, name, 0, nil)
	if t.Typ == nil {
		t.Typ = fn.Signature
	}
	return t
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []deferred
	col    *collector
	force  map[*ssa.If]int
	depth  int
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  token.Pos
}

type collector struct {
	loop    *Loop
	back    []*edgeState
	exits   []*edgeState
	cond    *Term
	condIf  *ssa.If
	inSucc  int
	noForce bool
}

type edgeState struct {
	fr       *Frame
	st       *State
	from, to *ssa.BasicBlock
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]*Term, len(fr.env)+8)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	return &n
}

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	id     int
	pure   bool // the code writes to its own variables only
}

func findLoops(fn *ssa.Function) []*Loop {
	byHeader := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHeader[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, id: s.Index}
					byHeader[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var out []*Loop
	for _, l := range byHeader {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].header.Index < out[j].header.Index })
	return out
}

func (e *Engine) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	ls, ok := e.loops[fn]
	if !ok {
		ls = findLoops(fn)
		e.loops[fn] = ls
	}
	for _, l := range ls {
		if l.header == b {
			return l
		}
	}
	return nil
}

// Call runs fn on args from st and returns its outcomes.
func (e *Engine) Call(st *State, fn *ssa.Function, args []*Term, bindings []*Term) []Outcome {
	if len(fn.Blocks) == 0 {
		e.undecided(fn.Pos(), "function %s has no body", fn)
	}
	if len(e.stack) > 60 {
		e.undecided(fn.Pos(), "call depth exceeded in %s", fn)
	}
	e.stack = append(e.stack, fn)
	prev := e.curFn
	e.curFn = fn
	defer func() { e.stack = e.stack[:len(e.stack)-1]; e.curFn = prev }()
	e.Inlined[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bindings[i]
	}
	var out []Outcome
	e.goTo(fr, st, nil, fn.Blocks[0], &out)
	return out
}

func (e *Engine) onStack(fn *ssa.Function) bool {
	for _, f := range e.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func (e *Engine) goTo(fr *Frame, st *State, from, to *ssa.BasicBlock, out *[]Outcome) {
	if c := fr.col; c != nil {
		if to == c.loop.header && from != nil && c.loop.blocks[from] {
			c.back = append(c.back, &edgeState{fr, st, from, to})
			return
		}
		if !c.loop.blocks[to] {
			c.exits = append(c.exits, &edgeState{fr, st, from, to})
			return
		}
	}
	if l := e.loopAt(fr.fn, to); l != nil {
		e.enterLoop(fr, st, from, l, out)
		return
	}
	e.block(fr, st, from, to, out)
}

// phis evaluates the phis of b on entry from pred.
func (e *Engine) phis(fr *Frame, from, b *ssa.BasicBlock) {
	if from == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	vals := map[*ssa.Phi]*Term{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = e.value(fr, phi.Edges[pi])
	}
	for p, v := range vals {
		fr.env[p] = v
	}
}

func (e *Engine) block(fr *Frame, st *State, from, b *ssa.BasicBlock, out *[]Outcome) {
	e.phis(fr, from, b)
	e.instrs(fr, st, b, 0, out)
}

// instrs executes b from instruction i.
func (e *Engine) instrs(fr *Frame, st *State, b *ssa.BasicBlock, i int, out *[]Outcome) {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.limit {
			e.undecided(b.Instrs[i].Pos(), "analysis budget exceeded in %s", fr.fn)
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			e.branch(fr, st, b, in, out)
			return
		case *ssa.Jump:
			e.goTo(fr, st, b, b.Succs[0], out)
			return
		case *ssa.Return:
			var res []*Term
			for _, r := range in.Results {
				res = append(res, e.value(fr, r))
			}
			*out = append(*out, Outcome{Results: res, St: st, Pos: in.Pos(), Fn: fr.fn})
			return
		case *ssa.Panic:
			*out = append(*out, Outcome{Panic: true, Reason: "panic: " + e.describe(st, e.value(fr, in.X)), St: st, Pos: in.Pos(), Fn: fr.fn})
			return
		case *ssa.Call, *ssa.RunDefers, *ssa.Lookup, *ssa.UnOp, *ssa.Select, *ssa.Store, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.MapUpdate, *ssa.TypeAssert, *ssa.Next, *ssa.Slice, *ssa.BinOp, *ssa.Send, *ssa.MakeSlice:
			// May split the path.
			e.multi(fr, st, b, i, in, out)
			return
		default:
			e.simple(fr, st, in)
		}
	}
}

func (e *Engine) branch(fr *Frame, st *State, b *ssa.BasicBlock, in *ssa.If, out *[]Outcome) {
	cond := e.value(fr, in.Cond)
	if fr.force != nil {
		if s, ok := fr.force[in]; ok {
			// The controlling test of a summarised loop.
			nf := *fr
			nf.force = nil
			if len(fr.force) > 1 {
				nf.force = map[*ssa.If]int{}
				for k, v := range fr.force {
					if k != in {
						nf.force[k] = v
					}
				}
			}
			if nf.col != nil && nf.col.condIf == in {
				nf.col.cond = cond
				if !nf.col.noForce {
					n := len(st.pc)
					if !e.assume(st, cond, s == 0) {
						return
					}
					st.pc = st.pc[:n]
				}
			}
			e.goTo(&nf, st, b, b.Succs[s], out)
			return
		}
	}
	if b.Succs[0] == b.Succs[1] {
		e.goTo(fr, st, b, b.Succs[0], out)
		return
	}
	switch e.eval(st, cond) {
	case 1:
		e.goTo(fr, st, b, b.Succs[0], out)
		return
	case 0:
		e.goTo(fr, st, b, b.Succs[1], out)
		return
	}
	st2 := st.clone()
	fr2 := fr.clone()
	if e.assume(st, cond, true) {
		e.goTo(fr, st, b, b.Succs[0], out)
	}
	if e.assume(st2, cond, false) {
		e.goTo(fr2, st2, b, b.Succs[1], out)
	}
}

// alt is one continuation of a splitting instruction.
type alt struct {
	st  *State
	val *Term
	out *Outcome // ends the function instead
}

func (e *Engine) multi(fr *Frame, st *State, b *ssa.BasicBlock, i int, in ssa.Instruction, out *[]Outcome) {
	alts := e.step(fr, st, in)
	for n, a := range alts {
		if a.out != nil {
			o := *a.out
			if o.Fn == nil {
				o.Fn = fr.fn
			}
			*out = append(*out, o)
			continue
		}
		f := fr
		if n < len(alts)-1 {
			f = fr.clone()
		}
		if v, ok := in.(ssa.Value); ok && a.val != nil {
			if n < len(alts)-1 || true {
				f.env[v] = a.val
			}
		}
		e.instrs(f, a.st, b, i+1, out)
	}
}

func (e *Engine) panicAlt(st *State, reason string, pos token.Pos) alt {
	return alt{out: &Outcome{Panic: true, Implied: true, Reason: reason, St: st, Pos: pos}}
}

// nilCheck splits on p being nil and returns the alternatives' panics plus
// the surviving state (nil if p is surely nil).
func (e *Engine) nilCheck(st *State, p *Term, pos token.Pos, what string) ([]alt, *State) {
	switch p.Op {
	case OObj, OGlobal, OFieldAddr, OIndexAddr, OClosure, OFunc:
		return nil, st
	}
	c := mkEq(p, theNil)
	switch e.eval(st, c) {
	case 0:
		return nil, st
	case 1:
		return []alt{e.panicAlt(st, what+" of nil "+e.describe(st, p), pos)}, nil
	}
	if e.ignoreNil {
		return nil, st
	}
	st2 := st.clone()
	var as []alt
	if e.assume(st2, c, true) {
		as = append(as, e.panicAlt(st2, what+" of nil "+e.describe(st, p), pos))
	}
	if !e.assume(st, c, false) {
		return as, nil
	}
	return as, st
}

func (e *Engine) describe(st *State, t *Term) string {
	s := t.String()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// value resolves an operand.
func (e *Engine) value(fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroTerm(v.Type())
		}
		val := v.Value
		if isIntType(v.Type()) {
			val = constant.ToInt(val)
		}
		return cVal(val, v.Type())
	case *ssa.Global:
		t := mk(OGlobal, v.String(), 0, nil)
		if t.Typ == nil {
			t.Typ = v.Type()
		}
		return t
	case *ssa.Function:
		return e.funcTerm(v)
	case *ssa.Builtin:
		return mk(OFunc, "builtin."+v.Name(), 0, nil)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	e.undecided(v.Pos(), "value %s of %s is not available", v.Name(), fr.fn)
	return nil
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// simple executes an instruction that cannot split the path.
func (e *Engine) simple(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		elem := in.Type().Underlying().(*types.Pointer).Elem()
		kind := byte('c')
		val := zeroTerm(elem)
		if a, ok := elem.Underlying().(*types.Array); ok {
			kind = 'a'
			val = e.zeroSeq(a)
		}
		fr.env[in] = e.newObj(st, kind, elem, val, in.Pos())
	case *ssa.MakeMap:
		fr.env[in] = e.newObj(st, 'm', in.Type(), mk(OMap, "", 0, nil), in.Pos())
	case *ssa.MakeChan:
		o := e.newObj(st, 'h', in.Type(), theNil, in.Pos())
		ob := *st.heap[o.N]
		ob.capN = e.value(fr, in.Size)
		st.heap[o.N] = &ob
		fr.env[in] = o
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.value(fr, b))
		}
		e.funcs[fn.String()] = fn
		fr.env[in] = mk(OClosure, fn.String(), 0, nil, bs...)
	case *ssa.MakeInterface:
		x := e.value(fr, in.X)
		fr.env[in] = mk(OIface, "", 0, in.X.Type(), x)
	case *ssa.ChangeInterface:
		fr.env[in] = e.value(fr, in.X)
	case *ssa.ChangeType:
		fr.env[in] = e.value(fr, in.X)
	case *ssa.Convert:
		fr.env[in] = e.convert(st, e.value(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fr.env[in] = e.convert(st, e.value(fr, in.X), in.X.Type(), in.Type())
	case *ssa.Field:
		fr.env[in] = mkField(e.value(fr, in.X), in.Field, in.X.Type())
	case *ssa.Extract:
		fr.env[in] = extract(e.value(fr, in.Tuple), in.Index, in.Type())
	case *ssa.Range:
		it := mk(OIter, "", in.Block().Index*1000+indexOf(in), nil, e.value(fr, in.X))
		if it.Args[0].Typ == nil && it.Args[0].Op != OObj {
			it.Args[0].Typ = in.X.Type()
		}
		delete(st.iter, it.id)
		delete(st.iter, -1-it.id)
		delete(st.elems, it)
		fr.env[in] = it
	case *ssa.Defer:
		d := deferred{call: &in.Call, pos: in.Pos()}
		if !in.Call.IsInvoke() {
			d.fn = e.value(fr, in.Call.Value)
		} else {
			d.fn = e.value(fr, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, e.value(fr, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		var args []*Term
		args = append(args, e.value(fr, in.Call.Value))
		for _, a := range in.Call.Args {
			args = append(args, e.value(fr, a))
		}
		st.addEff(&Effect{Kind: "go", Args: args, Pos: in.Pos(), Fn: fr.fn})
	default:
		e.undecided(in.Pos(), "unsupported instruction %T (%s) in %s", in, in, fr.fn)
	}
}

func indexOf(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return 0
}

func (e *Engine) zeroSeq(a *types.Array) *Term {
	var segs []*Term
	if a.Len() > 256 {
		return mk(OSeq, "", 0, nil, mk(ORep, "", 0, nil, zeroTerm(a.Elem()), cInt(a.Len())))
	}
	for i := int64(0); i < a.Len(); i++ {
		segs = append(segs, zeroTerm(a.Elem()))
	}
	return mk(OSeq, "", 0, nil, segs...)
}

func extract(t *Term, n int, typ types.Type) *Term {
	if t.Op == OTuple {
		return t.Args[n]
	}
	r := mk(OExtract, "", n, nil, t)
	if r.Typ == nil {
		r.Typ = typ
	}
	return r
}

// convert models conversions.
func (e *Engine) convert(st *State, x *Term, from, to types.Type) *Term {
	fs, ts := isStringType(from), isStringType(to)
	switch {
	case fs && ts:
		return x
	case isIntType(from) && isIntType(to):
		if _, ok := x.intVal(); ok {
			return x
		}
		return x // widths are not modelled
	case fs && isByteSlice(to):
		if x.Op == OConv && isStringTerm(x) && isByteSlice(x.Args[0].Typ) {
			return x.Args[0]
		}
		t := mk(OConv, "", 0, to, x)
		return t
	case isByteSlice(from) && ts:
		return e.bytesToString(st, x)
	case isIntType(from) && ts:
		if v, ok := x.intVal(); ok {
			return cString(string(rune(v)))
		}
	}
	if isNumericType(from) && isNumericType(to) && x.isConst() {
		return x
	}
	return mk(OConv, "", 0, to, x)
}

func isNumericType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// bytesToString models string(b).
func (e *Engine) bytesToString(st *State, x *Term) *Term {
	if x.Op == OConv && isStringTerm(x.Args[0]) {
		return x.Args[0]
	}
	if x.Op == ONil {
		return cString("")
	}
	if x.Op == OObj {
		if o := st.heap[x.N]; o != nil && o.val.Op == OSeq {
			if t := bytesSegsToStr(o.val.Args); t != nil {
				return t
			}
		}
	}
	return mk(OConv, "", 0, types.Typ[types.String], x)
}

func bytesSegsToStr(segs []*Term) *Term {
	var parts []*Term
	for _, s := range segs {
		switch s.Op {
		case OSpread:
			a := s.Args[0]
			if a.Op == OConv && isStringTerm(a.Args[0]) {
				parts = append(parts, a.Args[0])
			} else {
				parts = append(parts, mk(OConv, "", 0, types.Typ[types.String], a))
			}
		case OEach:
			args := []*Term{s.Args[0]}
			for _, a := range s.Args[1:] {
				p := bytesSegsToStr(a.Args[1].Args)
				if p == nil {
					return nil
				}
				args = append(args, mkAlt(a.Args[0].Args, strSegs(p)))
			}
			parts = append(parts, mk(OEach, "", 0, nil, args...))
		case ORep:
			return nil
		default:
			if v, ok := s.intVal(); ok {
				parts = append(parts, cString(string([]byte{byte(v)})))
			} else {
				parts = append(parts, mk(OConv, "", 0, types.Typ[types.String], s))
			}
		}
	}
	return mkStr(parts...)
}
