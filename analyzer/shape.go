package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Facts that hold for the fields of nodes the parser builds: which fields can
// be present together follows from the productions.

// TreeFacts attaches grammar facts to an engine.
type TreeFacts struct {
	m     *Model
	roots map[*Term][]Shape // shapes assumed for particular nodes
	memo  map[*Term]*NodeType
	busy  map[*Term]bool
}

// nodeField recognises the contents of a field of a node: load(&p.field).
func (tf *TreeFacts) nodeField(t *Term) (p *Term, nt *NodeType, i int, ok bool) {
	if t.Op != OLoad || t.Args[0].Op != OFieldAddr {
		return
	}
	p = t.Args[0].Args[0]
	nt = tf.nodeAt(p)
	if nt == nil {
		return
	}
	return p, nt, t.Args[0].N, true
}

// nodeAt gives the node type an address points to, if it is part of a tree.
func (tf *TreeFacts) nodeAt(p *Term) *NodeType {
	switch p.Op {
	case OLoad, OSym, OFieldAddr, OIndexAddr:
	default:
		return nil
	}
	if p.Typ == nil {
		return nil
	}
	pt, ok := p.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	return tf.m.of(pt.Elem())
}

func (tf *TreeFacts) fieldLoad(p *Term, nt *NodeType, i int) *Term {
	return mkLoad(mkFieldAddr(p, i, nt.Named), nt.St.Field(i).Type())
}

// status reads what the path facts say about a field: the values Absent,
// Present, Many that are still possible, as a bit set.
func (tf *TreeFacts) status(st *State, p *Term, nt *NodeType, i int) int {
	const all = 1<<Absent | 1<<Present | 1<<Many
	f := tf.fieldLoad(p, nt, i)
	ft := nt.St.Field(i).Type()
	r := all
	switch ft.Underlying().(type) {
	case *types.Pointer:
		if v, ok := st.facts.b[mkEq(f, theNil)]; ok {
			if v {
				return 1 << Absent
			}
			return 1<<Present | 1<<Many
		}
	case *types.Basic:
		if isStringType(ft) {
			l := mkLen(f)
			if lo, ok := st.facts.lo[l]; ok && lo > 0 {
				return 1<<Present | 1<<Many
			}
			if hi, ok := st.facts.hi[l]; ok && hi <= 0 {
				return 1 << Absent
			}
			if v, ok := st.facts.b[mkEq(f, cString(""))]; ok {
				if v {
					return 1 << Absent
				}
				return 1<<Present | 1<<Many
			}
			return all
		}
		if v, ok := st.facts.b[f]; ok {
			if v {
				return 1<<Present | 1<<Many
			}
			return 1 << Absent
		}
	case *types.Slice:
		l := mkLen(f)
		if lo, ok := st.facts.lo[l]; ok {
			if lo > 0 {
				r &^= 1 << Absent
			}
			if lo > 1 {
				r &^= 1 << Present
			}
		}
		if hi, ok := st.facts.hi[l]; ok {
			if hi < 2 {
				r &^= 1 << Many
			}
			if hi < 1 {
				r &^= 1 << Present
			}
		}
		if st.facts.ne[l][1] {
			r &^= 1 << Present
		}
		if st.facts.ne[l][0] {
			r &^= 1 << Absent
		}
		if v, ok := st.facts.b[mkEq(l, cInt(0))]; ok {
			if v {
				r &= 1 << Absent
			} else {
				r &^= 1 << Absent
			}
		}
		if v, ok := st.facts.b[mkEq(l, cInt(1))]; ok {
			if v {
				r &= 1 << Present
			} else {
				r &^= 1 << Present
			}
		}
		if v, ok := st.facts.b[mkEq(f, theNil)]; ok {
			if v {
				r &= 1 << Absent
			} else {
				r &^= 1 << Absent
			}
		}
	}
	return r
}

// compat lists the shapes node p can still have on this path.
func (tf *TreeFacts) compat(st *State, p *Term, nt *NodeType) ([]Shape, bool) {
	if nt.Capture {
		return nil, false
	}
	var base []Shape
	if s, ok := tf.roots[p]; ok {
		base = s
	} else {
		base = nt.Shapes
		if p.Op == OFieldAddr {
			if q := p.Args[0]; tf.nodeAt(q) != nil {
				qs, ok := tf.compat(st, q, tf.nodeAt(q))
				if !ok {
					return nil, false
				}
				pres, abs := false, false
				for _, s := range qs {
					if s[p.N] == Absent {
						abs = true
					} else {
						pres = true
					}
				}
				if abs {
					z := []Shape{nt.zeroShape()}
					if pres {
						base = append(z, base...)
					} else {
						base = z
					}
				}
			}
		}
	}
	stat := make([]int, nt.St.NumFields())
	for i := range stat {
		stat[i] = tf.status(st, p, nt, i)
	}
	var out []Shape
	for _, s := range base {
		ok := true
		for i := range stat {
			if nt.St.Field(i).Embedded() {
				continue
			}
			if _, isStruct := nt.St.Field(i).Type().Underlying().(*types.Struct); isStruct {
				continue
			}
			if stat[i]&(1<<s[i]) == 0 {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, s)
		}
	}
	return out, true
}

// bounds gives the possible presence values of a field.
func (tf *TreeFacts) bounds(st *State, p *Term, nt *NodeType, i int) (lo, hi int, ok bool) {
	ss, ok := tf.compat(st, p, nt)
	if !ok || len(ss) == 0 {
		return 0, 0, false
	}
	lo, hi = Many, Absent
	for _, s := range ss {
		if s[i] < lo {
			lo = s[i]
		}
		if s[i] > hi {
			hi = s[i]
		}
	}
	return lo, hi, true
}

// element recognises an element of a list field of a node.
func (tf *TreeFacts) element(t *Term) (nt *NodeType, i int, ok bool) {
	if t.Op != OLoad || t.Args[0].Op != OIndexAddr {
		return
	}
	_, nt, i, ok = tf.nodeField(t.Args[0].Args[0])
	return
}

func (tf *TreeFacts) decide(st *State, t *Term) int {
	if t.Op == OBin && t.Sym == "==" {
		x, y := t.Args[0], t.Args[1]
		isNil := y.Op == ONil
		s, isStr := y.strVal()
		if !isNil && !(isStr && s == "") {
			return -1
		}
		if nt, i, ok := tf.element(x); ok {
			// Lists only hold parsed elements and tokens.
			if isNil || !nt.Capture && nt.Prod != nil && i >= 0 {
				return 0
			}
		}
		p, nt, i, ok := tf.nodeField(x)
		if !ok {
			return -1
		}
		if nt.Capture {
			if isNil && nt.nonNil[i] || isStr && nt.nonEmpty[i] {
				if !tf.isZero(st, p) {
					return 0
				}
			}
			return -1
		}
		lo, hi, ok := tf.bounds(st, p, nt, i)
		if !ok {
			return -1
		}
		if lo > Absent {
			return 0
		}
		if hi == Absent {
			return 1
		}
		return -1
	}
	if p, nt, i, ok := tf.nodeField(t); ok && !nt.Capture && isBoolType(nt.St.Field(i).Type()) {
		lo, hi, ok := tf.bounds(st, p, nt, i)
		if ok && lo > Absent {
			return 1
		}
		if ok && hi == Absent {
			return 0
		}
	}
	return -1
}

// isZero reports that the node at p may be the zero value.
func (tf *TreeFacts) isZero(st *State, p *Term) bool {
	if p.Op != OFieldAddr {
		return false
	}
	q := p.Args[0]
	nt := tf.nodeAt(q)
	if nt == nil || nt.Capture {
		return false
	}
	lo, _, ok := tf.bounds(st, q, nt, p.N)
	return !ok || lo == Absent
}

func (tf *TreeFacts) lenBounds(st *State, x *Term) (int64, int64) {
	p, nt, i, ok := tf.nodeField(x)
	if !ok {
		if nt, i, ok := tf.element(x); ok && isStringType(x.Typ) && !nt.Capture && i >= 0 {
			return 1, inf
		}
		return 0, inf
	}
	if nt.Capture {
		if nt.nonEmpty[i] && !tf.isZero(st, p) {
			return 1, inf
		}
		return 0, inf
	}
	lo, hi, ok := tf.bounds(st, p, nt, i)
	if !ok {
		return 0, inf
	}
	h := int64(inf)
	if hi == Absent {
		h = 0
	} else if _, isSlice := nt.St.Field(i).Type().Underlying().(*types.Slice); isSlice && hi == Present {
		h = 1
	}
	if _, isSlice := nt.St.Field(i).Type().Underlying().(*types.Slice); !isSlice && lo > 1 {
		lo = 1
	}
	return int64(lo), h
}

// feasible checks after an assumption that some shape remains.
func (tf *TreeFacts) feasible(st *State, t *Term) bool {
	ok := true
	t.any(func(x *Term) bool {
		if p, nt, _, is := tf.nodeField(x); is && !nt.Capture {
			if ss, known := tf.compat(st, p, nt); known && len(ss) == 0 {
				ok = false
				return true
			}
		}
		return false
	})
	return ok
}

// attach installs the facts.
func (tf *TreeFacts) attach(e *Engine) {
	e.decide = tf.decide
	e.lenHook = tf.lenBounds
	e.onAssume = func(st *State, t *Term, v bool) bool { return tf.feasible(st, t) }
}

// nodeContracts replaces the recursive tree methods of other nodes by opaque
// results; the analysed method itself is expanded once.
func (m *Model) nodeContracts(e *Engine, root *ssa.Function, names map[string]bool) {
	e.contract = func(e *Engine, st *State, fn *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool) {
		if fn.Synthetic != "" && fn.Origin() == nil {
			return nil, false // wrappers are expanded
		}
		sig := fn.Signature
		if sig.Recv() == nil || !names[fn.Name()] || (fn == root && len(e.stack) == 0) {
			return nil, false
		}
		nt := m.of(sig.Recv().Type())
		if nt == nil || len(args) != 1 || sig.Results().Len() != 1 {
			return nil, false
		}
		a := args[0]
		if _, ptr := sig.Recv().Type().(*types.Pointer); !ptr {
			if a.Op != OLoad {
				return nil, false // a locally built value: analyse the body
			}
			a = a.Args[0]
		} else if a.Op == OObj {
			return nil, false
		}
		var r *Term
		switch fn.Name() {
		case "Clone":
			if a.Op == ONil {
				return nil, false
			}
			r = mk(OCall, "clone", 0, nil, a)
		case "Children":
			r = mk(OCall, "children", 0, nil, a)
		case "FormattedString":
			r = mk(OText, "fmt", 0, nil, a)
		default:
			return nil, false
		}
		if r.Typ == nil {
			r.Typ = sig.Results().At(0).Type()
		}
		if e.onContract != nil {
			if o := e.onContract(st, fn, nt, a, pos); o != nil {
				return o, true
			}
		}
		return []Outcome{{St: st, Results: []*Term{r}}}, true
	}
}
