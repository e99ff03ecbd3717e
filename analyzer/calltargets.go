package main

import (
	"golang.org/x/tools/go/ssa"
)

// callTargets resolves function values that code keeps in variables or is
// handed as arguments, by following every store and every call site of the
// package. It answers nothing for a value it cannot follow completely.
type callTargets struct {
	makers map[*ssa.Function][]*ssa.MakeClosure // closures by function
	sites  map[*ssa.Function][]ssa.CallInstruction
	taken  map[*ssa.Function]bool // used as a value
}

func newCallTargets(fns map[*ssa.Function]bool, in func(*ssa.Function) bool) *callTargets {
	c := &callTargets{map[*ssa.Function][]*ssa.MakeClosure{}, map[*ssa.Function][]ssa.CallInstruction{}, map[*ssa.Function]bool{}}
	for fn := range fns {
		if !in(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MakeClosure); ok {
					f := m.Fn.(*ssa.Function)
					c.makers[f] = append(c.makers[f], m)
				}
				call, isCall := i.(ssa.CallInstruction)
				if isCall {
					if f := call.Common().StaticCallee(); f != nil {
						c.sites[f] = append(c.sites[f], call)
					}
				}
				for k, op := range i.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && !(isCall && k == 0 && !call.Common().IsInvoke()) {
						c.taken[f] = true
					}
				}
			}
		}
	}
	return c
}

// of lists the functions v can be, or reports that it cannot tell.
func (c *callTargets) of(v ssa.Value) (out []*ssa.Function, ok bool) {
	found := map[*ssa.Function]bool{}
	seen := map[ssa.Value]bool{}
	ok = true
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] || !ok {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Function:
			found[v] = true
		case *ssa.MakeClosure:
			found[v.Fn.(*ssa.Function)] = true
		case *ssa.ChangeType:
			rec(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				rec(e)
			}
		case *ssa.Parameter:
			fn := v.Parent()
			k := -1
			for i, p := range fn.Params {
				if p == v {
					k = i
				}
			}
			if c.taken[fn] || k < 0 || len(c.sites[fn]) == 0 || len(c.makers[fn]) > 0 {
				ok = false
				return
			}
			for _, s := range c.sites[fn] {
				rec(s.Common().Args[k])
			}
		case *ssa.FreeVar:
			fn := v.Parent()
			for i, p := range fn.FreeVars {
				if p != v {
					continue
				}
				if len(c.makers[fn]) == 0 {
					ok = false
				}
				for _, m := range c.makers[fn] {
					rec(m.Bindings[i])
				}
			}
		case *ssa.UnOp:
			cell := c.cell(v.X)
			if cell == nil {
				ok = false
				return
			}
			for _, s := range c.stores(cell, &ok) {
				rec(s)
			}
		case *ssa.Const:
			// calling nil panics
		default:
			ok = false
		}
	}
	rec(v)
	for f := range found {
		out = append(out, f)
	}
	return out, ok && len(out) > 0
}

// cell finds the variable an address stands for.
func (c *callTargets) cell(v ssa.Value) *ssa.Alloc {
	switch v := v.(type) {
	case *ssa.Alloc:
		return v
	case *ssa.FreeVar:
		fn := v.Parent()
		var cell *ssa.Alloc
		for i, p := range fn.FreeVars {
			if p != v {
				continue
			}
			for _, m := range c.makers[fn] {
				x := c.cell(m.Bindings[i])
				if x == nil || cell != nil && x != cell {
					return nil
				}
				cell = x
			}
		}
		return cell
	}
	return nil
}

// stores lists the values stored in a variable, here or in the closures that
// share it.
func (c *callTargets) stores(cell *ssa.Alloc, ok *bool) []ssa.Value {
	var out []ssa.Value
	var uses func(v ssa.Value)
	uses = func(v ssa.Value) {
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr != v {
					*ok = false
					return
				}
				out = append(out, u.Val)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range u.Bindings {
					if b == v {
						uses(u.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			default:
				*ok = false
				return
			}
		}
	}
	uses(cell)
	return out
}

// callees lists the functions of the module a call can reach.
func (c *callTargets) callees(call ssa.CallInstruction) []*ssa.Function {
	if f := call.Common().StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if call.Common().IsInvoke() {
		return nil
	}
	fs, _ := c.of(call.Common().Value)
	return fs
}

// closed builds the bindings of a closure that only shares variables holding
// functions; ok is false when it shares anything else.
func (c *callTargets) closed(e *Engine, st *State, fn *ssa.Function, cells map[*ssa.Alloc]*Term) (bs []*Term, ok bool) {
	if len(fn.FreeVars) == 0 {
		return nil, true
	}
	if len(c.makers[fn]) != 1 {
		return nil, false
	}
	for _, b := range c.makers[fn][0].Bindings {
		cell := c.cell(b)
		if cell == nil {
			return nil, false
		}
		o := cells[cell]
		if o == nil {
			follow := true
			vs := c.stores(cell, &follow)
			var f *ssa.Function
			for _, v := range vs {
				fs, known := c.of(v)
				if !known || len(fs) != 1 || f != nil && f != fs[0] {
					return nil, false
				}
				f = fs[0]
			}
			if !follow || f == nil {
				return nil, false
			}
			o = e.newObj(st, 'c', f.Signature, theNil, cell.Pos())
			cells[cell] = o
			inner, ok := c.closed(e, st, f, cells)
			if !ok {
				return nil, false
			}
			e.setObj(st, o.N, c.funcTerm(e, f, inner))
		}
		bs = append(bs, o)
	}
	return bs, true
}

func (c *callTargets) funcTerm(e *Engine, f *ssa.Function, bs []*Term) *Term {
	t := e.funcTerm(f)
	if len(bs) == 0 {
		return t
	}
	return mk(OClosure, f.String(), 0, nil, bs...)
}
