package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Termination of the code that runs while parsing: the entry points, the
// capturing methods, the linking of the tree and everything they call.

// parseCode lists the functions of the module that run while parsing.
func (l *LexModel) parseCode() []*ssa.Function {
	m := l.m
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !m.p.inModule(fnPkgPath(f)) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						visit(x)
					case *ssa.MakeClosure:
						visit(x.Fn.(*ssa.Function))
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					// any node
					for _, t := range m.inTree() {
						if m.isIface(c.Common().Value.Type()) && t.IsNode {
							visit(m.p.method(t.Named, c.Common().Method.Name()))
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, n := range entryNames {
		visit(l.Parse[n].fn)
	}
	visit(m.p.method(m.Root.Named, "UpdateParentRefs"))
	for _, t := range m.inTree() {
		if t.Capture {
			visit(m.p.method(t.Named, "Capture"))
		}
	}
	return out
}

func (m *Model) isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// invariant reports whether v does not change inside the loop.
func loopInvariant(l *Loop, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	case ssa.Instruction:
		if !l.blocks[x.Block()] {
			return true
		}
		// len of something that does not change
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				return loopInvariant(l, c.Call.Args[0])
			}
		}
		if b, ok := v.(*ssa.BinOp); ok {
			return loopInvariant(l, b.X) && loopInvariant(l, b.Y)
		}
		if c, ok := v.(*ssa.Convert); ok {
			return loopInvariant(l, c.X)
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			return l.unwritten(u.X)
		}
		if f, ok := v.(*ssa.Field); ok {
			return loopInvariant(l, f.X)
		}
	}
	return false
}

// unwritten reports whether what an address holds stays the same for the whole
// of a loop: it lies in a local variable that nothing else refers to, or, in
// code that writes to its own variables only, behind a pointer that does not
// change.
func (l *Loop) unwritten(addr ssa.Value) bool {
	if x, ok := addr.(*ssa.FieldAddr); ok && loopInvariant(l, x.X) && l.fieldQuiet(x) {
		return true
	}
	if x, ok := addr.(*ssa.Alloc); ok {
		return l.kept(x)
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				_, whole := s.Val.Type().Underlying().(*types.Struct)
				if whole || types.Identical(s.Val.Type(), addr.Type().Underlying().(*types.Pointer).Elem()) {
					return false
				}
			}
		}
	}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return l.unwritten(x.X)
	case *ssa.IndexAddr:
		return loopInvariant(l, x.Index) && l.pure && loopInvariant(l, x.X)
	}
	return l.pure && loopInvariant(l, addr)
}

// kept reports whether a local variable is only ever read in the loop.
func (l *Loop) kept(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			if !l.kept(x) {
				return false
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if x.Val == v || l.blocks[x.Block()] {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// moves reports in which direction a header variable moves on every turn of
// the loop: 1 up, -1 down, 2 shrinking text or list, 0 unknown.
func moves(l *Loop, phi *ssa.Phi) int {
	dir := 0
	var step func(v ssa.Value, seen map[ssa.Value]bool) int
	step = func(v ssa.Value, seen map[ssa.Value]bool) int {
		if seen[v] {
			return 0
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.BinOp:
			k, ok := intConst(x.Y)
			if x.X != ssa.Value(phi) || !ok {
				return 0
			}
			switch {
			case x.Op == token.ADD && k > 0 || x.Op == token.SUB && k < 0:
				return 1
			case x.Op == token.SUB && k > 0 || x.Op == token.ADD && k < 0:
				return -1
			}
		case *ssa.Slice:
			if x.X != ssa.Value(phi) {
				return 0
			}
			if k, ok := intConst(x.Low); x.Low != nil && ok && k > 0 {
				return 2
			}
			if b, ok := x.High.(*ssa.BinOp); ok && b.Op == token.SUB && x.Low == nil {
				if k, ok := intConst(b.Y); ok && k > 0 && lenOfPhi(b.X, phi) {
					return 2
				}
			}
		case *ssa.Phi:
			d := 0
			for i, e := range x.Edges {
				k := step(e, seen)
				if k == 0 || i > 0 && k != d {
					return 0
				}
				d = k
			}
			return d
		}
		return 0
	}
	first := true
	for i, e := range phi.Edges {
		if !l.blocks[l.header.Preds[i]] {
			continue
		}
		d := step(e, map[ssa.Value]bool{})
		if d == 0 || !first && d != dir {
			return 0
		}
		dir, first = d, false
	}
	return dir
}

func lenOfPhi(v ssa.Value, phi *ssa.Phi) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == ssa.Value(phi)
}

// ends reports whether a loop ends: some test that every turn passes leaves
// the loop when a variable that moves every turn reaches a fixed bound.
func (l *Loop) ends() bool {
	var latches []*ssa.BasicBlock
	for _, p := range l.header.Preds {
		if l.blocks[p] {
			latches = append(latches, p)
		}
	}
	for b := range l.blocks {
		every := true
		for _, t := range latches {
			if !b.Dominates(t) {
				every = false
			}
		}
		if !every {
			continue
		}
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				// a range over a map or text
				if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && !l.blocks[b.Succs[1]] {
					if x, ok := c.Cond.(*ssa.Extract); ok && x.Tuple == ssa.Value(n) && x.Index == 0 {
						return true
					}
				}
			}
		}
		c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		stay0, stay1 := l.blocks[b.Succs[0]], l.blocks[b.Succs[1]]
		if stay0 == stay1 {
			continue
		}
		if l.bounded(c.Cond, stay0) {
			return true
		}
	}
	return false
}

// bounded reports whether staying in the loop while cond == stay bounds a
// moving variable.
func (l *Loop) bounded(cond ssa.Value, stay bool) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return l.bounded(u.X, !stay)
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op := b.Op
	if !stay {
		neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}
		op = neg[op]
	}
	x, y := b.X, b.Y
	for i := 0; i < 2; i++ {
		// the variable, possibly stepped once
		v := x
		if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
			if _, isC := intConst(bo.Y); isC {
				v = bo.X
			}
		}
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == l.header && loopInvariant(l, y) {
			switch d := moves(l, phi); {
			case d == 1 && (op == token.LSS || op == token.LEQ):
				return true
			case d == -1 && (op == token.GTR || op == token.GEQ):
				return true
			case d == 2 && op == token.NEQ && isEmptyConst(y):
				return true
			}
		}
		if c, ok := x.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && loopInvariant(l, y) {
				if phi, ok := c.Call.Args[0].(*ssa.Phi); ok && phi.Block() == l.header && moves(l, phi) == 2 {
					k, isC := intConst(y)
					if isC && (op == token.GTR && k >= 0 || op == token.GEQ && k > 0 || op == token.NEQ && k == 0) {
						return true
					}
				}
			}
		}
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	return false
}

func isEmptyConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == ""
}

// codeEnds checks the loops and recursion of the code that runs while parsing.
func (l *LexModel) codeEnds(r *Report) {
	m := l.m
	fns := l.parseCode()
	m.linkRuns()
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
		r.functions[f.String()] = true
	}
	callees := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		loops := findLoops(f)
		for _, lp := range loops {
			r.count("loops", 1)
			pos := f.Pos()
			for _, x := range lp.header.Instrs {
				if x.Pos().IsValid() {
					pos = x.Pos()
					break
				}
			}
			r.ob(lp.ends() || m.workLoops[lp.header], "loop:"+fnName(f), pos, "a loop of %s, which runs while parsing, is not bounded by anything that changes on every turn", f)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && in[g] {
						callees[f] = append(callees[f], g)
					}
				}
			}
		}
	}
	// recursion
	for _, f := range fns {
		seen := map[*ssa.Function]bool{}
		var back func(g *ssa.Function) bool
		back = func(g *ssa.Function) bool {
			for _, h := range callees[g] {
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if back(h) {
						return true
					}
				}
			}
			return false
		}
		if !back(f) {
			continue
		}
		r.count("recursive functions", 1)
		r.ob(m.linkers()[f], "recursion:"+fnName(f), f.Pos(), "%s, which runs while parsing, calls itself without descending into the tree", f)
	}
	// linking descends: calls on the same node do not form a circle
	same := map[*ssa.Function][]*ssa.Function{}
	for fn, run := range m.linkRuns() {
		if run.und != nil {
			continue // reported by E03 and E11
		}
		nodes := map[*Term]bool{}
		for i, p := range fn.Params {
			if isNodeType(m, p.Type()) {
				nodes[unIface(run.args[i])] = true
			}
		}
		var visit func(fs []*Effect)
		visit = func(fs []*Effect) {
			for _, f := range fs {
				if f.Kind == "each" {
					for _, a := range f.Alts {
						visit(a.Effs)
					}
				}
				if f.Kind != "call" || f.Fn == nil || !m.linkers()[f.Fn] {
					continue
				}
				down := false
				for i, p := range f.Fn.Params {
					if i >= len(f.Args) || !isNodeType(m, p.Type()) {
						continue
					}
					a := unIface(f.Args[i])
					if a.Op == OLoad && a.Args[0].Op == OIndexAddr && a.Args[0].Args[0].Op == OCall && a.Args[0].Args[0].Sym == "children" && nodes[unIface(a.Args[0].Args[0].Args[0])] {
						down = true
					}
				}
				if !down {
					same[fn] = append(same[fn], f.Fn)
				}
			}
		}
		for _, o := range run.outs {
			visit(o.St.effs)
		}
	}
	for fn := range m.linkers() {
		seen := map[*ssa.Function]bool{}
		var back func(g *ssa.Function) bool
		back = func(g *ssa.Function) bool {
			for _, h := range same[g] {
				if h == fn {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if back(h) {
						return true
					}
				}
			}
			return false
		}
		r.ob(!back(fn), "descends:"+fnName(fn), fn.Pos(), "%s reaches itself without going down to a child", fn)
	}
	r.floor("loops", 3)
}
