package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// cloneCmp compares the value a Clone method builds with its original.
type cloneCmp struct {
	m      *Model
	e      *Engine
	bad    func(field, msg string) // the content differs
	shared func(field, msg string) // storage is shared
}

// refs reports whether a type contains references to mutable storage.
func refs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refs(u.Elem())
	}
	return true
}

func isBigFloat(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func (c *cloneCmp) isNil(st *State, t *Term) bool { return c.e.eval(st, mkEq(t, theNil)) == 1 }
func (c *cloneCmp) nonNil(st *State, t *Term) bool {
	return c.e.eval(st, mkEq(t, theNil)) == 0
}

// value compares v with the original value src of type t.
func (c *cloneCmp) value(st *State, v, src *Term, t types.Type, name string) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if v == src || c.e.eval(st, mkEq(v, src)) == 1 {
			return
		}
		c.bad(name, fmt.Sprintf("has %s instead of the original's value", v))
	case *types.Pointer:
		c.pointer(st, v, src, u, name)
	case *types.Struct:
		if src.Op == OLoad {
			c.strct(st, v, src.Args[0], t, name)
			return
		}
		if v != src {
			c.bad(name, "is not comparable with the original")
		} else if refs(t) {
			c.shared(name, "is copied by reference")
		}
	case *types.Slice:
		c.slice(st, v, src, u, name)
	default:
		// Links to other nodes carry no content.
		if v == src && !c.isNil(st, src) {
			c.shared(name, "refers to the original's "+name)
		} else if v.Op == OIface && v.Args[0].any(func(x *Term) bool { return x.Op == OSym }) {
			c.shared(name, "refers to the original tree")
		}
	}
}

func (c *cloneCmp) pointer(st *State, v, src *Term, t *types.Pointer, name string) {
	if v.Op == ONil {
		if !c.isNil(st, src) {
			c.bad(name, "is dropped")
		}
		return
	}
	if v == src {
		if !c.isNil(st, src) {
			c.shared(name, "is the original's object")
		}
		return
	}
	if v.Op == OCall && v.Sym == "clone" {
		if v.Args[0] != src {
			c.bad(name, fmt.Sprintf("is a clone of %s", v.Args[0]))
		}
		return
	}
	if v.Op != OObj {
		if c.isNil(st, v) && c.isNil(st, src) {
			return
		}
		c.bad(name, fmt.Sprintf("is %s", v))
		return
	}
	if !c.nonNil(st, src) {
		c.bad(name, "is set even when the original has none")
		return
	}
	c.strct(st, c.e.load(st, v, t.Elem()), src, t.Elem(), name)
}

// strct compares a struct value with the struct stored at address a.
func (c *cloneCmp) strct(st *State, v, a *Term, t types.Type, name string) {
	if v.Op == OCall && v.Sym == "big.copy" && v.Args[0].Op == OLoad && v.Args[0].Args[0] == a {
		return
	}
	if isBigFloat(t) {
		if v.Op == OLoad && v.Args[0] == a {
			c.shared(name, "shares the digits of the original number")
			return
		}
		if v.Op == OCall && v.Sym == "big.rounded" && c.m.prec53 && v.Args[0].Op == OCall && v.Args[0].Sym == "big.const" {
			c.strct(st, v.Args[1], a, t, name)
			return
		}
		c.bad(name, fmt.Sprintf("has the value %s", v))
		return
	}
	if v.Op == OLoad {
		x := v.Args[0]
		if x.Op == OCall && x.Sym == "clone" {
			if x.Args[0] != a {
				c.bad(name, fmt.Sprintf("is a clone of %s", x.Args[0]))
			}
			return
		}
		if x == a {
			c.shallow(st, a, t, name)
			return
		}
	}
	if v.Op == OCall && v.Sym == "clone" {
		if v.Args[0] != a {
			c.bad(name, fmt.Sprintf("is a clone of %s", v.Args[0]))
		}
		return
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		c.bad(name, "is of unexpected type")
		return
	}
	if v.Op != OStruct && v.Op != OZero {
		c.bad(name, fmt.Sprintf("is %s", v))
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		src := c.e.load(st, mkFieldAddr(a, i, t), f.Type())
		n := f.Name()
		if f.Embedded() && name == "" {
			n = f.Name()
		} else if name != "" {
			n = name + "." + n
		}
		c.value(st, c.e.fieldOf(v, i, t), src, f.Type(), n)
	}
}

// shallow reports the references a plain copy of the struct at a shares.
func (c *cloneCmp) shallow(st *State, a *Term, t types.Type, name string) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		if refs(t) {
			c.shared(name, "is copied by reference")
		}
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !refs(f.Type()) {
			continue
		}
		n := f.Name()
		if name != "" {
			n = name + "." + n
		}
		fa := mkFieldAddr(a, i, t)
		if _, isS := f.Type().Underlying().(*types.Struct); isS {
			c.shallow(st, fa, f.Type(), n)
			continue
		}
		if c.isNil(st, c.e.load(st, fa, f.Type())) {
			continue
		}
		c.shared(n, "is copied by reference")
	}
}

func (c *cloneCmp) slice(st *State, v, src *Term, t *types.Slice, name string) {
	if v.Op == ONil {
		// An absent list stays absent; an empty one has the same content.
		if !c.isNil(st, src) && c.e.eval(st, mkEq(mkLen(src), cInt(0))) != 1 {
			c.bad(name, "is dropped")
		}
		return
	}
	if v == src {
		if !c.isNil(st, src) {
			c.shared(name, "is the original's list")
		}
		return
	}
	if !c.e.localSlice(st, v) {
		c.bad(name, fmt.Sprintf("is %s", v))
		return
	}
	if o := v; o.Op == OObj && !st.heap[o.N].nilIfEmpty && !c.nonNil(st, src) {
		c.bad(name, "is an empty list where the original has none")
		return
	}
	segs := c.e.segsOf(st, v)
	if len(segs) == 0 {
		if c.e.eval(st, mkEq(mkLen(src), cInt(0))) != 1 {
			c.bad(name, "is emptied")
		}
		return
	}
	if len(segs) == 1 && segs[0].Op == OSpread && segs[0].Args[0] == src {
		if refs(t.Elem()) {
			c.shared(name, "holds the original's elements")
		}
		return
	}
	if len(segs) == 1 && segs[0].Op == OEach {
		b := segs[0].Args[0]
		if b.Op == OIdx && b.Args[0] == src {
			el := mkLoad(mkIndexAddr(src, b), t.Elem())
			for _, a := range segs[0].Args[1:] {
				s := st.clone()
				feasible := true
				for _, g := range a.Args[0].Args {
					cd := asCond(g)
					if !c.e.assume(s, cd.T, cd.V) {
						feasible = false
						break
					}
				}
				if !feasible {
					continue
				}
				if len(a.Args[1].Args) != 1 {
					c.bad(name, fmt.Sprintf("skips or repeats an element when %s", a.Args[0]))
					return
				}
				c.value(s, a.Args[1].Args[0], el, t.Elem(), name+"[]")
			}
			return
		}
	}
	// Element by element.
	for i, sg := range segs {
		if sg.Op == OEach || sg.Op == OSpread || sg.Op == ORep {
			c.bad(name, fmt.Sprintf("is %s", v))
			return
		}
		c.value(st, sg, mkLoad(mkIndexAddr(src, cInt(int64(i))), t.Elem()), t.Elem(), name+"[]")
	}
	if c.e.eval(st, mkEq(mkLen(src), cInt(int64(len(segs))))) != 1 {
		c.bad(name, "has a different length")
	}
}

// clones runs one rule over every Clone method.
func cloneRule(r *Report, m *Model, content bool) {
	for _, nt := range m.Types {
		fn := m.p.method(nt.Named, "Clone")
		if fn == nil {
			fn = m.promoted(nt, "Clone")
		}
		if !r.ob(fn != nil && fn.Signature.Results().Len() == 1 && len(fn.Params) == 1, "clone:"+nt.Name, nt.Named.Obj().Pos(), "%s has no Clone method", nt.Name) {
			continue
		}
		r.count("node types", 1)
		if fn.Synthetic != "" && fn.Origin() == nil {
			r.ob(false, "clone:"+nt.Name, nt.Named.Obj().Pos(), "%s has no Clone method of its own", nt.Name)
			continue
		}
		what := "Clone of " + nt.Name
		e, outs, und := m.runNode(fn, nt, nil, nil)
		r.covers(e)
		if und != nil {
			r.undecided(what, und)
			continue
		}
		r.paths += len(outs)
		p := m.nodePtr(nt)
		returned := false
		for _, o := range outs {
			if o.Panic {
				continue
			}
			returned = true
			fields := map[string]string{}
			c := &cloneCmp{m: m, e: e, bad: func(f, msg string) {}, shared: func(f, msg string) {}}
			if content {
				c.bad = func(f, msg string) { fields[f] = msg }
			} else {
				c.shared = func(f, msg string) { fields[f] = msg }
			}
			v := o.Results[0]
			if _, ptr := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ptr {
				c.pointer(o.St, v, p, types.NewPointer(nt.Named), "")
			} else {
				c.strct(o.St, v, p, nt.Named, "")
			}
			if !content {
				for _, f := range o.St.effs {
					if w := m.writes(f); w != "" {
						r.fail(what+":"+f.Kind, f.Pos, "%s builds its result in memory it did not allocate: %s", what, w)
					}
				}
			}
			n := nt.St.NumFields()
			r.obligations += n
			r.discharged += n - len(fields)
			var names []string
			for f := range fields {
				names = append(names, f)
			}
			sort.Strings(names)
			for _, f := range names {
				r.fail(what+":"+f, o.Pos, "%s: the clone's %s %s", what, orSelf(f), fields[f])
			}
		}
		r.ob(returned, what+":none", fn.Pos(), "%s never returns", what)
		if content {
			m.cloneEdges(r, nt, fn)
		}
	}
	r.floor("node types", 35)
}

func orSelf(f string) string {
	if f == "" {
		return "content"
	}
	return f
}

// cloneEdges checks nil receivers and panics.
func (m *Model) cloneEdges(r *Report, nt *NodeType, fn *ssa.Function) {
	what := "Clone of " + nt.Name
	if _, ptr := fn.Params[0].Type().(*types.Pointer); ptr && (nt.IsNode || nt == m.Root) {
		e, _ := m.newTree(fn)
		outs, und := e.runFn(fn, func(st *State) []*Term { return []*Term{theNil} })
		if und != nil {
			r.undecided(what+" (nil)", und)
		}
		for _, o := range outs {
			r.ob(!o.Panic && o.Results[0].Op == ONil, what+":nil", o.Pos, "%s: cloning nil does not give nil", what)
		}
	}
	for _, s := range m.analysedShapes(nt) {
		w := what
		if s != nil {
			w += " {" + nt.shapeName(s) + "}"
		}
		_, outs, und := m.runNode(fn, nt, s, nil)
		if und != nil {
			r.undecided(w, und)
			continue
		}
		r.count("shapes", 1)
		for _, o := range outs {
			r.ob(!o.Panic, w+":panic", o.Pos, "%s panics: %s", w, o.Reason)
		}
	}
}

func checkCloneContent(r *Report, m *Model) {
	r.rule = "For every node type, the object its Clone method builds is compared field by field with the original, for every combination of present and absent fields: scalars equal the original's, sub-nodes are clones of the corresponding sub-node (by induction over the tree), lists are element-wise images of the same list in the same order, absent parts stay absent. Cloning nil returns nil, and no path feasible for a parsed node panics."
	r.assume = append(r.assume, "big.Float.Copy and Set copy the number exactly (math/big)")
	cloneRule(r, m, true)
	r.floor("shapes", 120)
}

func checkCloneSharing(r *Report, m *Model) {
	r.rule = "For every node type, every pointer, list, number and interface reachable from the object its Clone method builds must be allocated by the call (or by the Clone of a sub-node): no path may copy a reference out of the original, or build its result in memory that existed before (such as the spare capacity of a list)."
	r.assume = append(r.assume, "big.Float.Copy and Set do not share the mantissa (math/big)")
	cloneRule(r, m, false)
}

// checkReadOnly: Children, Clone and FormattedString have no effects.
func checkReadOnly(r *Report, m *Model) {
	r.rule = "For every node type and every feasible combination of its fields, the summaries of Children, Clone, FormattedString and Node contain no store, map update or append through memory that existed before the call, no channel or goroutine operation and no call with unknown effects; stores to memory allocated in the call are allowed."
	for _, nt := range m.Types {
		for _, name := range []string{"Children", "Clone", "FormattedString", "Node"} {
			fn := m.p.method(nt.Named, name)
			if fn == nil {
				continue
			}
			for _, s := range m.analysedShapes(nt) {
				what := name + " of " + nt.Name
				if s != nil {
					what += " {" + nt.shapeName(s) + "}"
				}
				e, outs, und := m.runNode(fn, nt, s, nil)
				r.covers(e)
				if und != nil {
					r.undecided(what, und)
					continue
				}
				r.count("summaries", 1)
				r.paths += len(outs)
				for _, o := range outs {
					msg := ""
					for _, f := range o.St.effs {
						if w := m.writes(f); w != "" {
							msg = w
							r.ob(false, name+" of "+nt.Name+":"+f.Kind, f.Pos, "%s changes memory it did not allocate: %s", what, msg)
						}
					}
					if msg == "" {
						r.ob(true, what, o.Pos, "")
					}
				}
			}
		}
	}
	r.floor("summaries", 350)
}

// writes describes the first harmful write of an effect.
func (m *Model) writes(f *Effect) string {
	if f.Kind == "each" {
		for _, a := range f.Alts {
			for _, x := range a.Effs {
				if w := m.writes(x); w != "" {
					return w
				}
			}
		}
		return ""
	}
	if len(f.Args) > 0 && (f.Kind == "store" || f.Kind == "mapset" || f.Kind == "mapdel" || f.Kind == "appendinto" || f.Kind == "clear") {
		// Memory of a freshly cloned sub-node belongs to the call.
		root := f.Args[0]
		for root.Op == OFieldAddr || root.Op == OIndexAddr {
			root = root.Args[0]
		}
		if root.Op == OCall && root.Sym == "clone" || root.Op == OObj {
			return ""
		}
	}
	return f.String()
}
