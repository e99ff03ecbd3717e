package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shapeName describes a shape for reports.
func (t *NodeType) shapeName(s Shape) string {
	var out []string
	for i, v := range s {
		if v == Absent || t.St.Field(i).Embedded() {
			continue
		}
		n := t.St.Field(i).Name()
		if v == Many {
			n += "*"
		}
		out = append(out, n)
	}
	if len(out) == 0 {
		return "empty"
	}
	return strings.Join(out, "+")
}

// assumeShape records that the node at p has the given fields.
func (tf *TreeFacts) assumeShape(e *Engine, st *State, p *Term, nt *NodeType, s Shape) bool {
	tf.roots[p] = []Shape{s}
	for i := 0; i < nt.St.NumFields(); i++ {
		f := nt.St.Field(i)
		if f.Embedded() {
			continue
		}
		l := tf.fieldLoad(p, nt, i)
		switch u := f.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			st.facts.b[mkEq(l, theNil)] = s[i] == Absent
		case *types.Basic:
			if isStringType(f.Type()) {
				st.facts.b[mkEq(l, cString(""))] = s[i] == Absent
				if s[i] == Absent {
					st.setHi(mkLen(l), 0)
				} else {
					st.setLo(mkLen(l), 1)
				}
			} else if u.Info()&types.IsBoolean != 0 {
				st.facts.b[l] = s[i] != Absent
			}
		case *types.Slice:
			st.facts.b[mkEq(l, theNil)] = s[i] == Absent
			n := mkLen(l)
			switch s[i] {
			case Absent:
				st.setHi(n, 0)
				st.setLo(n, 0)
			case Present:
				st.setLo(n, 1)
				st.setHi(n, 1)
			default:
				st.setLo(n, 2)
			}
		}
	}
	return true
}

// newTree returns an engine with the grammar facts and node contracts.
func (m *Model) newTree(root *ssa.Function) (*Engine, *TreeFacts) {
	e := m.p.engine()
	tf := &TreeFacts{m: m, roots: map[*Term][]Shape{}}
	tf.attach(e)
	m.nodeContracts(e, root, map[string]bool{"Clone": true, "Children": true, "FormattedString": true})
	return e, tf
}

func (m *Model) nodePtr(nt *NodeType) *Term {
	return mk(OSym, "node", 0, types.NewPointer(nt.Named))
}

// recvArg builds the receiver argument for a method of nt.
func recvArg(fn *ssa.Function, p *Term, nt *NodeType) *Term {
	if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
		return p
	}
	return mkLoad(p, nt.Named)
}

// runNode analyses a method of a node of a given shape.
func (m *Model) runNode(fn *ssa.Function, nt *NodeType, s Shape, conf func(e *Engine, st *State, tf *TreeFacts, p *Term)) (*Engine, []Outcome, *Undecided) {
	e, tf := m.newTree(fn)
	p := m.nodePtr(nt)
	outs, und := e.runFn(fn, func(st *State) []*Term {
		st.facts.b[mkEq(p, theNil)] = false
		if s != nil {
			tf.assumeShape(e, st, p, nt, s)
		}
		if conf != nil {
			conf(e, st, tf, p)
		}
		return []*Term{recvArg(fn, p, nt)}
	})
	return e, outs, und
}

// analysedShapes lists the shapes to analyse for a node type.
func (m *Model) analysedShapes(nt *NodeType) []Shape {
	if nt.Capture {
		return []Shape{nil}
	}
	out := append([]Shape{}, nt.Shapes...)
	if m.zero[nt.Name] {
		z := nt.zeroShape()
		dup := false
		for _, s := range out {
			if s.key() == z.key() {
				dup = true
			}
		}
		if !dup {
			out = append(out, z)
		}
	}
	return out
}

func isZeroShape(s Shape) bool {
	for _, v := range s {
		if v != Absent {
			return false
		}
	}
	return true
}

// childItem is one entry of a children list, in terms of the node's fields.
type childItem struct {
	field int
	desc  string
	bad   string
}

func checkChildren(r *Report, m *Model) {
	r.rule = "For every node type and every combination of fields its production can fill, the summary of Children is compared with the sub-nodes the type declares: each present sub-node exactly once, by reference, non-nil, lists element by element in order, nothing else. Node must return the node's own header."
	for _, nt := range m.Types {
		if !nt.IsNode && hasPtrMethod(nt.Named, "Children") == nil {
			continue
		}
		fn := m.p.method(nt.Named, "Children")
		if fn == nil {
			fn = m.promoted(nt, "Children")
		}
		if !r.ob(fn != nil, "children:"+nt.Name, nt.Named.Obj().Pos(), "%s has no Children method", nt.Name) {
			continue
		}
		r.count("node types", 1)
		for _, s := range m.analysedShapes(nt) {
			what := "Children of " + nt.Name
			if s != nil {
				what += " {" + nt.shapeName(s) + "}"
			}
			r.count("shapes", 1)
			e, outs, und := m.runNode(fn, nt, s, nil)
			r.covers(e)
			if und != nil {
				r.undecided(what, und)
				continue
			}
			r.paths += len(outs)
			for _, o := range outs {
				m.childrenOutcome(r, e, nt, s, what, o)
			}
			r.ob(len(outs) > 0, what+":none", fn.Pos(), "%s has no outcome", what)
		}
		// The header accessor.
		nf := hasPtrMethod(nt.Named, "Node")
		if nf == nil {
			continue
		}
		nfn := m.p.ssa.LookupMethod(types.NewPointer(nt.Named), nf.Pkg(), "Node")
		e, outs, und := m.runNode(nfn, nt, nil, nil)
		r.covers(e)
		if und != nil {
			r.undecided("Node of "+nt.Name, und)
			continue
		}
		p := m.nodePtr(nt)
		want := mkFieldAddr(p, nt.Embeds, nt.Named)
		for _, o := range outs {
			r.ob(!o.Panic && len(o.Results) == 1 && o.Results[0] == want && len(o.St.effs) == 0, "header:"+nt.Name, nfn.Pos(), "Node of %s does not return the node's own header", nt.Name)
		}
	}
	r.floor("node types", 35)
	r.floor("shapes", 120)
}

func (m *Model) promoted(nt *NodeType, name string) *ssa.Function {
	f := hasPtrMethod(nt.Named, name)
	if f == nil {
		return nil
	}
	return m.p.ssa.LookupMethod(types.NewPointer(nt.Named), f.Pkg(), name)
}

func (m *Model) childrenOutcome(r *Report, e *Engine, nt *NodeType, s Shape, what string, o Outcome) {
	if o.Panic {
		r.ob(false, what+":panic", o.Pos, "%s panics: %s", what, o.Reason)
		return
	}
	p := m.nodePtr(nt)
	res := o.Results[0]
	got := map[int][]childItem{}
	var order []int
	bad := ""
	var segs []*Term
	if res.Op != ONil {
		if !e.localSlice(o.St, res) {
			bad = "the result is not a list built by this call: " + res.String()
		} else {
			segs = e.segsOf(o.St, res)
		}
	}
	note := func(f int, desc string) {
		got[f] = append(got[f], childItem{field: f, desc: desc})
		order = append(order, f)
	}
	for _, sg := range segs {
		f, d, why := m.childSeg(e, o.St, nt, p, sg)
		if why != "" {
			bad = why
			break
		}
		note(f, d)
	}
	if !r.ob(bad == "", what+":entry", o.Pos, "%s: %s", what, bad) {
		return
	}
	for i := 0; i < nt.St.NumFields(); i++ {
		f := nt.St.Field(i)
		if f.Embedded() {
			continue
		}
		c := m.of2(f.Type())
		if c == nil || !c.IsNode {
			if len(got[i]) > 0 {
				r.ob(false, fmt.Sprintf("%s:%s", what, f.Name()), o.Pos, "%s lists %s, which is not a sub-node", what, f.Name())
			}
			continue
		}
		n := len(got[i])
		key := fmt.Sprintf("%s:%s", what, f.Name())
		_, isStruct := f.Type().Underlying().(*types.Struct)
		pres := s == nil || s[i] != Absent
		switch {
		case pres && n == 0:
			r.ob(false, key, o.Pos, "%s does not list %s", what, f.Name())
		case n > 1:
			r.ob(false, key, o.Pos, "%s lists %s more than once", what, f.Name())
		case !pres && n > 0 && !isStruct:
			// An empty list contributes nothing; a nil pointer would be a nil entry.
			if _, isSlice := f.Type().Underlying().(*types.Slice); !isSlice {
				r.ob(false, key, o.Pos, "%s lists %s, which is nil", what, f.Name())
			}
		default:
			r.ob(true, key, o.Pos, "")
		}
	}
}

// of2 gives the node type of a field: pointer, embedded value or list element.
func (m *Model) of2(t types.Type) *NodeType {
	n := namedOf(t)
	if n == nil {
		return nil
	}
	return m.of(n)
}

// childSeg interprets one segment of a children list.
func (m *Model) childSeg(e *Engine, st *State, nt *NodeType, p, sg *Term) (int, string, string) {
	unwrap := func(t *Term) (*Term, string) {
		if t.Op != OIface {
			return nil, "entry of unknown kind " + t.String()
		}
		return t.Args[0], ""
	}
	fieldOfList := func(l *Term) (int, bool) {
		if l.Op == OLoad && l.Args[0].Op == OFieldAddr && l.Args[0].Args[0] == p {
			return l.Args[0].N, true
		}
		return 0, false
	}
	switch sg.Op {
	case OEach:
		b := sg.Args[0]
		if b.Op != OIdx {
			return 0, "", "entries come from an unknown iteration " + sg.String()
		}
		f, ok := fieldOfList(b.Args[0])
		if !ok {
			return 0, "", "entries come from something other than a field: " + sg.String()
		}
		for _, a := range sg.Args[1:] {
			if len(a.Args[1].Args) != 1 {
				return 0, "", fmt.Sprintf("an element of %s is skipped or repeated when %s", nt.St.Field(f).Name(), a.Args[0])
			}
			x, why := unwrap(a.Args[1].Args[0])
			if why != "" {
				return 0, "", why
			}
			ok := x.Op == OLoad && x.Args[0].Op == OIndexAddr && x.Args[0].Args[0] == b.Args[0] && x.Args[0].Args[1] == b ||
				x.Op == OIndexAddr && x.Args[0] == b.Args[0] && x.Args[1] == b
			if !ok {
				return 0, "", fmt.Sprintf("entry %s is not the element of %s", x, nt.St.Field(f).Name())
			}
		}
		return f, "list", ""
	case OIface:
		x := sg.Args[0]
		if x.Op == OLoad && x.Args[0].Op == OFieldAddr && x.Args[0].Args[0] == p {
			return x.Args[0].N, "pointer", ""
		}
		if x.Op == OFieldAddr && x.Args[0] == p {
			return x.N, "embedded", ""
		}
		if x.Op == OObj {
			return 0, "", "an entry is a copy of a sub-node"
		}
		return 0, "", "an entry is not a direct sub-node: " + x.String()
	}
	return 0, "", "unknown entry " + sg.String()
}
