package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldQuiet reports whether nothing that runs during a loop writes a field of
// any value of a struct type: neither the loop nor anything it can reach stores
// to that field, to a whole struct that holds it or through a pointer that may
// be the field's address.
func (l *Loop) fieldQuiet(addr *ssa.FieldAddr) bool {
	st := addr.X.Type().Underlying().(*types.Pointer).Elem()
	elem := addr.Type().Underlying().(*types.Pointer).Elem()
	fn := l.header.Parent()
	var home *ssa.Package
	for f := fn; f != nil && home == nil; f = f.Parent() {
		home = f.Pkg
		if f.Origin() != nil && home == nil {
			home = f.Origin().Pkg
		}
	}
	if home == nil {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var quietIn func(in ssa.Instruction) bool
	var quietFn func(f *ssa.Function) bool
	quietFn = func(f *ssa.Function) bool {
		if seen[f] {
			return true
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !quietIn(in) {
					return false
				}
			}
		}
		return true
	}
	// outside: code of another module, which only writes what it is given a
	// pointer to.
	outside := func(c *ssa.CallCommon) bool {
		for _, a := range c.Args {
			t := a.Type()
			if mi, ok := a.(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			if p, ok := t.Underlying().(*types.Pointer); ok && holds(elem, p.Elem(), st) {
				return false
			}
			if _, ok := t.Underlying().(*types.Signature); ok {
				return false
			}
		}
		return true
	}
	quietIn = func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Store:
			switch a := x.Addr.(type) {
			case *ssa.FieldAddr:
				t := a.X.Type().Underlying().(*types.Pointer).Elem()
				if types.Identical(t, st) && a.Field == addr.Field {
					return false
				}
				// another field: it cannot be this one
				return !holds(nil, x.Val.Type(), st)
			case *ssa.Alloc:
				// a new variable, unless it is the struct's own home
				return !holds(nil, x.Val.Type(), st) || a.Block() != nil && !a.Heap
			case *ssa.IndexAddr:
				return !holds(nil, x.Val.Type(), st)
			}
			return !holds(elem, x.Val.Type(), st)
		case *ssa.Go, *ssa.Defer:
			return false
		case ssa.CallInstruction:
			c := x.Common()
			if bi, ok := c.Value.(*ssa.Builtin); ok {
				if bi.Name() != "append" && bi.Name() != "copy" {
					return true
				}
				to, ok := c.Args[0].Type().Underlying().(*types.Slice)
				return !ok || !holds(nil, to.Elem(), st)
			}
			if c.IsInvoke() {
				found := true
				iface := c.Value.Type().Underlying().(*types.Interface)
				for _, mem := range home.Members {
					t, ok := mem.(*ssa.Type)
					if !ok || types.IsInterface(t.Type()) {
						continue
					}
					for _, recv := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
						if n, ok := t.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
							continue
						}
						if !types.Implements(recv, iface) {
							continue
						}
						m := home.Prog.LookupMethod(recv, c.Method.Pkg(), c.Method.Name())
						if m == nil || !quietFn(m) {
							found = false
						}
					}
				}
				return found && outside(c)
			}
			f := c.StaticCallee()
			if f == nil {
				return false
			}
			pkg := f.Pkg
			if pkg == nil && f.Origin() != nil {
				pkg = f.Origin().Pkg
			}
			if pkg == home || pkg == nil {
				return len(f.Blocks) > 0 && quietFn(f)
			}
			path := pkg.Pkg.Path()
			for _, p := range []string{"reflect", "encoding", "participle", "unsafe"} {
				if strings.Contains(path, p) {
					return false
				}
			}
			return outside(c)
		}
		return true
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if !quietIn(in) {
				return false
			}
		}
	}
	return true
}

// holds reports whether writing a value of type t may write the whole of a
// struct st or a lone value of type elem.
func holds(elem, t, st types.Type) bool {
	if elem != nil && types.Identical(t, elem) || types.Identical(t, st) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holds(elem, u.Field(i).Type(), st) {
				return true
			}
		}
	case *types.Array:
		return holds(elem, u.Elem(), st)
	}
	return false
}
