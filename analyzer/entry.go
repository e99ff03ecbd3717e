package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The entry points of the language library: how the parser is built, how the
// input is handed to it and what happens to its answer.

const participlePath = "github.com/alecthomas/participle/v2"

// deepFrozen replaces local objects in a value by their contents.
func (e *Engine) deepFrozen(st *State, t *Term) *Term {
	return e.deepFrozenRec(st, t, map[int]bool{})
}

func (e *Engine) deepFrozenRec(st *State, t *Term, open map[int]bool) *Term {
	if t == nil {
		return t
	}
	if t.Op == OObj {
		o := st.heap[t.N]
		if o == nil || open[t.N] {
			return t
		}
		open[t.N] = true
		r := e.deepFrozenRec(st, o.val, open)
		delete(open, t.N)
		return r
	}
	if t.Op == OLoad && t.Args[0].Op == OGlobal && e.globalInit != nil {
		if v := e.globalInit(t.Args[0].Sym); v != nil {
			return v
		}
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = e.deepFrozenRec(st, a, open)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	r := mk(t.Op, t.Sym, t.N, t.Typ, args...)
	if r.Typ == nil {
		r.Typ = t.Typ
	}
	return r
}

func isParticiple(path string) bool {
	return path == participlePath || strings.HasPrefix(path, participlePath+"/")
}

// parseCall recognises the parser library's parse methods.
func isParseCall(name string) bool {
	switch strings.TrimPrefix(name, "(*"+participlePath+".Parser).") {
	case "Parse", "ParseString", "ParseBytes", "ParseFromLexer":
		return true
	}
	return false
}

// parserHooks models the parser library: constructors are pure terms, a parse
// fills the tree it is given with unknown content and answers with an error.
func (p *Prog) parserHooks(e *Engine) {
	prev := e.external
	e.external = func(e *Engine, st *State, fn *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool) {
		if !isParticiple(fnPkgPath(fn)) {
			if prev != nil {
				return prev(e, st, fn, args, pos)
			}
			return nil, false
		}
		name := fnName(fn)
		fz := make([]*Term, len(args))
		for i, a := range args {
			fz[i] = e.deepFrozen(st, a)
		}
		if isParseCall(name) {
			v := args[len(args)-2]
			if v.Op == OIface {
				v = v.Args[0]
			}
			fz[len(fz)-2] = v
			eff := &Effect{Kind: "call", Name: name, Args: fz, Pos: pos, Fn: e.curFn}
			if v.Op == OObj && st.heap[v.N] != nil {
				eff.Before = e.deepFrozen(st, v)
			}
			st.addEff(eff)
			if v.Op == OObj && st.heap[v.N] != nil {
				h := e.fresh("parsed", st.heap[v.N].typ)
				e.setObj(st, v.N, h)
			}
			err := e.fresh("parseErr", fn.Signature.Results().At(0).Type())
			eff.Ret = err
			return []Outcome{{St: st, Results: []*Term{err}, Pos: pos}}, true
		}
		if fn.Signature.Recv() != nil {
			return nil, false
		}
		res := fn.Signature.Results()
		if res.Len() == 0 {
			return nil, false
		}
		// the grammar and the lexer are known to build (see the assumptions of
		// the lexer model): the error is nil
		if must := map[string]string{participlePath + ".Build": participlePath + ".MustBuild", lexerPath + ".New": lexerPath + ".MustStateful"}[name]; must != "" && res.Len() == 2 {
			t := mk(OCall, must, 0, nil, fz...)
			if t.Typ == nil {
				t.Typ = res.At(0).Type()
			}
			st.facts.b[mkEq(t, theNil)] = false
			return []Outcome{{St: st, Results: []*Term{t, theNil}, Pos: pos}}, true
		}
		t := mk(OCall, name, 0, nil, fz...)
		if res.Len() == 1 {
			if t.Typ == nil {
				t.Typ = res.At(0).Type()
			}
			if pt, ok := t.Typ.Underlying().(*types.Pointer); ok && pt != nil {
				st.facts.b[mkEq(t, theNil)] = false
			}
			return []Outcome{{St: st, Results: []*Term{t}, Pos: pos}}, true
		}
		var rs []*Term
		for i := 0; i < res.Len(); i++ {
			x := mk(OExtract, "", i, nil, t)
			if x.Typ == nil {
				x.Typ = res.At(i).Type()
			}
			rs = append(rs, x)
		}
		return []Outcome{{St: st, Results: rs, Pos: pos}}, true
	}
}

// entryRun is the analysis of one entry point.
type entryRun struct {
	fn   *ssa.Function
	e    *Engine
	outs []Outcome
	und  *Undecided
}

// runEntry analyses an entry point, leaving the linking of the tree as a call.
func (m *Model) runEntry(fn *ssa.Function) *entryRun {
	e := m.p.engine()
	m.p.parserHooks(e)
	e.contract = func(e *Engine, st *State, f *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool) {
		return m.linkContract(e, st, f, args, pos, nil)
	}
	m.nodeInvoke(e)
	r := &entryRun{fn: fn, e: e}
	r.outs, r.und = e.runFn(fn, func(st *State) []*Term { return e.symArgs(fn) })
	return r
}
