package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- memory ----

type pathStep struct {
	field int // -1 for index
	idx   *Term
	typ   types.Type // type of the container
}

// split resolves an address to its root and the path below it.
func (e *Engine) split(addr *Term) (*Term, []pathStep) {
	var path []pathStep
	for {
		switch addr.Op {
		case OFieldAddr:
			st := types.Type(nil)
			if a := addr.Args[0]; a.Typ != nil {
				st = a.Typ
			}
			path = append([]pathStep{{field: addr.N, typ: st}}, path...)
			addr = addr.Args[0]
			continue
		case OIndexAddr:
			path = append([]pathStep{{field: -1, idx: addr.Args[1]}}, path...)
			addr = addr.Args[0]
			continue
		}
		return addr, path
	}
}

func structOf(t types.Type) (*types.Struct, types.Type) {
	if t == nil {
		return nil, nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s, t
}

// load reads memory. typ is the type of the value read.
func (e *Engine) load(st *State, addr *Term, typ types.Type) *Term {
	root, path := e.split(addr)
	if root.Op == OObj {
		o := st.heap[root.N]
		if o == nil {
			e.undecided(token.NoPos, "load from unknown object")
		}
		v := o.val
		t := o.typ
		for _, s := range path {
			if s.field >= 0 {
				v = e.fieldOf(v, s.field, t)
				t = fieldType(t, s.field)
			} else {
				v = e.seqIndex(st, root, v, s.idx, elemType(t))
				t = elemType(t)
			}
		}
		return v
	}
	// Symbolic memory: look for writes on this path.
	if len(st.overlay) > 0 {
		if v, ok := st.overlay[addr]; ok {
			return v
		}
		if addr.Op == OFieldAddr {
			base := addr.Args[0]
			if e.overlaid(st, base) {
				sv := e.load(st, base, nil)
				if sv.Op != OLoad {
					return e.fieldOf(sv, addr.N, addr.Args[0].Typ)
				}
			}
		}
		if s, t := structOf(addr.Typ); s != nil {
			any := false
			for k := range st.overlay {
				if k != addr && k.contains(addr) && k.Op == OFieldAddr {
					any = true
				}
			}
			if any {
				var fs []*Term
				for i := 0; i < s.NumFields(); i++ {
					fs = append(fs, e.load(st, mkFieldAddr(addr, i, t), s.Field(i).Type()))
				}
				return mkStruct(t, fs)
			}
		}
	}
	return mkLoad(addr, typ)
}

// overlaid reports whether addr or one of the structs around it was written.
func (e *Engine) overlaid(st *State, addr *Term) bool {
	for {
		if _, ok := st.overlay[addr]; ok {
			return true
		}
		if addr.Op != OFieldAddr {
			return false
		}
		addr = addr.Args[0]
	}
}

func mkStruct(t types.Type, fs []*Term) *Term {
	// A struct whose fields are exactly those of one value is that value.
	if len(fs) > 0 {
		if f := fs[0]; f.Op == OLoad && f.Args[0].Op == OFieldAddr && f.Args[0].N == 0 {
			base := f.Args[0].Args[0]
			same := true
			for i, x := range fs {
				if !(x.Op == OLoad && x.Args[0].Op == OFieldAddr && x.Args[0].N == i && x.Args[0].Args[0] == base) {
					same = false
				}
			}
			if same {
				if _, bt := structOf(base.Typ); bt != nil && types.Identical(bt, t) {
					return mkLoad(base, t)
				}
			}
		}
	}
	r := mk(OStruct, "", 0, t, fs...)
	return r
}

func (e *Engine) fieldOf(v *Term, n int, st types.Type) *Term {
	if v.Op == OHole || v.Op == OSym || v.Op == OCall || v.Op == OExtract || v.Op == OLookup || v.Op == OField || v.Op == OAssert || v.Op == OConv {
		t := mk(OField, fieldName(st, n), n, nil, v)
		if t.Typ == nil {
			t.Typ = fieldType(st, n)
		}
		return t
	}
	return mkField(v, n, st)
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Uint8]
		}
	}
	return nil
}

// seqIndex reads one element of the contents v of object obj.
func (e *Engine) seqIndex(st *State, obj, v, idx *Term, et types.Type) *Term {
	if s, ok := st.elems[obj]; ok && s.Op == OList && len(s.Args) == 2 && s.Args[0] == idx {
		return s.Args[1]
	}
	switch v.Op {
	case OSeq:
		if k, ok := idx.intVal(); ok {
			for i, s := range v.Args {
				if s.Op == OEach || s.Op == OSpread || s.Op == ORep {
					if s.Op == ORep && i == 0 {
						if n, ok := s.Args[1].intVal(); ok && k < n {
							return s.Args[0]
						}
					}
					if s.Op == OSpread && i == 0 && len(v.Args) == 1 {
						return e.load(st, mkIndexAddr(s.Args[0], idx), et)
					}
					break
				}
				if int64(i) == k {
					return s
				}
			}
		}
		if len(v.Args) == 1 {
			s := v.Args[0]
			switch s.Op {
			case OSpread:
				return e.load(st, mkIndexAddr(s.Args[0], idx), et)
			case ORep:
				return s.Args[0]
			case OEach:
				if s.Args[0] == idx && len(s.Args) == 2 && len(s.Args[1].Args[0].Args) == 0 && len(s.Args[1].Args[1].Args) == 1 {
					return s.Args[1].Args[1].Args[0]
				}
				if s.Args[0].Op == OIdx && len(s.Args) == 2 && len(s.Args[1].Args[0].Args) == 0 && len(s.Args[1].Args[1].Args) == 1 && s.Args[0].Sym == "" {
					// one element per index: substitute the position
					if d := s.Args[0].Args[0]; d.Op != ORange && d.Op != OObj {
						return s.Args[1].Args[1].Args[0].subst(map[*Term]*Term{s.Args[0]: idx})
					}
				}
			}
		}
	case OUpd:
		if v.Args[1] == idx {
			return v.Args[2]
		}
		if v.Args[1].isConst() && idx.isConst() {
			return e.seqIndex(st, obj, v.Args[0], idx, et)
		}
	}
	r := mk(OIndexAddr, "", 0, nil, v, idx)
	return mkLoad(r, et)
}

func mkIndexAddr(base, idx *Term) *Term {
	if isCut(base) {
		return mkIndexAddr(base.Args[0], mkAdd(base.Args[1], idx))
	}
	t := mk(OIndexAddr, "", 0, nil, base, idx)
	if t.Typ == nil {
		if et := elemType(base.Typ); et != nil {
			t.Typ = types.NewPointer(et)
		}
	}
	return t
}

// store writes memory.
func (e *Engine) store(fr *Frame, st *State, addr, val *Term, pos token.Pos) {
	root, path := e.split(addr)
	if root.Op == OObj {
		o := st.heap[root.N]
		if o == nil {
			e.undecided(pos, "store to unknown object")
		}
		e.setObj(st, root.N, e.setPath(st, root, o.val, o.typ, path, val, pos))
		return
	}
	e.overlayStore(st, addr, val)
	st.addEff(&Effect{Kind: "store", Args: []*Term{addr, val}, Pos: pos, Fn: fr.fn})
}

func (e *Engine) overlayStore(st *State, addr, val *Term) {
	for k := range st.overlay {
		if k != addr && k.contains(addr) {
			delete(st.overlay, k)
		}
	}
	st.overlay[addr] = val
}

func (e *Engine) setPath(st *State, root, v *Term, t types.Type, path []pathStep, val *Term, pos token.Pos) *Term {
	if len(path) == 0 {
		return val
	}
	s := path[0]
	if s.field >= 0 {
		sty, tt := structOf(t)
		if sty == nil {
			e.undecided(pos, "field store into non-struct")
		}
		fs := make([]*Term, sty.NumFields())
		for i := range fs {
			fs[i] = e.fieldOf(v, i, tt)
		}
		fs[s.field] = e.setPath(st, root, fs[s.field], sty.Field(s.field).Type(), path[1:], val, pos)
		return mkStruct(tt, fs)
	}
	et := elemType(t)
	if len(path) > 1 {
		old := e.seqIndex(st, root, v, s.idx, et)
		val = e.setPath(st, root, old, et, path[1:], val, pos)
	}
	if k, ok := s.idx.intVal(); ok && v.Op == OSeq && k >= 0 {
		plain := int64(len(v.Args)) > k
		for i := int64(0); plain && i <= k; i++ {
			if a := v.Args[i]; a.Op == OEach || a.Op == OSpread || a.Op == ORep {
				plain = false
			}
		}
		if plain {
			segs := append([]*Term(nil), v.Args...)
			segs[k] = val
			return mk(OSeq, "", 0, nil, segs...)
		}
	}
	if v.Op == OUpd && v.Args[1] == s.idx {
		v = v.Args[0]
	}
	return mk(OUpd, "", 0, nil, v, s.idx, val)
}

// endFact finds what a path knows about the end (or the start) of a text: a
// text that is there, or one that is not.
func (st *State) endFact(x *Term, end, there bool) (string, bool) {
	name := "HasPrefix"
	at := cInt(0)
	if end {
		name, at = "HasSuffix", mkAdd(mkLen(x), cInt(-1))
	}
	ch := mkIndexAddr(x, at)
	for t, v := range st.facts.b {
		if v != there {
			continue
		}
		if t.Op == OCall && t.Sym == name && t.Args[0] == x {
			if s, ok := t.Args[1].strVal(); ok && s != "" {
				return s, true
			}
		}
		if t.Op == OBin && t.Sym == "==" && t.Args[0].Op == OLoad && t.Args[0].Args[0] == ch {
			if c, ok := t.Args[1].intVal(); ok && c > 0 && c < 128 {
				return string(rune(c)), true
			}
		}
	}
	return "", false
}

// unrep writes repeated elements out when their number is known by now.
func (e *Engine) unrep(st *State, segs []*Term) []*Term {
	for i, s := range segs {
		if s.Op != ORep {
			continue
		}
		lo, hi := e.interval(st, s.Args[1])
		if lo != hi && !(hi <= 0) || hi > 64 {
			continue
		}
		out := append([]*Term{}, segs[:i]...)
		for k := int64(0); k < hi; k++ {
			out = append(out, s.Args[0])
		}
		return append(out, e.unrep(st, segs[i+1:])...)
	}
	return segs
}

// segsOf returns the element segments of a slice value.
func (e *Engine) segsOf(st *State, s *Term) []*Term {
	switch s.Op {
	case ONil:
		return nil
	case OObj:
		if o := st.heap[s.N]; o != nil {
			if o.val.Op == OSeq {
				return e.unrep(st, o.val.Args)
			}
			if o.val.Op == OZero {
				return nil
			}
			return []*Term{mk(OSpread, "", 0, nil, o.val)}
		}
	case OSlice:
		if l, ok := s.Args[1].intVal(); ok && l == 0 {
			if h, ok := s.Args[2].intVal(); ok && h == 0 {
				return nil
			}
		}
	}
	return []*Term{mk(OSpread, "", 0, nil, s)}
}

func (e *Engine) newSlice(st *State, typ types.Type, segs []*Term, nilIfEmpty bool, pos token.Pos) *Term {
	o := e.newObj(st, 'a', typ, mk(OSeq, "", 0, nil, segs...), pos)
	st.heap[o.N].nilIfEmpty = nilIfEmpty
	return o
}

// localSlice reports that appending to s cannot write memory visible to others.
func (e *Engine) localSlice(st *State, s *Term) bool {
	switch s.Op {
	case ONil, OObj, OHole:
		return true
	case OSlice:
		// s[:n:n] has no spare capacity
		if len(s.Args) == 4 && s.Args[3] == s.Args[2] {
			return true
		}
		return e.localSlice(st, s.Args[0])
	case OConv:
		return true // fresh bytes of a string
	case OCall:
		return true // results of modelled library calls and clones are fresh
	}
	if _, hi := e.interval(st, mkLen(s)); hi == 0 && e.eval(st, mkEq(s, theNil)) == 1 {
		return true
	}
	return e.eval(st, mkEq(s, theNil)) == 1
}

func (e *Engine) appendTo(fr *Frame, st *State, s, xs *Term, typ types.Type, pos token.Pos) *Term {
	add := e.segsOf(st, xs)
	if isStringTerm(xs) {
		add = []*Term{mk(OSpread, "", 0, nil, e.convert(st, xs, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte])))}
		if v, ok := xs.strVal(); ok {
			add = nil
			for i := 0; i < len(v); i++ {
				add = append(add, cInt(int64(v[i])))
			}
		}
	}
	if len(add) == 0 {
		return s
	}
	if !e.localSlice(st, s) {
		st.addEff(&Effect{Kind: "appendinto", Args: []*Term{s}, Pos: pos, Fn: fr.fn})
	}
	base := e.segsOf(st, s)
	nie := false
	if s.Op == ONil || s.Op == OHole || s.Op == OObj && st.heap[s.N] != nil && st.heap[s.N].nilIfEmpty {
		nie = true
	}
	segs := append(append([]*Term(nil), base...), add...)
	return e.newSlice(st, typ, segs, nie, pos)
}

// ---- maps ----

func (e *Engine) mapEntries(st *State, m *Term) []*Term {
	switch m.Op {
	case ONil:
		return nil
	case OObj:
		if o := st.heap[m.N]; o != nil && o.val.Op == OMap {
			return o.val.Args
		}
		if o := st.heap[m.N]; o != nil {
			return []*Term{mk(OBase, "", 0, nil, o.val)}
		}
	}
	log := st.mapLog[m]
	if len(log) > 0 && log[0].Op == OBase {
		return log // the map has moved to another version
	}
	es := []*Term{mk(OBase, "", 0, nil, m)}
	return append(es, log...)
}

// mapGet looks k up; it returns one alternative per way the lookup can go.
type mapHit struct {
	st  *State
	has bool
	val *Term
	raw *Term // opaque value, presence not decided
}

// simpleMap returns the base if the map has not been written on this path.
func (e *Engine) mapVersion(st *State, m *Term) *Term {
	es := e.mapEntries(st, m)
	if len(es) == 1 && es[0].Op == OBase {
		return es[0].Args[0]
	}
	return mk(OMap, "", 0, nil, es...)
}

func (e *Engine) lookup(st *State, m, k *Term, vt types.Type, split bool) []mapHit {
	es := e.mapEntries(st, m)
	return e.lookupIn(st, es, k, vt, split)
}

func (e *Engine) lookupIn(st *State, es []*Term, k *Term, vt types.Type, split bool) []mapHit {
	if len(es) == 0 {
		return []mapHit{{st: st, has: false, val: zeroTerm(vt)}}
	}
	last := es[len(es)-1]
	rest := es[:len(es)-1]
	switch last.Op {
	case OIns, ODel:
		eq := mkEq(last.Args[0], k)
		hit := func(s *State) mapHit {
			if last.Op == ODel {
				return mapHit{st: s, has: false, val: zeroTerm(vt)}
			}
			return mapHit{st: s, has: true, val: last.Args[1]}
		}
		switch e.eval(st, eq) {
		case 1:
			return []mapHit{hit(st)}
		case 0:
			return e.lookupIn(st, rest, k, vt, split)
		}
		st2 := st.clone()
		var out []mapHit
		if e.assume(st, eq, true) {
			out = append(out, hit(st))
		}
		if e.assume(st2, eq, false) {
			out = append(out, e.lookupIn(st2, rest, k, vt, split)...)
		}
		return out
	case OBase:
		if len(rest) == 0 {
			return e.lookupBase(st, last.Args[0], k, vt, split)
		}
	}
	// Quantified entries: keep the whole version opaque.
	ver := mk(OMap, "", 0, nil, es...)
	return e.lookupBase(st, ver, k, vt, split)
}

func (e *Engine) lookupBase(st *State, m, k *Term, vt types.Type, split bool) []mapHit {
	has := mk(OHas, "", 0, nil, m, k)
	val := mk(OLookup, "", 0, nil, m, k)
	if val.Typ == nil {
		val.Typ = vt
	}
	if m.Op == OMap && len(m.Args) == 0 {
		return []mapHit{{st: st, has: false, val: zeroTerm(vt)}}
	}
	switch e.eval(st, has) {
	case 1:
		return []mapHit{{st: st, has: true, val: e.lookupVal(st, m, k, val)}}
	case 0:
		return []mapHit{{st: st, has: false, val: zeroTerm(vt)}}
	}
	if !split {
		return []mapHit{{st: st, raw: val}}
	}
	st2 := st.clone()
	var out []mapHit
	if e.assume(st, has, true) {
		out = append(out, mapHit{st: st, has: true, val: e.lookupVal(st, m, k, val)})
	}
	if e.assume(st2, has, false) {
		out = append(out, mapHit{st: st2, has: false, val: zeroTerm(vt)})
	}
	return out
}

func (e *Engine) lookupVal(st *State, m, k, val *Term) *Term {
	if e.mapValue != nil {
		if v := e.mapValue(st, m, k, val.Typ); v != nil {
			return v
		}
	}
	return val
}

// evalHas decides membership where the domain of a binder settles it.
func (e *Engine) evalHas(st *State, t *Term) int {
	m, k := t.Args[0], t.Args[1]
	if m.Op == ONil {
		return 0
	}
	if k.Op == OKey && k.Args[0] == m {
		return 1
	}
	if l, hi := e.interval(st, mkLen(m)); hi == 0 && l == 0 {
		return 0
	}
	return -1
}

func (e *Engine) evalPredicate(st *State, t *Term) int { return -1 }

func (e *Engine) mapUpdate(fr *Frame, st *State, m, k, v *Term, pos token.Pos) {
	if m.Op == OObj {
		o := st.heap[m.N]
		es := o.val
		if es.Op != OMap {
			es = mk(OMap, "", 0, nil, mk(OBase, "", 0, nil, es))
		}
		e.setObj(st, m.N, mk(OMap, "", 0, nil, addEntry(e, st, es.Args, mk(OIns, "", 0, nil, k, v))...))
		return
	}
	st.mapLog[m] = addEntry(e, st, st.mapLog[m], mk(OIns, "", 0, nil, k, v))
	st.addEff(&Effect{Kind: "mapset", Args: []*Term{m, k, v}, Pos: pos, Fn: fr.fn})
}

// addEntry appends an entry, dropping an earlier one for the same key.
func addEntry(e *Engine, st *State, es []*Term, x *Term) []*Term {
	var out []*Term
	for i, y := range es {
		if (y.Op == OIns || y.Op == ODel) && y.Args[0] == x.Args[0] {
			ok := true
			for _, z := range es[i+1:] {
				if z.Op != OIns && z.Op != ODel {
					ok = false
				}
			}
			if ok {
				continue
			}
		}
		out = append(out, y)
	}
	return append(out, x)
}

func (e *Engine) mapDelete(fr *Frame, st *State, m, k *Term, pos token.Pos) {
	if m.Op == ONil {
		return
	}
	if m.Op == OObj {
		o := st.heap[m.N]
		es := o.val
		if es.Op != OMap {
			es = mk(OMap, "", 0, nil, mk(OBase, "", 0, nil, es))
		}
		var keep []*Term
		if len(es.Args) == 0 {
			return
		}
		keep = addEntry(e, st, es.Args, mk(ODel, "", 0, nil, k))
		if len(keep) == 1 && keep[0].Op == ODel {
			keep = nil
		}
		e.setObj(st, m.N, mk(OMap, "", 0, nil, keep...))
		return
	}
	st.mapLog[m] = addEntry(e, st, st.mapLog[m], mk(ODel, "", 0, nil, k))
	st.addEff(&Effect{Kind: "mapdel", Args: []*Term{m, k}, Pos: pos, Fn: fr.fn})
}

// ---- splitting instructions ----

func one(st *State, v *Term) []alt { return []alt{{st: st, val: v}} }

func (e *Engine) step(fr *Frame, st *State, in ssa.Instruction) []alt {
	switch in := in.(type) {
	case *ssa.Call:
		return e.call(fr, st, in)
	case *ssa.RunDefers:
		return e.runDefers(fr, st)
	case *ssa.FieldAddr:
		x := e.value(fr, in.X)
		as, s := e.nilCheck(st, x, in.Pos(), "field "+fieldName(in.X.Type(), in.Field))
		if s == nil {
			return as
		}
		if x.Typ == nil {
			x.Typ = in.X.Type()
		}
		return append(as, alt{st: s, val: mkFieldAddr(x, in.Field, in.X.Type())})
	case *ssa.IndexAddr:
		x, i := e.value(fr, in.X), e.value(fr, in.Index)
		if x.Typ == nil && x.Op != OObj {
			x.Typ = in.X.Type()
		}
		as, s := e.boundsCheck(st, x, i, in.Pos())
		if s == nil {
			return as
		}
		if x.Op == OObj && s.heap[x.N] != nil {
			if o := s.heap[x.N]; o.val.Op == OSeq && len(o.val.Args) == 1 && o.val.Args[0].Op == OSpread && false {
				x = o.val.Args[0].Args[0]
			}
		}
		return append(as, alt{st: s, val: mkIndexAddr(x, i)})
	case *ssa.Index:
		x, i := e.value(fr, in.X), e.value(fr, in.Index)
		as, s := e.boundsCheck(st, x, i, in.Pos())
		if s == nil {
			return as
		}
		return append(as, alt{st: s, val: e.indexValue(s, x, i, in.Type())})
	case *ssa.Lookup:
		x, k := e.value(fr, in.X), e.value(fr, in.Index)
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			if x.Typ == nil && x.Op != OObj {
				x.Typ = in.X.Type()
			}
			if !in.CommaOk {
				var out []alt
				for _, h := range e.lookup(st, x, k, m.Elem(), false) {
					v := h.val
					if h.raw != nil {
						v = e.lookupVal(h.st, h.raw.Args[0], k, h.raw)
					}
					out = append(out, alt{st: h.st, val: v})
				}
				return out
			}
			var out []alt
			for _, h := range e.lookup(st, x, k, m.Elem(), true) {
				out = append(out, alt{st: h.st, val: mk(OTuple, "", 0, nil, h.val, cBool(h.has))})
			}
			return out
		}
		as, s := e.boundsCheck(st, x, k, in.Pos())
		if s == nil {
			return as
		}
		return append(as, alt{st: s, val: e.indexValue(s, x, k, in.Type())})
	case *ssa.UnOp:
		return e.unop(fr, st, in)
	case *ssa.Store:
		addr, val := e.value(fr, in.Addr), e.value(fr, in.Val)
		as, s := e.nilCheck(st, addr, in.Pos(), "store through")
		if s == nil {
			return as
		}
		if val.Typ == nil && val.Op != OObj && val.Op != ONil {
			val.Typ = in.Val.Type()
		}
		e.store(fr, s, addr, val, in.Pos())
		return append(as, alt{st: s})
	case *ssa.MapUpdate:
		m, k, v := e.value(fr, in.Map), e.value(fr, in.Key), e.value(fr, in.Value)
		as, s := e.nilCheck(st, m, in.Pos(), "write to entry of map")
		if s == nil {
			return as
		}
		e.mapUpdate(fr, s, m, k, v, in.Pos())
		return append(as, alt{st: s})
	case *ssa.TypeAssert:
		return e.typeAssert(fr, st, in)
	case *ssa.Slice:
		return e.slice(fr, st, in)
	case *ssa.BinOp:
		return e.binop(fr, st, in)
	case *ssa.MakeSlice:
		n := e.value(fr, in.Len)
		var as []alt
		neg := mkLt(n, cInt(0))
		switch e.eval(st, neg) {
		case 1:
			return []alt{e.panicAlt(st, "makeslice with negative length "+n.String(), in.Pos())}
		case -1:
			st2 := st.clone()
			if e.assume(st2, neg, true) {
				as = append(as, e.panicAlt(st2, "makeslice with possibly negative length "+n.String(), in.Pos()))
			}
			e.assume(st, neg, false)
		}
		var segs []*Term
		et := elemType(in.Type())
		if k, ok := n.intVal(); ok && k <= 64 {
			for i := int64(0); i < k; i++ {
				segs = append(segs, zeroTerm(et))
			}
		} else {
			segs = []*Term{mk(ORep, "", 0, nil, zeroTerm(et), n)}
		}
		return append(as, alt{st: st, val: e.newSlice(st, in.Type(), segs, false, in.Pos())})
	case *ssa.Send:
		ch, x := e.value(fr, in.Chan), e.value(fr, in.X)
		st.addEff(&Effect{Kind: "send", Args: []*Term{ch, x}, Pos: in.Pos(), Fn: fr.fn})
		return one(st, nil)
	case *ssa.Select:
		return e.selectStmt(fr, st, in)
	case *ssa.Next:
		return e.next(fr, st, in)
	}
	e.undecided(in.Pos(), "unsupported instruction %T in %s", in, fr.fn)
	return nil
}

// boundsCheck splits on an index being out of range.
func (e *Engine) boundsCheck(st *State, x, i *Term, pos token.Pos) ([]alt, *State) {
	if x.Op == OObj {
		if s, ok := st.elems[x]; ok && s.Op == OList && s.Args[0] == i {
			return nil, st
		}
	}
	if x.Op == OFieldAddr || x.Op == OGlobal {
		// arrays in place: only constant or masked indexes are expected
		return nil, st
	}
	n := e.lenOf(st, x)
	in := mkLt(i, n)
	neg := mkLt(i, cInt(0))
	a, b := e.eval(st, in), e.eval(st, neg)
	if a == 1 && b == 0 {
		return nil, st
	}
	var as []alt
	if b == 1 || a == 0 {
		return []alt{e.panicAlt(st, "index "+i.String()+" out of range of "+x.String(), pos)}, nil
	}
	if a != 1 {
		st2 := st.clone()
		if e.assume(st2, in, false) {
			as = append(as, e.panicAlt(st2, "index "+i.String()+" possibly out of range of "+x.String(), pos))
		}
		if !e.assume(st, in, true) {
			return as, nil
		}
	}
	if b != 0 {
		st2 := st.clone()
		if e.assume(st2, neg, true) {
			as = append(as, e.panicAlt(st2, "index "+i.String()+" possibly negative", pos))
		}
		if !e.assume(st, neg, false) {
			return as, nil
		}
	}
	return as, st
}

func (e *Engine) lenOf(st *State, x *Term) *Term {
	if x.Op == OObj {
		if o := st.heap[x.N]; o != nil && o.kind == 'h' {
			return mkLen(x)
		}
	}
	return e.lenTerm(st, x)
}

func (e *Engine) indexValue(st *State, x, i *Term, typ types.Type) *Term {
	if s, ok := x.strVal(); ok {
		if k, ok := i.intVal(); ok && k >= 0 && k < int64(len(s)) {
			return cInt(int64(s[k]))
		}
	}
	if x.Op == OSeq || x.Op == OUpd {
		return e.seqIndex(st, x, x, i, typ)
	}
	if x.Op == OStr {
		if s, ok := x.Args[0].strVal(); ok {
			if k, ok := i.intVal(); ok && k >= 0 && k < int64(len(s)) {
				return cInt(int64(s[k]))
			}
		}
	}
	if x.Op == OConv && isStringTerm(x.Args[0]) {
		x = x.Args[0]
	}
	return e.load(st, mkIndexAddr(x, i), typ)
}

func (e *Engine) unop(fr *Frame, st *State, in *ssa.UnOp) []alt {
	x := e.value(fr, in.X)
	switch in.Op {
	case token.MUL:
		as, s := e.nilCheck(st, x, in.Pos(), "dereference")
		if s == nil {
			return as
		}
		// An element of a list built with alternatives: one path per alternative.
		if x.Op == OIndexAddr && x.Args[0].Op == OObj {
			if o := s.heap[x.Args[0].N]; o != nil && o.val.Op == OSeq && len(o.val.Args) == 1 && o.val.Args[0].Op == OEach && o.val.Args[0].Args[0] == x.Args[1] && len(o.val.Args[0].Args) > 2 {
				if _, dom := s.elems[x.Args[0]]; !dom {
					for i, a := range o.val.Args[0].Args[1:] {
						if len(a.Args[1].Args) != 1 {
							break
						}
						s2 := s
						if i < len(o.val.Args[0].Args)-2 {
							s2 = s.clone()
						}
						ok := true
						for _, g := range a.Args[0].Args {
							if ok {
								ok = e.assume(s2, g, true)
							}
						}
						if ok {
							as = append(as, alt{st: s2, val: a.Args[1].Args[0]})
						}
					}
					return as
				}
			}
		}
		v := e.load(s, x, in.Type())
		if v.Typ == nil && v.Op != OObj && v.Op != ONil {
			v.Typ = in.Type()
		}
		return append(as, alt{st: s, val: v})
	case token.NOT:
		return one(st, mkNot(x))
	case token.SUB:
		if k, ok := x.intVal(); ok {
			return one(st, cInt(-k))
		}
		if x.isConst() {
			return one(st, cVal(constant.UnaryOp(token.SUB, x.val, 0), in.Type()))
		}
		return one(st, mkSub(cInt(0), x))
	case token.ARROW:
		st.addEff(&Effect{Kind: "recv", Args: []*Term{x}, Pos: in.Pos(), Fn: fr.fn})
		v := e.fresh("recv", elemType(in.X.Type()))
		if in.CommaOk {
			return one(st, mk(OTuple, "", 0, nil, v, mk(OCall, "recv.ok", 0, nil, x, v)))
		}
		return one(st, v)
	case token.XOR:
		if x.isConst() {
			return one(st, cVal(constant.UnaryOp(token.XOR, x.val, 0), in.Type()))
		}
		return one(st, mk(OCall, "^", 0, nil, x))
	}
	e.undecided(in.Pos(), "unsupported operator %s", in.Op)
	return nil
}

func mkSub(a, b *Term) *Term {
	if k, ok := b.intVal(); ok {
		return mkAdd(a, cInt(-k))
	}
	if a == b {
		return cInt(0)
	}
	return mk(OBin, "-", 0, nil, a, b)
}

func (e *Engine) binop(fr *Frame, st *State, in *ssa.BinOp) []alt {
	a, b := e.value(fr, in.X), e.value(fr, in.Y)
	t := in.X.Type()
	str := isStringType(t)
	switch in.Op {
	case token.ADD:
		if str {
			return one(st, mkStr(a, b))
		}
		if isIntType(t) {
			return one(st, mkAdd(a, b))
		}
	case token.SUB:
		if isIntType(t) {
			return one(st, mkSub(a, b))
		}
	case token.EQL:
		return one(st, e.mkEqual(st, a, b))
	case token.NEQ:
		return one(st, mkNot(e.mkEqual(st, a, b)))
	case token.LSS:
		return one(st, mkLt(a, b))
	case token.GTR:
		return one(st, mkLt(b, a))
	case token.LEQ:
		return one(st, mkNot(mkLt(b, a)))
	case token.GEQ:
		return one(st, mkNot(mkLt(a, b)))
	}
	if a.isConst() && b.isConst() {
		op := in.Op
		if op == token.QUO && isIntType(t) {
			op = token.QUO_ASSIGN
		}
		if (op == token.QUO_ASSIGN || op == token.REM) && constant.Sign(b.val) == 0 {
			return []alt{e.panicAlt(st, "division by zero", in.Pos())}
		}
		if op == token.SHL || op == token.SHR {
			if k, ok := b.intVal(); ok && k >= 0 && k < 64 {
				return one(st, cVal(constant.Shift(a.val, op, uint(k)), in.Type()))
			}
		} else {
			return one(st, cVal(constant.BinaryOp(a.val, op, b.val), in.Type()))
		}
	}
	r := mk(OBin, in.Op.String(), 0, nil, a, b)
	if r.Typ == nil {
		r.Typ = in.Type()
	}
	if (in.Op == token.QUO || in.Op == token.REM) && isIntType(t) && !b.isConst() {
		z := mkEq(b, cInt(0))
		var as []alt
		if e.eval(st, z) != 0 {
			st2 := st.clone()
			if e.assume(st2, z, true) {
				as = append(as, e.panicAlt(st2, "possible division by zero", in.Pos()))
			}
			if !e.assume(st, z, false) {
				return as
			}
		}
		return append(as, alt{st: st, val: r})
	}
	return one(st, r)
}

// mkEqual builds a == b, resolving local slices and interfaces.
// isTypeParam recognises the stand-ins for type parameters: they may be any
// type, interfaces included.
func isTypeParam(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && (n.Obj().Name() == "Key" || n.Obj().Name() == "Payload") && n.Obj().Pkg() != nil && n.NumMethods() == 0 && n.Obj().Parent() == nil
}

func (e *Engine) mkEqual(st *State, a, b *Term) *Term {
	if a.Op == OIface && b.Op == OIface {
		if !types.Identical(a.Typ, b.Typ) {
			return cBool(false)
		}
		return e.mkEqual(st, a.Args[0], b.Args[0])
	}
	if a.Op == OIface && b.Op == ONil || b.Op == OIface && a.Op == ONil {
		x := a
		if a.Op == ONil {
			x = b
		}
		if isTypeParam(x.Typ) {
			t := mk(OCall, "holds nil", 0, nil, x)
			t.Typ = types.Typ[types.Bool]
			return t
		}
		return cBool(false)
	}
	t := mkEq(a, b)
	switch e.eval(st, t) {
	case 1:
		return cBool(true)
	case 0:
		return cBool(false)
	}
	// nil-ness of a local slice that is nil exactly when empty
	if b.Op == ONil && a.Op == OObj {
		if o := st.heap[a.N]; o != nil && o.nilIfEmpty {
			return mkEq(e.lenTerm(st, a), cInt(0))
		}
	}
	return t
}

func (e *Engine) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) []alt {
	x := e.value(fr, in.X)
	res := func(s *State, ok bool, v *Term) alt {
		if in.CommaOk {
			if !ok {
				v = zeroTerm(in.AssertedType)
			}
			return alt{st: s, val: mk(OTuple, "", 0, nil, v, cBool(ok))}
		}
		if !ok {
			return e.panicAlt(s, "failed type assertion of "+e.describe(s, x)+" to "+in.AssertedType.String(), in.Pos())
		}
		return alt{st: s, val: v}
	}
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	if x.Op == ONil {
		return []alt{res(st, false, nil)}
	}
	if x.Op == OIface && !isTypeParam(x.Typ) {
		if toIface {
			ok := types.AssignableTo(x.Typ, in.AssertedType)
			return []alt{res(st, ok, x)}
		}
		return []alt{res(st, types.Identical(x.Typ, in.AssertedType), x.Args[0])}
	}
	isT := mk(OIsType, "", 0, in.AssertedType, x)
	v := mk(OAssert, "", 0, in.AssertedType, x)
	if toIface {
		v = x
	}
	st2 := st.clone()
	var out []alt
	if e.assume(st, isT, true) {
		out = append(out, res(st, true, v))
	}
	if e.assume(st2, isT, false) {
		out = append(out, res(st2, false, nil))
	}
	return out
}

func (e *Engine) slice(fr *Frame, st *State, in *ssa.Slice) []alt {
	x := e.value(fr, in.X)
	if in.Low == nil && in.High == nil && in.Max == nil {
		if x.Op == OObj || isStringTerm(x) {
			return one(st, x)
		}
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			return one(st, x)
		}
	}
	n := e.lenOf(st, x)
	lo, hi := cInt(0), n
	if in.Low != nil {
		lo = e.value(fr, in.Low)
	}
	if in.High != nil {
		hi = e.value(fr, in.High)
	}
	// bounds: 0 <= lo <= hi <= cap; strings and local slices use len.
	var as []alt
	check := func(c *Term, why string) bool {
		switch e.eval(st, c) {
		case 0:
			return true
		case 1:
			as = append(as, e.panicAlt(st, why, in.Pos()))
			return false
		}
		st2 := st.clone()
		if e.assume(st2, c, true) {
			as = append(as, e.panicAlt(st2, why, in.Pos()))
		}
		return e.assume(st, c, false)
	}
	desc := "slice bounds [" + lo.String() + ":" + hi.String() + "] of " + e.describe(st, x)
	if !check(mkLt(lo, cInt(0)), desc) || !check(mkLt(hi, lo), desc) {
		return as
	}
	if hi != n && !check(mkLt(n, hi), desc) {
		return as
	}
	if s, ok := x.strVal(); ok {
		l, ok1 := lo.intVal()
		h, ok2 := hi.intVal()
		if ok1 && ok2 {
			return append(as, alt{st: st, val: cString(s[l:h])})
		}
	}
	if l, ok := lo.intVal(); ok && l == 0 && hi == n && in.Max == nil {
		return append(as, alt{st: st, val: x})
	}
	if x.Op == OObj {
		if o := st.heap[x.N]; o != nil && o.val.Op == OSeq {
			segs := o.val.Args
			if l, ok := lo.intVal(); ok {
				plain := int64(len(segs)) >= l
				for i := int64(0); plain && i < l; i++ {
					if s := segs[i]; s.Op == OEach || s.Op == OSpread || s.Op == ORep {
						plain = false
					}
				}
				if plain {
					if hi == n {
						return append(as, alt{st: st, val: e.newSlice(st, in.Type(), segs[l:], false, in.Pos())})
					}
					if h, ok := hi.intVal(); ok && h <= int64(len(segs)) {
						plain := true
						for _, s := range segs[:h] {
							if s.Op == OEach || s.Op == OSpread || s.Op == ORep {
								plain = false
							}
						}
						if plain {
							return append(as, alt{st: st, val: e.newSlice(st, in.Type(), segs[l:h], false, in.Pos())})
						}
					}
				}
				if h, ok := hi.intVal(); ok && h == l {
					return append(as, alt{st: st, val: e.newSlice(st, in.Type(), nil, false, in.Pos())})
				}
			}
		}
	}
	if x.Op == OStr {
		// cut within constant ends
		if l, ok := lo.intVal(); ok {
			if hi == n {
				if t, ok := cutStr(x, int(l), 0); ok {
					return append(as, alt{st: st, val: t})
				}
			} else if hi.Op == OBin && (hi.Sym == "-" || hi.Sym == "+") {
				if k, ok := constDiff(n, hi); ok && k >= 0 {
					if t, ok := cutStr(x, int(l), int(k)); ok {
						return append(as, alt{st: st, val: t})
					}
				}
			}
		}
	}
	if isStringTerm(x) && x.Op != OStr {
		// taking off an end that is known to be there
		if l, ok := lo.intVal(); ok && l == 0 {
			if k, ok := constDiff(n, hi); ok && k > 0 {
				if s, has := st.endFact(x, true, true); has && int64(len(s)) == k {
					return append(as, alt{st: st, val: text("TrimSuffix", x, cString(s))})
				}
			}
		} else if ok && hi == n {
			if s, has := st.endFact(x, false, true); has && int64(len(s)) == l {
				return append(as, alt{st: st, val: text("TrimPrefix", x, cString(s))})
			}
		}
	}
	base := x
	if x.Op == OObj && st.heap[x.N] != nil {
		base = st.heap[x.N].val
	}
	args := []*Term{base, lo, hi}
	if in.Max != nil {
		args = append(args, e.value(fr, in.Max))
	}
	t := mk(OSlice, "", 0, nil, args...)
	if t.Typ == nil {
		t.Typ = in.Type()
	}
	// length facts
	if l, ok := lo.intVal(); ok && l == 0 {
		if h, ok := hi.intVal(); ok {
			st.setLo(mkLen(t), h)
			st.setHi(mkLen(t), h)
		}
	}
	return append(as, alt{st: st, val: t})
}

func (e *Engine) selectStmt(fr *Frame, st *State, in *ssa.Select) []alt {
	var out []alt
	n := len(in.States)
	total := n
	if !in.Blocking {
		total++
	}
	var cases []*Term
	for _, s := range in.States {
		ch := e.value(fr, s.Chan)
		if s.Dir == types.SendOnly {
			cases = append(cases, mk(OList, "send", 0, nil, ch, e.value(fr, s.Send)))
		} else {
			cases = append(cases, mk(OList, "recv", 0, nil, ch))
		}
	}
	for i := 0; i < total; i++ {
		s := st
		if i < total-1 {
			s = st.clone()
		}
		choice := i
		if i == n {
			choice = -1
		}
		note := "blocking"
		if !in.Blocking {
			note = "default"
		}
		s.addEff(&Effect{Kind: "select", Name: note, Args: append([]*Term{cInt(int64(choice))}, cases...), Pos: in.Pos(), Fn: fr.fn})
		vals := []*Term{cInt(int64(choice)), nil}
		var recvOK = cBool(false)
		for j, ss := range in.States {
			if ss.Dir == types.RecvOnly {
				et := elemType(ss.Chan.Type())
				if j == i {
					v := e.fresh("recv", et)
					recvOK = mk(OCall, "recv.ok", 0, nil, cases[j].Args[0], v)
					vals = append(vals, v)
				} else {
					vals = append(vals, zeroTerm(et))
				}
			}
		}
		vals[1] = recvOK
		out = append(out, alt{st: s, val: mk(OTuple, "", 0, nil, vals...)})
	}
	return out
}

// next models one step of a map or string iterator that is unrolled or
// belongs to a summarised loop.
// repeats reports whether b can run more than once after each run of from.
func (e *Engine) repeats(b, from *ssa.BasicBlock) bool {
	e.loopAt(b.Parent(), b)
	for _, l := range e.loops[b.Parent()] {
		if l.blocks[b] && !l.blocks[from] {
			return true
		}
	}
	return false
}

func (e *Engine) next(fr *Frame, st *State, in *ssa.Next) []alt {
	it := e.value(fr, in.Iter)
	x := it.Args[0]
	if v, ok := st.elems[it]; ok && v.Op == OTuple {
		return one(st, v)
	}
	if st.iter[-1-it.id] == 1 {
		if v, ok := e.nextConcrete(fr, st, in); ok {
			return one(st, v)
		}
		e.undecided(in.Pos(), "what %s ranges over changes during the loop", fr.fn)
	}
	if rg, ok := in.Iter.(*ssa.Range); ok && !e.repeats(in.Block(), rg.Block()) {
		// The only step of the iteration asks whether there is anything.
		if v, ok := e.nextConcrete(fr, st, in); ok {
			return one(st, v)
		}
		n := e.lenOf(st, x)
		if !in.IsString && x.Op != OObj {
			n = mkLen(e.mapVersion(st, x))
		}
		some := mkLt(cInt(0), n)
		if in.IsString {
			return one(st, mk(OTuple, "", 0, nil, some, cInt(0), mk(OCall, "runeat", 0, nil, x, cInt(0))))
		}
		m := e.mapVersion(st, x)
		k := mk(OKey, "", 0, nil, m)
		if k.Typ == nil {
			k.Typ = rg.X.Type().Underlying().(*types.Map).Key()
		}
		return one(st, mk(OTuple, "", 0, nil, some, k, e.lookupVal(st, m, k, mk(OLookup, "", 0, nil, m, k))))
	}
	if in.IsString {
		idx := mk(OIdx, "", 0, nil, x)
		return one(st, mk(OTuple, "", 0, nil, mk(OCall, "next.ok", 0, nil, it), idx, mk(OCall, "runeat", 0, nil, x, idx)))
	}
	m := e.mapVersion(st, x)
	k := mk(OKey, "", 0, nil, m)
	var vt types.Type
	if r, ok := in.Iter.(*ssa.Range); ok {
		if mt, ok := r.X.Type().Underlying().(*types.Map); ok {
			vt = mt.Elem()
			if k.Typ == nil {
				k.Typ = mt.Key()
			}
		}
	}
	val := mk(OLookup, "", 0, nil, m, k)
	if val.Typ == nil {
		val.Typ = vt
	}
	val = e.lookupVal(st, m, k, val)
	return one(st, mk(OTuple, "", 0, nil, mk(OCall, "next.ok", 0, nil, it), k, val))
}

func (e *Engine) runDefers(fr *Frame, st *State) []alt {
	ds := fr.defers
	fr.defers = nil
	cur := []*State{st}
	for i := len(ds) - 1; i >= 0; i-- {
		var nxt []*State
		for _, s := range cur {
			as := e.callCommon(fr, s, ds[i].call, ds[i].fn, ds[i].args, ds[i].pos, nil)
			for _, a := range as {
				if a.out == nil {
					nxt = append(nxt, a.st)
				}
			}
		}
		cur = nxt
	}
	var out []alt
	for _, s := range cur {
		out = append(out, alt{st: s})
	}
	return out
}

// constDiff gives a-b when both differ by a constant.
func constDiff(a, b *Term) (int64, bool) {
	base := func(t *Term) (*Term, int64) {
		if t.Op == OBin && t.Sym == "+" {
			if k, ok := t.Args[1].intVal(); ok {
				return t.Args[0], k
			}
		}
		return t, 0
	}
	x, i := base(a)
	y, j := base(b)
	return i - j, x == y
}
