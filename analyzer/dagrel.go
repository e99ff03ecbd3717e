package main

import (
	"fmt"
	"go/types"
	"strings"
)

// notDecided is raised while translating a summary that has no relational
// reading.
type notDecided struct{ msg string }

func (dm *dagModel) give(format string, a ...any) {
	panic(notDecided{fmt.Sprintf(format, a...)})
}

// rel translates terms of one outcome into formulas.
type rel struct {
	dm  *dagModel
	e   *Engine
	st  *State
	dir string // meaning of the closure under analysis
}

// key normalises a term that denotes a vertex ID.
func (r *rel) key(t *Term) *Term {
	switch t.Op {
	case OLookup:
		// Sets map every member to itself.
		if r.dm.isSetTerm(t.Args[0], r.st) {
			return r.key(t.Args[1])
		}
	}
	if len(t.Args) == 0 {
		return t
	}
	as := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		as[i] = r.key(a)
		ch = ch || as[i] != a
	}
	if !ch {
		return t
	}
	return rebuild(t, as)
}

func (dm *dagModel) isSetTerm(m *Term, st *State) bool {
	switch m.Op {
	case OLookup:
		f, ok := dm.fieldOfMap(m.Args[0])
		return ok && dm.role[f] != "V"
	case OCall:
		return strings.HasPrefix(m.Sym, "closure:") || strings.HasPrefix(m.Sym, "reach:")
	case OSym:
		return m.Typ != nil && dm.isSet(m.Typ)
	case OMapVer:
		return dm.isSetTerm(m.Args[0], st)
	case OMap:
		if len(m.Args) == 0 {
			return false
		}
		if m.Args[0].Op == OBase {
			return dm.isSetTerm(m.Args[0].Args[0], st)
		}
		for _, x := range m.Args {
			if !setEntry(x) {
				return false
			}
		}
		return true
	case OObj:
		if st != nil && st.heap[m.N] != nil {
			return dm.isSet(st.heap[m.N].typ)
		}
	}
	return false
}

func setEntry(x *Term) bool {
	switch x.Op {
	case OIns:
		return x.Args[0] == x.Args[1] || x.Args[1].Op == OLookup && x.Args[1].Args[1] == x.Args[0]
	case ODel:
		return true
	case OEach:
		for _, a := range x.Args[1:] {
			for _, y := range a.Args[1].Args {
				if !setEntry(y) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// closureDir is the direction of a closure term, or "" if it is none.
func (r *rel) closureDir(sym string) string {
	k := strings.TrimPrefix(sym, "closure:")
	if strings.HasSuffix(k, "@later") {
		return ""
	}
	c := r.dm.clos[k]
	if c == nil {
		return ""
	}
	if c.dir == "" && r.dir != "" && c.trying {
		return r.dir
	}
	return c.dir
}

// reach is the formula "k is in the closure of a in direction d".
func reachF(d string, a, k *Term) *F {
	if d == "in" {
		return fAtom("reach", k, a)
	}
	return fAtom("reach", a, k)
}

func edgeF(d string, a, k *Term) *F {
	if d == "in" {
		return fAtom("out", k, a)
	}
	return fAtom("out", a, k)
}

// member is the formula "k is a key of map m".
func (r *rel) member(m, k *Term) *F {
	dm := r.dm
	switch m.Op {
	case ONil:
		return fFalse
	case OObj:
		o := r.st.heap[m.N]
		if o == nil {
			dm.give("unknown object")
		}
		if o.val.Op == ONil || o.val.Op == OZero {
			return fFalse
		}
		return r.member(o.val, k)
	case OMap:
		return r.entries(m.Args, k)
	case OCall:
		if strings.HasPrefix(m.Sym, "reach:") {
			return reachF(strings.TrimPrefix(m.Sym, "reach:"), r.key(m.Args[0]), k)
		}
		if strings.HasPrefix(m.Sym, "closure:") {
			d := r.closureDir(m.Sym)
			if d == "" {
				return fAtom(m.Sym, r.key(m.Args[0]), k)
			}
			return reachF(d, r.key(m.Args[0]), k)
		}
	case OLookup:
		f, ok := dm.fieldOfMap(m.Args[0])
		if !ok {
			break
		}
		a := r.key(m.Args[1])
		base := m.Args[0]
		switch dm.role[f] {
		case "out", "in":
			if base.Op == OLoad {
				return edgeF(dm.role[f], a, k)
			}
			// The set found in a modified map of sets.
			return r.innerMember(base, a, k, dm.role[f])
		case "cache":
			if d := r.cacheDir(f); d != "" {
				return fAnd(r.cached(base, a, f), reachF(d, a, k))
			}
			return fAtom("remembered:"+dm.st.Field(f).Name(), a, k)
		}
	case OLoad, OMapVer:
		if f, ok := dm.fieldOfMap(m); ok {
			switch dm.role[f] {
			case "V":
				return fAtom("V", k)
			case "cache":
				return r.cached(m, k, f)
			default:
				return fAtom("ent:"+dm.role[f], k)
			}
		}
	case OSym:
		return fAtom("in:"+m.Sym, k)
	}
	dm.give("membership in %s", m)
	return nil
}

// innerMember is membership of k in the set stored for a in a modified map.
func (r *rel) innerMember(m, a, k *Term, d string) *F {
	if m.Op != OMap || len(m.Args) == 0 || m.Args[0].Op != OBase || m.Args[0].Args[0].Op != OLoad {
		r.dm.give("set in %s", m)
	}
	f := edgeF(d, a, k)
	for _, x := range m.Args[1:] {
		switch x.Op {
		case OIns:
			eq := fAtom("=", r.key(x.Args[0]), a)
			f = fOr(fAnd(eq, r.member(x.Args[1], k)), fAnd(fNot(eq), f))
		case ODel:
			f = fAnd(f, fNot(fAtom("=", r.key(x.Args[0]), a)))
		default:
			r.dm.give("set in %s", m)
		}
	}
	return f
}

func (r *rel) cacheDir(f int) string {
	if d := r.dm.cacheDir[f]; d != "" {
		return d
	}
	return r.dir
}

// cached is the formula "the cache version m has an entry for k".
func (r *rel) cached(m, k *Term, f int) *F {
	switch m.Op {
	case OLoad:
		return fAtom("cached:"+r.dm.st.Field(f).Name()+":"+r.cacheDir(f), k)
	case OMap:
		return r.entries(m.Args, k)
	case OMapVer:
		v := r.e.versions[m]
		if v == nil {
			break
		}
		r.dm.needC = true
		var prior *F
		if v.binder == nil || len(v.entry.Args) > 0 && v.entry.Args[0].Op == OBase {
			prior = r.entries(v.entry.Args, k)
		} else {
			// the log before the loop was relative to the map itself
			prior = r.entries(append([]*Term{mk(OBase, "", 0, nil, m.Args[0])}, v.entry.Args...), k)
		}
		if v.binder == nil {
			return fOr(prior, r.filled(v.args[0], k, f))
		}
		fs := []*F{prior}
		for _, s := range v.steps {
			x := r.e.versions[s.val]
			if x == nil || x.binder != nil {
				r.dm.give("cache after a loop")
			}
			h, back := r.hide(k)
			body := fAnd(r.dom(v.binder), r.conds(s.guards), r.filled(x.args[0], h, f))
			fs = append(fs, fExists(r.key(v.binder), body).subst(back))
		}
		return fOr(fs...)
	}
	r.dm.give("cache version %s", m)
	return nil
}

// filled: computing the closure set remembers the ID and all it reaches.
func (r *rel) filled(set, k *Term, f int) *F {
	key := strings.TrimSuffix(strings.TrimPrefix(set.Sym, "closure:"), "@later")
	c := r.dm.clos[key]
	d := r.closureDir(set.Sym)
	a := r.key(set.Args[0])
	if c != nil && c.own && c.dir != "" && d == r.cacheDir(f) {
		return fAtom("=", a, k)
	}
	if c == nil || d == "" || d != r.cacheDir(f) || !c.fills && c.dir != "" {
		m := fAtom("maybe:"+set.Sym, a, k)
		if c != nil && d != "" && d == r.cacheDir(f) {
			return fAnd(m, fOr(fAtom("=", a, k), reachF(d, a, k)))
		}
		return m
	}
	return fOr(fAtom("=", a, k), reachF(d, a, k))
}

// hide puts a placeholder in the place of k, which may mention a variable
// that is about to be bound.
func (r *rel) hide(k *Term) (*Term, map[*Term]*Term) {
	r.dm.holes++
	h := mk(OSym, fmt.Sprintf("#h%d", r.dm.holes), 0, r.dm.d.key)
	return h, map[*Term]*Term{h: k}
}

// dom is the formula "the binder is in its domain".
func (r *rel) dom(b *Term) *F {
	switch b.Op {
	case OKey:
		return r.member(b.Args[0], r.key(b))
	}
	r.dm.give("iteration over %s", b)
	return nil
}

// entries is membership in a map given by its entries.
func (r *rel) entries(es []*Term, k *Term) *F {
	f := fFalse
	for _, x := range es {
		switch x.Op {
		case OBase:
			f = r.member(x.Args[0], k)
		case OIns:
			f = fOr(f, fAtom("=", r.key(x.Args[0]), k))
		case ODel:
			f = fAnd(f, fNot(fAtom("=", r.key(x.Args[0]), k)))
		case OEach:
			ins, del := r.eachEntry(x, k)
			if ins.op != 'F' && del.op != 'F' {
				r.dm.give("a loop that both adds to and removes from a map")
			}
			f = fAnd(fOr(f, ins), fNot(del))
		default:
			r.dm.give("map entry %s", x)
		}
	}
	return f
}

func (r *rel) eachEntry(x, k0 *Term) (ins, del *F) {
	k, back := r.hide(k0)
	b := r.key(x.Args[0])
	var is, ds []*F
	for _, a := range x.Args[1:] {
		if len(a.Args[1].Args) == 0 {
			continue
		}
		g := fAnd(r.dom(x.Args[0]), r.conds(a.Args[0].Args))
		for _, y := range a.Args[1].Args {
			switch y.Op {
			case OIns:
				is = append(is, fAnd(g, fAtom("=", r.key(y.Args[0]), k)))
			case ODel:
				ds = append(ds, fAnd(g, fAtom("=", r.key(y.Args[0]), k)))
			case OEach:
				i, d := r.eachEntry(y, k)
				is = append(is, fAnd(g, i))
				ds = append(ds, fAnd(g, d))
			default:
				r.dm.give("map entry %s", y)
			}
		}
	}
	return r.exists(b, fOr(is...)).subst(back), r.exists(b, fOr(ds...)).subst(back)
}

func (r *rel) exists(b *Term, f *F) *F { return fExists(b, f) }

func (r *rel) conds(gs []*Term) *F {
	fs := []*F{}
	for _, g := range gs {
		fs = append(fs, r.cond(g))
	}
	return fAnd(fs...)
}

func (r *rel) pc() *F {
	fs := []*F{}
	for _, c := range r.st.pc {
		f := r.cond(c.T)
		if !c.V {
			f = fNot(f)
		} else if t := c.T; t.Op == OBin && t.Sym == "==" {
			// A nil set has no members.
			for i := range t.Args {
				if t.Args[1-i].Op == ONil && r.dm.isSetTerm(t.Args[i], r.st) {
					f = fAnd(f, r.empty(t.Args[i]))
				}
			}
		}
		fs = append(fs, f)
	}
	return fAnd(fs...)
}

func (r *rel) isKey(t *Term) bool {
	if t.Typ != nil && types.Identical(t.Typ, r.dm.d.key) {
		return true
	}
	return t.Op == OKey && r.dm.isSetTerm(t.Args[0], r.st)
}

// empty is the formula "map m has no keys".
func (r *rel) empty(m *Term) *F {
	k := mk(OSym, "#k", 0, r.dm.d.key)
	return fNot(fExists(k, r.member(m, k)))
}

// several is the formula "map m has at least two keys".
func (r *rel) several(m *Term) *F {
	k, l := mk(OSym, "#k", 0, r.dm.d.key), mk(OSym, "#l", 0, r.dm.d.key)
	other := fExists(l, fAnd(r.member(m, l), fNot(fAtom("=", k, l))))
	return fExists(k, fAnd(r.member(m, k), other))
}

// cond translates a branch condition.
func (r *rel) cond(t *Term) *F {
	if b, ok := t.boolVal(); ok {
		return fBool(b)
	}
	switch t.Op {
	case ONot:
		return fNot(r.cond(t.Args[0]))
	case OHas:
		return r.member(t.Args[0], r.key(t.Args[1]))
	case OExists, OForall:
		if t.Args[0].Op != OKey {
			break
		}
		b := r.key(t.Args[0])
		var fs []*F
		for _, a := range t.Args[1:] {
			fs = append(fs, r.conds(a.Args[0].Args))
		}
		some := r.exists(b, fAnd(r.dom(t.Args[0]), fOr(fs...)))
		if t.Op == OForall {
			return fNot(some)
		}
		return some
	case OBin:
		a, b := t.Args[0], t.Args[1]
		switch t.Sym {
		case "or":
			return fOr(r.cond(a), r.cond(b))
		case "and":
			return fAnd(r.cond(a), r.cond(b))
		case "==":
			if b.Op == ONil || a.Op == ONil {
				x := a
				if a.Op == ONil {
					x = b
				}
				switch x.Op {
				case OLookup:
					if f, ok := r.dm.fieldOfMap(x.Args[0]); ok && (r.dm.role[f] == "out" || r.dm.role[f] == "in") && x.Args[0].Op == OLoad {
						return fNot(fAtom("ent:"+r.dm.role[f], r.key(x.Args[1])))
					}
				case OLoad:
					if _, ok := r.dm.fieldOfMap(x); ok {
						return fFalse
					}
					if x.Args[0].Op == OGlobal && r.dm.p.errGlobal(x.Args[0].Sym) != "" {
						return fFalse
					}
				}
				if x == r.dm.g {
					return fFalse
				}
				break
			}
			if m, n, ok := lenConst(a, b); ok && n == 0 {
				return r.empty(m)
			} else if ok && n == 1 {
				return fAnd(fNot(r.empty(m)), fNot(r.several(m)))
			}
			if r.isKey(a) && r.isKey(b) || (r.isKey(a) && b.Op == OConst) || (r.isKey(b) && a.Op == OConst) {
				return fAtom("=", r.key(a), r.key(b))
			}
		case "<":
			if a.Op == OLen {
				switch n, ok := b.intVal(); {
				case ok && n == 1:
					return r.empty(a.Args[0])
				case ok && n == 2:
					return fNot(r.several(a.Args[0]))
				}
			}
			if b.Op == OLen {
				switch n, ok := a.intVal(); {
				case ok && n == 0:
					return fNot(r.empty(b.Args[0]))
				case ok && n == 1:
					return r.several(b.Args[0])
				}
			}
		}
	}
	return fAtom("term", r.key(t))
}

func lenConst(a, b *Term) (*Term, int64, bool) {
	if a.Op == OConst {
		a, b = b, a
	}
	if a.Op == OLen {
		if n, ok := b.intVal(); ok {
			return a.Args[0], n, true
		}
	}
	return nil, 0, false
}
