package main

import (
	"go/constant"
	"go/token"
	"math"
)

var (
	tokEQL = token.EQL
	tokLSS = token.LSS
)

// Facts is what is known on one path: truth of boolean terms and integer
// intervals. Facts are copied on fork.
type Facts struct {
	b  map[*Term]bool
	lo map[*Term]int64
	hi map[*Term]int64
	ne map[*Term]map[int64]bool
}

func newFacts() *Facts {
	return &Facts{b: map[*Term]bool{}, lo: map[*Term]int64{}, hi: map[*Term]int64{}, ne: map[*Term]map[int64]bool{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{b: make(map[*Term]bool, len(f.b)+4), lo: make(map[*Term]int64, len(f.lo)), hi: make(map[*Term]int64, len(f.hi)), ne: make(map[*Term]map[int64]bool, len(f.ne))}
	for k, v := range f.b {
		g.b[k] = v
	}
	for k, v := range f.lo {
		g.lo[k] = v
	}
	for k, v := range f.hi {
		g.hi[k] = v
	}
	for k, v := range f.ne {
		c := map[int64]bool{}
		for x := range v {
			c[x] = true
		}
		g.ne[k] = c
	}
	return g
}

// dropMentioning forgets everything about terms that contain x.
func (f *Facts) dropMentioning(x *Term) {
	for k := range f.b {
		if k.contains(x) {
			delete(f.b, k)
		}
	}
	for k := range f.lo {
		if k.contains(x) {
			delete(f.lo, k)
		}
	}
	for k := range f.hi {
		if k.contains(x) {
			delete(f.hi, k)
		}
	}
	for k := range f.ne {
		if k.contains(x) {
			delete(f.ne, k)
		}
	}
}

const inf = math.MaxInt64 / 4

// interval returns bounds for an integer term.
func (e *Engine) interval(st *State, t *Term) (int64, int64) {
	if v, ok := t.intVal(); ok {
		return v, v
	}
	lo, hi := int64(-inf), int64(inf)
	switch t.Op {
	case OLen, OCap:
		lo = 0
		if t.Op == OLen {
			l, h := e.lenInterval(st, t.Args[0])
			lo, hi = max64(lo, l), min64(hi, h)
			if e.lenHook != nil {
				l, h := e.lenHook(st, t.Args[0])
				lo, hi = max64(lo, l), min64(hi, h)
			}
		}
	case OIdx:
		lo = 0
		if t.Args[0].Op == ORange {
			l, _ := e.interval(st, t.Args[0].Args[0])
			_, h := e.interval(st, t.Args[0].Args[1])
			lo, hi = l, h-1
		} else if _, h := e.interval(st, mkLen(t.Args[0])); h < inf {
			hi = h - 1
		}
	case OBin:
		al, ah := e.interval(st, t.Args[0])
		bl, bh := e.interval(st, t.Args[1])
		switch t.Sym {
		case "+":
			if al > -inf && bl > -inf {
				lo = al + bl
			}
			if ah < inf && bh < inf {
				hi = ah + bh
			}
		case "-":
			if al > -inf && bh < inf {
				lo = al - bh
			}
			if ah < inf && bl > -inf {
				hi = ah - bl
			}
			if m := t.Args[0]; m.Op == OCall && m.Sym == "foldmax" && e.eval(st, mkLt(m, t.Args[1])) == 0 {
				lo = max64(lo, 0)
			}
			if st.facts.b[mkLt(t.Args[1], t.Args[0])] {
				lo = max64(lo, 1)
			} else if v, ok := st.facts.b[mkLt(t.Args[0], t.Args[1])]; ok && !v {
				lo = max64(lo, 0)
			}
		case "*":
			if al >= 0 && bl >= 0 && ah < 1<<20 && bh < 1<<20 {
				lo, hi = al*bl, ah*bh
			}
		}
	case OCall:
		if t.Sym == "max" || t.Sym == "min" {
			for i, a := range t.Args {
				l, h := e.interval(st, a)
				if i == 0 {
					lo, hi = l, h
				} else if t.Sym == "max" {
					lo, hi = max64(lo, l), max64(hi, h)
				} else {
					lo, hi = min64(lo, l), min64(hi, h)
				}
			}
		}
	case OConv:
		if isUnsigned(t.Typ) {
			lo = 0
		}
	}
	if isUnsigned(t.Typ) {
		lo = max64(lo, 0)
	}
	if v, ok := st.facts.lo[t]; ok {
		lo = max64(lo, v)
	}
	if v, ok := st.facts.hi[t]; ok {
		hi = min64(hi, v)
	}
	for st.facts.ne[t][lo] && lo < hi {
		lo++
	}
	for st.facts.ne[t][hi] && lo < hi {
		hi--
	}
	return lo, hi
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// lenInterval bounds the length of a slice, string or map value.
func (e *Engine) lenInterval(st *State, x *Term) (int64, int64) {
	if x.Op == OObj {
		o := st.heap[x.N]
		if o == nil {
			return 0, inf
		}
		x = o.val
	}
	switch x.Op {
	case OSeq:
		var lo, hi int64
		for _, s := range x.Args {
			switch s.Op {
			case OEach:
				l, h := e.eachInterval(st, s)
				lo, hi = lo+l, hi+h
			case OSpread:
				l, h := e.interval(st, mkLen(s.Args[0]))
				lo, hi = lo+l, hi+h
			case ORep:
				l, h := e.interval(st, s.Args[1])
				lo, hi = lo+max64(l, 0), hi+h
			default:
				lo, hi = lo+1, hi+1
			}
		}
		return lo, min64(hi, inf)
	case OStr:
		var lo, hi int64
		for _, s := range x.Args {
			if c, ok := s.strVal(); ok {
				lo, hi = lo+int64(len(c)), hi+int64(len(c))
				continue
			}
			l, h := e.interval(st, mkLen(s))
			lo, hi = lo+l, min64(inf, hi+h)
		}
		return lo, hi
	case OMap:
		if len(x.Args) == 0 {
			return 0, 0
		}
		return 0, inf
	}
	return 0, inf
}

// eachDomain bounds the number of values an OEach segment ranges over.
func (e *Engine) eachDomain(st *State, s *Term) (int64, int64) {
	switch b := s.Args[0]; {
	case b.Op == OIdx && b.Args[0].Op != ORange, b.Op == OKey:
		return e.interval(st, mkLen(b.Args[0]))
	}
	return 0, inf
}

// eachInterval bounds the number of elements an OEach segment yields.
func (e *Engine) eachInterval(st *State, s *Term) (int64, int64) {
	dl, dh := e.eachDomain(st, s)
	var min, max int64 = inf, 0
	for _, a := range s.Args[1:] {
		n := int64(len(a.Args[1].Args))
		for _, p := range a.Args[1].Args {
			if p.Op == OEach || p.Op == OSpread || p.Op == ORep {
				return 0, inf
			}
		}
		min, max = min64(min, n), max64(max, n)
	}
	if min == inf {
		min = 0
	}
	if dh >= inf {
		if max == 0 {
			return 0, 0
		}
		return dl * min, inf
	}
	return dl * min, dh * max
}

// eval decides a boolean term: 1 true, 0 false, -1 unknown.
func (e *Engine) eval(st *State, t *Term) int {
	if v, ok := t.boolVal(); ok {
		if v {
			return 1
		}
		return 0
	}
	if t.Op == ONot {
		switch e.eval(st, t.Args[0]) {
		case 1:
			return 0
		case 0:
			return 1
		}
		return -1
	}
	if v, ok := st.facts.b[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	if t.Op == OBin {
		a, b := t.Args[0], t.Args[1]
		switch t.Sym {
		case "==":
			if r := e.evalEq(st, a, b); r >= 0 {
				return r
			}
		case "<":
			al, ah := e.interval(st, a)
			bl, bh := e.interval(st, b)
			if ah < bl {
				return 1
			}
			if al >= bh {
				return 0
			}
			// idx < len of its own domain
			if a.Op == OIdx && b.Op == OLen && a.Args[0] == b.Args[0] {
				return 1
			}
			if a.Op == OIdx && b.Op == OLen && e.sameLen(st, a.Args[0], b.Args[0]) {
				return 1
			}
			if a.Op == OIdx && a.Args[0].Op == ORange && a.Args[0].Args[1] == b {
				return 1
			}
			// (x + c) < y follows from x < y for c <= 0
			if a.Op == OBin && a.Sym == "+" {
				if c, ok := a.Args[1].intVal(); ok && c <= 0 && e.eval(st, mkLt(a.Args[0], b)) == 1 {
					return 1
				}
			}
			// running maximum
			if a.Op == OCall && a.Sym == "foldmax" {
				for _, alt := range a.Args[1].Args[1:] {
					if len(alt.Args[1].Args) != 1 || alt.Args[1].Args[0] != b {
						continue
					}
					ok := true
					for _, g := range alt.Args[0].Args {
						if e.eval(st, g) != 1 {
							ok = false
						}
					}
					if ok {
						return 0
					}
				}
			}
			if v, ok := st.facts.b[mkLt(b, a)]; ok && v {
				return 0
			}
		case "and":
			x, y := e.eval(st, a), e.eval(st, b)
			if x == 0 || y == 0 {
				return 0
			}
			if x == 1 && y == 1 {
				return 1
			}
		case "or":
			x, y := e.eval(st, a), e.eval(st, b)
			if x == 1 || y == 1 {
				return 1
			}
			if x == 0 && y == 0 {
				return 0
			}
		}
	}
	if t.Op == OHas {
		if r := e.evalHas(st, t); r >= 0 {
			return r
		}
	}
	if t.Op == OCall {
		if r := e.evalPredicate(st, t); r >= 0 {
			return r
		}
	}
	if e.decide != nil {
		return e.decide(st, t)
	}
	return -1
}

// sameLen reports that two slices provably have equal length.
func (e *Engine) sameLen(st *State, a, b *Term) bool {
	return a == b || e.lenTerm(st, a) == e.lenTerm(st, b)
}

// lenTerm gives a canonical length term.
func (e *Engine) lenTerm(st *State, x *Term) *Term {
	v := x
	if x.Op == OObj {
		if o := st.heap[x.N]; o != nil {
			v = o.val
		}
	}
	switch v.Op {
	case OSeq:
		sum := cInt(0)
		for _, s := range v.Args {
			switch s.Op {
			case OSpread:
				sum = mkAdd(sum, e.lenTerm(st, s.Args[0]))
			case ORep:
				sum = mkAdd(sum, s.Args[1])
			case OEach:
				one := true
				for _, a := range s.Args[1:] {
					if len(a.Args[1].Args) != 1 || a.Args[1].Args[0].Op == OEach || a.Args[1].Args[0].Op == OSpread {
						one = false
					}
				}
				if !one {
					return mkLen(x)
				}
				d := s.Args[0].Args[0]
				if s.Args[0].Op != OIdx && s.Args[0].Op != OKey || d.Op == ORange {
					return mkLen(x)
				}
				sum = mkAdd(sum, e.lenTerm(st, d))
			default:
				sum = mkAdd(sum, cInt(1))
			}
		}
		return sum
	case OStr:
		sum := cInt(0)
		for _, s := range v.Args {
			if s.Op == OEach {
				return mkLen(x)
			}
			sum = mkAdd(sum, mkLen(s))
		}
		return sum
	case OConst, ONil:
		return mkLen(v)
	case OHole:
		if l, ok := e.holeLen[v]; ok {
			return l
		}
	case OUpd:
		return e.lenTerm(st, v.Args[0])
	case OMap:
		if len(v.Args) == 0 {
			return cInt(0)
		}
		if len(v.Args) == 1 && v.Args[0].Op == OBase {
			return mkLen(v.Args[0].Args[0])
		}
		if d := mapCopyOf(v); d != nil {
			return mkLen(d)
		}
	}
	return mkLen(x)
}

// mapCopyOf recognises a local map that has exactly the keys of another map.
func mapCopyOf(v *Term) *Term {
	if len(v.Args) != 1 || v.Args[0].Op != OEach {
		return nil
	}
	s := v.Args[0]
	if s.Args[0].Op != OKey {
		return nil
	}
	for _, a := range s.Args[1:] {
		if len(a.Args[1].Args) != 1 || a.Args[1].Args[0].Op != OIns || a.Args[1].Args[0].Args[0] != s.Args[0] {
			return nil
		}
	}
	return s.Args[0].Args[0]
}

func (e *Engine) evalEq(st *State, a, b *Term) int {
	if e.distinct != nil && e.distinct(a, b) {
		return 0
	}
	if b.Op == ONil {
		switch a.Op {
		case OObj:
			if o := st.heap[a.N]; o != nil && o.nilIfEmpty {
				lo, hi := e.lenInterval(st, a)
				if lo > 0 {
					return 0
				}
				if hi == 0 {
					return 1
				}
				return -1
			}
			return 0
		case OIface, OFieldAddr, OIndexAddr, OGlobal, OClosure, OFunc:
			return 0
		}
		if a.Op == OCall && (a.Sym == "fmt.Errorf" || a.Sym == "errors.New") {
			return 0
		}
		if l, _ := e.interval(st, mkLen(a)); l > 0 {
			return 0
		}
		if e.nonNil != nil && e.nonNil(st, a) {
			return 0
		}
		return -1
	}
	if a.Op == OObj && b.Op == OObj {
		return 0 // distinct terms are distinct objects
	}
	if (a.Op == OObj) != (b.Op == OObj) {
		// A local object cannot equal an input value.
		x := a
		if a.Op == OObj {
			x = b
		}
		if x.Op == OLoad || x.Op == OSym || x.Op == OLookup {
			return 0
		}
	}
	if isIntType(a.Typ) || isIntType(b.Typ) {
		al, ah := e.interval(st, a)
		bl, bh := e.interval(st, b)
		if ah < bl || bh < al {
			return 0
		}
		if al == ah && bl == bh && al == bl {
			return 1
		}
		if v, ok := b.intVal(); ok && st.facts.ne[a][v] {
			return 0
		}
	}
	if s, ok := b.strVal(); ok {
		if s == "" {
			if l, _ := e.interval(st, mkLen(a)); l > 0 {
				return 0
			}
			if e.nonEmpty != nil && e.nonEmpty(st, a) {
				return 0
			}
		} else {
			// x == "other" known true
			for k, v := range st.facts.b {
				if v && k.Op == OBin && k.Sym == "==" && k.Args[0] == a && k.Args[1].isConst() && k.Args[1] != b {
					return 0
				}
			}
			if st.facts.b[mkEq(a, cString(""))] {
				return 0
			}
		}
	}
	// Equality through a third term known equal to a constant.
	return -1
}

func isIntType(t types_) bool {
	return isInt(t)
}

// assume records that t has truth value v; it reports false if that is
// contradictory.
func (e *Engine) assume(st *State, t *Term, v bool) bool {
	if t.Op == ONot {
		return e.assume(st, t.Args[0], !v)
	}
	switch e.eval(st, t) {
	case 1:
		return v
	case 0:
		return !v
	}
	if t.Op == OBin && (t.Sym == "and" && v || t.Sym == "or" && !v) {
		return e.assume(st, t.Args[0], v) && e.assume(st, t.Args[1], v)
	}
	st.facts.b[t] = v
	st.pc = append(st.pc, Cond{t, v})
	if _, ok := st.pcAt[t]; !ok {
		st.pcAt[t] = len(st.effs)
	}
	if t.Op == OBin {
		a, b := t.Args[0], t.Args[1]
		switch t.Sym {
		case "==":
			if b.Op == ONil {
				if v {
					st.setHi(mkLen(a), 0)
				}
				break
			}
			if s, ok := b.strVal(); ok {
				if v {
					st.setLo(mkLen(a), int64(len(s)))
					st.setHi(mkLen(a), int64(len(s)))
				} else if s == "" {
					st.setLo(mkLen(a), 1)
				}
				break
			}
			if k, ok := b.intVal(); ok {
				if v {
					st.setLo(a, k)
					st.setHi(a, k)
				} else {
					if st.facts.ne[a] == nil {
						st.facts.ne[a] = map[int64]bool{}
					}
					st.facts.ne[a][k] = true
				}
			}
		case "<":
			al, ah := e.interval(st, a)
			bl, bh := e.interval(st, b)
			if v {
				if bh < inf {
					st.setHi(a, bh-1)
				}
				if al > -inf {
					st.setLo(b, al+1)
				}
			} else {
				if bl > -inf {
					st.setLo(a, bl)
				}
				if ah < inf {
					st.setHi(b, ah)
				}
			}
		}
	}
	if t.Op == OCall && v && (t.Sym == "HasSuffix" || t.Sym == "HasPrefix" || t.Sym == "Contains") {
		if s, ok := t.Args[1].strVal(); ok {
			st.setLo(mkLen(t.Args[0]), int64(len(s)))
		}
	}
	if t.Op == OHas && v {
		// The map is not empty.
		st.setLo(mkLen(t.Args[0]), 1)
	}
	if e.onAssume != nil {
		return e.onAssume(st, t, v)
	}
	return true
}

func (st *State) setLo(t *Term, v int64) {
	if t.isConst() {
		return
	}
	if o, ok := st.facts.lo[t]; !ok || v > o {
		st.facts.lo[t] = v
	}
}

func (st *State) setHi(t *Term, v int64) {
	if t.isConst() {
		return
	}
	if o, ok := st.facts.hi[t]; !ok || v < o {
		st.facts.hi[t] = v
	}
}

var _ = constant.MakeBool
