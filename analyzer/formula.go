package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// F is a first-order formula over vertex IDs. Summaries of graph operations
// are translated into formulas that define the new relations in terms of the
// old ones; entailment between two such definitions is decided by
// normalisation and case distinction (see unsat).
type F struct {
	op   byte // 'T', 'F', '&', '|', '!', 'a' atom, 'e' exists
	kids []*F
	rel  string
	args []*Term // atom arguments; for 'e' the bound variable
	key  string
}

var (
	fTrue  = &F{op: 'T', key: "T"}
	fFalse = &F{op: 'F', key: "F"}
)

func fBool(b bool) *F {
	if b {
		return fTrue
	}
	return fFalse
}

func fAtom(rel string, args ...*Term) *F {
	switch rel {
	case "=":
		a, b := args[0], args[1]
		if a == b {
			return fTrue
		}
		if a.Op == OConst && b.Op == OConst {
			return fFalse
		}
		if a.id > b.id {
			a, b = b, a
		}
		args = []*Term{a, b}
	case "out", "reach":
		// Invariant of the graph: no vertex reaches itself.
		if args[0] == args[1] {
			return fFalse
		}
		for _, a := range args {
			if isZeroKey(a) {
				return fFalse
			}
		}
	case "V":
		// Invariant: the empty ID is never a vertex.
		if isZeroKey(args[0]) {
			return fFalse
		}
	}
	var sb strings.Builder
	sb.WriteString(rel)
	for _, a := range args {
		fmt.Fprintf(&sb, "/%d", a.id)
	}
	return &F{op: 'a', rel: rel, args: args, key: sb.String()}
}

func isZeroKey(t *Term) bool {
	s, ok := t.strVal()
	return ok && s == ""
}

func fNot(f *F) *F {
	switch f.op {
	case 'T':
		return fFalse
	case 'F':
		return fTrue
	case '!':
		return f.kids[0]
	}
	return &F{op: '!', kids: []*F{f}, key: "!" + f.key}
}

func fAnd(fs ...*F) *F { return fNary('&', fs) }
func fOr(fs ...*F) *F  { return fNary('|', fs) }

func fNary(op byte, fs []*F) *F {
	unit, zero := fTrue, fFalse
	if op == '|' {
		unit, zero = fFalse, fTrue
	}
	m := map[string]*F{}
	var add func(f *F) bool
	add = func(f *F) bool {
		if f.op == zero.op {
			return false
		}
		if f.op == unit.op {
			return true
		}
		if f.op == op {
			for _, k := range f.kids {
				if !add(k) {
					return false
				}
			}
			return true
		}
		m[f.key] = f
		return true
	}
	for _, f := range fs {
		if !add(f) {
			return zero
		}
	}
	if op == '&' && !absorb(m) {
		return zero
	}
	if op == '|' {
		m = joinRoots(m)
	}
	var ks []*F
	for _, f := range m {
		if m[fNot(f).key] != nil {
			return zero
		}
		ks = append(ks, f)
	}
	switch len(ks) {
	case 0:
		return unit
	case 1:
		return ks[0]
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].key < ks[j].key })
	var sb strings.Builder
	sb.WriteByte('(')
	for i, k := range ks {
		if i > 0 {
			sb.WriteByte(op)
		}
		sb.WriteString(k.key)
	}
	sb.WriteByte(')')
	return &F{op: op, kids: ks, key: sb.String()}
}

// absorb drops literals that the graph's invariants make redundant next to an
// edge or a vertex, and reports false where they contradict one.
func absorb(m map[string]*F) bool {
	for _, f := range m {
		if f.op != 'a' {
			continue
		}
		var imp []*F
		switch f.rel {
		case "out", "reach":
			a, b := f.args[0], f.args[1]
			imp = []*F{fAtom("V", a), fAtom("V", b), fAtom("ent:out", a), fAtom("ent:in", b)}
			zero := []*Term{a, b}
			for _, z := range zero {
				dropZero(m, z)
			}
			if m["!"+fAtom("=", a, b).key] != nil {
				delete(m, "!"+fAtom("=", a, b).key)
			}
			if m[fAtom("=", a, b).key] != nil {
				return false
			}
			if f.rel == "out" {
				imp = append(imp, fAtom("reach", a, b))
				imp = append(imp, mkExists(a, true, b), mkExists(b, false, a))
			}
		case "V":
			dropZero(m, f.args[0])
			continue
		default:
			continue
		}
		for _, i := range imp {
			if i.op != 'a' && i.op != 'e' {
				continue
			}
			if m["!"+i.key] != nil {
				return false
			}
			if i.key != f.key {
				delete(m, i.key)
			}
		}
	}
	return true
}

// mkExists is "k has a parent" (or a child).
func mkExists(like *Term, parent bool, k *Term) *F {
	v := boundVar(1, like)
	var b *F
	if parent {
		b = fAtom("out", v, k)
	} else {
		b = fAtom("out", k, v)
	}
	if b.op != 'a' {
		return b
	}
	return &F{op: 'e', kids: []*F{b}, args: []*Term{v}, key: "E" + v.Sym + "[" + b.key + "]"}
}

func dropZero(m map[string]*F, k *Term) {
	for key, g := range m {
		if g.op == '!' && g.kids[0].op == 'a' && g.kids[0].rel == "=" {
			as := g.kids[0].args
			if as[0] == k && isZeroKey(as[1]) || as[1] == k && isZeroKey(as[0]) {
				delete(m, key)
			}
		}
	}
}

// joinRoots merges alternatives that together cover a simpler case: the two
// ways in which a vertex can have no parents (children), no entry in the map
// or an empty one; and, for a vertex, being a root or having one above it.
func joinRoots(m map[string]*F) map[string]*F {
	if len(m) > 40 {
		return m
	}
again:
	var ks []*F
	for _, f := range m {
		ks = append(ks, f)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].key < ks[j].key })
	for i, f := range ks {
		for j, g := range ks {
			if i == j {
				continue
			}
			if h := join(f, g); h != nil {
				delete(m, f.key)
				delete(m, g.key)
				if h.op == '|' {
					for _, k := range h.kids {
						m[k.key] = k
					}
				} else {
					m[h.key] = h
				}
				goto again
			}
		}
	}
	return m
}

func conjuncts(f *F) []*F {
	if f.op == '&' {
		return f.kids
	}
	return []*F{f}
}

// noKin recognises "k has no parents" (in) and "k has no children".
func noKin(f *F) (k *Term, in, ok bool) {
	if f.op != '!' || f.kids[0].op != 'e' {
		return
	}
	b, v := f.kids[0].kids[0], f.kids[0].args[0]
	if b.op != 'a' || b.rel != "out" {
		return
	}
	if b.args[0] == v {
		return b.args[1], true, true
	}
	return b.args[0], false, true
}

func join(f, g *F) *F {
	if f.op == 'e' && g.op == 'e' {
		skolems++
		v := mk(OSym, fmt.Sprintf("?J%d", skolems), 0, f.args[0].Typ)
		h := join(f.kids[0].subst(map[*Term]*Term{f.args[0]: v}), g.kids[0].subst(map[*Term]*Term{g.args[0]: v}))
		if h == nil {
			h = join(g.kids[0].subst(map[*Term]*Term{g.args[0]: v}), f.kids[0].subst(map[*Term]*Term{f.args[0]: v}))
		}
		if h == nil {
			return nil
		}
		return fExists(v, h)
	}
	fk, gk := conjuncts(f), conjuncts(g)
	inG, inF := map[string]bool{}, map[string]bool{}
	for _, l := range gk {
		inG[l.key] = true
	}
	for _, l := range fk {
		inF[l.key] = true
	}
	var common, a, b []*F
	for _, l := range fk {
		if inG[l.key] {
			common = append(common, l)
		} else {
			a = append(a, l)
		}
	}
	for _, l := range gk {
		if !inF[l.key] {
			b = append(b, l)
		}
	}
	if len(a) == 0 || len(b) == 0 {
		return fAnd(common...)
	}
	// No entry, or an empty one.
	if len(a) == 1 && a[0].op == '!' && a[0].kids[0].op == 'a' && (a[0].kids[0].rel == "ent:in" || a[0].kids[0].rel == "ent:out") {
		e := a[0].kids[0]
		n := fNot(mkExists(e.args[0], e.rel == "ent:in", e.args[0]))
		if len(b) <= 2 {
			ok := 0
			for _, l := range b {
				if l.key == e.key || l.key == n.key {
					ok++
				}
			}
			if ok == len(b) && (len(b) == 2 || b[0].key == n.key) {
				return fAnd(append(common, n)...)
			}
			if len(b) == 1 && b[0].key == e.key {
				return fAnd(common...)
			}
		}
	}
	// A root, or below one.
	if len(b) == 1 && b[0].op == 'e' && len(a) <= 2 {
		for i, l := range a {
			k, in, ok := noKin(l)
			if !ok {
				continue
			}
			if len(a) == 2 && a[1-i].key != fAtom("V", k).key {
				continue
			}
			r := b[0].args[0]
			reach := fAtom("reach", r, k)
			if !in {
				reach = fAtom("reach", k, r)
			}
			if b[0].kids[0].key == fAnd(reach, fNot(mkExists(r, in, r))).key {
				return fAnd(append(common, fAtom("V", k))...)
			}
		}
	}
	// Alternatives that differ in one place only.
	if len(a) == 1 && len(b) == 1 && a[0].op == 'e' && b[0].op == 'e' {
		if h := join(a[0], b[0]); h != nil {
			return fAnd(append(common, h)...)
		}
	}
	if len(a) == 1 && len(b) == 1 && a[0].key == fNot(b[0]).key {
		return fAnd(common...)
	}
	return nil
}

func fIff(a, b *F) *F { return fOr(fAnd(a, b), fAnd(fNot(a), fNot(b))) }
func fImp(a, b *F) *F { return fOr(fNot(a), b) }

func (f *F) subst(m map[*Term]*Term) *F {
	switch f.op {
	case 'T', 'F':
		return f
	case 'a':
		as := make([]*Term, len(f.args))
		ch := false
		for i, a := range f.args {
			as[i] = a.subst(m)
			ch = ch || as[i] != a
		}
		if !ch {
			return f
		}
		return fAtom(f.rel, as...)
	case '!':
		return fNot(f.kids[0].subst(m))
	case 'e':
		b := f.kids[0].subst(m)
		if b == f.kids[0] {
			return f
		}
		return fExists(f.args[0], b)
	}
	ks := make([]*F, len(f.kids))
	ch := false
	for i, k := range f.kids {
		ks[i] = k.subst(m)
		ch = ch || ks[i] != k
	}
	if !ch {
		return f
	}
	return fNary(f.op, ks)
}

func (f *F) mentions(t *Term) bool {
	switch f.op {
	case 'a':
		for _, a := range f.args {
			if a.contains(t) {
				return true
			}
		}
	case 'e':
		return f.args[0] != t && f.kids[0].mentions(t)
	default:
		for _, k := range f.kids {
			if k.mentions(t) {
				return true
			}
		}
	}
	return false
}

func (f *F) depth() int {
	d := 0
	for _, k := range f.kids {
		if x := k.depth(); x > d {
			d = x
		}
	}
	if f.op == 'e' {
		d++
	}
	return d
}

// dnf splits a formula into conjunctions of literals (nil if too large).
func (f *F) dnf() [][]*F {
	return dnf(f, true)
}

func dnf(f *F, pos bool) [][]*F {
	switch f.op {
	case 'T', 'F':
		if (f.op == 'T') == pos {
			return [][]*F{nil}
		}
		return nil
	case 'a', 'e':
		if pos {
			return [][]*F{{f}}
		}
		return [][]*F{{fNot(f)}}
	case '!':
		return dnf(f.kids[0], !pos)
	}
	if (f.op == '|') == pos {
		var out [][]*F
		for _, k := range f.kids {
			out = append(out, dnf(k, pos)...)
		}
		return out
	}
	out := [][]*F{nil}
	for _, k := range f.kids {
		ds := dnf(k, pos)
		var next [][]*F
		for _, a := range out {
			for _, b := range ds {
				c := fAnd(append(append([]*F(nil), a...), b...)...)
				if c.op == 'F' {
					continue
				}
				if c.op == '&' {
					next = append(next, c.kids)
				} else if c.op == 'T' {
					next = append(next, nil)
				} else {
					next = append(next, []*F{c})
				}
			}
		}
		out = next
		if len(out) > 4000 {
			panic("formula too large")
		}
	}
	return out
}

func boundVar(n int, t *Term) *Term {
	return mk(OSym, fmt.Sprintf("?%d", n), 0, t.Typ)
}

// fExists quantifies v, eliminating it where an equality fixes it.
func fExists(v *Term, body *F) *F {
	var alts []*F
	for _, conj := range body.dnf() {
		var eq *Term
		for _, l := range conj {
			if l.op == 'a' && l.rel == "=" {
				if l.args[0] == v && !l.args[1].contains(v) {
					eq = l.args[1]
				} else if l.args[1] == v && !l.args[0].contains(v) {
					eq = l.args[0]
				}
			}
		}
		if eq != nil {
			alts = append(alts, fAnd(conj...).subst(map[*Term]*Term{v: eq}))
			continue
		}
		var in, out []*F
		for _, l := range conj {
			if l.mentions(v) {
				in = append(in, l)
			} else {
				out = append(out, l)
			}
		}
		if len(in) == 0 {
			alts = append(alts, fAnd(out...))
			continue
		}
		b := fAnd(in...)
		bv := boundVar(b.depth()+1, v)
		if v != bv {
			b = b.subst(map[*Term]*Term{v: bv})
		}
		if b.op == 'F' {
			continue
		}
		ex := &F{op: 'e', kids: []*F{b}, args: []*Term{bv}, key: "E" + bv.Sym + "[" + b.key + "]"}
		alts = append(alts, fAnd(append(out, ex)...))
	}
	return fOr(alts...)
}

func (f *F) String() string {
	switch f.op {
	case 'T':
		return "true"
	case 'F':
		return "false"
	case '!':
		return "!" + f.kids[0].String()
	case 'a':
		var as []string
		for _, a := range f.args {
			as = append(as, a.String())
		}
		if f.rel == "=" {
			return strings.Join(as, "=")
		}
		if f.rel == "term" {
			return "{" + as[0] + "}"
		}
		return f.rel + "(" + strings.Join(as, ",") + ")"
	case 'e':
		return "some " + f.args[0].Sym + ": " + f.kids[0].String()
	}
	var ks []string
	for _, k := range f.kids {
		ks = append(ks, k.String())
	}
	return "(" + strings.Join(ks, map[byte]string{'&': " & ", '|': " | "}[f.op]) + ")"
}

func (f *F) walk(fn func(f *F)) {
	fn(f)
	for _, k := range f.kids {
		k.walk(fn)
	}
}

// ---- entailment ----

var skolems int

// skolem replaces positive quantifiers by fresh IDs.
func skolem(f *F, pos bool) *F {
	switch f.op {
	case '!':
		return fNot(skolem(f.kids[0], !pos))
	case '&', '|':
		ks := make([]*F, len(f.kids))
		for i, k := range f.kids {
			ks[i] = skolem(k, pos)
		}
		return fNary(f.op, ks)
	case 'e':
		if pos {
			skolems++
			w := mk(OSym, fmt.Sprintf("!%d", skolems), 0, f.args[0].Typ)
			return skolem(f.kids[0].subst(map[*Term]*Term{f.args[0]: w}), true)
		}
	}
	return f
}

// keyTerms collects the ID terms a formula speaks about.
func keyTerms(f *F, into map[*Term]bool) {
	switch f.op {
	case 'a':
		if f.rel == "term" {
			return
		}
		for _, a := range f.args {
			if a.Op == OSym && strings.HasPrefix(a.Sym, "?") {
				continue
			}
			into[a] = true
		}
	default:
		for _, k := range f.kids {
			keyTerms(k, into)
		}
	}
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// anyCaches drops the assumption that remembered answers are closed in their
// direction.
var anyCaches bool

// axioms lists instances of the graph's invariants for the given terms.
func axioms(f *F, ts []*Term) []*F {
	used := map[string]bool{}
	exs := map[string]*F{}
	f.walk(func(x *F) {
		if x.op == 'a' {
			used[x.rel] = true
		}
		if x.op == 'e' {
			exs[x.key] = x
		}
	})
	reach := used["reach"]
	var ax []*F
	var keys []string
	for k := range exs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		x := exs[k]
		for _, t := range ts {
			body := x.kids[0].subst(map[*Term]*Term{x.args[0]: t})
			ax = append(ax, fImp(body, x))
			body.walk(func(y *F) {
				if y.op != 'e' || exs[y.key] != nil {
					return
				}
				for _, u := range ts {
					ax = append(ax, fImp(y.kids[0].subst(map[*Term]*Term{y.args[0]: u}), y))
				}
			})
		}
	}
	closedCaches := map[string]bool{}
	for r := range used {
		if strings.HasPrefix(r, "cached:") {
			closedCaches[r] = true
		}
	}
	for _, a := range ts {
		for _, b := range ts {
			if a == b {
				continue
			}
			o := fAtom("out", a, b)
			ax = append(ax, fImp(o, fAnd(fAtom("V", a), fAtom("V", b))))
			ax = append(ax, fImp(o, fAnd(fAtom("ent:out", a), fAtom("ent:in", b))))
			if reach {
				r := fAtom("reach", a, b)
				ax = append(ax, fImp(o, r))
				ax = append(ax, fImp(r, fAnd(fAtom("V", a), fAtom("V", b))))
				ax = append(ax, fImp(r, fAnd(fAtom("ent:out", a), fAtom("ent:in", b))))
				for _, e := range []*F{fExists(boundVar(1, a), fAtom("out", boundVar(1, a), b)), fExists(boundVar(1, a), fAtom("out", a, boundVar(1, a)))} {
					if exs[e.key] != nil {
						ax = append(ax, fImp(r, e))
					}
				}
				ax = append(ax, fOr(fNot(r), fNot(fAtom("reach", b, a))))
				// A vertex is reached directly or through a child.
				c := boundVar(1, a)
				e := fExists(c, fAnd(fAtom("out", a, c), fAtom("reach", c, b)))
				if exs[e.key] != nil {
					ax = append(ax, fIff(r, fOr(o, e)))
				}
				e = fExists(c, fAnd(fAtom("reach", a, c), fAtom("out", c, b)))
				if exs[e.key] != nil {
					ax = append(ax, fIff(r, fOr(o, e)))
				}
				for _, c := range ts {
					if c != a && c != b {
						ax = append(ax, fImp(fAnd(r, fAtom("reach", b, c)), fAtom("reach", a, c)))
					}
				}
			} else {
				ax = append(ax, fOr(fNot(o), fNot(fAtom("out", b, a))))
			}
			// Remembered answers are closed in their direction.
			for r := range closedCaches {
				if anyCaches {
					break
				}
				d := r[strings.LastIndex(r, ":")+1:]
				if d == "out" {
					ax = append(ax, fImp(fAnd(fAtom(r, a), fAtom("reach", a, b)), fAtom(r, b)))
				} else if d == "in" {
					ax = append(ax, fImp(fAnd(fAtom(r, a), fAtom("reach", b, a)), fAtom(r, b)))
				}
			}
		}
	}
	return ax
}

// valid reports whether f holds in every graph that satisfies the invariants.
func valid(f *F) bool { return unsat(fNot(f)) }

func unsat(f *F) bool {
	if debugDag {
		t0 := time.Now()
		n0 := proofWork
		g := f
		defer func() {
			if d := time.Since(t0); d > 300*time.Millisecond {
				fmt.Println("SLOW", d, proofWork-n0, g)
			}
		}()
	}
	f = skolem(f, true)
	ts := map[*Term]bool{}
	keyTerms(f, ts)
	f = ends(f, ts)
	if f.op == 'F' {
		return true
	}
	before := proofWork
	proofEnd = proofWork + proofBudget
	ok := refute([]*F{f}, axioms(f, sortedTerms(ts)), nil)
	if n := proofWork - before; n > longestProof {
		longestProof = n
	}
	return ok
}

// proofBudget bounds the clauses visited in one proof and allProofs those of a
// run; what is not proved by then counts as not holding. The longest proof so
// far is kept beside them.
const (
	proofBudget = 1000000
	allProofs   = 6000000
)

var proofEnd, proofWork, longestProof int

// ends adds, where the formula speaks of vertices without parents (children),
// a root above (a leaf below) every vertex: acyclic graphs have them.
func ends(f *F, ts map[*Term]bool) *F {
	root, leaf := false, false
	f.walk(func(x *F) {
		if x.op != 'e' {
			return
		}
		x.kids[0].walk(func(y *F) {
			if y.op == 'e' && y.kids[0].op == 'a' && y.kids[0].rel == "out" {
				if y.kids[0].args[0] == y.args[0] {
					root = true
				} else {
					leaf = true
				}
			}
		})
	})
	if !root && !leaf {
		return f
	}
	for _, t := range sortedTerms(ts) {
		q := boundVar(1, t)
		if root {
			skolems++
			w := mk(OSym, fmt.Sprintf("!%d", skolems), 0, t.Typ)
			f = fAnd(f, fImp(fAtom("V", t), fAnd(fAtom("V", w), fNot(fExists(q, fAtom("out", q, w))), fOr(fAtom("=", t, w), fAtom("reach", w, t)))))
			ts[w] = true
		}
		if leaf {
			skolems++
			w := mk(OSym, fmt.Sprintf("!%d", skolems), 0, t.Typ)
			f = fAnd(f, fImp(fAtom("V", t), fAnd(fAtom("V", w), fNot(fExists(q, fAtom("out", w, q))), fOr(fAtom("=", t, w), fAtom("reach", t, w)))))
			ts[w] = true
		}
	}
	return f
}

// refute decides whether no assignment satisfies all formulas. lits are the
// literals already settled; equalities that hold are replaced everywhere.
func refute(goal, ax, lits []*F) bool {
	for {
		proofWork += len(goal) + len(ax)
		if proofWork > proofEnd || proofWork > allProofs {
			return false
		}
		units := map[string]bool{}
		var unitList []*F
		var eq *F
		parts := [2][]*F{goal, ax}
		for pi := range parts {
			var next []*F
			work := parts[pi]
			for len(work) > 0 {
				c := work[0]
				work = work[1:]
				switch c.op {
				case 'F':
					return true
				case 'T':
					continue
				case '&':
					work = append(append([]*F(nil), c.kids...), work...)
					continue
				}
				at, v := c, true
				if c.op == '!' {
					at, v = c.kids[0], false
				}
				if at.op != 'a' && at.op != 'e' {
					next = append(next, c)
					continue
				}
				if w, ok := units[at.key]; ok {
					if w != v {
						return true
					}
					continue
				}
				units[at.key] = v
				unitList = append(unitList, c)
				if v && at.op == 'a' && at.rel == "=" {
					eq = at
				}
			}
			parts[pi] = next
		}
		goal, ax = parts[0], parts[1]
		if len(unitList) == 0 {
			break
		}
		each := func(cs []*F, f func(c *F) *F) (out []*F, clash bool) {
			for _, c := range cs {
				if c = f(c); c.op == 'F' {
					return nil, true
				} else if c.op != 'T' {
					out = append(out, c)
				}
			}
			return out, false
		}
		var clash1, clash2 bool
		goal, clash1 = each(goal, func(c *F) *F { return c.assignAll(units) })
		ax, clash2 = each(ax, func(c *F) *F { return c.assignAll(units) })
		if clash1 || clash2 {
			return true
		}
		lits = append(lits[:len(lits):len(lits)], unitList...)
		if eq != nil {
			a, b := eq.args[0], eq.args[1]
			if b.Op == OConst {
				a, b = b, a
			}
			m := map[*Term]*Term{b: a}
			sub := func(c *F) *F { return c.subst(m) }
			goal, clash1 = each(goal, sub)
			var old []*F
			old, clash2 = each(lits, sub)
			if clash1 || clash2 {
				return true
			}
			ax, clash1 = each(ax, sub)
			if clash1 {
				return true
			}
			ax, lits = append(old, ax...), nil
		}
	}
	if len(goal) == 0 && len(ax) == 0 {
		return false
	}
	// The shortest clause is split, those of the question first. The axioms
	// are Horn clauses for the most part: trying false first settles them.
	from := goal
	if len(from) == 0 {
		from = ax
	}
	best := from[0]
	for _, c := range from {
		if len(c.key) < len(best.key) {
			best = c
		}
	}
	at := firstAtom(best)
	if !refute(append([]*F{fNot(at)}, goal...), ax, lits) {
		return false
	}
	return refute(append([]*F{at}, goal...), ax, lits)
}

// assignAll simplifies f under truth values for atoms and quantified formulas.
func (f *F) assignAll(v map[string]bool) *F {
	switch f.op {
	case 'a', 'e':
		if b, ok := v[f.key]; ok {
			return fBool(b)
		}
		return f
	case '!':
		k := f.kids[0].assignAll(v)
		if k == f.kids[0] {
			return f
		}
		return fNot(k)
	case '&', '|':
		ks := make([]*F, len(f.kids))
		ch := false
		for i, k := range f.kids {
			ks[i] = k.assignAll(v)
			ch = ch || ks[i] != k
		}
		if !ch {
			return f
		}
		return fNary(f.op, ks)
	}
	return f
}

func firstAtom(f *F) *F {
	switch f.op {
	case 'a', 'e':
		return f
	}
	for _, k := range f.kids {
		if a := firstAtom(k); a != nil {
			return a
		}
	}
	return nil
}
