package main

import (
	"fmt"
	"go/token"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugDag = os.Getenv("AN_DAG") != ""

// delta is one primitive change of the graph's tables made on a path,
// possibly once for every value of some bound variables.
type delta struct {
	kind    string // addEdge, delEdge, setRow, delRow, clear, addV, delV, fill, cacheDel, cacheSet
	field   int
	row     *Term // key of the outer map
	col     *Term // key of the inner set
	val     *Term
	binders []*Term
	guard   *F
	top     int
	pos     token.Pos
	fn      *ssa.Function
}

// post is the state of the graph after one outcome, as formulas over the
// state before it. Edges are written source to target in both views.
type post struct {
	*rel
	o       Outcome
	X, Y    *Term
	out, in *F
	V       *F
	vals    []*delta // values stored for vertices
	deltas  []*delta
	cache   map[int]*F
	pcF     *F
	stored  map[int]token.Pos // objects stored in the graph
	alias   []string          // stored sets that are not fresh
	aliasAt token.Pos
}

func (dm *dagModel) sym(name string) *Term {
	t := mk(OSym, "#"+name, 0, dm.d.key)
	if t.Typ == nil {
		t.Typ = dm.d.key
	}
	return t
}

// decide runs f and reports what has no relational reading.
func decide(f func()) (why string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case notDecided:
			why = x.msg
		case string:
			why = x
		default:
			panic(x)
		}
	}()
	f()
	return ""
}

func (dm *dagModel) newPost(e *Engine, o Outcome, dir string) (p *post, why string) {
	p = &post{rel: &rel{dm: dm, e: e, st: o.St, dir: dir}, o: o, X: dm.sym("x"), Y: dm.sym("y"), cache: map[int]*F{}, stored: map[int]token.Pos{}}
	why = decide(func() {
		p.out = fAtom("out", p.X, p.Y)
		p.in = p.out
		p.V = fAtom("V", p.X)
		for f, r := range dm.role {
			if r == "cache" {
				p.cache[f] = fAtom("cached:"+dm.st.Field(f).Name()+":"+p.cacheDir(f), p.X)
			}
		}
		p.pcF = p.pc()
		for i, x := range o.St.effs {
			n := len(p.deltas)
			p.collect(x, i, nil, fTrue)
			p.apply(p.deltas[n:])
		}
		p.stable()
	})
	return
}

func (p *post) collect(x *Effect, top int, binders []*Term, guard *F) {
	dm := p.dm
	add := func(d *delta) {
		d.binders, d.guard, d.top, d.pos, d.fn = binders, guard, top, x.Pos, x.Fn
		p.deltas = append(p.deltas, d)
	}
	switch x.Kind {
	case "each":
		if x.Prefix {
			dm.give("the effects of a loop that is left early (%s)", dm.p.pos(x.Pos))
		}
		if x.Binder.Op == OChan || x.Binder.Op == OWhile {
			for _, a := range x.Alts {
				for _, y := range a.Effs {
					if !isComm(y) {
						dm.give("the effects of the loop at %s", dm.p.pos(x.Pos))
					}
				}
			}
			return
		}
		bs := append(binders[:len(binders):len(binders)], p.key(x.Binder))
		any := false
		for _, a := range x.Alts {
			any = any || len(a.Effs) > 0
		}
		if !any {
			return
		}
		dom := p.dom(x.Binder)
		for _, a := range x.Alts {
			if len(a.Effs) == 0 {
				continue
			}
			g := fAnd(guard, dom)
			for _, c := range a.Guards {
				g = fAnd(g, p.condV(c))
			}
			for _, y := range a.Effs {
				p.collect(y, top, bs, g)
			}
		}
	case "fill":
		add(&delta{kind: "fill", val: mk(OCall, "closure:"+x.Name, 0, nil, x.Args[0])})
	case "mapset", "mapdel":
		m := x.Args[0]
		if f, ok := dm.fieldOfMap(m); ok && dm.role[f] == "other" {
			return // not part of what the graph is taken to be
		} else if ok {
			d := &delta{field: f, row: p.key(x.Args[1])}
			if x.Kind == "mapset" {
				d.val = x.Args[2]
			}
			switch dm.role[f] {
			case "V":
				d.kind = "delV"
				if d.val != nil {
					d.kind = "addV"
				}
			case "cache":
				d.kind = "cacheDel"
				if d.val != nil {
					d.kind = "cacheSet"
					p.keep(d.val, x.Pos)
				}
			default:
				d.kind = "delRow"
				if d.val != nil {
					d.kind = "setRow"
					p.keep(d.val, x.Pos)
				}
			}
			add(d)
			return
		}
		if m.Op == OLookup {
			if f, ok := dm.fieldOfMap(m.Args[0]); ok && (dm.role[f] == "out" || dm.role[f] == "in") {
				d := &delta{kind: "delEdge", field: f, row: p.key(m.Args[1]), col: p.key(x.Args[1])}
				if x.Kind == "mapset" {
					d.kind = "addEdge"
					if p.key(x.Args[2]) != d.col {
						dm.give("an edge set holds %s under %s (%s)", x.Args[2], x.Args[1], dm.p.pos(x.Pos))
					}
				}
				add(d)
				return
			} else if ok && dm.role[f] == "cache" {
				dm.give("a remembered answer is modified at %s", dm.p.pos(x.Pos))
			}
		}
		if m.Op == OCall && strings.HasPrefix(m.Sym, "closure:") {
			dm.give("a remembered answer is modified at %s", dm.p.pos(x.Pos))
		}
		if m.Op == OSym {
			return // a set handed in by the caller
		}
		dm.give("a write to %s at %s", m, dm.p.pos(x.Pos))
	case "clear":
		m := x.Args[0]
		if f, ok := dm.fieldOfMap(m); ok {
			if dm.role[f] != "other" {
				add(&delta{kind: "clear", field: f})
			}
			return
		}
		if m.Op == OLookup {
			if f, ok := dm.fieldOfMap(m.Args[0]); ok && (dm.role[f] == "out" || dm.role[f] == "in") {
				add(&delta{kind: "clearRow", field: f, row: p.key(m.Args[1])})
				return
			}
		}
		dm.give("clear(%s) at %s", m, dm.p.pos(x.Pos))
	case "store":
		a := x.Args[0]
		if a.Op == OFieldAddr && a.Args[0] == dm.g {
			if dm.role[a.N] == "other" {
				return
			}
			add(&delta{kind: "replace", field: a.N, val: x.Args[1]})
			if x.Args[1].Op == OObj {
				p.keep(x.Args[1], x.Pos)
			} else {
				p.alias = append(p.alias, "a map that is not new")
				p.aliasAt = x.Pos
			}
			return
		}
		dm.give("a store to %s at %s", a, dm.p.pos(x.Pos))
	default:
		if isComm(x) {
			return
		}
		dm.give("the effect %s at %s", x.Kind, dm.p.pos(x.Pos))
	}
}

func isComm(x *Effect) bool {
	switch x.Kind {
	case "send", "recv", "close", "select", "go", "lock":
		return true
	case "call":
		return true
	}
	return false
}

// keep notes that a set or map becomes part of the graph.
func (p *post) keep(v *Term, pos token.Pos) {
	if v.Op == ONil {
		return
	}
	if v.Op != OObj {
		p.alias = append(p.alias, fmt.Sprintf("the shared set %s", v))
		p.aliasAt = pos
		return
	}
	o := p.st.heap[v.N]
	if _, dup := p.stored[v.N]; dup {
		p.alias = append(p.alias, "one set stored in two places")
		p.aliasAt = pos
	}
	p.stored[v.N] = pos
	if o != nil && o.val != nil {
		o.val.any(func(x *Term) bool {
			if x.Op == OObj && x != v {
				if _, dup := p.stored[x.N]; dup {
					p.alias = append(p.alias, "one set stored in two places")
					p.aliasAt = pos
				}
				p.stored[x.N] = pos
			}
			return false
		})
	}
}

func (r *rel) condV(c Cond) *F {
	f := r.cond(c.T)
	if !c.V {
		return fNot(f)
	}
	return f
}

// some closes a formula over the bound variables of a delta.
func (p *post) some(d *delta, f *F) *F {
	f = fAnd(d.guard, f)
	for i := len(d.binders) - 1; i >= 0; i-- {
		f = fExists(d.binders[i], f)
	}
	return f
}

// edge gives the edge a delta of a view speaks about, source first.
func (p *post) ends(f int) (row, col *Term) {
	if p.dm.role[f] == "in" {
		return p.Y, p.X
	}
	return p.X, p.Y
}

// apply updates the relations for the deltas of one top-level effect.
func (p *post) apply(ds []*delta) {
	dm := p.dm
	type ch struct{ add, del *F }
	view := map[string]*ch{"out": {fFalse, fFalse}, "in": {fFalse, fFalse}, "V": {fFalse, fFalse}}
	cch := map[int]*ch{}
	for f := range p.cache {
		cch[f] = &ch{fFalse, fFalse}
	}
	nest := 0
	for _, d := range ds {
		if len(d.binders) > nest {
			nest = len(d.binders)
		}
		role := dm.role[d.field]
		row, col := p.ends(d.field)
		at := func() *F { return fAnd(fAtom("=", d.row, row), fAtom("=", d.col, col)) }
		switch d.kind {
		case "addEdge":
			view[role].add = fOr(view[role].add, p.some(d, at()))
		case "delEdge":
			view[role].del = fOr(view[role].del, p.some(d, at()))
		case "delRow", "clearRow":
			view[role].del = fOr(view[role].del, p.some(d, fAtom("=", d.row, row)))
		case "setRow":
			view[role].del = fOr(view[role].del, p.some(d, fAtom("=", d.row, row)))
			view[role].add = fOr(view[role].add, p.some(d, fAnd(fAtom("=", d.row, row), p.member(d.val, col))))
			if len(d.binders) > 0 {
				dm.give("edge sets replaced in a loop (%s)", dm.p.pos(d.pos))
			}
		case "clear":
			if role == "cache" {
				cch[d.field].del = fTrue
			} else {
				view[role].del = fTrue
			}
			if role == "V" {
				view["V"].del = fTrue
			}
		case "replace":
			if role == "cache" {
				cch[d.field].del = fTrue
				cch[d.field].add = fOr(cch[d.field].add, p.entriesOf(d.val, p.X))
				break
			}
			if role == "V" {
				view["V"].del = fTrue
				view["V"].add = fOr(view["V"].add, p.entriesOf(d.val, p.X))
				p.vals = append(p.vals, d)
				break
			}
			o := p.st.heap[d.val.N]
			if d.val.Op == OObj && o.val.Op == OMap && len(o.val.Args) == 0 {
				view[role].del = fTrue
			} else {
				dm.give("the edges are replaced at %s", dm.p.pos(d.pos))
			}
		case "addV":
			view["V"].add = fOr(view["V"].add, p.some(d, fAtom("=", d.row, p.X)))
			p.vals = append(p.vals, d)
		case "delV":
			view["V"].del = fOr(view["V"].del, p.some(d, fAtom("=", d.row, p.X)))
		case "cacheDel":
			cch[d.field].del = fOr(cch[d.field].del, p.some(d, fAtom("=", d.row, p.X)))
		case "cacheSet":
			cch[d.field].add = fOr(cch[d.field].add, p.some(d, fAtom("=", d.row, p.X)))
		case "fill":
			c := dm.clos[strings.TrimPrefix(d.val.Sym, "closure:")]
			for _, f := range c.caches {
				cch[f].add = fOr(cch[f].add, p.some(d, p.filled(d.val, p.X, f)))
			}
		}
	}
	if nest > 0 {
		for _, c := range view {
			if c.add.op != 'F' && c.del.op != 'F' {
				dm.give("a loop that both adds and removes edges")
			}
		}
		for _, c := range cch {
			if c.add.op != 'F' && c.del.op != 'F' {
				dm.give("a loop that both remembers and discards answers")
			}
		}
	}
	upd := func(f *F, c *ch) *F { return fOr(fAnd(f, fNot(c.del)), c.add) }
	p.out = upd(p.out, view["out"])
	p.in = upd(p.in, view["in"])
	p.V = upd(p.V, view["V"])
	for f := range p.cache {
		p.cache[f] = upd(p.cache[f], cch[f])
	}
}

// entriesOf is membership of k among the keys of an outer map value.
func (p *post) entriesOf(m, k *Term) *F {
	if m.Op == OObj {
		o := p.st.heap[m.N]
		if o.val.Op == OMap {
			return p.entries(o.val.Args, k)
		}
		return fFalse
	}
	if m.Op == OMap {
		return p.entries(m.Args, k)
	}
	return p.member(m, k)
}

// read is a place where the edge set of a vertex is looked at.
type read struct {
	field int
	row   *Term
	term  *Term
	top   int
	guard *F
	bs    []*Term
}

// stable checks that every edge set read was still as it was before the
// call, so that the formulas built from what was read are right.
func (p *post) stable() {
	dm := p.dm
	mods := false
	for _, d := range p.deltas {
		switch d.kind {
		case "addEdge", "delEdge", "clearRow":
			mods = true
		}
	}
	if !mods {
		return
	}
	var reads []read
	seen := map[string]bool{}
	scan := func(t *Term, top int, g *F, bs []*Term) {
		t.any(func(x *Term) bool {
			if x.Op == OLookup && x.Args[0].Op == OLoad {
				if f, ok := dm.fieldOfMap(x.Args[0]); ok && (dm.role[f] == "out" || dm.role[f] == "in") {
					k := fmt.Sprint(x.id, top, g.key)
					if !seen[k] {
						seen[k] = true
						reads = append(reads, read{f, p.key(x.Args[1]), x, top, g, bs})
					}
				}
			}
			return false
		})
	}
	var walk func(x *Effect, top int, g *F, bs []*Term)
	walk = func(x *Effect, top int, g *F, bs []*Term) {
		for _, a := range x.Args {
			if a.Op == OLookup && (x.Kind == "mapset" || x.Kind == "mapdel" || x.Kind == "clear") {
				scan(a.Args[1], top, g, bs)
				continue
			}
			scan(a, top, g, bs)
			if a.Op == OObj && p.st.heap[a.N] != nil {
				scan(p.st.heap[a.N].val, top, g, bs)
			}
		}
		if x.Kind == "each" {
			scan(x.Binder, top, g, bs)
			if x.Binder.Op != OKey {
				return
			}
			bs2 := append(bs[:len(bs):len(bs)], p.key(x.Binder))
			for _, a := range x.Alts {
				g2 := fAnd(g, p.dom(x.Binder))
				for _, c := range a.Guards {
					scan(c.T, top, g2, bs2)
					g2 = fAnd(g2, p.condV(c))
				}
				for _, y := range a.Effs {
					walk(y, top, g2, bs2)
				}
			}
		}
	}
	for i, x := range p.st.effs {
		walk(x, i, fTrue, nil)
	}
	for _, c := range p.st.pc {
		at, ok := p.st.pcAt[c.T]
		if c.T.Op == OExists || c.T.Op == OForall || !ok {
			// The guards of a loop: it is positioned with the loop's effects.
			pos := -1
			for i, x := range p.st.effs {
				if x.Kind == "each" && x.Binder == c.T.Args[0] {
					pos = i
				}
			}
			if pos >= 0 {
				continue
			}
			at = len(p.st.effs)
		}
		scan(c.T, at-1, fTrue, nil)
	}
	for _, rs := range p.o.Results {
		scan(rs, len(p.st.effs), fTrue, nil)
		if rs.Op == OObj && p.st.heap[rs.N] != nil {
			scan(p.st.heap[rs.N].val, len(p.st.effs), fTrue, nil)
		}
	}
	for _, rd := range reads {
		for _, d := range p.deltas {
			if d.field != rd.field || d.top > rd.top || d.top == rd.top && len(d.binders) == 0 {
				continue
			}
			if d.kind != "addEdge" && d.kind != "delEdge" && d.kind != "clearRow" {
				continue
			}
			col := d.col
			if d.kind == "clearRow" {
				col = p.Y
			}
			eff := edgeF(dm.role[d.field], d.row, col)
			if d.kind == "addEdge" {
				eff = fNot(eff)
			}
			f := fAnd(d.guard, eff)
			same := rd.term.Args[1] != nil && d.row == rd.row
			row := d.row
			// another iteration: rename its bound variables
			neq := fFalse
			row2 := row
			for i := len(d.binders) - 1; i >= 0; i-- {
				b := d.binders[i]
				dm.holes++
				nb := dm.sym(fmt.Sprintf("i%d", dm.holes))
				m := map[*Term]*Term{b: nb}
				f = f.subst(m)
				if row2 == b {
					row2 = nb
				} else {
					row2 = row2.subst(m)
				}
				for _, rb := range rd.bs {
					if rb == b && d.row.contains(b) {
						neq = fOr(neq, fNot(fAtom("=", nb, b)))
					}
				}
			}
			f = fAnd(f, fAtom("=", row2, rd.row), rd.guard, p.pcF)
			if same {
				if len(d.binders) == 0 {
					continue // followed exactly by the engine
				}
				if d.top == rd.top {
					f = fAnd(f, neq)
				}
			}
			if !unsat(f) {
				dm.give("the edge set %s may have been changed at %s before it is read", rd.term, dm.p.pos(d.pos))
			}
		}
	}
}

// holds reports whether f follows from the path's conditions.
func (p *post) holds(f *F) bool { return valid(fImp(p.pcF, f)) }

func (p *post) feasible() bool { return !unsat(p.pcF) }

// isClosure decides whether the successful outcomes return exactly the
// vertices reachable in direction dir.
func (dm *dagModel) isClosure(c *closureFn, succ []Outcome, dir string) string {
	v := c.param
	dirs := map[int]string{}
	var ps []*post
	fills, own := true, true
	why := decide(func() {
		for _, o := range succ {
			p, why := dm.newPost(c.eng, o, dir)
			if why != "" {
				dm.give("%s", why)
			}
			if !p.feasible() {
				continue
			}
			ps = append(ps, p)
			if len(p.alias) > 0 && p.alias[0] != "" {
				dm.give("it stores %s", p.alias[0])
			}
			if !p.holds(fIff(p.member(o.Results[c.setIdx], p.X), reachF(dir, v, p.X))) {
				if debugDag {
					fmt.Println("PC", p.pcF, "MEM", p.member(o.Results[c.setIdx], p.X), "SPEC", reachF(dir, v, p.X))
				}
				dm.give("the set returned at %s is not the %s of the vertex", dm.p.pos(o.Pos), map[string]string{"out": "descendants", "in": "ancestors"}[dir])
			}
			for _, d := range p.deltas {
				switch d.kind {
				case "fill":
					own = false
					a := p.key(d.val.Args[0])
					if strings.TrimPrefix(d.val.Sym, "closure:") == c.key && !p.holds(fImp(d.guard, edgeF(dir, v, a))) {
						dm.give("the recursion at %s need not go to a neighbour", dm.p.pos(d.pos))
					}
					for _, x := range c.errs {
						ex := &rel{dm: dm, e: c.eng, st: x.St, dir: dir}
						if !p.holds(fImp(d.guard, fNot(ex.pc().subst(map[*Term]*Term{v: a})))) {
							dm.give("the recursion at %s can fail", dm.p.pos(d.pos))
						}
					}
				case "cacheSet":
					if d.row != v || !p.holds(fImp(d.guard, fIff(p.member(d.val, p.Y), reachF(dir, v, p.Y)))) {
						dm.give("the answer remembered at %s is not that of the vertex", dm.p.pos(d.pos))
					}
					dirs[d.field] = dir
				default:
					dm.give("it changes the graph at %s", dm.p.pos(d.pos))
				}
			}
			for _, f := range c.caches {
				if !p.holds(fImp(fOr(fAtom("=", v, p.X), reachF(dir, v, p.X)), p.cache[f])) {
					fills = false
				}
				if !p.holds(fImp(fAtom("=", v, p.X), p.cache[f])) {
					own = false
				}
			}
		}
		if len(ps) == 0 {
			dm.give("no feasible outcome")
		}
	})
	if why != "" {
		return why
	}
	for f, d := range dirs {
		if x := dm.cacheDir[f]; x != "" && x != d {
			return fmt.Sprintf("the table %s remembers both ancestors and descendants", dm.st.Field(f).Name())
		}
	}
	for f, d := range dirs {
		dm.cacheDir[f] = d
	}
	c.fills = fills && len(c.caches) > 0
	c.own = own && len(c.caches) > 0
	return ""
}
