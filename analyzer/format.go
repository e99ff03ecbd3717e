package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Formatting: the summaries of FormattedString, and their texts as sequences
// of literals, captured texts and sub-nodes.

// fmtRun is the summary of formatting one kind of node with one combination of
// fields.
type fmtRun struct {
	nt    *NodeType
	s     Shape
	fn    *ssa.Function
	e     *Engine
	tf    *TreeFacts
	p     *Term
	outs  []Outcome
	und   *Undecided
	calls []fmtCall // nested calls of FormattedString
}

type fmtCall struct {
	recv *Term
	nt   *NodeType
	pos  token.Pos
	zero bool // the receiver can be an absent part
}

func (f *fmtRun) what() string {
	if f.s == nil {
		return "formatting of " + f.nt.Name
	}
	return "formatting of " + f.nt.Name + " {" + f.nt.shapeName(f.s) + "}"
}

// captureFacts records what decoding guarantees about the fields it fills.
func (l *LexModel) captureFacts() {
	for _, t := range l.m.inTree() {
		if !t.Capture || t.nonNil != nil {
			continue
		}
		t.nonNil, t.nonEmpty = map[int]bool{}, map[int]bool{}
		n := t.St.NumFields()
		nn, ne, any := make([]bool, n), make([]bool, n), false
		for i := range nn {
			nn[i], ne[i] = true, true
		}
		r := newReport("", l.m.p)
		for _, in := range l.captureInputs(r, t) {
			run := l.runCapture(t, in)
			if run.und != nil {
				any = false
				nn, ne = make([]bool, n), make([]bool, n)
				break
			}
			for _, o := range run.outs {
				if o.Panic || run.e.eval(o.St, mkEq(o.Results[0], theNil)) == 0 {
					continue
				}
				any = true
				for i := 0; i < n; i++ {
					f := t.St.Field(i)
					if f.Embedded() {
						continue
					}
					v := run.field(o, t, i)
					switch f.Type().Underlying().(type) {
					case *types.Pointer:
						if run.e.eval(o.St, mkEq(v, theNil)) != 0 && v.Op != OObj {
							nn[i] = false
						}
					case *types.Basic:
						if isStringType(f.Type()) && run.e.eval(o.St, mkEq(v, cString(""))) != 0 && !run.w.within(v, `(?s:.+)`) {
							ne[i] = false
						}
					}
				}
			}
		}
		if !any {
			continue
		}
		for i := 0; i < n; i++ {
			switch t.St.Field(i).Type().Underlying().(type) {
			case *types.Pointer:
				t.nonNil[i] = nn[i]
			case *types.Basic:
				t.nonEmpty[i] = isStringType(t.St.Field(i).Type()) && ne[i]
			}
		}
	}
}

// formats analyses formatting of every kind of node a tree can hold.
func (l *LexModel) formats(r *Report) []*fmtRun {
	if l.fmtRuns == nil {
		l.captureFacts()
		for _, nt := range l.m.inTree() {
			if fn := l.m.p.method(nt.Named, "FormattedString"); fn != nil {
				shapes := nt.Shapes
				if nt.Capture {
					shapes = []Shape{nil}
				}
				for _, s := range shapes {
					l.fmtRuns = append(l.fmtRuns, l.formatRun(nt, fn, s))
				}
			}
		}
	}
	has := map[*NodeType]bool{}
	for _, f := range l.fmtRuns {
		has[f.nt] = true
		r.covers(f.e)
		r.count("summaries", 1)
		r.paths += len(f.outs)
	}
	for _, nt := range l.m.inTree() {
		r.ob(has[nt], "formatter:"+nt.Name, nt.Named.Obj().Pos(), "%s has no FormattedString method", nt.Name)
	}
	r.floor("summaries", 140)
	return l.fmtRuns
}

func (l *LexModel) formatRun(nt *NodeType, fn *ssa.Function, s Shape) *fmtRun {
	m := l.m
	f := &fmtRun{nt: nt, s: s, fn: fn, p: m.nodePtr(nt)}
	f.e, f.tf = m.newTree(fn)
	f.e.ordered = true
	inner := f.e.contract
	f.e.contract = func(e *Engine, st *State, g *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool) {
		if len(args) > 0 && g != fn {
			if x := l.indenter(g); x != nil {
				px := x.prefix
				if x.pre >= 0 {
					px = args[x.pre]
				}
				return []Outcome{{St: st, Results: []*Term{text("indent", args[x.arg], px)}}}, true
			}
		}
		return inner(e, st, g, args, pos)
	}
	f.e.onContract = func(st *State, g *ssa.Function, t *NodeType, recv *Term, pos token.Pos) []Outcome {
		if g.Name() == "FormattedString" {
			f.calls = append(f.calls, fmtCall{recv, t, pos, f.tf.isZero(st, recv)})
		}
		return nil
	}
	f.outs, f.und = f.e.runFn(fn, func(st *State) []*Term {
		st.facts.b[mkEq(f.p, theNil)] = false
		if s != nil {
			f.tf.assumeShape(f.e, st, f.p, nt, s)
		}
		return []*Term{recvArg(fn, f.p, nt)}
	})
	return f
}

// ---- text helpers ----

// indentFn is a function that copies its text and inserts a prefix at the
// start of lines.
type indentFn struct {
	arg, pre int
	prefix   *Term
}

// indenter recognises such a function by its summary.
func (l *LexModel) indenter(fn *ssa.Function) *indentFn {
	if r, ok := l.indenters[fn]; ok {
		return r
	}
	if l.indenters == nil {
		l.indenters = map[*ssa.Function]*indentFn{}
	}
	l.indenters[fn] = nil
	sig := fn.Signature
	if sig.Recv() != nil || len(fn.FreeVars) > 0 || fn.Blocks == nil || !l.m.p.inModule(fnPkgPath(fn)) || sig.Results().Len() != 1 || !isStringType(sig.Results().At(0).Type()) || sig.Params().Len() == 0 || sig.Params().Len() > 2 {
		return nil
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !isStringType(sig.Params().At(i).Type()) {
			return nil
		}
	}
	e := l.m.p.engine()
	var ps []*Term
	outs, und := e.runFn(fn, func(st *State) []*Term {
		for i, p := range fn.Params {
			ps = append(ps, mk(OSym, fmt.Sprintf("text%d", i), 0, p.Type()))
		}
		return ps
	})
	if und != nil {
		return nil
	}
	var r *indentFn
	for _, o := range outs {
		if o.Panic || len(o.St.effs) > 0 {
			return nil
		}
		// nothing to do for an empty text
		if s, ok := o.Results[0].strVal(); ok && s == "" {
			empty := false
			for _, p := range ps {
				empty = empty || e.eval(o.St, mkEq(p, cString(""))) == 1
			}
			if empty {
				continue
			}
		}
		x, px, ok := e.indentOf(o.Results[0])
		if !ok {
			return nil
		}
		n := &indentFn{-1, -1, px}
		for i, p := range ps {
			if p == x {
				n.arg = i
			} else if p == px {
				n.pre = i
			}
		}
		if n.arg < 0 || n.pre < 0 && px.Op != OConst || r != nil && *r != *n {
			return nil
		}
		r = n
	}
	l.indenters[fn] = r
	return r
}

// indentOf recognises a text that is x with a prefix inserted at the start of
// some lines, and nothing else changed.
func (e *Engine) indentOf(t *Term) (x, prefix *Term, ok bool) {
	segs := strSegs(t)
	switch {
	case t.Op == OText && t.Sym == "indent":
		return t.Args[0], t.Args[1], true
	case t.Op == OText && t.Sym == "Join" && len(t.Args) == 2 && len(t.Args[0].Args) == 1 && t.Args[0].Args[0].Op == OEach:
		if s, ok := t.Args[1].strVal(); ok && s == "\n" {
			return e.indentLines(t.Args[0].Args[0], "Split")
		}
	case t.Op == OText && t.Sym == "ReplaceAll":
		if a, ok := t.Args[1].strVal(); ok && a == "\n" {
			b := strSegs(t.Args[2])
			if len(b) == 1 {
				if s, ok := b[0].strVal(); ok && strings.HasPrefix(s, "\n") && strings.Trim(s[1:], " \t") == "" {
					return t.Args[0], cString(s[1:]), true
				}
			}
		}
	}
	if len(segs) == 2 && segs[1].Op == OText && segs[1].Sym == "ReplaceAll" {
		if y, p, ok := e.indentOf(segs[1]); ok && p == segs[0] {
			return y, p, true
		}
	}
	if len(segs) != 1 || segs[0].Op != OEach {
		return nil, nil, false
	}
	if x, prefix, ok = e.indentLines(segs[0], "SplitAfter"); ok {
		return x, prefix, ok
	}
	return e.indentBytesOf(segs[0])
}

// indentLines recognises an iteration over the lines of a text, written one
// after the other (SplitAfter) or joined again (Split).
func (e *Engine) indentLines(each *Term, split string) (x, prefix *Term, ok bool) {
	b := each.Args[0]
	if b.Op != OIdx || b.Args[0].Op != OCall || b.Args[0].Sym != "strings."+split && b.Args[0].Sym != split {
		return
	}
	src := b.Args[0]
	if s, ok := src.Args[1].strVal(); !ok || s != "\n" {
		return nil, nil, false
	}
	item := mkLoad(mkIndexAddr(src, b), types.Typ[types.String])
	for _, alt := range each.Args[1:] {
		var parts []*Term
		for _, a := range alt.Args[1].Args {
			parts = append(parts, strSegs(a)...)
		}
		switch {
		case len(parts) == 1 && parts[0] == item:
		case len(parts) == 2 && parts[1] == item && (prefix == nil || prefix == parts[0]) && !parts[0].contains(b):
			prefix = parts[0]
		case len(parts) == 0:
			// an empty line
			empty := false
			for _, g := range alt.Args[0].Args {
				empty = empty || g == mkEq(item, cString(""))
			}
			if !empty {
				return nil, nil, false
			}
		default:
			return nil, nil, false
		}
	}
	if prefix == nil {
		return nil, nil, false
	}
	return src.Args[0], prefix, true
}

// indentBytesOf recognises an iteration over the bytes of a text.
func (e *Engine) indentBytesOf(each *Term) (x, prefix *Term, ok bool) {
	b := each.Args[0]
	if b.Op != OIdx {
		return
	}
	d := b.Args[0]
	for d.Op == OConv {
		d = d.Args[0]
	}
	if !isStringTerm(d) {
		return
	}
	// the copied byte: a conversion of an element of the text at the binder
	elem := func(t, at *Term) bool {
		for t.Op == OConv {
			t = t.Args[0]
		}
		if t.Op == OLoad && t.Args[0].Op == OIndexAddr {
			t = t.Args[0]
		} else if t.Op != OIndexAddr && !(t.Op == OCall && t.Sym == "index") {
			return false
		}
		if len(t.Args) != 2 || t.Args[1] != at {
			return false
		}
		y := t.Args[0]
		for y.Op == OConv {
			y = y.Args[0]
		}
		return y == d
	}
	prev := mkSub(b, cInt(1))
	isByte := func(t *Term) bool { return elem(t, b) }
	type row struct {
		guards []*Term
		pre    bool
		post   bool
	}
	var rows []row
	for _, alt := range each.Args[1:] {
		var parts []*Term
		for _, a := range alt.Args[1].Args {
			parts = append(parts, strSegs(a)...)
		}
		r := row{guards: alt.Args[0].Args}
		n := -1
		for i, p := range parts {
			if isByte(p) {
				if n >= 0 {
					return nil, nil, false
				}
				n = i
			}
		}
		if n < 0 || len(parts) > 2 {
			return nil, nil, false
		}
		for i, p := range parts {
			if i == n {
				continue
			}
			if p.contains(b) || prefix != nil && prefix != p {
				return nil, nil, false
			}
			prefix = p
			r.pre, r.post = i < n, i > n
		}
		rows = append(rows, r)
	}
	if prefix == nil {
		return nil, nil, false
	}
	// atoms: is the byte a line feed; the flag carried along
	var hole *Term
	each.any(func(t *Term) bool {
		if t.Op == OHole && !d.contains(t) {
			if hole != nil && hole != t {
				hole = theNil
			} else {
				hole = t
			}
		}
		return false
	})
	if hole == theNil {
		return nil, nil, false
	}
	// one turn: what the flag says, whether the byte is a line feed, whether
	// it is the first and whether the one before it was a line feed
	type turn struct{ h, lf, first, after bool }
	evalG := func(g *Term, s turn) (bool, bool) {
		neg := false
		for g.Op == ONot {
			g, neg = g.Args[0], !neg
		}
		if g == hole {
			return s.h != neg, true
		}
		switch {
		case g.Op == OBin && g.Sym == "==":
			x, y := g.Args[0], g.Args[1]
			if x.Op == OConst {
				x, y = y, x
			}
			if k, ok := y.intVal(); ok {
				switch {
				case k == '\n' && isByte(x):
					return s.lf != neg, true
				case k == '\n' && elem(x, prev) && !s.first:
					return s.after != neg, true
				case k == 0 && x == b:
					return s.first != neg, true
				}
			}
			if k, ok := y.intVal(); ok && x == hole && k == '\n' && hole != nil {
				return s.h != neg, true
			}
			if x == hole || y == hole {
				if x != hole {
					x, y = y, x
				}
				if v, ok := y.boolVal(); ok {
					return (s.h == v) != neg, true
				}
			}
		case g.Op == OBin && g.Sym == "<":
			if k, ok := g.Args[1].intVal(); ok && k == 1 && g.Args[0] == b {
				return s.first != neg, true
			}
			if k, ok := g.Args[0].intVal(); ok && k == 0 && g.Args[1] == b {
				return s.first == neg, true
			}
		}
		if v, ok := g.boolVal(); ok {
			return v != neg, true
		}
		return false, false
	}
	holds := func(gs []*Term, s turn) (bool, bool) {
		on, known := true, true
		for _, g := range gs {
			v, ok := evalG(g, s)
			if ok && !v {
				return false, true
			}
			on, known = on && v, known && ok
		}
		return on, known
	}
	// What does the flag mean? It starts true and tells whether the byte
	// before was a line feed, or the opposite; or it is the byte before.
	var byteBefore bool
	bol := func(h bool) bool { return h }
	turns := []turn{{first: true}, {first: true, lf: true}, {}, {lf: true}, {after: true}, {after: true, lf: true}}
	if hole != nil {
		def := e.holes[hole]
		if def == nil {
			return nil, nil, false
		}
		k0, isK := def.entry.intVal()
		v0, ok := def.entry.boolVal()
		if !ok && !isK {
			return nil, nil, false
		}
		byteBefore = isK && !ok
		if ok && !v0 {
			bol = func(h bool) bool { return !h }
		}
		for i, s := range turns {
			turns[i].h = bol(s.first && (!byteBefore || k0 == '\n') || s.after)
		}
		for _, s := range turns {
			for _, st := range def.steps {
				on, ok := holds(st.guards, s)
				if !ok {
					return nil, nil, false
				}
				if !on {
					continue
				}
				if k, isK := st.val.intVal(); byteBefore && (isK || isByte(st.val)) {
					if isK && (k == '\n') != s.lf || !isK && st.val == hole {
						return nil, nil, false
					}
					continue
				}
				v, ok := evalG(st.val, s)
				if !ok || bol(v) != s.lf {
					return nil, nil, false
				}
			}
		}
	}
	for _, s := range turns {
		for _, r := range rows {
			on, ok := holds(r.guards, s)
			if !ok {
				return nil, nil, false
			}
			if on && (r.pre && !s.first && !s.after || r.post && !s.lf) {
				return nil, nil, false
			}
		}
	}
	return d, prefix, true
}

// ---- texts as sequences ----

// fItem is one piece of formatted text.
type fItem struct {
	kind    byte   // 'l' literal, 'f' captured text, 'c' formatted sub-node, 'b' truth value, 'p' blanks, '?' not understood
	text    string // literal; otherwise a description
	term    *Term  // 'f','b': the value; 'c': the address of the node
	nt      *NodeType
	indent  []string
	trim    string // taken off the end if present
	altered string // what else is done to the content
}

type flat struct {
	st    *State
	items []fItem
	holes map[*Term]*Term
}

func (f *flat) String() string {
	var sb strings.Builder
	for i, it := range f.items {
		if i > 0 {
			sb.WriteString(" ")
		}
		switch it.kind {
		case 'l':
			fmt.Fprintf(&sb, "%q", it.text)
		case 'c':
			fmt.Fprintf(&sb, "<%s>", it.term)
		case 'p':
			sb.WriteString("blanks")
		default:
			if it.term != nil {
				sb.WriteString(it.term.String())
			} else {
				sb.WriteString(it.text)
			}
		}
		if len(it.indent) > 0 {
			sb.WriteString("~")
		}
		if it.trim != "" {
			fmt.Fprintf(&sb, "-%q", it.trim)
		}
		if it.altered != "" {
			fmt.Fprintf(&sb, "!%s", it.altered)
		}
	}
	return sb.String()
}

func (f *flat) add(it fItem) {
	if it.kind == 'l' {
		if it.text == "" {
			return
		}
		if n := len(f.items); n > 0 {
			if p := &f.items[n-1]; p.kind == 'l' && len(p.indent) == len(it.indent) && p.trim == "" {
				p.text += it.text
				return
			}
		}
	}
	f.items = append(f.items, it)
}

func (f *flat) fork() *flat {
	n := &flat{st: f.st.clone(), items: append([]fItem{}, f.items...)}
	n.holes = map[*Term]*Term{}
	for k, v := range f.holes {
		n.holes[k] = v
	}
	return n
}

type flattener struct {
	l   *LexModel
	run *fmtRun
	n   int // branches
}

const (
	unrollMany = 3
	maxFlats   = 6000
)

// flats lists the texts of one outcome.
func (l *LexModel) flats(f *fmtRun, o Outcome) ([]*flat, error) {
	z := &flattener{l: l, run: f}
	// the values that loops leave behind come first
	e := f.e
	var left []*Term
	seen := map[*Term]bool{}
	var find func(t *Term)
	find = func(t *Term) {
		t.any(func(x *Term) bool {
			if d := e.finals[x]; d != nil && !seen[x] {
				seen[x] = true
				left = append(left, x)
				if h := e.holes[d.hole]; h != nil {
					find(h.entry)
				}
			}
			return false
		})
	}
	find(o.Results[0])
	for t := range o.St.facts.b {
		find(t)
	}
	sort.Slice(left, func(i, j int) bool { return e.finals[left[i]].seq < e.finals[left[j]].seq })
	fs := []*flat{{st: o.St.clone(), holes: map[*Term]*Term{}}}
	for _, h := range left {
		d := e.finals[h]
		if e.holes[d.hole] == nil || d.binder.Op != OIdx {
			continue
		}
		var as []*Term
		for _, g := range d.guards {
			as = append(as, mkAlt(g, nil))
		}
		var next []*flat
		for _, g := range fs {
			out, err := z.each(g, mk(OEach, "", 0, nil, append([]*Term{d.binder}, as...)...), func(f *flat, k int, alt *Term, sub map[*Term]*Term) ([]*flat, error) {
				return []*flat{f}, nil
			}, h)
			if err != nil {
				// left as it is
				out = []*flat{g}
			}
			next = append(next, out...)
		}
		fs = next
	}
	var outs []*flat
	for _, g := range fs {
		t := o.Results[0]
		if len(left) > 0 {
			t = t.subst(g.holes)
			ok := true
			for x, v := range o.St.facts.b {
				if y := x.subst(g.holes); y != x {
					ok = ok && e.assume(g.st, y, v)
				}
			}
			if !ok {
				continue
			}
		}
		out, err := z.expand(g, t)
		if err != nil {
			return nil, err
		}
		for _, x := range out {
			if !l.impossible(f, x.st) {
				outs = append(outs, x)
			}
		}
	}
	return outs, nil
}

// written reports that a text is certainly not empty.
func (l *LexModel) written(f *fmtRun, st *State, t *Term) bool {
	if c, ok := t.strVal(); ok {
		return c != ""
	}
	switch t.Op {
	case OStr:
		for _, a := range t.Args {
			if l.written(f, st, a) {
				return true
			}
		}
	case OEach:
		if lo, _ := f.e.eachDomain(st, t); lo < 1 || len(t.Args) < 2 {
			return false
		}
		for _, a := range t.Args[1:] {
			some := false
			for _, x := range a.Args[1].Args {
				some = some || l.written(f, st, x)
			}
			if !some {
				return false
			}
		}
		return true
	case OLoad, OField:
		if f.e.eval(st, mkEq(t, cString(""))) == 0 {
			return true
		}
		if _, _, ok := f.tf.element(t); ok {
			if p, ok := l.fieldLang(f.tf, t); ok {
				in, _ := langWithin(p, `(?s:.+)`)
				return in
			}
		}
	case OText:
		switch t.Sym {
		case "fmt":
			if t.Args[0] == f.p {
				return false
			}
			nt := f.tf.nodeAt(t.Args[0])
			return nt != nil && l.speaks()[nt]
		case "FormatBool":
			return true
		case "indent":
			return l.written(f, st, t.Args[0])
		case "Join":
			if t.Args[0].Op == OSeq {
				for _, s := range t.Args[0].Args {
					if l.written(f, st, s) {
						return true
					}
				}
			}
		}
	}
	return false
}

// speaks lists the kinds of node that are never formatted as nothing. The
// texts of parts are assumed not to be empty until found otherwise: trees are
// finite.
func (l *LexModel) speaks() map[*NodeType]bool {
	if l.speaking != nil {
		return l.speaking
	}
	l.speaking = map[*NodeType]bool{}
	for _, f := range l.fmtRuns {
		l.speaking[f.nt] = true
	}
	for again := true; again; {
		again = false
		for _, f := range l.fmtRuns {
			if !l.speaking[f.nt] {
				continue
			}
			ok := f.und == nil
			for _, o := range f.outs {
				ok = ok && (o.Panic || len(o.Results) == 1 && l.written(f, o.St, o.Results[0]))
			}
			if !ok {
				l.speaking[f.nt] = false
				again = true
			}
		}
	}
	return l.speaking
}

// impossible reports paths that no captured text leads to.
func (l *LexModel) impossible(f *fmtRun, st *State) bool {
	var w *strWorld
	for t, v := range st.facts.b {
		if t.Op == OBin && t.Sym == "==" && v && isStringTerm(t.Args[0]) {
			a, b := t.Args[0], t.Args[1]
			if c, ok := a.strVal(); ok && c == "" {
				a, b = b, a
			}
			if c, ok := b.strVal(); ok && c == "" && l.written(f, st, a) {
				return true
			}
		}
		x, pat, neg, ok := w.predicate(t)
		if !ok {
			continue
		}
		p, ok := l.fieldLang(f.tf, x)
		if !ok {
			continue
		}
		if empty, known := st.facts.b[mkEq(x, cString(""))]; !known || empty {
			p = "(?:" + p + ")?"
		}
		if v == neg { // outside
			if in, _ := langWithin(p, pat); in {
				return true
			}
		} else if meets, _ := langMeets(p, pat); !meets {
			return true
		}
	}
	return false
}

func (z *flattener) seq(f *flat, ts []*Term) ([]*flat, error) {
	fs := []*flat{f}
	for _, t := range ts {
		var next []*flat
		for _, g := range fs {
			out, err := z.expand(g, t)
			if err != nil {
				return nil, err
			}
			next = append(next, out...)
		}
		fs = next
		if len(fs) > maxFlats {
			return nil, fmt.Errorf("too many different texts")
		}
	}
	return fs, nil
}

// expand appends a text.
func (z *flattener) expand(f *flat, t *Term) ([]*flat, error) {
	e := z.run.e
	if s, ok := t.strVal(); ok {
		f.add(fItem{kind: 'l', text: s})
		return []*flat{f}, nil
	}
	if x, px, ok := e.indentOf(t); ok {
		return z.wrapped(f, x, func(its []fItem) []fItem {
			p, ok := px.strVal()
			for i := range its {
				if !ok || strings.Trim(p, " \t") != "" {
					its[i].altered = fmt.Sprintf("prefixing lines with %s", px)
				}
				its[i].indent = append([]string{p}, its[i].indent...)
			}
			return its
		})
	}
	switch t.Op {
	case OStr:
		return z.seq(f, t.Args)
	case OSpread:
		b := mk(OIdx, "", 0, nil, t.Args[0])
		b.Typ = types.Typ[types.Int]
		return z.expand(f, mk(OEach, "", 0, nil, b, mkAlt(nil, []*Term{mkLoad(mkIndexAddr(t.Args[0], b), types.Typ[types.String])})))
	case OEach:
		if b := t.Args[0]; b.Op == OIdx && b.Args[0].Op == ORange {
			// any number of blanks
			blank := ""
			for _, alt := range t.Args[1:] {
				for _, a := range alt.Args[1].Args {
					s, ok := a.strVal()
					if !ok || strings.Trim(s, " \t") != "" {
						s = "x"
					}
					blank += s
				}
			}
			if blank != "" && !strings.Contains(blank, "x") {
				f.add(fItem{kind: 'p', text: blank[:1]})
				return []*flat{f}, nil
			}
		}
		return z.each(f, t, func(f *flat, k int, alt *Term, sub map[*Term]*Term) ([]*flat, error) {
			var ts []*Term
			for _, a := range alt.Args[1].Args {
				ts = append(ts, a.subst(sub))
			}
			return z.seq(f, ts)
		}, nil)
	case OLoad, OField:
		if e.eval(f.st, mkEq(t, cString(""))) == 1 {
			return []*flat{f}, nil
		}
		f.add(fItem{kind: 'f', term: t})
		return []*flat{f}, nil
	case OText:
		switch t.Sym {
		case "fmt":
			nt := z.run.tf.nodeAt(t.Args[0])
			its := []fItem{{kind: 'c', term: t.Args[0], nt: nt}}
			if s, ok := f.st.endFact(t, true, false); ok {
				// nothing to trim here
				its = z.trimSuffix(its, s)
			}
			for _, it := range its {
				f.add(it)
			}
			return []*flat{f}, nil
		case "FormatBool":
			switch e.eval(f.st, t.Args[0]) {
			case 1:
				return z.expand(f, cString("true"))
			case 0:
				return z.expand(f, cString("false"))
			}
			f.add(fItem{kind: 'b', term: t.Args[0]})
			return []*flat{f}, nil
		case "Repeat":
			if s, ok := t.Args[0].strVal(); ok && s != "" && strings.Trim(s, " \t") == "" {
				f.add(fItem{kind: 'p', text: s})
				return []*flat{f}, nil
			}
		case "Join":
			if t.Args[0].Op == OSeq {
				return z.join(f, t.Args[0].Args, t.Args[1])
			}
		case "TrimSuffix":
			if s, ok := t.Args[1].strVal(); ok {
				return z.wrapped(f, t.Args[0], func(its []fItem) []fItem { return z.trimSuffix(its, s) })
			}
		case "TrimPrefix":
			if s, ok := t.Args[1].strVal(); ok {
				return z.wrapped(f, t.Args[0], func(its []fItem) []fItem { return z.trimPrefix(its, s) })
			}
		case "TrimSpace", "TrimRight", "TrimLeft", "Trim":
			cut := " \t\r\n"
			if t.Sym != "TrimSpace" {
				s, ok := t.Args[1].strVal()
				if !ok || strings.ContainsAny(s, "[]\\^-") {
					break
				}
				cut = s
			}
			return z.wrapped(f, t.Args[0], func(its []fItem) []fItem {
				if t.Sym != "TrimLeft" {
					its = z.trimSet(its, cut, true)
				}
				if t.Sym != "TrimRight" {
					its = z.trimSet(its, cut, false)
				}
				return its
			})
		case "ToLower", "ToUpper", "ReplaceAll", "Replace":
			return z.wrapped(f, t.Args[0], func(its []fItem) []fItem {
				for i := range its {
					if it := &its[i]; it.kind == 'f' && t.Sym == "ReplaceAll" {
						// nothing to replace
						if s, ok := t.Args[1].strVal(); ok && s != "" {
							if p, ok := z.l.fieldLang(z.run.tf, it.term); ok {
								if meets, _ := langMeets(p, search(regexp.QuoteMeta(s))); !meets {
									continue
								}
							}
						}
					}
					its[i].altered = "rewriting it with strings." + t.Sym
				}
				return its
			})
		}
	}
	f.add(fItem{kind: '?', text: t.String()})
	return []*flat{f}, nil
}

// wrapped appends a transformed text.
func (z *flattener) wrapped(f *flat, x *Term, tr func([]fItem) []fItem) ([]*flat, error) {
	before := f.items
	g := &flat{st: f.st, holes: f.holes}
	outs, err := z.expand(g, x)
	if err != nil {
		return nil, err
	}
	for _, o := range outs {
		its := tr(o.items)
		o.items = append([]fItem{}, before...)
		for _, it := range its {
			o.add(it)
		}
	}
	return outs, nil
}

func (z *flattener) trimSuffix(its []fItem, s string) []fItem {
	n := len(its)
	if n == 0 || s == "" {
		return its
	}
	it := &its[n-1]
	switch it.kind {
	case 'l':
		if strings.HasSuffix(it.text, s) {
			it.text = strings.TrimSuffix(it.text, s)
			if it.text == "" {
				its = its[:n-1]
			}
		} else if strings.HasSuffix(s, it.text) {
			it.altered = "cutting text that may straddle it"
		}
	case 'c':
		if it.trim != "" && it.trim != s {
			it.altered = "trimming it twice"
		}
		it.trim = s
	case 'f':
		p, ok := z.l.fieldLang(z.run.tf, it.term)
		if ok {
			if meets, _ := langMeets(p, anyText+regexp.QuoteMeta(s)); !meets {
				return its
			}
		}
		it.altered = fmt.Sprintf("removing a final %q", s)
	case 'b':
	default:
		it.altered = fmt.Sprintf("removing a final %q", s)
	}
	return its
}

func (z *flattener) trimPrefix(its []fItem, s string) []fItem {
	if len(its) == 0 || s == "" {
		return its
	}
	it := &its[0]
	switch it.kind {
	case 'l':
		if strings.HasPrefix(it.text, s) {
			it.text = strings.TrimPrefix(it.text, s)
			if it.text == "" {
				its = its[1:]
			}
		} else if strings.HasPrefix(s, it.text) {
			it.altered = "cutting text that may straddle it"
		}
	case 'f':
		p, ok := z.l.fieldLang(z.run.tf, it.term)
		if ok {
			if meets, _ := langMeets(p, regexp.QuoteMeta(s)+anyText); !meets {
				return its
			}
			if in, _ := langWithin(p, regexp.QuoteMeta(s)+anyText); in {
				it.altered = "without:" + s
				return its
			}
		}
		it.altered = fmt.Sprintf("removing an initial %q", s)
	case 'b':
	default:
		it.altered = fmt.Sprintf("removing an initial %q", s)
	}
	return its
}

func (z *flattener) trimSet(its []fItem, cut string, end bool) []fItem {
	for len(its) > 0 {
		i := 0
		if end {
			i = len(its) - 1
		}
		it := &its[i]
		switch it.kind {
		case 'p':
			if strings.ContainsAny(cut, " ") {
				its = append(its[:i:i], its[i+1:]...)
				continue
			}
			return its
		case 'l':
			if end {
				it.text = strings.TrimRight(it.text, cut)
			} else {
				it.text = strings.TrimLeft(it.text, cut)
			}
			if it.text == "" {
				its = append(its[:i:i], its[i+1:]...)
				continue
			}
		case 'f':
			set := "[" + regexp.QuoteMeta(cut) + "]"
			pat := set + anyText
			if end {
				pat = anyText + set
			}
			if p, ok := z.l.fieldLang(z.run.tf, it.term); ok {
				if meets, _ := langMeets(p, pat); !meets {
					return its
				}
			}
			it.altered = "trimming it"
		case 'c':
			if end && strings.Trim(cut, " \t\r\n") == "" {
				if it.trim == "" {
					it.trim = cut
					return its
				}
			}
			it.altered = "trimming it"
		case 'b':
		default:
			it.altered = "trimming it"
		}
		return its
	}
	return its
}

// join appends list elements with a separator.
func (z *flattener) join(f *flat, segs []*Term, sep *Term) ([]*flat, error) {
	type fs struct {
		f     *flat
		parts [][]fItem
	}
	cur := []fs{{f: f}}
	segs = z.run.e.unrep(f.st, segs)
	add := func(x fs, t *Term) ([]fs, error) {
		g := &flat{st: x.f.st, holes: x.f.holes}
		outs, err := z.expand(g, t)
		if err != nil {
			return nil, err
		}
		var r []fs
		for _, o := range outs {
			its := o.items
			nf := &flat{st: o.st, items: append([]fItem{}, x.f.items...), holes: o.holes}
			r = append(r, fs{nf, append(append([][]fItem{}, x.parts...), its)})
		}
		return r, nil
	}
	for _, s := range segs {
		var next []fs
		for _, x := range cur {
			switch s.Op {
			case OEach, OSpread:
				each := s
				if s.Op == OSpread {
					b := mk(OIdx, "", 0, nil, s.Args[0])
					b.Typ = types.Typ[types.Int]
					each = mk(OEach, "", 0, nil, b, mkAlt(nil, []*Term{mkLoad(mkIndexAddr(s.Args[0], b), types.Typ[types.String])}))
				}
				// carry the parts through the unrolling
				parts := map[*flat][][]fItem{x.f: x.parts}
				outs, err := z.each(x.f, each, func(f *flat, k int, alt *Term, sub map[*Term]*Term) ([]*flat, error) {
					ps := parts[f]
					if k == 0 {
						ps = x.parts
					}
					cs := []fs{{f, ps}}
					for _, a := range alt.Args[1].Args {
						var nx []fs
						for _, c := range cs {
							r, err := add(c, a.subst(sub))
							if err != nil {
								return nil, err
							}
							nx = append(nx, r...)
						}
						cs = nx
					}
					var out []*flat
					for _, c := range cs {
						parts[c.f] = c.parts
						out = append(out, c.f)
					}
					return out, nil
				}, nil, func(from, to *flat) { parts[to] = parts[from] })
				if err != nil {
					return nil, err
				}
				for _, o := range outs {
					ps, ok := parts[o]
					if !ok {
						ps = x.parts
					}
					next = append(next, fs{o, ps})
				}
			case ORep:
				return nil, fmt.Errorf("cannot list the elements of %s", s)
			default:
				r, err := add(x, s)
				if err != nil {
					return nil, err
				}
				next = append(next, r...)
			}
		}
		cur = next
	}
	sepf := &flat{st: f.st, holes: f.holes}
	so, err := z.expand(sepf, sep)
	if err != nil || len(so) != 1 {
		return nil, fmt.Errorf("cannot read the separator %s", sep)
	}
	var out []*flat
	for _, x := range cur {
		for i, p := range x.parts {
			if i > 0 {
				for _, it := range so[0].items {
					x.f.add(it)
				}
			}
			for _, it := range p {
				x.f.add(it)
			}
		}
		out = append(out, x.f)
	}
	return out, nil
}

// count decides how often a domain is iterated, splitting where it is open.
func (z *flattener) count(f *flat, d *Term, then func(f *flat, idx []*Term) error) error {
	e := z.run.e
	if d.Op == ORange {
		// the bounds follow from the length of some list
		var lens []*Term
		d.any(func(t *Term) bool {
			if t.Op == OLen {
				lens = append(lens, t)
			}
			return false
		})
		return z.fix(f, lens, func(f *flat) error {
			al, ah := e.interval(f.st, d.Args[0])
			bl, bh := e.interval(f.st, d.Args[1])
			if al != ah || bl != bh {
				return fmt.Errorf("cannot count the turns of a loop over %s", d)
			}
			var idx []*Term
			for k := al; k < bl; k++ {
				idx = append(idx, cInt(k))
			}
			return then(f, idx)
		})
	}
	x := d
	for x.Op == OConv {
		x = x.Args[0]
	}
	if isStringTerm(x) {
		return fmt.Errorf("a loop over the bytes of %s is not understood", x)
	}
	var lens []*Term
	mkLen(d).any(func(t *Term) bool {
		if t.Op == OLen {
			lens = append(lens, t)
		}
		return false
	})
	return z.fix(f, lens, func(f *flat) error {
		lo, hi := e.interval(f.st, mkLen(d))
		if lo != hi {
			return fmt.Errorf("cannot count the elements of %s", d)
		}
		var idx []*Term
		for k := int64(0); k < lo; k++ {
			idx = append(idx, cInt(k))
		}
		return then(f, idx)
	})
}

// fix chooses the lengths of lists.
func (z *flattener) fix(f *flat, lens []*Term, then func(f *flat) error) error {
	if len(lens) == 0 {
		return then(f)
	}
	e := z.run.e
	lo, hi := e.interval(f.st, lens[0])
	if lo == hi {
		return z.fix(f, lens[1:], then)
	}
	from, to := lo, hi
	most := int64(unrollMany)
	if lo > most {
		most = lo
	}
	if lo >= 2 {
		from = most
	}
	if to > most {
		to = most
	}
	if from > 40 {
		return fmt.Errorf("the text depends on %s exceeding %d", lens[0], from)
	}
	if from > to {
		from = to
	}
	for k := from; k <= to; k++ {
		g := f.fork()
		g.st.setLo(lens[0], k)
		g.st.setHi(lens[0], k)
		if lens[0].Args[0].Op == OLoad && z.run.e.onAssume != nil && !z.run.e.onAssume(g.st, lens[0].Args[0], true) {
			continue
		}
		if err := z.fix(g, lens[1:], then); err != nil {
			return err
		}
	}
	return nil
}

// each unrolls an iteration.
func (z *flattener) each(f *flat, t *Term, body func(f *flat, k int, alt *Term, sub map[*Term]*Term) ([]*flat, error), final *Term, copied ...func(from, to *flat)) ([]*flat, error) {
	e := z.run.e
	b := t.Args[0]
	if b.Op != OIdx {
		f.add(fItem{kind: '?', text: t.String()})
		return []*flat{f}, nil
	}
	var holes []*Term
	seenH := map[*Term]bool{}
	var addHoles func(x *Term)
	addHoles = func(x *Term) {
		x.any(func(y *Term) bool {
			if y.Op == OHole && e.holes[y] != nil && !seenH[y] {
				seenH[y] = true
				holes = append(holes, y)
				for _, s := range e.holes[y].steps {
					addHoles(s.val)
					for _, g := range s.guards {
						addHoles(g)
					}
				}
			}
			return false
		})
	}
	for _, alt := range t.Args[1:] {
		addHoles(alt)
	}
	if final != nil {
		addHoles(e.finals[final].hole)
	}
	var out []*flat
	err := z.count(f, b.Args[0], func(f *flat, idx []*Term) error {
		type cur struct {
			f  *flat
			hv map[*Term]*Term
		}
		hv := map[*Term]*Term{}
		for _, h := range holes {
			hv[h] = e.holes[h].entry.subst(f.holes)
		}
		cs := []cur{{f, hv}}
		for k, ix := range idx {
			var next []cur
			for _, c := range cs {
				sub := map[*Term]*Term{b: ix}
				for h, v := range c.hv {
					sub[h] = v
				}
				for _, alt := range t.Args[1:] {
					g := c.f.fork()
					for _, cp := range copied {
						cp(c.f, g)
					}
					if !z.assumeAll(g.st, alt.Args[0].Args, sub) {
						continue
					}
					// next values of the carried variables
					nv := []map[*Term]*Term{{}}
					sts := []*State{g.st}
					if len(holes) > 0 {
						nv, sts = nil, nil
						steps := e.holes[holes[0]].steps
						for i := range steps {
							s2 := g.st.clone()
							if !z.assumeAll(s2, steps[i].guards, sub) {
								continue
							}
							v := map[*Term]*Term{}
							for _, h := range holes {
								if i < len(e.holes[h].steps) {
									v[h] = e.holes[h].steps[i].val.subst(sub)
								}
							}
							nv = append(nv, v)
							sts = append(sts, s2)
						}
					}
					for i := range nv {
						g2 := g
						if len(nv) > 1 {
							g2 = g.fork()
							for _, cp := range copied {
								cp(g, g2)
							}
						}
						g2.st = sts[i]
						r, err := body(g2, k, alt, sub)
						if err != nil {
							return err
						}
						for _, x := range r {
							next = append(next, cur{x, nv[i]})
						}
					}
				}
			}
			cs = next
			if z.n += len(cs); len(cs) > maxFlats {
				return fmt.Errorf("too many different texts")
			}
		}
		for _, c := range cs {
			if final != nil {
				g := c.f.fork()
				g.holes[final] = c.hv[e.finals[final].hole]
				c.f = g
			}
			out = append(out, c.f)
		}
		return nil
	})
	return out, err
}

func (z *flattener) assumeAll(st *State, gs []*Term, sub map[*Term]*Term) bool {
	for _, g := range gs {
		g = g.subst(sub)
		switch z.run.e.eval(st, g) {
		case 0:
			return false
		case -1:
			if !z.run.e.assume(st, g, true) {
				return false
			}
		}
	}
	return true
}

// ---- what captured texts can be ----

// fieldLang is a pattern for the texts of a captured field or list element.
func (l *LexModel) fieldLang(tf *TreeFacts, t *Term) (string, bool) {
	_, nt, i, ok := tf.nodeField(t)
	if !ok {
		if nt, i, ok = tf.element(t); !ok {
			return "", false
		}
	}
	return l.textOf(nt, i)
}

// textOf is a pattern for the texts captured into a field.
func (l *LexModel) textOf(nt *NodeType, i int) (string, bool) {
	if nt.Capture || nt.Prod == nil {
		return "", false
	}
	k := fmt.Sprintf("%s.%d", nt.Name, i)
	if p, ok := l.langCache[k]; ok {
		return p, p != ""
	}
	if l.langCache == nil {
		l.langCache = map[string]string{}
	}
	var alts []string
	good, plus := true, false
	var rec func(g *GNode, in bool)
	rec = func(g *GNode, in bool) {
		switch g.Kind {
		case GCap:
			if g.Field == i {
				for _, k := range g.Kids {
					rec(k, true)
				}
			}
			return
		case GTok:
			if in {
				p, ok := l.tokenLang(g.Text)
				if !ok {
					good = false
				}
				alts = append(alts, "(?:"+p+")")
			}
			return
		case GLit:
			if in {
				alts = append(alts, regexp.QuoteMeta(g.Text))
			}
			return
		case GRef:
			if in {
				good = false
			}
			return
		case GStar, GPlus:
			if in {
				plus = true
			}
		}
		for _, k := range g.Kids {
			rec(k, in)
		}
	}
	rec(nt.Prod, false)
	// several captures into one text are joined
	if kindOfField(nt.St.Field(i).Type()) == keepText {
		if ws, err := l.m.words(nt, nt.Prod); err == nil {
			for _, w := range ws {
				n := 0
				for _, s := range w {
					if s.field == i {
						n++
					}
				}
				plus = plus || n > 1
			}
		} else {
			plus = true
		}
	}
	if !good || alts == nil {
		l.langCache[k] = ""
		return "", false
	}
	p := "(?:" + strings.Join(alts, "|") + ")"
	if plus {
		p += "+"
	}
	l.langCache[k] = p
	return p, true
}

// spacingField reports a field that holds only line breaks and blanks.
func (l *LexModel) spacingField(nt *NodeType, i int) bool {
	p, ok := l.textOf(nt, i)
	if !ok {
		return false
	}
	in, _ := langWithin(p, `\s*`)
	return in
}

// dumpFlats prints the texts, for debugging.
func (l *LexModel) dumpFlats(r *Report, names []string) {
	for _, f := range l.formats(r) {
		if len(names) > 0 && names[0] != f.nt.Name {
			continue
		}
		fmt.Println("===", f.what())
		if f.und != nil {
			fmt.Println("  undecided:", f.und.Msg, l.m.p.pos(f.und.Pos))
			continue
		}
		for _, c := range f.calls {
			fmt.Println("   call", c.recv, c.nt.Name, c.zero)
		}
		for _, o := range f.outs {
			if o.Panic {
				fmt.Println("  panics")
				continue
			}
			fl, err := l.flats(f, o)
			if err != nil {
				fmt.Println("  error:", err)
			}
			for _, x := range fl {
				fmt.Println("  ", x)
				if len(names) > 1 {
					for t, v := range x.st.facts.b {
						fmt.Println("        ", v, t)
					}
				}
			}
		}
	}
}
