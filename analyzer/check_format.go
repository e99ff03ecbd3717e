package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["E17"] = withLex(checkFormatCrash)
	checks["E18"] = withLex(checkFormatContent)
	checks["E20"] = withLex(checkFormatPure)
}

// ---- E17: formatting completes ----

// moduleCode lists the module's functions reachable from some functions by
// direct calls and function values, and by node methods on interfaces.
func (m *Model) moduleCode(roots ...*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !m.p.inModule(fnPkgPath(f)) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						visit(x)
					case *ssa.MakeClosure:
						visit(x.Fn.(*ssa.Function))
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, t := range m.inTree() {
						if m.isIface(c.Common().Value.Type()) && t.IsNode {
							visit(m.p.method(t.Named, c.Common().Method.Name()))
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return out
}

// below reports whether t is the address of a part of the node at p.
func below(p, t *Term, nt *NodeType) bool {
	n := 0
	for t != p {
		switch t.Op {
		case OFieldAddr:
			if t.Args[0] == p && nt.St.Field(t.N).Embedded() {
				return false
			}
			n++
		case OLoad, OIndexAddr, OField:
		default:
			return false
		}
		t = t.Args[0]
	}
	return n > 0
}

func checkFormatCrash(r *Report, l *LexModel) {
	m := l.m
	r.rule = "FormattedString of every node type is summarised for every combination of fields its production can fill: no path panics, every nested call formats a part strictly below the node (so the calls descend the tree), a part that can be absent is only formatted if its zero value formats without panicking, and every loop in the code it runs is bounded."
	var roots []*ssa.Function
	for _, f := range l.formats(r) {
		roots = append(roots, f.fn)
		if f.und != nil {
			r.undecided(f.what(), f.und)
			continue
		}
		bad := false
		for _, o := range f.outs {
			if o.Panic {
				bad = true
				r.ob(false, "panic:"+f.nt.Name, o.Pos, "%s panics (%s)%s", f.what(), o.Reason, pathText(o))
			}
		}
		for _, c := range f.calls {
			r.count("nested calls", 1)
			if !r.ob(below(f.p, c.recv, f.nt), "descend:"+f.nt.Name, c.pos, "%s formats %s, which is not a part of the node: formatting may not end", f.what(), c.recv) {
				bad = true
			}
			if c.zero {
				if msg := l.zeroPanics(c.nt); msg != "" {
					bad = true
					r.ob(false, "absent:"+f.nt.Name, c.pos, "%s formats %s although it may be absent: %s", f.what(), c.recv, msg)
				}
			}
		}
		if !bad {
			r.ob(true, f.what(), f.fn.Pos(), "")
		}
	}
	for _, f := range m.moduleCode(roots...) {
		r.functions[f.String()] = true
		for _, lp := range findLoops(f) {
			r.count("loops", 1)
			pos := f.Pos()
			for _, x := range lp.header.Instrs {
				if x.Pos().IsValid() {
					pos = x.Pos()
					break
				}
			}
			lp.pure = true // what E20 decides
			r.ob(lp.ends(), "loop:"+fnName(f), pos, "a loop of %s, which runs while formatting, is not bounded by anything that changes on every turn", f)
		}
	}
	r.floor("nested calls", 200)
}

func pathText(o Outcome) string {
	var out []string
	for _, c := range o.St.pc {
		s := c.T.String()
		if !c.V {
			s = "!(" + s + ")"
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return ""
	}
	s := strings.Join(out, " && ")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return " when " + s
}

// zeroPanics tells how formatting the zero value of a node type panics.
func (l *LexModel) zeroPanics(nt *NodeType) string {
	fn := l.m.p.method(nt.Named, "FormattedString")
	if fn == nil || nt.Capture {
		return ""
	}
	f := l.formatRun(nt, fn, nt.zeroShape())
	if f.und != nil {
		return "cannot decide: " + f.und.Msg
	}
	for _, o := range f.outs {
		if o.Panic {
			return fmt.Sprintf("formatting an empty %s panics (%s)", nt.Name, o.Reason)
		}
	}
	return ""
}

// ---- E18: everything is written once, in order ----

// partStep locates t below p: the field of p, the element, the address or
// value of that part, and whether t is that part itself.
func partStep(p, t *Term) (i, k int, part *Term, direct, ok bool) {
	var chain []*Term
	for x := t; x != p; x = x.Args[0] {
		switch x.Op {
		case OLoad, OFieldAddr, OIndexAddr, OField:
		default:
			return 0, 0, nil, false, false
		}
		chain = append(chain, x)
	}
	for a, b := 0, len(chain)-1; a < b; a, b = a+1, b-1 {
		chain[a], chain[b] = chain[b], chain[a]
	}
	if len(chain) == 0 || chain[0].Op != OFieldAddr {
		return 0, 0, nil, false, false
	}
	i, k = chain[0].N, -1
	at := 0
	if len(chain) > 1 && chain[1].Op == OLoad {
		at = 1
		if len(chain) > 2 && chain[2].Op == OIndexAddr {
			v, is := chain[2].Args[1].intVal()
			if !is {
				return 0, 0, nil, false, false
			}
			k = int(v)
			at = 2
			if len(chain) > 3 && chain[3].Op == OLoad {
				at = 3
			}
		}
	}
	return i, k, chain[at], at == len(chain)-1, true
}

// mention is one place in a text where a part of a node is written.
type mention struct {
	field, elem int
	part        *Term
	direct      bool
	items       []int
}

type content struct {
	l   *LexModel
	r   *Report
	run *fmtRun
	fl  *flat
	ok  bool
}

func (c *content) fail(key string, format string, a ...any) {
	c.ok = false
	c.r.ob(false, key, c.run.fn.Pos(), "%s: %s (text: %s)", c.run.what(), fmt.Sprintf(format, a...), c.fl)
}

func checkFormatContent(r *Report, l *LexModel) {
	r.rule = "The text of every node kind and field combination, as a sequence of literals, captured texts and formatted parts on every path, is compared with what parsing stores: each present name, literal, operator, element and sub-node occurs exactly once, not changed on the way (no rewriting, no trimming or indenting that can reach into it), in the order of the production; flags change the text."
	for _, f := range l.formats(r) {
		if f.und != nil {
			r.undecided(f.what(), f.und)
			continue
		}
		texts := map[string]map[bool]map[string]bool{} // flag -> value -> texts
		flagOf := map[string]int{}
		for _, o := range f.outs {
			if o.Panic {
				continue
			}
			fs, err := l.flats(f, o)
			if err != nil {
				r.ob(false, "text:"+f.nt.Name, o.Pos, "cannot read the text written by %s: %v", f.what(), err)
				continue
			}
			for _, fl := range fs {
				r.count("texts", 1)
				c := &content{l: l, r: r, run: f, fl: fl, ok: true}
				idx := make([]int, len(fl.items))
				for i := range idx {
					idx[i] = i
				}
				c.items()
				c.cover(f.p, f.nt, idx)
				for i := 0; i < f.nt.St.NumFields(); i++ {
					if f.nt.Capture && isBoolField(f.nt.St.Field(i).Type()) {
						v := f.e.eval(fl.st, f.tf.fieldLoad(f.p, f.nt, i))
						n := f.nt.St.Field(i).Name()
						if v >= 0 {
							flagOf[n] = i
							if texts[n] == nil {
								texts[n] = map[bool]map[string]bool{true: {}, false: {}}
							}
							texts[n][v == 1][fl.String()] = true
						}
					}
				}
				if c.ok {
					r.ob(true, f.what(), f.fn.Pos(), "")
				}
			}
		}
		var names []string
		for n := range texts {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			for s := range texts[n][true] {
				r.ob(!texts[n][false][s], "drop:"+f.nt.Name+"."+n, f.fn.Pos(), "%s writes the same text whether %s is set or not: %s", f.what(), n, s)
			}
		}
	}
	r.floor("texts", 200)
}

// items checks what is done to the contents.
func (c *content) items() {
	name := c.run.nt.Name
	for i, it := range c.fl.items {
		what := "a part"
		if it.term != nil {
			what = it.term.String()
		}
		switch it.kind {
		case '?':
			c.fail("text:"+name, "writes %s, which is not understood", it.text)
			continue
		case 'l', 'p':
			continue
		}
		if strings.HasPrefix(it.altered, "without:") {
			pre := strings.TrimPrefix(it.altered, "without:")
			if i == 0 || c.fl.items[i-1].kind != 'l' || !strings.HasSuffix(c.fl.items[i-1].text, pre) {
				c.fail("alter:"+name, "writes %s without its initial %q", what, pre)
			}
		} else if it.altered != "" {
			c.fail("alter:"+name, "changes %s by %s", what, it.altered)
		}
		switch it.kind {
		case 'f':
			if len(it.indent) > 0 {
				p, ok := c.l.fieldLang(c.run.tf, it.term)
				if meets, _ := langMeets(p, `(?s:.*)\n(?s:.+)`); !ok || meets {
					if !c.spacingTerm(it.term) {
						c.fail("indent:"+name, "indents %s, changing the lines inside it", what)
					}
				}
			}
		case 'c':
			if len(it.indent) > 0 && it.nt != nil {
				if in := c.l.multiline(it.nt); in != "" {
					c.fail("indent:"+name, "indents %s, which changes the lines inside %s", what, in)
				}
			}
			if it.trim != "" && it.nt != nil {
				if in := c.l.endsIn(it.nt, it.trim, map[*NodeType]bool{}); in != "" {
					c.fail("trim:"+name, "takes %q off the end of %s, which can belong to %s", it.trim, what, in)
				}
			}
		}
	}
}

func (c *content) spacingTerm(t *Term) bool {
	_, nt, i, ok := c.run.tf.nodeField(t)
	return ok && c.l.spacingField(nt, i)
}

// multiline names a captured text below a node that can span lines.
func (l *LexModel) multiline(nt *NodeType) string {
	if s, ok := l.multi[nt]; ok {
		return s
	}
	seen := map[*NodeType]bool{}
	var found []string
	var rec func(t *NodeType)
	rec = func(t *NodeType) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		var g1 func(g *GNode, in bool)
		g1 = func(g *GNode, in bool) {
			switch g.Kind {
			case GRef:
				rec(l.m.of(g.Ref))
			case GCap:
				in = true
			case GTok:
				// also what is not captured: a text between tokens keeps its place
				if p, ok := l.tokenLang(g.Text); in && (!ok || func() bool { b, _ := langMeets(p, `(?s:.*)\n(?s:.*)`); return b }()) && !l.spacing(g.Text) {
					found = append(found, t.Name)
				}
			}
			for _, k := range g.Kids {
				g1(k, in)
			}
		}
		if t.Prod != nil {
			g1(t.Prod, false)
		}
	}
	rec(nt)
	s := ""
	if len(found) > 0 {
		sort.Strings(found)
		var u []string
		for _, f := range found {
			if len(u) == 0 || u[len(u)-1] != f {
				u = append(u, f)
			}
		}
		s = "a " + strings.Join(u, " or ")
	}
	if l.multi == nil {
		l.multi = map[*NodeType]string{}
	}
	l.multi[nt] = s
	return s
}

// endsIn names the content of a node's text that can end in one of the
// characters of cut.
func (l *LexModel) endsIn(nt *NodeType, cut string, seen map[*NodeType]bool) string {
	if seen[nt] {
		return ""
	}
	seen[nt] = true
	for _, f := range l.fmtRuns {
		if f.nt != nt || f.und != nil {
			continue
		}
		for _, o := range f.outs {
			if o.Panic {
				continue
			}
			fs, err := l.flats(f, o)
			if err != nil {
				return nt.Name
			}
			for _, fl := range fs {
				if len(fl.items) == 0 {
					continue
				}
				it := fl.items[len(fl.items)-1]
				switch it.kind {
				case 'f':
					if _, t, i, ok := f.tf.nodeField(it.term); ok && l.spacingField(t, i) {
						continue
					}
					t, i, ok := f.tf.fieldOf(it.term)
					if !ok || t.Capture && l.capturedEnds(f, it.term, cut) || !t.Capture && l.tokensEnd(t, i, cut) {
						return nt.Name
					}
				case 'c':
					if it.nt != nil {
						if s := l.endsIn(it.nt, cut, seen); s != "" {
							return s
						}
					}
				case '?':
					return nt.Name
				}
			}
		}
	}
	return ""
}

// fieldOf is the field a captured text or list element belongs to.
func (tf *TreeFacts) fieldOf(t *Term) (*NodeType, int, bool) {
	if _, nt, i, ok := tf.nodeField(t); ok {
		return nt, i, true
	}
	return tf.element(t)
}

// tokensEnd reports whether a token captured into a field, other than a line
// break, can end in one of the characters of cut.
func (l *LexModel) tokensEnd(nt *NodeType, i int, cut string) bool {
	end := false
	walkG(nt.Prod, func(g *GNode) {
		if g.Kind != GCap || g.Field != i {
			return
		}
		walkG(g, func(k *GNode) {
			switch k.Kind {
			case GTok:
				p, ok := l.tokenLang(k.Text)
				if l.spacing(k.Text) {
					return
				}
				if !ok {
					end = true
				} else if meets, _ := langMeets(p, anyText+"["+reClass(cut)+"]"); meets {
					end = true
				}
			case GRef:
				end = true
			}
		})
	})
	return end
}

func reClass(s string) string {
	var sb strings.Builder
	for _, r := range s {
		fmt.Fprintf(&sb, `\x{%x}`, r)
	}
	return sb.String()
}

// capturedEnds reports whether a decoded field can end in a line break.
func (l *LexModel) capturedEnds(f *fmtRun, t *Term, cut string) bool {
	_, nt, i, ok := f.tf.nodeField(t)
	if !ok || !nt.Capture {
		return true
	}
	r := newReport("", l.m.p)
	for _, in := range l.captureInputs(r, nt) {
		run := l.runCapture(nt, in)
		if run.und != nil {
			return true
		}
		for _, o := range run.outs {
			if o.Panic || run.e.eval(o.St, mkEq(o.Results[0], theNil)) == 0 {
				continue
			}
			v := run.field(o, nt, i)
			if isBoolType(v.Typ) || v.Op == OConst && !strings.ContainsAny(constText(v), cut) {
				continue
			}
			if !run.w.outside(v, anyText+"["+reClass(cut)+"]") {
				return true
			}
		}
	}
	return false
}

func constText(t *Term) string {
	s, _ := t.strVal()
	return s
}

// verbatim reports whether decoding stores the captured text itself.
func (l *LexModel) verbatim(nt *NodeType, i int) bool {
	if !isStringType(nt.St.Field(i).Type()) {
		return false
	}
	k := fmt.Sprintf("%s.%d", nt.Name, i)
	if v, ok := l.verb[k]; ok {
		return v
	}
	r := newReport("", l.m.p)
	ins := l.captureInputs(r, nt)
	res := len(ins) > 0
	for _, in := range ins {
		run := l.runCapture(nt, in)
		if run.und != nil {
			res = false
			break
		}
		all := mkStr(in.vals...)
		for _, o := range run.outs {
			if o.Panic || run.e.eval(o.St, mkEq(o.Results[0], theNil)) == 0 {
				continue
			}
			v := run.field(o, nt, i)
			if in.form == "octal" && v == mkStr(cString("0o"), in.rest) {
				continue // the same number
			}
			if v != all && run.e.eval(o.St, mkEq(v, all)) != 1 {
				res = false
			}
		}
	}
	if l.verb == nil {
		l.verb = map[string]bool{}
	}
	l.verb[k] = res
	return res
}

// cover checks that the items idx write the node at p.
func (c *content) cover(p *Term, nt *NodeType, idx []int) {
	name := nt.Name
	var ms []*mention
	for _, n := range idx {
		it := c.fl.items[n]
		if it.term == nil || it.kind == 'l' || it.kind == 'p' || it.kind == '?' {
			continue
		}
		i, k, part, direct, ok := partStep(p, it.term)
		if !ok {
			c.fail("foreign:"+name, "writes %s, which is not a part of the node", it.term)
			continue
		}
		if nt.St.Field(i).Embedded() {
			c.fail("foreign:"+name, "writes %s, which is not content", it.term)
			continue
		}
		if last := len(ms) - 1; last >= 0 && !direct && !ms[last].direct && ms[last].field == i && ms[last].elem == k {
			ms[last].items = append(ms[last].items, n)
			continue
		}
		ms = append(ms, &mention{i, k, part, direct, []int{n}})
	}
	// parts written piece by piece
	closer := c.closed(nt)
	type key struct{ i, k int }
	seen := map[key]bool{}
	var kept []*mention
	for n, x := range ms {
		if !nt.Capture && c.l.spacingField(nt, x.field) {
			continue
		}
		k := key{x.field, x.elem}
		if seen[k] {
			// the word that ends a construct repeats the one that opened it
			if x.field == closer && n == len(ms)-1 && !x.direct && len(x.items) == 1 {
				continue
			}
			c.fail("twice:"+name+"."+nt.St.Field(x.field).Name(), "writes %s twice", x.part)
			continue
		}
		seen[k] = true
		kept = append(kept, x)
		if !x.direct {
			sub := c.run.tf.nodeAt(x.part)
			if sub == nil {
				c.fail("foreign:"+name, "writes a piece of %s", x.part)
				continue
			}
			c.cover(x.part, sub, x.items)
		}
	}
	// everything present is there
	if nt.Capture {
		for _, x := range kept {
			if x.direct && c.l.verbatim(nt, x.field) {
				return
			}
		}
		for i := 0; i < nt.St.NumFields(); i++ {
			f := nt.St.Field(i)
			if f.Embedded() || seen[key{i, -1}] {
				continue
			}
			if isBoolField(f.Type()) {
				if c.run.e.eval(c.fl.st, c.run.tf.fieldLoad(p, nt, i)) >= 0 {
					continue // compared over all texts
				}
			}
			c.fail("drop:"+name+"."+f.Name(), "leaves out %s", f.Name())
		}
		return
	}
	shapes, ok := c.run.tf.compat(c.fl.st, p, nt)
	if !ok {
		c.fail("text:"+name, "the fields present in %s are not known", p)
		return
	}
	for _, s := range shapes {
		if !c.run.tf.shapeFits(c.run.e, c.fl.st, p, nt, s) {
			continue
		}
		at := append([]*mention{}, kept...)
		for i := 0; i < nt.St.NumFields(); i++ {
			f := nt.St.Field(i)
			if f.Embedded() || s[i] == Absent || c.l.spacingField(nt, i) {
				continue
			}
			fname := name + "." + f.Name()
			v := c.run.tf.fieldLoad(p, nt, i)
			if _, isSlice := f.Type().Underlying().(*types.Slice); isSlice {
				lo, hi := c.run.e.interval(c.fl.st, mkLen(v))
				n := 0
				for k := range seen {
					if k.i == i {
						n++
					}
				}
				if lo != hi && n == 0 {
					c.fail("drop:"+fname, "leaves out %s", f.Name())
					continue
				}
				for k := 0; k < int(lo); k++ {
					if !seen[key{i, k}] {
						c.fail("drop:"+fname, "leaves out element %d of %s", k, f.Name())
					}
				}
				continue
			}
			if seen[key{i, -1}] {
				continue
			}
			// a word that is always the same may be written as a literal
			if n := c.literal(nt, i, v, idx, at); n >= 0 {
				at = append(at, &mention{i, -1, v, true, []int{n}})
				continue
			}
			c.fail("drop:"+fname, "leaves out %s", f.Name())
		}
		c.order(nt, at)
	}
}

// shapeFits reports whether a node can have a shape on the path.
func (tf *TreeFacts) shapeFits(e *Engine, st *State, p *Term, nt *NodeType, s Shape) bool {
	for i := 0; i < nt.St.NumFields(); i++ {
		f := nt.St.Field(i)
		if f.Embedded() {
			continue
		}
		v := tf.fieldLoad(p, nt, i)
		switch f.Type().Underlying().(type) {
		case *types.Slice:
			lo, hi := e.interval(st, mkLen(v))
			switch s[i] {
			case Absent:
				if lo > 0 {
					return false
				}
			case Present:
				if lo > 1 || hi < 1 {
					return false
				}
			default:
				if hi < 2 {
					return false
				}
			}
		case *types.Pointer:
			if x := e.eval(st, mkEq(v, theNil)); x >= 0 && (x == 1) != (s[i] == Absent) {
				return false
			}
		case *types.Basic:
			if isStringType(f.Type()) {
				if x := e.eval(st, mkEq(v, cString(""))); x >= 0 && (x == 1) != (s[i] == Absent) {
					return false
				}
			} else if isBoolType(f.Type()) {
				if x := e.eval(st, v); x >= 0 && (x == 0) != (s[i] == Absent) {
					return false
				}
			}
		}
	}
	return true
}

// closed gives the field captured from the token whose text the production's
// last token repeats.
func (c *content) closed(nt *NodeType) int {
	if nt.Prod == nil {
		return -1
	}
	field, has := -1, false
	first := true
	walkG(nt.Prod, func(g *GNode) {
		if g.Kind == GTok && c.l.closerTok(g.Text) {
			has = true
		}
		if g.Kind == GCap && first {
			first = false
			if g.Kids[0].Kind == GTok {
				field = g.Field
			}
		}
	})
	if !has {
		return -1
	}
	return field
}

// literal finds a literal that spells the only word a field can hold.
func (c *content) literal(nt *NodeType, i int, v *Term, idx []int, at []*mention) int {
	var texts []string
	known := true
	walkG(nt.Prod, func(g *GNode) {
		if g.Kind != GCap || g.Field != i {
			return
		}
		walkG(g, func(k *GNode) {
			switch k.Kind {
			case GLit, GTok:
				ts, ok := c.l.symTexts(k)
				if !ok {
					known = false
				}
				texts = append(texts, ts...)
			case GRef:
				known = false
			}
		})
	})
	if isStringTerm(v) {
		// the path may have compared it
		p, ok := c.l.textOf(nt, i)
		for k, b := range c.fl.st.facts.b {
			if b && k.Op == OBin && k.Sym == "==" && k.Args[0] == v && ok {
				if s, is := k.Args[1].strVal(); is {
					texts, known = []string{s}, true
				}
			}
		}
		_ = p
	}
	sort.Strings(texts)
	var u []string
	for _, t := range texts {
		if len(u) == 0 || u[len(u)-1] != t {
			u = append(u, t)
		}
	}
	if !known || len(u) != 1 {
		return -1
	}
	// the spelling with the captured words around it
	for _, n := range idx {
		if it := c.fl.items[n]; it.kind == 'l' && strings.Contains(it.text, u[0]) {
			try := append(append([]*mention{}, at...), &mention{i, -1, v, true, []int{n}})
			if c.inOrder(nt, try) == "" {
				return n
			}
		}
	}
	return -1
}

// follows lists which fields can be filled after which in one reading.
func (l *LexModel) follows(nt *NodeType) map[[2]int]bool {
	if x, ok := l.after[nt]; ok {
		return x
	}
	out := map[[2]int]bool{}
	ws, err := l.m.words(nt, nt.Prod)
	if err != nil {
		out = nil
	}
	for _, w := range ws {
		for a := range w {
			for b := a + 1; b < len(w); b++ {
				if w[a].field >= 0 && w[b].field >= 0 {
					out[[2]int{w[a].field, w[b].field}] = true
				}
			}
		}
	}
	if l.after == nil {
		l.after = map[*NodeType]map[[2]int]bool{}
	}
	l.after[nt] = out
	return out
}

func (c *content) inOrder(nt *NodeType, ms []*mention) string {
	s := append([]*mention{}, ms...)
	sort.SliceStable(s, func(a, b int) bool { return s[a].items[0] < s[b].items[0] })
	fo := c.l.follows(nt)
	for a := range s {
		for b := a + 1; b < len(s); b++ {
			x, y := s[a], s[b]
			if x.field == y.field {
				if x.elem > y.elem {
					return fmt.Sprintf("writes element %d of %s before element %d", x.elem, nt.St.Field(x.field).Name(), y.elem)
				}
				continue
			}
			if !fo[[2]int{x.field, y.field}] && fo[[2]int{y.field, x.field}] {
				return fmt.Sprintf("writes %s before %s, which comes first in the language", nt.St.Field(x.field).Name(), nt.St.Field(y.field).Name())
			}
		}
	}
	return ""
}

func (c *content) order(nt *NodeType, ms []*mention) {
	if s := c.inOrder(nt, ms); s != "" {
		c.fail("order:"+nt.Name, "%s", s)
	}
}

// ---- E20: formatting depends only on content ----

func checkFormatPure(r *Report, l *LexModel) {
	r.rule = "Every term in the path conditions, results, loop guards and loop-carried values of the FormattedString summaries is built from the node's content fields, the texts of its parts and constants: positions, parent links and other header fields, addresses compared or printed, capacities, map iteration order, results of impure calls and variables that change after initialisation do not occur."
	m := l.m
	for _, f := range l.formats(r) {
		if f.und != nil {
			r.undecided(f.what(), f.und)
			continue
		}
		ok := true
		bad := func(pos token.Pos, what string) {
			ok = false
			r.ob(false, "depends:"+f.nt.Name, pos, "the result of %s depends on %s", f.what(), what)
		}
		seen := map[*Term]bool{}
		var visit func(t *Term, pos token.Pos)
		visit = func(t *Term, pos token.Pos) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			r.count("terms", 1)
			switch t.Op {
			case OFieldAddr:
				if t.Args[0].Typ != nil {
					if pt, isP := t.Args[0].Typ.Underlying().(*types.Pointer); isP {
						if st, isS := pt.Elem().Underlying().(*types.Struct); isS && t.N < st.NumFields() && st.Field(t.N).Embedded() {
							bad(pos, "the header of a node ("+t.String()+")")
						}
					}
				}
			case OField:
				if t.Args[0].Typ != nil {
					if st, isS := t.Args[0].Typ.Underlying().(*types.Struct); isS && t.N < st.NumFields() && st.Field(t.N).Embedded() {
						bad(pos, "the header of a node ("+t.String()+")")
					}
				}
			case OLoad:
				if g := t.Args[0]; g.Op == OGlobal {
					if !m.p.constGlobal(g.Sym) {
						bad(pos, "the variable "+g.Sym+", which is assigned outside its initialisation")
					}
					return
				}
			case OBin:
				if t.Sym == "==" && refLike(t.Args[0]) && refLike(t.Args[1]) && t.Args[0].Op != ONil && t.Args[1].Op != ONil {
					bad(pos, "the identity of nodes ("+t.String()+")")
				}
				if t.Sym != "==" && t.Sym != "!=" && (refLike(t.Args[0]) || refLike(t.Args[1])) {
					bad(pos, "an address ("+t.String()+")")
				}
			case OCap:
				bad(pos, "the capacity of a list ("+t.String()+")")
			case OKey, OIter:
				bad(pos, "the iteration order of a map ("+t.String()+")")
			case OElemOf, OChan:
				bad(pos, "an unspecified element ("+t.String()+")")
			case OCall:
				if t.N > 0 {
					bad(pos, "a call whose result can vary ("+t.String()+")")
				}
			case OSym:
				if t != f.p {
					bad(pos, "something that is not content ("+t.String()+")")
				}
			case OConv:
				if b, isB := t.Typ.Underlying().(*types.Basic); isB && (b.Kind() == types.Uintptr || b.Kind() == types.UnsafePointer) {
					bad(pos, "an address ("+t.String()+")")
				}
			case OText:
				if strings.HasPrefix(t.Sym, "%") || strings.HasPrefix(t.Sym, "Sprint") {
					for _, a := range t.Args {
						a.any(func(x *Term) bool {
							if x.Op == OIface && holdsAddress(x.Typ, map[types.Type]bool{}) {
								bad(pos, "an address printed by "+t.Sym+" ("+x.String()+")")
								return true
							}
							return false
						})
					}
				}
				if t.Sym == "fmt" {
					// another node's text: its receiver is judged by E17
					return
				}
			case OHole:
				if d := f.e.holes[t]; d != nil {
					visit(d.entry, pos)
					for _, s := range d.steps {
						visit(s.val, pos)
						for _, g := range s.guards {
							visit(g, pos)
						}
					}
				}
			}
			for _, a := range t.Args {
				visit(a, pos)
			}
		}
		for _, o := range f.outs {
			pos := o.Pos
			if !pos.IsValid() {
				pos = f.fn.Pos()
			}
			for _, x := range o.St.pc {
				visit(x.T, pos)
			}
			for _, x := range o.Results {
				visit(f.e.deepFrozen(o.St, x), pos)
			}
			for _, x := range o.St.effs {
				if x.Kind == "call" {
					for _, a := range x.Args {
						_ = a
					}
					if x.Ret != nil && seen[x.Ret] {
						bad(x.Pos, "the result of "+x.Name)
					}
				}
			}
		}
		for _, c := range f.calls {
			if !below(f.p, c.recv, f.nt) {
				bad(c.pos, "a node that is not a part of it ("+c.recv.String()+")")
			}
		}
		if ok {
			r.ob(true, f.what(), f.fn.Pos(), "")
		}
	}
	r.floor("terms", 1500)
}

func refLike(t *Term) bool {
	if t.Op == ONil {
		return true
	}
	if t.Typ == nil {
		return false
	}
	switch t.Typ.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Chan, *types.Signature, *types.Map:
		return true
	}
	return false
}

// holdsAddress reports whether printing a value can show an address.
func holdsAddress(t types.Type, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if isBigPtr(t) || hasMethod(t, "Format") {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.Uintptr || u.Kind() == types.UnsafePointer
	case *types.Slice:
		return holdsAddress(u.Elem(), seen)
	case *types.Array:
		return holdsAddress(u.Elem(), seen)
	case *types.Map:
		return holdsAddress(u.Elem(), seen) || holdsAddress(u.Key(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsAddress(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// constGlobal reports a package variable that only its initialisation assigns.
func (p *Prog) constGlobal(name string) bool {
	if p.varGlobals == nil {
		p.varGlobals = map[string]bool{}
		for fn := range p.allFns() {
			if !p.inModule(fnPkgPath(fn)) {
				continue
			}
			isInit := fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#")
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok || isInit {
							continue
						}
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if _, ok := in.(*ssa.FieldAddr); ok {
							continue
						}
						if _, ok := in.(*ssa.IndexAddr); ok {
							continue
						}
						p.varGlobals[g.String()] = true
					}
				}
			}
		}
	}
	return !p.varGlobals[name]
}
