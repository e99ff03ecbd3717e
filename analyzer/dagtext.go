package main

import (
	"go/token"
	"strings"
)

func init() { checks["D17"] = withDag(checkRender) }

// textLine is one line of the rendering, or all those a loop writes.
type textLine struct {
	binders []*Term
	guard   *F
	parts   []*Term
	lone    bool // written once, outside of any loop
}

// literal returns the fixed text of a part.
func literal(t *Term) (string, bool) {
	return t.strVal()
}

// textLines cuts a rendering into lines. A loop has to write whole lines.
func (p *post) textLines(segs []*Term, binders []*Term, guard *F) (lines []textLine, why string) {
	cur := textLine{binders: binders, guard: guard, lone: len(binders) == 0}
	started := false
	for _, s := range segs {
		if s.Op == OStr {
			return nil, "nested text"
		}
		if s.Op == OEach {
			if started {
				return nil, "a loop goes on with a line begun before it"
			}
			b := s.Args[0]
			if b.Op != OKey {
				return nil, "it goes over something other than the tables of the graph: " + b.String()
			}
			for _, a := range s.Args[1:] {
				gs, pl := altParts(a)
				var g *F
				if y := decide(func() { g = fAnd(guard, p.dom(b), p.conds(gs)) }); y != "" {
					return nil, y
				}
				in, y := p.textLines(flatText(pl), append(binders[:len(binders):len(binders)], b), g)
				if y != "" {
					return nil, y
				}
				lines = append(lines, in...)
			}
			continue
		}
		if l, ok := literal(s); ok {
			for {
				i := strings.IndexByte(l, '\n')
				if i < 0 {
					break
				}
				if i > 0 {
					cur.parts = append(cur.parts, cString(l[:i]))
				}
				lines = append(lines, cur)
				cur.parts, started = nil, false
				l = l[i+1:]
			}
			if l != "" {
				cur.parts, started = append(cur.parts, cString(l)), true
			}
			continue
		}
		cur.parts, started = append(cur.parts, s), true
	}
	if started {
		if len(binders) > 0 {
			return nil, "a loop leaves a line unfinished"
		}
		lines = append(lines, cur)
	}
	return lines, ""
}

// flatText splices concatenations and merges neighbouring fixed texts.
func flatText(segs []*Term) []*Term {
	var out []*Term
	for _, s := range segs {
		in := []*Term{s}
		if s.Op == OStr {
			in = flatText(s.Args)
		}
		for _, x := range in {
			if l, ok := literal(x); ok && len(out) > 0 {
				if m, ok := literal(out[len(out)-1]); ok {
					out[len(out)-1] = cString(m + l)
					continue
				}
			}
			out = append(out, x)
		}
	}
	return out
}

// unjoined writes lists of lines joined by newlines as lines that end in one.
func unjoined(segs []*Term) []*Term {
	var out []*Term
	for i := 0; i < len(segs); i++ {
		s := segs[i]
		if s.Op != OText || s.Sym != "Join" || len(s.Args) != 2 || s.Args[0].Op != OSeq {
			out = append(out, s)
			continue
		}
		if sep, ok := literal(s.Args[1]); !ok || sep != "\n" {
			out = append(out, s)
			continue
		}
		if i+1 < len(segs) {
			l, ok := literal(segs[i+1])
			if !ok || !strings.HasPrefix(l, "\n") {
				out = append(out, s)
				continue
			}
			segs[i+1] = cString(l[1:])
		}
		for _, x := range s.Args[0].Args {
			out = append(out, ended(x))
		}
	}
	return flatText(out)
}

// ended adds a newline to a line, or to every line of a loop.
func ended(x *Term) *Term {
	if x.Op != OEach {
		return mk(OStr, "", 0, nil, x, cString("\n"))
	}
	as := []*Term{x.Args[0]}
	for _, a := range x.Args[1:] {
		gs, pl := altParts(a)
		var ls []*Term
		for _, y := range pl {
			ls = append(ls, ended(y))
		}
		as = append(as, mkAlt(gs, ls))
	}
	return mk(OEach, "", 0, nil, as...)
}

// dynamic returns the parts of a line that are not fixed, and the fixed text
// before, between and after them.
func (l textLine) dynamic() (dyn []*Term, fixed []string) {
	fixed = []string{""}
	for _, x := range l.parts {
		if s, ok := literal(x); ok {
			fixed[len(fixed)-1] += s
			continue
		}
		dyn = append(dyn, x)
		fixed = append(fixed, "")
	}
	return
}

// checkRender (D17).
func checkRender(r *Report, dm *dagModel) {
	r.rule = "The text every path of String returns is cut into lines; the formula `a line is written for x` must be equivalent to `x is a vertex`, `a line is written for x and y` to `there is an edge from x to y`, with the loop variables fixed by what the line shows (so that nothing is written twice), and the counts are those of the tables."
	r.assume = append(append([]string{}, dagAssume...), "fmt prints an ID with %v the same way wherever it prints it")
	s := dm.op(r, "String")
	if s == nil {
		r.ob(false, "render", token.NoPos, "the graph has no String method that can be analysed")
		return
	}
	for _, p := range s.posts {
		if p.o.Panic {
			r.ob(false, "render:panic", p.o.Pos, "String can panic: %s", p.o.Reason)
			continue
		}
		for _, f := range p.o.St.effs {
			r.ob(f.Kind == "fill" || f.Kind == "call", "render:effect", f.Pos, "String changes something: %s", f.Kind)
		}
		p.renders(r, p.o.Results[0])
	}
}

func (p *post) renders(r *Report, t *Term) {
	segs := []*Term{t}
	if t.Op == OStr {
		segs = t.Args
	}
	lines, why := p.textLines(unjoined(flatText(segs)), nil, fTrue)
	r.ob(why == "", "render:lines", p.o.Pos, "the text String returns is not made of whole lines: %s", why)
	if why != "" {
		return
	}
	r.count("lines and loops of lines", len(lines))
	section := ""
	header := 0
	verts, edges := fFalse, fFalse
	for i, l := range lines {
		dyn, fixed := l.dynamic()
		if l.lone {
			switch {
			case len(dyn) == 0 && strings.Contains(fixed[0], "Vertices"):
				r.ob(section == "header", "render:sections", p.o.Pos, "the list of vertices does not follow the counts")
				section = "V"
			case len(dyn) == 0 && strings.Contains(fixed[0], "Edges"):
				r.ob(section == "V", "render:sections", p.o.Pos, "the list of edges does not follow the list of vertices")
				section = "E"
			case len(dyn) == 2 && i == 0:
				header++
				section = "header"
				ok := strings.Contains(fixed[0], "Vertices") && strings.Contains(fixed[1], "Edges")
				r.ob(ok && apart(fixed), "render:header", p.o.Pos, "the first line does not name the counts of vertices and edges in this order")
				r.ob(p.counts(number(dyn[0]), "V"), "render:order", p.o.Pos, "the number of vertices shown is not the number of vertices")
				r.ob(p.countsEdges(number(dyn[1])), "render:size", p.o.Pos, "the number of edges shown is not the number of edges")
			case len(dyn) == 0 && strings.TrimSpace(fixed[0]) == "":
			default:
				r.ob(false, "render:line", p.o.Pos, "String writes a line that is neither the counts, a heading, a vertex nor an edge: %v", l.parts)
			}
			continue
		}
		var keys []*Term
		for _, d := range dyn {
			keys = append(keys, p.key(d))
		}
		r.ob(p.fixedBy(l.binders, keys), "render:once", p.o.Pos, "what a line shows does not determine the round that writes it: it can be written several times")
		switch {
		case section == "V" && len(dyn) == 1:
			r.ob(strings.TrimSpace(fixed[0]+fixed[1]) == "", "render:vertex", p.o.Pos, "the line of a vertex holds something else: %v", l.parts)
			f := fAnd(l.guard, fAtom("=", keys[0], p.X))
			r.ob(unsat(fAnd(p.pcF, verts, p.bound(l, f))), "render:once", p.o.Pos, "a vertex can be listed twice")
			verts = fOr(verts, p.bound(l, f))
		case section == "E" && len(dyn) == 2:
			r.ob(strings.TrimSpace(fixed[0]+fixed[2]) == "" && strings.TrimSpace(fixed[1]) == "->", "render:edge", p.o.Pos, "the line of an edge is not `source -> target`: %v", l.parts)
			f := fAnd(l.guard, fAtom("=", keys[0], p.X), fAtom("=", keys[1], p.Y))
			r.ob(unsat(fAnd(p.pcF, edges, p.bound(l, f))), "render:once", p.o.Pos, "an edge can be listed twice")
			edges = fOr(edges, p.bound(l, f))
		default:
			r.ob(false, "render:line", p.o.Pos, "String writes lines that are neither vertices nor edges in their section: %v", l.parts)
		}
	}
	r.ob(header == 1, "render:header", p.o.Pos, "the text does not begin with the counts of vertices and edges")
	r.ob(section == "E", "render:sections", p.o.Pos, "the text does not have a list of vertices and a list of edges")
	r.ob(p.holds(fIff(verts, fAtom("V", p.X))), "render:vertices", p.o.Pos, "String: %s", p.diff(verts, fAtom("V", p.X), "something that is not a vertex can be listed", "a vertex can be missing"))
	spec := edgeF("out", p.X, p.Y)
	r.ob(p.holds(fIff(edges, spec)), "render:edges", p.o.Pos, "String: %s", p.diff(edges, spec, "an edge that does not exist can be listed, or with its ends swapped", "an edge can be missing"))
}

// apart reports whether the texts around the counts do not touch them with
// digits of their own.
func apart(fixed []string) bool {
	for i, f := range fixed {
		if f == "" {
			if i > 0 && i < len(fixed)-1 {
				return false
			}
			continue
		}
		if i > 0 && strings.IndexByte("0123456789", f[0]) >= 0 || i < len(fixed)-1 && strings.IndexByte("0123456789-+", f[len(f)-1]) >= 0 {
			return false
		}
	}
	return true
}

// number returns the number a part shows.
func number(t *Term) *Term {
	if t.Op == OText && len(t.Args) == 1 && t.Sym == "int" {
		return t.Args[0]
	}
	return t
}

// bound quantifies a formula over the loop variables of a line.
func (p *post) bound(l textLine, f *F) *F {
	for i := len(l.binders) - 1; i >= 0; i-- {
		f = fExists(p.key(l.binders[i]), f)
	}
	return f
}

// fixedBy reports whether each loop variable is one of the keys shown.
func (p *post) fixedBy(binders, keys []*Term) bool {
	for _, b := range binders {
		ok := false
		for _, k := range keys {
			if k == p.key(b) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
