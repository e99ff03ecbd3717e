package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
)

// Regular languages. Patterns are compiled to the regexp package's automata;
// questions about them are answered by exploring products of those automata
// over classes of characters, never by running them on sample texts.

// alphabet partitions all characters into classes the patterns cannot tell
// apart, each with a representative.
type alphabet struct{ reps []rune }

func isWordRune(r rune) bool {
	return r == '_' || '0' <= r && r <= '9' || 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z'
}

// newAlphabet builds the partition for some programs; every rune of special
// is a class of its own, and extra predicates are respected.
func newAlphabet(progs []*syntax.Prog, special string) *alphabet {
	cuts := map[rune]bool{0: true}
	cut := func(lo, hi rune) {
		cuts[lo] = true
		if hi < unicode.MaxRune {
			cuts[hi+1] = true
		}
	}
	var insts []*syntax.Inst
	for _, p := range progs {
		for i := range p.Inst {
			in := &p.Inst[i]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				if len(in.Rune) == 1 {
					cut(in.Rune[0], in.Rune[0])
					if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
						for r := unicode.SimpleFold(in.Rune[0]); r != in.Rune[0]; r = unicode.SimpleFold(r) {
							cut(r, r)
						}
					}
				}
				for j := 0; j+1 < len(in.Rune); j += 2 {
					cut(in.Rune[j], in.Rune[j+1])
				}
				insts = append(insts, in)
			case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				cut('\n', '\n')
				insts = append(insts, in)
			}
		}
	}
	cut('0', '9')
	cut('a', 'z')
	cut('A', 'Z')
	cut('_', '_')
	cut('\n', '\n')
	cut(0xD800, 0xDFFF)
	for _, r := range special {
		cut(r, r)
	}
	var starts []rune
	for r := range cuts {
		starts = append(starts, r)
	}
	sort.Slice(starts, func(i, j int) bool { return starts[i] < starts[j] })
	a := &alphabet{}
	seen := map[string]bool{}
	for _, r := range starts {
		if r >= 0xD800 && r <= 0xDFFF {
			continue
		}
		var sb strings.Builder
		for _, in := range insts {
			if in.MatchRune(r) {
				sb.WriteByte('1')
			} else {
				sb.WriteByte('0')
			}
		}
		fmt.Fprintf(&sb, "|%v|%v|", isWordRune(r), r == '\n')
		if strings.ContainsRune(special, r) {
			sb.WriteRune(r)
		}
		// Prefer readable representatives.
		k := sb.String()
		if seen[k] {
			continue
		}
		seen[k] = true
		a.reps = append(a.reps, r)
	}
	for i, r := range a.reps {
		// prefer a printable member of the class in reports
		if r < 32 && r != '\n' && r != '\t' && r != '\r' {
			for _, c := range "~!@;,.: $" {
				if sameClass(insts, r, c) && !strings.ContainsRune(special, c) {
					a.reps[i] = c
					break
				}
			}
		}
	}
	return a
}

func sameClass(insts []*syntax.Inst, a, b rune) bool {
	if isWordRune(a) != isWordRune(b) {
		return false
	}
	for _, in := range insts {
		if in.MatchRune(a) != in.MatchRune(b) {
			return false
		}
	}
	return true
}

func compilePattern(pat string) (*syntax.Prog, *syntax.Regexp, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, nil, err
	}
	p, err := syntax.Compile(re.Simplify())
	return p, re, err
}

// reSet explores the joint behaviour of several patterns, each required to
// match the whole text.
type reSet struct {
	progs []*syntax.Prog
	alpha *alphabet
	noCtx bool // positional assertions always hold (gives larger languages)
	// markers: the two marker characters are only matched by themselves, and
	// not read at all by the patterns in ignore.
	markers bool
	ignore  []bool
}

func newReSet(special string, pats ...string) (*reSet, error) {
	s := &reSet{}
	for _, p := range pats {
		pr, _, err := compilePattern(`\A(?:` + p + `)\z`)
		if err != nil {
			return nil, err
		}
		s.progs = append(s.progs, pr)
	}
	s.alpha = newAlphabet(s.progs, special)
	return s, nil
}

// closure follows the empty transitions of the threads in order.
func closure(p *syntax.Prog, threads []uint32, ctx syntax.EmptyOp, all bool) []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	var add func(pc uint32)
	add = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(in.Out)
			add(in.Arg)
		case syntax.InstEmptyWidth:
			if all || syntax.EmptyOp(in.Arg)&^ctx == 0 {
				add(in.Out)
			}
		case syntax.InstCapture, syntax.InstNop:
			add(in.Out)
		case syntax.InstFail:
		default:
			out = append(out, pc)
		}
	}
	for _, t := range threads {
		add(t)
	}
	return out
}

type reState struct {
	th   [][]uint32
	prev rune
	text string
}

func (s *reState) key() string { return fmt.Sprintf("%v|%d", s.th, prevClass(s.prev)) }

func prevClass(r rune) int {
	switch {
	case r == -1:
		return 0
	case r == '\n':
		return 1
	case isWordRune(r):
		return 2
	}
	return 3
}

// explore visits every reachable combination; visit gets which patterns
// accept the text read so far and returns false to stop.
func (s *reSet) explore(visit func(acc []bool, text string) bool) {
	st := &reState{prev: -1}
	for _, p := range s.progs {
		st.th = append(st.th, []uint32{uint32(p.Start)})
	}
	queue := []*reState{st}
	seen := map[string]bool{st.key(): true}
	for len(queue) > 0 {
		c := queue[0]
		queue = queue[1:]
		acc := make([]bool, len(s.progs))
		for i, p := range s.progs {
			for _, pc := range closure(p, c.th[i], syntax.EmptyOpContext(c.prev, -1), s.noCtx) {
				if p.Inst[pc].Op == syntax.InstMatch {
					acc[i] = true
				}
			}
		}
		if !visit(acc, c.text) {
			return
		}
		for _, r := range s.alpha.reps {
			n := &reState{prev: r, text: c.text + string(r)}
			alive := false
			if s.markers && isMarker(r) {
				n.prev = c.prev
			}
			for i, p := range s.progs {
				var nx []uint32
				dup := map[uint32]bool{}
				if s.markers && isMarker(r) && s.ignore[i] {
					n.th = append(n.th, c.th[i])
					if len(c.th[i]) > 0 {
						alive = true
					}
					continue
				}
				for _, pc := range closure(p, c.th[i], syntax.EmptyOpContext(c.prev, r), s.noCtx) {
					in := &p.Inst[pc]
					if s.markers && isMarker(r) && in.Op != syntax.InstRune1 {
						continue
					}
					if in.Op != syntax.InstMatch && in.MatchRune(r) && !dup[in.Out] {
						dup[in.Out] = true
						nx = append(nx, in.Out)
					}
				}
				sort.Slice(nx, func(a, b int) bool { return nx[a] < nx[b] })
				n.th = append(n.th, nx)
				if len(nx) > 0 {
					alive = true
				}
			}
			if !alive {
				// All dead: nothing accepts from here on, one visit is enough.
				n.prev = -2
			}
			if k := n.key(); !seen[k] {
				seen[k] = true
				queue = append(queue, n)
			}
		}
	}
}

// langFind looks for a text whose acceptance by the patterns satisfies f.
func langFind(f func(acc []bool) bool, pats ...string) (string, bool, error) {
	s, err := newReSet("", pats...)
	if err != nil {
		return "", false, err
	}
	w, found := "", false
	s.explore(func(acc []bool, text string) bool {
		if f(acc) {
			w, found = text, true
			return false
		}
		return true
	})
	return w, found, nil
}

// langWithin decides whether every text of a belongs to b; if not it returns
// a text that does not.
func langWithin(a, b string) (bool, string) {
	w, found, err := langFind(func(acc []bool) bool { return acc[0] && !acc[1] }, a, b)
	if err != nil {
		return false, err.Error()
	}
	return !found, w
}

// langMeets decides whether two patterns share a text.
func langMeets(a, b string) (bool, string) {
	w, found, err := langFind(func(acc []bool) bool { return acc[0] && acc[1] }, a, b)
	if err != nil {
		return true, err.Error()
	}
	return found, w
}

// langTexts lists the texts of a finite language, up to a number.
func langTexts(pat string, max int) ([]string, bool) {
	p, _, err := compilePattern(`\A(?:` + pat + `)\z`)
	if err != nil {
		return nil, false
	}
	// depth-first over simple states; a repeated state on a path that can
	// still accept means the language is infinite.
	type node struct {
		th   []uint32
		prev rune
	}
	alive := func(n node) bool { return len(n.th) > 0 }
	var out []string
	finite := true
	alpha := fullAlphabet([]*syntax.Prog{p})
	var rec func(n node, text string, open map[string]bool)
	canAccept := map[string]bool{}
	var reach func(n node, seen map[string]bool) bool
	step := func(n node, r rune) node {
		var nx []uint32
		dup := map[uint32]bool{}
		for _, pc := range closure(p, n.th, syntax.EmptyOpContext(n.prev, r), true) {
			in := &p.Inst[pc]
			if in.Op != syntax.InstMatch && in.MatchRune(r) && !dup[in.Out] {
				dup[in.Out] = true
				nx = append(nx, in.Out)
			}
		}
		sort.Slice(nx, func(a, b int) bool { return nx[a] < nx[b] })
		return node{nx, r}
	}
	accepts := func(n node) bool {
		for _, pc := range closure(p, n.th, syntax.EmptyOpContext(n.prev, -1), true) {
			if p.Inst[pc].Op == syntax.InstMatch {
				return true
			}
		}
		return false
	}
	key := func(n node) string { return fmt.Sprint(n.th) }
	reach = func(n node, seen map[string]bool) bool {
		if v, ok := canAccept[key(n)]; ok {
			return v
		}
		if accepts(n) {
			canAccept[key(n)] = true
			return true
		}
		if seen[key(n)] {
			return false
		}
		seen[key(n)] = true
		for _, r := range alpha.reps {
			if m := step(n, r); alive(m) && reach(m, seen) {
				canAccept[key(n)] = true
				return true
			}
		}
		return false
	}
	rec = func(n node, text string, open map[string]bool) {
		if !finite || len(out) > max {
			return
		}
		k := key(n)
		if open[k] {
			finite = false
			return
		}
		open[k] = true
		defer delete(open, k)
		if accepts(n) {
			out = append(out, text)
		}
		for _, r := range alpha.reps {
			m := step(n, r)
			if !alive(m) || !reach(m, map[string]bool{}) {
				continue
			}
			if alpha.wide(r) {
				finite = false
				return
			}
			rec(m, text+string(r), open)
		}
	}
	rec(node{[]uint32{uint32(p.Start)}, -1}, "", map[string]bool{})
	if !finite || len(out) > max {
		return nil, false
	}
	sort.Strings(out)
	return out, true
}

// fullAlphabet keeps every ASCII character apart, so that finite languages
// are listed exactly; larger classes are marked by their size.
func fullAlphabet(progs []*syntax.Prog) *alphabet {
	var sb strings.Builder
	for r := rune(0); r < 128; r++ {
		sb.WriteRune(r)
	}
	return newAlphabet(progs, sb.String())
}

// wide reports whether the class of a representative has several members.
func (a *alphabet) wide(r rune) bool { return r >= 128 }

// mustGroups lists, for every capture group, whether it takes part in every
// match.
func mustGroups(re *syntax.Regexp) []bool {
	out := make([]bool, re.MaxCap()+1)
	out[0] = true
	var rec func(re *syntax.Regexp)
	rec = func(re *syntax.Regexp) {
		switch re.Op {
		case syntax.OpCapture:
			out[re.Cap] = true
			rec(re.Sub[0])
		case syntax.OpConcat:
			for _, s := range re.Sub {
				rec(s)
			}
		case syntax.OpPlus:
			rec(re.Sub[0])
		case syntax.OpRepeat:
			if re.Min > 0 {
				rec(re.Sub[0])
			}
		}
	}
	rec(re)
	return out
}
