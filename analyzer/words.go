package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Words of productions: every production is a regular expression over tokens
// and other productions; its words are listed with each repetition taken up to
// twice, which covers every pair of neighbours and every order.

// gSym is one symbol of a word.
type gSym struct {
	g     *GNode // GLit, GTok, GRef or GNeg
	field int    // capturing field, -1 if none
}

type gWord []gSym

const maxWords = 60000

// words lists the words of a production. simple drops repetitions of
// uncaptured line breaks.
func (m *Model) words(t *NodeType, prod *GNode) ([]gWord, error) {
	over := false
	var rec func(g *GNode, field int) []gWord
	cross := func(a, b []gWord) []gWord {
		var out []gWord
		for _, x := range a {
			for _, y := range b {
				if len(out) > maxWords {
					over = true
					return out
				}
				out = append(out, append(append(gWord{}, x...), y...))
			}
		}
		return out
	}
	rec = func(g *GNode, field int) []gWord {
		if over {
			return nil
		}
		switch g.Kind {
		case GSeq:
			out := []gWord{{}}
			for _, k := range g.Kids {
				out = cross(out, rec(k, field))
			}
			return out
		case GAlt:
			var out []gWord
			for _, k := range g.Kids {
				out = append(out, rec(k, field)...)
			}
			return out
		case GOpt:
			return append([]gWord{{}}, rec(g.Kids[0], field)...)
		case GStar, GPlus:
			one := rec(g.Kids[0], field)
			var out []gWord
			if g.Kind == GStar {
				out = append(out, gWord{})
			}
			if field < 0 && g.Kids[0].Kind == GTok {
				return append(out, one...)
			}
			out = append(out, one...)
			return append(out, cross(one, one)...)
		case GOnce:
			return rec(g.Kids[0], field)
		case GNonEmpty:
			var out []gWord
			for _, w := range rec(g.Kids[0], field) {
				if len(w) > 0 {
					out = append(out, w)
				}
			}
			return out
		case GCap:
			return rec(g.Kids[0], g.Field)
		case GLook:
			return []gWord{{}}
		}
		return []gWord{{gSym{g, field}}}
	}
	out := rec(prod, -1)
	if over {
		return nil, fmt.Errorf("the production of %s has too many words", t.Name)
	}
	return dedupWords(out), nil
}

func (s gSym) key() string { return fmt.Sprintf("%d:%s", s.field, s.g) }

func (w gWord) key() string {
	var out []string
	for _, s := range w {
		out = append(out, s.key())
	}
	return strings.Join(out, " ")
}

func (w gWord) String() string {
	var out []string
	for _, s := range w {
		out = append(out, s.g.String())
	}
	if out == nil {
		return "nothing"
	}
	return strings.Join(out, " ")
}

func dedupWords(ws []gWord) []gWord {
	seen := map[string]bool{}
	var out []gWord
	for _, w := range ws {
		if k := w.key(); !seen[k] {
			seen[k] = true
			out = append(out, w)
		}
	}
	return out
}

// symTexts lists the texts of a symbol when they are few and fixed.
func (l *LexModel) symTexts(g *GNode) ([]string, bool) {
	switch g.Kind {
	case GLit:
		return []string{g.Text}, true
	case GTok:
		p, ok := l.tokenLang(g.Text)
		if !ok {
			return nil, false
		}
		if k, ok := l.textCache[g.Text]; ok {
			return k, k != nil
		}
		ts, fin := langTexts(p, 4)
		if !fin {
			ts = nil
		}
		if l.textCache == nil {
			l.textCache = map[string][]string{}
		}
		l.textCache[g.Text] = ts
		return ts, fin
	}
	return nil, false
}

// one is the single text of a symbol, if it has only one.
func (l *LexModel) one(g *GNode) (string, bool) {
	ts, ok := l.symTexts(g)
	if ok && len(ts) == 1 {
		return ts[0], true
	}
	return "", false
}

// closer reports whether a token repeats what opened its state.
func (l *LexModel) closerTok(name string) bool {
	found := false
	for _, s := range l.reachable() {
		for _, r := range l.States[s] {
			if r.Name == name {
				if !r.Backref || !r.Pop {
					return false
				}
				found = true
			}
		}
	}
	return found
}

// spacing reports whether a token holds nothing but white space.
func (l *LexModel) spacing(name string) bool {
	p, ok := l.tokenLang(name)
	if !ok {
		return false
	}
	in, _ := langWithin(p, `\s*`)
	return in
}

// production types reachable from the root
func (m *Model) inTree() []*NodeType {
	seen := map[*NodeType]bool{}
	var out []*NodeType
	var add func(t *NodeType)
	add = func(t *NodeType) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
		walkG(t.Prod, func(g *GNode) {
			if g.Kind == GRef {
				add(m.of(g.Ref))
			}
			if g.Kind == GCap && g.Kids[0].Kind != GRef {
				if n := namedOf(t.St.Field(g.Field).Type()); n != nil {
					add(m.of(n))
				}
			}
		})
	}
	add(m.Root)
	sort.SliceStable(out[1:], func(i, j int) bool { return out[i+1].Name < out[j+1].Name })
	return out
}

// fieldKind tells how the parser library stores captures in a field.
type fieldKind int

const (
	keepLast fieldKind = iota // a later capture replaces an earlier one
	keepText                  // text is appended
	keepList                  // elements are appended
	keepFlag                  // set by any capture
)

func kindOfField(t types.Type) fieldKind {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return keepList
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return keepText
		}
		if u.Info()&types.IsBoolean != 0 {
			return keepFlag
		}
	}
	return keepLast
}
