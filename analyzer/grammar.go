package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"text/scanner"
	"unicode/utf8"
)

// The grammar of the language is written in struct tags. This file reads it
// into production trees, following the tag syntax of the parser library.

// GKind is the kind of a grammar node.
type GKind int

const (
	GSeq GKind = iota
	GAlt
	GOpt
	GStar
	GPlus
	GOnce
	GNonEmpty
	GLit
	GTok
	GRef // @@: production of another type
	GCap
	GNeg
	GLook
)

// GNode is one node of a production.
type GNode struct {
	Kind  GKind
	Kids  []*GNode
	Text  string // literal text or token name
	Tok   string // token constraint of a literal
	Field int    // GCap: field index
	Ref   *types.Named
	Neg   bool
}

func (g *GNode) String() string {
	kids := func(sep string) string {
		var out []string
		for _, k := range g.Kids {
			out = append(out, k.String())
		}
		return strings.Join(out, sep)
	}
	switch g.Kind {
	case GSeq:
		return kids(" ")
	case GAlt:
		return "(" + kids(" | ") + ")"
	case GOpt:
		return "(" + kids("") + ")?"
	case GStar:
		return "(" + kids("") + ")*"
	case GPlus:
		return "(" + kids("") + ")+"
	case GOnce:
		return "(" + kids("") + ")"
	case GNonEmpty:
		return "(" + kids("") + ")!"
	case GLit:
		return strconv.Quote(g.Text)
	case GTok:
		return g.Text
	case GRef:
		return "@@" + g.Ref.Obj().Name()
	case GCap:
		return fmt.Sprintf("@%d:%s", g.Field, kids(""))
	case GNeg:
		return "!" + kids("")
	case GLook:
		return "(?" + kids("") + ")"
	}
	return "?"
}

type gTok struct {
	typ   rune
	text  string
	field int
}

type gParser struct {
	toks  []gTok
	i     int
	st    *types.Struct
	own   string
	isCap func(types.Type) bool
}

type grammarError struct{ msg string }

func (p *gParser) fail(format string, a ...any) {
	panic(grammarError{p.own + ": " + fmt.Sprintf(format, a...)})
}

func (p *gParser) peek() gTok {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return gTok{typ: scanner.EOF}
}

func (p *gParser) next() gTok { t := p.peek(); p.i++; return t }

func tagTokens(tag string, field int) ([]gTok, error) {
	var s scanner.Scanner
	s.Init(strings.NewReader(tag))
	var bad error
	s.Error = func(_ *scanner.Scanner, msg string) {
		if !strings.HasSuffix(msg, "char literal") {
			bad = fmt.Errorf("%s", msg)
		}
	}
	var out []gTok
	for {
		typ := s.Scan()
		if typ == scanner.EOF {
			break
		}
		text := s.TokenText()
		switch typ {
		case scanner.Char:
			text = "\"" + text[1:len(text)-1] + "\""
			fallthrough
		case scanner.String:
			u, err := strconv.Unquote(text)
			if err != nil {
				return nil, err
			}
			text = u
			if typ == scanner.Char && utf8.RuneCountInString(text) > 1 {
				typ = scanner.String
			}
		case scanner.RawString:
			text = text[1 : len(text)-1]
		}
		out = append(out, gTok{typ, text, field})
	}
	return out, bad
}

func (p *gParser) disjunction() *GNode {
	var alts []*GNode
	for {
		s := p.sequence()
		if s == nil {
			p.fail("an alternative of the grammar is empty")
		}
		alts = append(alts, s)
		if p.peek().typ != '|' {
			break
		}
		p.next()
	}
	if len(alts) == 1 {
		return alts[0]
	}
	return &GNode{Kind: GAlt, Kids: alts}
}

func (p *gParser) sequence() *GNode {
	var items []*GNode
	for p.peek().typ != scanner.EOF {
		t := p.term()
		if t == nil {
			break
		}
		items = append(items, t)
	}
	switch len(items) {
	case 0:
		return nil
	case 1:
		return items[0]
	}
	return &GNode{Kind: GSeq, Kids: items}
}

func (p *gParser) term() *GNode {
	t := p.bare()
	if t == nil {
		return nil
	}
	switch p.peek().typ {
	case '!':
		p.next()
		return &GNode{Kind: GNonEmpty, Kids: []*GNode{t}}
	case '+':
		p.next()
		return &GNode{Kind: GPlus, Kids: []*GNode{t}}
	case '*':
		p.next()
		return &GNode{Kind: GStar, Kids: []*GNode{t}}
	case '?':
		p.next()
		return &GNode{Kind: GOpt, Kids: []*GNode{t}}
	}
	return t
}

func (p *gParser) closing(r rune) {
	if t := p.next(); t.typ != r {
		p.fail("expected %q in the grammar, found %q", r, t.text)
	}
}

func (p *gParser) bare() *GNode {
	t := p.peek()
	switch t.typ {
	case '@':
		p.next()
		field := p.peek().field
		if p.peek().typ == scanner.EOF {
			field = t.field
		}
		c := &GNode{Kind: GCap, Field: field}
		ft := p.st.Field(field).Type()
		if p.peek().typ == '@' {
			p.next()
			n := namedOf(ft)
			if n == nil {
				p.fail("field %s captures a production but has no struct type", p.st.Field(field).Name())
			}
			c.Kids = []*GNode{{Kind: GRef, Ref: n}}
			return c
		}
		if n := namedOf(ft); n != nil && !p.isCap(n) {
			p.fail("field %s captures tokens into a struct", p.st.Field(field).Name())
		}
		k := p.bare()
		if k == nil {
			p.fail("a capture of field %s captures nothing", p.st.Field(field).Name())
		}
		c.Kids = []*GNode{k}
		return c
	case scanner.String, scanner.RawString, scanner.Char:
		p.next()
		l := &GNode{Kind: GLit, Text: t.text}
		if p.peek().typ == ':' {
			p.next()
			l.Tok = p.next().text
		}
		return l
	case '!', '~':
		p.next()
		return &GNode{Kind: GNeg, Kids: []*GNode{p.bare()}}
	case '[':
		p.next()
		d := p.disjunction()
		p.closing(']')
		return &GNode{Kind: GOpt, Kids: []*GNode{d}}
	case '{':
		p.next()
		d := p.disjunction()
		p.closing('}')
		return &GNode{Kind: GStar, Kids: []*GNode{d}}
	case '(':
		p.next()
		if p.peek().typ == '?' {
			p.next()
			neg := p.next().typ == '!'
			d := p.disjunction()
			p.closing(')')
			return &GNode{Kind: GLook, Neg: neg, Kids: []*GNode{d}}
		}
		d := p.disjunction()
		p.closing(')')
		return &GNode{Kind: GOnce, Kids: []*GNode{d}}
	case scanner.Ident:
		p.next()
		return &GNode{Kind: GTok, Text: t.text}
	}
	return nil
}

// namedOf strips pointers and slices down to a named struct type.
func namedOf(t types.Type) *types.Named {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		case *types.Alias:
			t = types.Unalias(t)
			continue
		case *types.Named:
			if _, ok := u.Underlying().(*types.Struct); ok {
				return u
			}
		}
		return nil
	}
}

// Presence of a field in a parsed node.
const (
	Absent  = 0
	Present = 1
	Many    = 2 // list with at least two elements
)

// Shape is one combination of present fields that parsing can produce.
type Shape []int

func (s Shape) key() string { return fmt.Sprint([]int(s)) }

// NodeType is one syntax tree type.
type NodeType struct {
	Named   *types.Named
	St      *types.Struct
	Name    string
	Prod    *GNode
	Shapes  []Shape
	Capture bool // filled by a Capture method
	IsNode  bool // implements Node
	InTree  bool // reachable from the root production
	Embeds  int  // index of the embedded node header, or -1
	// facts established by Capture
	nonNil, nonEmpty map[int]bool
}

// Model is the syntax tree and grammar of the language.
type Model struct {
	p      *Prog
	Types  []*NodeType
	ByName map[string]*NodeType
	Root   *NodeType
	Header *types.Named // the node header (ASTNode)
	Node   *types.Interface
	zero   map[string]bool // types of which a zero value can occur in a tree
	prec53 bool            // numbers are parsed with the precision of NewFloat

	linkFns  map[*ssa.Function]bool
	targets  *callTargets
	setters  map[*ssa.Function]bool // everything that leads to a parent link being set
	opaque   bool                   // the linking is not understood: leave it out of the entry points
	linkMemo map[*ssa.Function]*linkRun

	workLoops map[*ssa.BasicBlock]bool // loops over pending nodes that link them
}

func (m *Model) of(t types.Type) *NodeType {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	nt := m.ByName[n.Obj().Name()]
	if nt == nil || nt.Named.Obj() != n.Obj() {
		return nil
	}
	return nt
}

func hasPtrMethod(t *types.Named, name string) *types.Func {
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, t.Obj().Pkg(), name)
	f, _ := o.(*types.Func)
	return f
}

func declaresMethod(t *types.Named, name string) *types.Func {
	for i := 0; i < t.NumMethods(); i++ {
		if t.Method(i).Name() == name {
			return t.Method(i)
		}
	}
	return nil
}

// buildModel reads the node types and productions.
func buildModel(p *Prog) (m *Model, err error) {
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(grammarError); ok {
				err = fmt.Errorf("%s", g.msg)
				return
			}
			panic(r)
		}
	}()
	m = &Model{p: p, ByName: map[string]*NodeType{}, zero: map[string]bool{}}
	scope := p.etx.Types.Scope()
	ni, ok := scope.Lookup("Node").(*types.TypeName)
	if !ok {
		return nil, fmt.Errorf("no Node interface in %s", p.etx.PkgPath)
	}
	m.Node, ok = ni.Type().Underlying().(*types.Interface)
	if !ok {
		return nil, fmt.Errorf("Node is not an interface")
	}
	var order []*types.Named
	seen := map[*types.Named]bool{}
	var visit func(n *types.Named)
	isCap := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && hasPtrMethod(n, "Capture") != nil
	}
	var add func(n *types.Named)
	add = func(n *types.Named) {
		if seen[n] || n.Obj().Pkg() != p.etx.Types {
			return
		}
		seen[n] = true
		order = append(order, n)
		visit(n)
	}
	visit = func(n *types.Named) {
		st := n.Underlying().(*types.Struct)
		nt := &NodeType{Named: n, St: st, Name: n.Obj().Name(), Embeds: -1}
		m.Types = append(m.Types, nt)
		m.ByName[nt.Name] = nt
		nt.IsNode = types.Implements(types.NewPointer(n), m.Node)
		nt.Capture = isCap(n)
		var toks []gTok
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Embedded() {
				nt.Embeds = i
				if e := namedOf(f.Type()); e != nil {
					if m.Header != nil && m.Header != e {
						panic(grammarError{nt.Name + ": embeds " + e.Obj().Name() + ", other nodes embed " + m.Header.Obj().Name()})
					}
					m.Header = e
					for j := 0; j < e.Underlying().(*types.Struct).NumFields(); j++ {
						tag := e.Underlying().(*types.Struct).Tag(j)
						if v, ok := reflect.StructTag(tag).Lookup("parser"); (ok && v != "") || (!ok && tag != "") {
							panic(grammarError{nt.Name + ": the node header contributes grammar"})
						}
					}
				}
				continue
			}
			if !f.Exported() {
				continue
			}
			tag := st.Tag(i)
			if v, ok := reflect.StructTag(tag).Lookup("parser"); ok {
				tag = v
			}
			if nt.Capture || tag == "" {
				continue
			}
			ts, err := tagTokens(tag, i)
			if err != nil {
				panic(grammarError{nt.Name + "." + f.Name() + ": " + err.Error()})
			}
			toks = append(toks, ts...)
		}
		if !nt.Capture {
			gp := &gParser{toks: toks, st: st, own: nt.Name, isCap: isCap}
			nt.Prod = gp.disjunction()
			if gp.peek().typ != scanner.EOF {
				gp.fail("unexpected %q in the grammar", gp.peek().text)
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Embedded() {
				if c := namedOf(st.Field(i).Type()); c != nil {
					add(c)
				}
			}
		}
	}
	root, ok := scope.Lookup("AST").(*types.TypeName)
	if !ok {
		return nil, fmt.Errorf("no AST type in %s", p.etx.PkgPath)
	}
	add(root.Type().(*types.Named))
	m.Root = m.Types[0]
	for _, t := range m.Types {
		t.InTree = true
	}
	// Node types that are not part of the root grammar (lambdas).
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok || n.TypeParams().Len() > 0 {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok || !types.Implements(types.NewPointer(n), m.Node) || n == m.Header {
			continue
		}
		tagged := false
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := reflect.StructTag(st.Tag(i)).Lookup("parser"); ok && !st.Field(i).Embedded() {
				tagged = true
			}
		}
		if tagged && n != m.Header && (m.Header == nil || n.Obj() != m.Header.Obj()) {
			add(n)
		}
	}
	sort.SliceStable(m.Types[1:], func(i, j int) bool { return m.Types[i+1].Name < m.Types[j+1].Name })
	for _, t := range m.Types {
		if t.Prod != nil {
			t.Shapes = m.shapesOf(t)
			for _, s := range t.Shapes {
				for i := 0; i < t.St.NumFields(); i++ {
					if _, isStruct := t.St.Field(i).Type().Underlying().(*types.Struct); isStruct && !t.St.Field(i).Embedded() && s[i] == Absent {
						if c := m.of(t.St.Field(i).Type()); c != nil {
							m.zero[c.Name] = true
						}
					}
				}
			}
		}
	}
	// Zero values contain zero values.
	for changed := true; changed; {
		changed = false
		for _, t := range m.Types {
			if !m.zero[t.Name] {
				continue
			}
			for i := 0; i < t.St.NumFields(); i++ {
				if _, isStruct := t.St.Field(i).Type().Underlying().(*types.Struct); isStruct {
					if c := m.of(t.St.Field(i).Type()); c != nil && !m.zero[c.Name] {
						m.zero[c.Name] = true
						changed = true
					}
				}
			}
		}
	}
	return m, nil
}

func (t *NodeType) zeroShape() Shape { return make(Shape, t.St.NumFields()) }

// shapesOf enumerates the field combinations of a production.
func (m *Model) shapesOf(t *NodeType) []Shape {
	n := t.St.NumFields()
	add := func(a, b Shape) Shape {
		r := make(Shape, n)
		for i := range r {
			r[i] = a[i] + b[i]
			if r[i] > Many {
				r[i] = Many
			}
		}
		return r
	}
	dedup := func(ss []Shape) []Shape {
		seen := map[string]bool{}
		var out []Shape
		for _, s := range ss {
			if k := s.key(); !seen[k] {
				seen[k] = true
				out = append(out, s)
			}
		}
		return out
	}
	cross := func(a, b []Shape) []Shape {
		var out []Shape
		for _, x := range a {
			for _, y := range b {
				out = append(out, add(x, y))
			}
		}
		return dedup(out)
	}
	empty := []Shape{make(Shape, n)}
	var rec func(g *GNode) []Shape
	rec = func(g *GNode) []Shape {
		switch g.Kind {
		case GSeq:
			out := empty
			for _, k := range g.Kids {
				out = cross(out, rec(k))
			}
			return out
		case GAlt:
			var out []Shape
			for _, k := range g.Kids {
				out = append(out, rec(k)...)
			}
			return dedup(out)
		case GOpt:
			return dedup(append(append([]Shape{}, empty...), rec(g.Kids[0])...))
		case GStar, GPlus:
			one := rec(g.Kids[0])
			all := one
			for {
				next := dedup(append(append([]Shape{}, all...), cross(all, one)...))
				if len(next) == len(all) {
					break
				}
				all = next
			}
			if g.Kind == GStar {
				all = dedup(append(append([]Shape{}, empty...), all...))
			}
			return all
		case GOnce, GNonEmpty:
			return rec(g.Kids[0])
		case GCap:
			s := make(Shape, n)
			s[g.Field] = Present
			out := []Shape{s}
			if m.nullable(g.Kids[0]) && g.Kids[0].Kind != GRef {
				out = append(out, make(Shape, n))
			}
			return out
		}
		return empty
	}
	out := rec(t.Prod)
	for _, s := range out {
		for i := range s {
			if _, isSlice := t.St.Field(i).Type().Underlying().(*types.Slice); !isSlice && s[i] == Many {
				s[i] = Present
			}
		}
	}
	return dedup(out)
}

// nullable reports whether a grammar node can match without consuming a token.
func (m *Model) nullable(g *GNode) bool {
	return m.nullableRec(g, map[*types.Named]bool{})
}

func (m *Model) nullableRec(g *GNode, open map[*types.Named]bool) bool {
	switch g.Kind {
	case GSeq:
		for _, k := range g.Kids {
			if !m.nullableRec(k, open) {
				return false
			}
		}
		return true
	case GAlt:
		for _, k := range g.Kids {
			if m.nullableRec(k, open) {
				return true
			}
		}
		return false
	case GOpt, GStar, GLook:
		return true
	case GPlus, GOnce, GCap:
		return m.nullableRec(g.Kids[0], open)
	case GRef:
		if open[g.Ref] {
			return false
		}
		t := m.of(g.Ref)
		if t == nil || t.Prod == nil {
			return false
		}
		open[g.Ref] = true
		r := m.nullableRec(t.Prod, open)
		delete(open, g.Ref)
		return r
	}
	return false
}
