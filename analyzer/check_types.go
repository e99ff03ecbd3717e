package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["E10"] = withLex(checkPositions)
	checks["E21"] = withLex(checkEncoding)
}

// ---------------------------------------------------------------------------
// Fresh memory: values that point to memory a function (or what it calls)
// allocated, so that writing there changes nothing that existed before.

type freshness struct {
	p       *Prog
	pkg     string
	callers map[*ssa.Function][]ssa.CallInstruction
	taken   map[*ssa.Function]bool // used other than by calling it
	memo    map[ssa.Value]int      // 1 open or fresh, 2 not fresh
	invoked map[string]bool        // methods called through interfaces
}

func newFreshness(p *Prog, pkg string) *freshness {
	f := &freshness{p: p, pkg: pkg, callers: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}, memo: map[ssa.Value]int{}, invoked: map[string]bool{}}
	for fn := range p.allFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					if c.Common().IsInvoke() {
						f.invoked[c.Common().Method.Name()] = true
					}
					callee = c.Common().StaticCallee()
					if callee != nil {
						f.callers[callee] = append(f.callers[callee], c)
					}
				}
				for i, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || g == callee && i == 0 {
						continue
					}
					f.taken[g] = true
				}
			}
		}
	}
	return f
}

// fresh reports whether the memory v points to was allocated by this code.
// What v points at may hold old references; those are other values.
func (f *freshness) fresh(v ssa.Value) bool {
	if k := f.memo[v]; k != 0 {
		return k == 1
	}
	f.memo[v] = 1 // coinductive
	ok := f.freshRaw(v)
	if !ok {
		f.memo[v] = 2
	}
	return ok
}

func (f *freshness) freshRaw(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Const:
		return true // nil
	case *ssa.FieldAddr:
		return f.fresh(x.X)
	case *ssa.IndexAddr:
		return f.fresh(x.X)
	case *ssa.Slice:
		return f.fresh(x.X)
	case *ssa.ChangeType:
		return f.fresh(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !f.fresh(e) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// A local variable that only ever holds fresh pointers.
		a, ok := x.X.(*ssa.Alloc)
		if x.Op != token.MUL || !ok {
			return false
		}
		for _, r := range *a.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr != a || !f.fresh(y.Val) {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		return ok && f.freshResult(c, x.Index)
	case *ssa.Call:
		return f.freshResult(x, 0)
	case *ssa.Parameter:
		fn := x.Parent()
		if f.taken[fn] || fn.Object() != nil && fn.Object().Exported() || len(f.callers[fn]) == 0 {
			return false
		}
		k := -1
		for i, p := range fn.Params {
			if p == x {
				k = i
			}
		}
		if f.invoked[fn.Name()] {
			return false
		}
		for _, c := range f.callers[fn] {
			if w := c.Parent(); w.Synthetic != "" && w.Name() == fn.Name() && len(f.callers[w]) == 0 && !f.taken[w] {
				continue // a promoted method nobody calls
			}
			if k < 0 || k >= len(c.Common().Args) || !f.fresh(c.Common().Args[k]) {
				return false
			}
		}
		return true
	}
	return false
}

func (f *freshness) freshResult(c *ssa.Call, k int) bool {
	fn := c.Call.StaticCallee()
	if fn == nil {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return f.fresh(c.Call.Args[0])
		}
		return false
	}
	if len(fn.Blocks) == 0 {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			if k >= len(r.Results) || !f.fresh(r.Results[k]) {
				return false
			}
		}
	}
	return n > 0
}

// changes looks for writes through an address: a store there (or into a part
// of it), or handing the address to code that could store. It gives the
// instruction that writes, or nil.
func (f *freshness) changes(addr ssa.Value, seen map[ssa.Value]bool) ssa.Instruction {
	if seen[addr] || addr.Referrers() == nil {
		return nil
	}
	seen[addr] = true
	for _, r := range *addr.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.BinOp: // comparison of addresses
		case *ssa.Store:
			return x
		case *ssa.FieldAddr:
			if w := f.changes(x, seen); w != nil {
				return w
			}
		case *ssa.IndexAddr:
			if w := f.changes(x, seen); w != nil {
				return w
			}
		case *ssa.Phi:
			if w := f.changes(x, seen); w != nil {
				return w
			}
		case ssa.CallInstruction:
			fn := x.Common().StaticCallee()
			if fn == nil || len(fn.Blocks) == 0 {
				return r
			}
			for i, a := range x.Common().Args {
				if a == addr {
					if w := f.changes(fn.Params[i], seen); w != nil {
						return w
					}
				}
			}
		default:
			return r
		}
	}
	return nil
}

// etxFns lists the functions of the language library in a fixed order.
func (m *Model) etxFns() []*ssa.Function {
	var out []*ssa.Function
	for fn := range m.p.allFns() {
		if fnPkgPath(fn) == m.p.etx.PkgPath && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// ---------------------------------------------------------------------------
// E10: positions

// fieldByName emulates reflect.Type.FieldByName: the shallowest field of that
// name, unless several are equally shallow.
func fieldByName(t *types.Struct, name string) (path []int, f *types.Var) {
	type at struct {
		st   *types.Struct
		path []int
	}
	level := []at{{t, nil}}
	seen := map[*types.Struct]bool{}
	for len(level) > 0 {
		var next []at
		n := 0
		for _, a := range level {
			if seen[a.st] {
				continue
			}
			seen[a.st] = true
			for i := 0; i < a.st.NumFields(); i++ {
				v := a.st.Field(i)
				p := append(append([]int{}, a.path...), i)
				if v.Name() == name {
					n++
					path, f = p, v
				}
				if v.Embedded() {
					u := v.Type().Underlying()
					if pt, ok := u.(*types.Pointer); ok {
						u = pt.Elem().Underlying()
					}
					if s, ok := u.(*types.Struct); ok {
						next = append(next, at{s, p})
					}
				}
			}
		}
		if n == 1 {
			return path, f
		}
		if n > 1 {
			return nil, nil
		}
		level = next
	}
	return nil, nil
}

// isLibPosition: the position type the parser library fills in.
func isLibPosition(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Position" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == lexerPath
}

// posField is the index of the position in the node header.
func (m *Model) posField() int {
	st, ok := m.Header.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Pos" {
			return i
		}
	}
	return -1
}

func checkPositions(r *Report, l *LexModel) {
	m := l.m
	r.rule = "The parser library records a position in the field Pos of every struct it parses, found as reflect does; so for every node type of the grammar that lookup must find the node header's Pos, of the library's own position type, and the node must be a production of its own. The entry points hand the caller's text to the parser as it is, with no token mapping. No function of the package stores to a position, a node header or a whole node, or lets the address of a position reach code that could, except in memory it allocated. The summary of every Clone shows the original's position in the copy."
	st, _ := m.Header.Underlying().(*types.Struct)
	pf := m.posField()
	if !r.ob(st != nil && pf >= 0, "header", m.Header.Obj().Pos(), "the node header %s has no field Pos: no position is recorded", m.Header.Obj().Name()) {
		return
	}
	for _, nt := range m.inTree() {
		if !nt.IsNode || nt.Embeds < 0 {
			continue
		}
		r.count("node types", 1)
		pos := nt.Named.Obj().Pos()
		if nt.Prod == nil || nt.Capture {
			r.ob(false, "position:"+nt.Name, pos, "%s is filled by its Capture method, which is not told the position: it is left zero", nt.Name)
			continue
		}
		path, f := fieldByName(nt.St, "Pos")
		if !r.ob(f != nil, "position:"+nt.Name, pos, "%s has several fields Pos at the same depth: the parser library records no position", nt.Name) {
			continue
		}
		r.ob(len(path) == 2 && path[0] == nt.Embeds && path[1] == pf, "shadow:"+nt.Name, f.Pos(), "%s has a field Pos of its own, which receives the position instead of the node header", nt.Name)
		r.ob(isLibPosition(f.Type()), "type:"+nt.Name, f.Pos(), "the position of %s has type %s: the parser library only fills fields of type %s.Position", nt.Name, f.Type(), lexerPath)
		r.ob(f.Exported(), "exported:"+nt.Name, f.Pos(), "the position of %s cannot be set", nt.Name)
		// the header must be stored by value for the path to be settable
		_, isPtr := nt.St.Field(nt.Embeds).Type().Underlying().(*types.Pointer)
		r.ob(!isPtr, "pointer:"+nt.Name, pos, "%s embeds its header through a pointer that is nil while parsing", nt.Name)
	}
	// The text and the tokens reach the parser unchanged.
	for _, n := range entryNames {
		run := l.Parse[n]
		r.covers(run.e)
		for _, o := range run.outs {
			r.paths++
			for _, f := range o.St.effs {
				if f.Kind != "call" || !isParseCall(f.Name) || len(f.Args) < 4 {
					continue
				}
				r.count("parse calls", 1)
				in := mk(OSym, run.fn.Params[0].Name(), 0, run.fn.Params[0].Type())
				a := f.Args[len(f.Args)-3]
				r.ob(wholeInput(a, in), "input:"+n, f.Pos, "%s hands %.120s to the parser: positions do not refer to the caller's text", n, a)
			}
		}
	}
	for _, o := range l.Options {
		name := ""
		if o.Op == OCall {
			name = strings.TrimPrefix(o.Sym, participlePath+".")
		}
		switch name {
		case "UseLookahead", "CaseInsensitive", "Elide", "Unquote", "Upper":
			r.ob(true, "option:"+name, token.NoPos, "")
		default:
			r.ob(false, "option:"+name, token.NoPos, "the parser option %.100s could change the positions of tokens", o)
		}
	}
	m.positionWrites(r, pf)
	m.clonePositions(r)
	r.floor("node types", 45)
	r.floor("parse calls", 3)
	r.floor("clones", 45)
	r.assume = append(r.assume, "the parser library stores the position of the next token in Pos before it parses a struct, and its tokeniser counts lines, columns and offsets correctly (participle "+"nodes.go, strct.maybeInjectStartToken; lexer.Position.Advance)")
}

// positionWrites scans the package for stores that could change a position.
func (m *Model) positionWrites(r *Report, pf int) {
	fr := newFreshness(m.p, m.p.etx.PkgPath)
	inTree := map[*NodeType]bool{}
	for _, nt := range m.inTree() {
		inTree[nt] = true
	}
	isHeader := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := types.Unalias(p.Elem()).(*types.Named)
		return ok && n == m.Header
	}
	for _, fn := range m.etxFns() {
		r.count("functions scanned", 1)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if x.Field != pf || !isHeader(x.X.Type()) {
						continue
					}
					r.count("position accesses", 1)
					if fr.fresh(x.X) {
						r.ob(true, "write:"+fnName(fn), x.Pos(), "")
						continue
					}
					w := fr.changes(x, map[ssa.Value]bool{})
					if w != nil {
						r.ob(false, "write:"+fnName(fn), w.Pos(), "%s changes the position of a node it did not create (%s)", fnName(fn), w)
					} else {
						r.ob(true, "read:"+fnName(fn), x.Pos(), "")
					}
				case *ssa.Store:
					p, ok := x.Addr.Type().Underlying().(*types.Pointer)
					if !ok {
						continue
					}
					named, _ := types.Unalias(p.Elem()).(*types.Named)
					if named == nil {
						continue
					}
					nt := m.of(named)
					whole := named == m.Header || nt != nil && inTree[nt] && nt.Embeds >= 0
					if !whole || nt != nil && nt.Capture {
						continue
					}
					r.count("whole-node stores", 1)
					r.ob(fr.fresh(x.Addr), "store:"+fnName(fn), x.Pos(), "%s overwrites a whole %s it did not create, position included", fnName(fn), named.Obj().Name())
				}
			}
		}
	}
	r.floor("functions scanned", 150)
}

// clonePositions checks that copies keep the position.
func (m *Model) clonePositions(r *Report) {
	h := m.Header.Obj().Name()
	for _, nt := range m.inTree() {
		if nt.Embeds < 0 {
			continue
		}
		fn := m.p.method(nt.Named, "Clone")
		if fn == nil {
			fn = m.promoted(nt, "Clone")
		}
		if fn == nil || fn.Signature.Results().Len() != 1 || len(fn.Params) != 1 {
			continue
		}
		r.count("clones", 1)
		what := "Clone of " + nt.Name
		e, outs, und := m.runNode(fn, nt, nil, nil)
		r.covers(e)
		if und != nil {
			r.undecided(what, und)
			continue
		}
		p := m.nodePtr(nt)
		for _, o := range outs {
			if o.Panic {
				continue
			}
			r.paths++
			bad := ""
			c := &cloneCmp{m: m, e: e, shared: func(f, msg string) {}, bad: func(f, msg string) {
				for _, s := range strings.Split(f, ".") {
					if s == h || s == "Pos" {
						bad = f + " " + msg
					}
				}
			}}
			if _, ptr := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ptr {
				c.pointer(o.St, o.Results[0], p, types.NewPointer(nt.Named), "")
			} else {
				c.strct(o.St, o.Results[0], p, nt.Named, "")
			}
			r.ob(bad == "", "clone:"+nt.Name, o.Pos, "%s loses the position: %s", what, bad)
		}
	}
}

// ---------------------------------------------------------------------------
// E21: encoding/json

// jsonField is a field encoding/json considers for a struct.
type jsonField struct {
	key    string
	tagged bool
	path   []int
	v      *types.Var
	opts   []string
	used   bool // survives the rules for equal keys
	why    string
}

// jsonFields emulates the field selection of encoding/json: breadth first over
// untagged embedded structs, "-" and unexported fields left out, and of several
// fields with one key only the shallowest, or the only tagged one among the
// shallowest.
func jsonFields(t *types.Struct) (all []*jsonField, dropped []*types.Var) {
	type at struct {
		st   *types.Struct
		path []int
	}
	level := []at{{t, nil}}
	seen := map[*types.Struct]bool{}
	for len(level) > 0 {
		var next []at
		for _, a := range level {
			if seen[a.st] {
				continue
			}
			seen[a.st] = true
			for i := 0; i < a.st.NumFields(); i++ {
				v := a.st.Field(i)
				u := v.Type().Underlying()
				if pt, ok := u.(*types.Pointer); ok {
					u = pt.Elem().Underlying()
				}
				s, isStruct := u.(*types.Struct)
				if v.Embedded() && !v.Exported() && !isStruct || !v.Embedded() && !v.Exported() {
					dropped = append(dropped, v)
					continue
				}
				tag := reflect.StructTag(a.st.Tag(i)).Get("json")
				if tag == "-" {
					dropped = append(dropped, v)
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				if !validJSONKey(name) {
					name = ""
				}
				p := append(append([]int{}, a.path...), i)
				if v.Embedded() && name == "" && isStruct {
					next = append(next, at{s, p})
					continue
				}
				f := &jsonField{key: name, tagged: name != "", path: p, v: v, opts: parts[1:], used: true}
				if f.key == "" {
					f.key = v.Name()
				}
				all = append(all, f)
			}
		}
		level = next
	}
	by := map[string][]*jsonField{}
	for _, f := range all {
		by[f.key] = append(by[f.key], f)
	}
	for _, fs := range by {
		if len(fs) < 2 {
			continue
		}
		sort.SliceStable(fs, func(i, j int) bool {
			if len(fs[i].path) != len(fs[j].path) {
				return len(fs[i].path) < len(fs[j].path)
			}
			return fs[i].tagged && !fs[j].tagged
		})
		win := fs[0]
		if len(fs[1].path) == len(win.path) && fs[1].tagged == win.tagged {
			win = nil
		}
		for _, f := range fs {
			if f != win {
				f.used = false
				f.why = fmt.Sprintf("the key %q is also used by another field", f.key)
			}
		}
	}
	return all, dropped
}

func validJSONKey(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		switch {
		case strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c):
		case c >= '0' && c <= '9', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c > 127:
		default:
			return false
		}
	}
	return true
}

// encodable tells why encoding/json cannot encode a type, "" if it can.
func (m *Model) encodable(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	if n, ok := types.Unalias(t).(*types.Named); ok {
		for _, name := range []string{"MarshalJSON", "MarshalText"} {
			if hasPtrMethod(n, name) != nil && (n.Obj().Pkg() == nil || !m.p.inModule(n.Obj().Pkg().Path())) {
				return "" // the library's own encoding, big.Float
			}
		}
		if m.of(n) != nil {
			return "" // checked by itself
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsComplex != 0 || u.Kind() == types.UnsafePointer {
			return "has type " + t.String()
		}
		if u.Info()&types.IsFloat != 0 {
			return "has type " + t.String() + ", which may be infinite"
		}
		return ""
	case *types.Pointer:
		return m.encodable(u.Elem(), seen)
	case *types.Slice:
		return m.encodable(u.Elem(), seen)
	case *types.Array:
		return m.encodable(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if why := m.encodable(u.Field(i).Type(), seen); why != "" {
				return why
			}
		}
		return ""
	}
	return "has type " + t.String()
}

func checkEncoding(r *Report, l *LexModel) {
	m := l.m
	r.rule = "The field selection of encoding/json is applied to the declaration of every type that occurs in a tree: positions and parent links must be left out; every other field must be selected, under a key no other field of the node has; its type must be encodable; no type may bring its own encoding (MarshalJSON, MarshalText, also promoted from the header); and a selected field that leads to nodes must be one the parser fills, so that the encoded graph is the parse tree. No function of the package stores nodes into the fields of nodes it did not allocate."
	pf, qf := m.posField(), m.parentField()
	filled := map[*types.Named]map[int]bool{}
	inTree := map[*NodeType]bool{}
	for _, nt := range m.inTree() {
		inTree[nt] = true
		fs := map[int]bool{}
		walkG(nt.Prod, func(g *GNode) {
			if g.Kind == GCap {
				fs[g.Field] = true
			}
		})
		filled[nt.Named] = fs
	}
	for _, nt := range m.inTree() {
		r.count("types", 1)
		pos := nt.Named.Obj().Pos()
		for _, name := range []string{"MarshalJSON", "MarshalText"} {
			f := hasPtrMethod(nt.Named, name)
			r.ob(f == nil, "marshal:"+nt.Name, pos, "%s encodes itself with %s: what that leaves out is not analysed", nt.Name, name)
		}
		all, dropped := jsonFields(nt.St)
		isHeader := func(v *types.Var) bool {
			hs, _ := m.Header.Underlying().(*types.Struct)
			return hs != nil && (pf >= 0 && hs.Field(pf) == v || qf >= 0 && hs.Field(qf) == v)
		}
		for _, v := range dropped {
			if v.Embedded() || isHeader(v) || v.Pkg() != m.p.etx.Types {
				continue
			}
			own := false
			for i := 0; i < nt.St.NumFields(); i++ {
				own = own || nt.St.Field(i) == v
			}
			if !own {
				continue
			}
			why := "is left out of the encoding"
			if !v.Exported() {
				why = "is not exported, so it is left out of the encoding"
			}
			r.ob(false, "left out:"+nt.Name+"."+v.Name(), v.Pos(), "%s.%s %s", nt.Name, v.Name(), why)
		}
		// also a header hidden with "-" as a whole is fine: it has no content
		for _, f := range all {
			n := nt.Name + "." + f.v.Name()
			if isHeader(f.v) || types.Identical(f.v.Type().Underlying(), m.Node) {
				r.ob(!f.used, "link:"+n, f.v.Pos(), "%s is encoded: the link back to the parent makes the encoding endless, a position is not content", n)
				continue
			}
			r.count("fields", 1)
			if !r.ob(f.used, "key:"+n, f.v.Pos(), "%s is not encoded: %s", n, f.why) {
				continue
			}
			why := m.encodable(f.v.Type(), map[types.Type]bool{})
			r.ob(why == "", "type:"+n, f.v.Pos(), "%s cannot be encoded: it %s", n, why)
			for _, o := range f.opts {
				if o == "omitzero" {
					if z := namedOf(f.v.Type()); z != nil && hasPtrMethod(z, "IsZero") != nil {
						r.ob(false, "omitzero:"+n, f.v.Pos(), "%s is left out whenever its IsZero says so", n)
					}
				}
			}
			if len(f.path) == 1 {
				c := m.of2(f.v.Type())
				leads := c != nil
				if n0 := namedOf(f.v.Type()); n0 != nil && n0 == m.Header {
					leads = true
				}
				if leads && !nt.Capture {
					r.ob(filled[nt.Named][f.path[0]], "cycle:"+n, f.v.Pos(), "%s leads to a node but is not filled by the parser: the encoding may follow a cycle", n)
				}
			}
		}
	}
	// nobody rearranges nodes
	fr := newFreshness(m.p, m.p.etx.PkgPath)
	for _, fn := range m.etxFns() {
		r.count("functions scanned", 1)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				var fa *ssa.FieldAddr
				a := s.Addr
				for fa == nil {
					switch x := a.(type) {
					case *ssa.FieldAddr:
						fa = x
					case *ssa.IndexAddr:
						a = x.X
						if u, ok := a.(*ssa.UnOp); ok {
							a = u.X
						}
						continue
					}
					break
				}
				if fa == nil {
					continue
				}
				nt := m.of(fa.X.Type())
				if nt == nil || !inTree[nt] || fa.Field == nt.Embeds {
					continue
				}
				if m.of2(nt.St.Field(fa.Field).Type()) == nil {
					continue
				}
				r.count("node stores", 1)
				r.ob(fr.fresh(s.Addr), "rearranged:"+fnName(fn), s.Pos(), "%s stores a node into %s.%s of a node it did not create: the encoding may follow a cycle", fnName(fn), nt.Name, nt.St.Field(fa.Field).Name())
			}
		}
	}
	r.floor("types", 45)
	r.floor("fields", 120)
	r.floor("functions scanned", 150)
	r.assume = append(r.assume, "the field selection is that of encoding/json's typeFields; text is valid UTF-8 (encoding/json replaces other bytes); the parser builds trees")
}
