package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Op is the operator of a value term.
type Op uint8

const (
	OConst     Op = iota // constant: Sym is its exact spelling
	ONil                 // nil pointer, map, slice, func, interface...
	OZero                // zero value of a struct or array type
	OSym                 // symbolic input or unknown value: Sym
	OGlobal              // address of a package-level variable
	OObj                 // pointer/slice/map whose storage is local object N
	OFieldAddr           // address of field N of the struct at Args[0]
	OIndexAddr           // address of element Args[1] of Args[0]
	OLoad                // initial contents of address Args[0]
	OField               // field N of struct value Args[0]
	OStruct              // struct value with the given fields
	OSeq                 // contents of an array: segments
	OSlice               // Args[0][Args[1]:Args[2]] of something not resolvable
	OStr                 // string concatenation of segments
	OLen                 // len(Args[0])
	OCap                 // cap(Args[0])
	OHas                 // Args[1] in map Args[0] (at version Sym)
	OLookup              // value of key Args[1] in map Args[0] (at version Sym)
	OMap                 // contents of a local map: entries
	OBin                 // Args[0] <Sym> Args[1]
	ONot                 // !Args[0]
	OConv                // conversion of Args[0] to Typ
	OIface               // interface holding Args[0] of type Typ
	OIsType              // Args[0] holds dynamic type Typ
	OAssert              // Args[0].(Typ)
	OCall                // result of an opaque call: Sym name, N sequence number when impure
	OExtract             // result N of tuple Args[0]
	OTuple               // tuple value
	OFunc                // function value: Sym (see funcOf)
	OClosure             // closure: Sym names the function, Args the bindings
	OKey                 // binder: key of map Args[0]
	OIdx                 // binder: index into Args[0], ascending from 0
	ORange               // domain: integers Args[0] <= i < Args[1]
	OChan                // domain: values received from Args[0] until closed
	OWhile               // domain of a loop with no recognised bound
	OHole                // loop-carried value: Sym
	OEach                // segment: for each binder Args[0], one of the alternatives Args[1:]
	OAlt                 // alternative: Args[0] OList of guards, Args[1] OList of payload
	OList                // list of terms
	OSpread              // segment: all elements of slice Args[0]
	ORep                 // segment: Args[1] copies of Args[0]
	OIns                 // map entry: key Args[0] -> Args[1]
	ODel                 // map entry: Args[0] removed
	OBase                // map entry: contents of map Args[0]
	OExists              // boolean: some binder satisfies one of the OList guards
	OForall              // boolean: for all binders none of the OList guards holds
	OUpd                 // Args[0] with element Args[1] replaced by Args[2]
	OText                // string segment: text derived from Args[0] by Sym (see engine)
	OIter                // map/string iterator over Args[0]
	OMapVer              // map Args[0] as of version Sym
	OElemOf              // one element of slice/chan Args[0], unspecified position (Sym id)
)

var opNames = map[Op]string{OConst: "const", ONil: "nil", OZero: "zero", OSym: "sym", OGlobal: "global", OObj: "obj",
	OFieldAddr: "&field", OIndexAddr: "&index", OLoad: "load", OField: "field", OStruct: "struct", OSeq: "seq",
	OSlice: "slice", OStr: "str", OLen: "len", OCap: "cap", OHas: "has", OLookup: "lookup", OMap: "map", OBin: "bin",
	ONot: "not", OConv: "conv", OIface: "iface", OIsType: "istype", OAssert: "assert", OCall: "call",
	OExtract: "extract", OTuple: "tuple", OFunc: "func", OClosure: "closure", OKey: "key", OIdx: "idx",
	ORange: "range", OChan: "chan", OWhile: "while", OHole: "hole", OEach: "each", OAlt: "alt", OList: "list",
	OSpread: "spread", ORep: "rep", OIns: "ins", ODel: "del", OBase: "base", OExists: "exists", OForall: "forall",
	OUpd: "upd", OText: "text", OIter: "iter", OMapVer: "mapver", OElemOf: "elemof"}

// Term is a hash-consed value term: equal terms are the same pointer.
type Term struct {
	Op   Op
	Args []*Term
	Sym  string
	N    int
	Typ  types.Type
	id   int
	val  constant.Value // for OConst
}

// TermTab interns terms.
type TermTab struct {
	tab   map[string]*Term
	terms []*Term
}

func newTermTab() *TermTab { return &TermTab{tab: map[string]*Term{}} }

var tt = newTermTab()

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func mk(op Op, sym string, n int, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(op)))
	sb.WriteByte('|')
	sb.WriteString(sym)
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(n))
	sb.WriteByte('|')
	switch op {
	case OConst, OZero, OConv, OIface, OIsType, OAssert, OStruct, OSym:
		sb.WriteString(typeKey(typ))
	}
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, Args: args, Sym: sym, N: n, Typ: typ, id: len(tt.terms) + 1}
	tt.tab[k] = t
	tt.terms = append(tt.terms, t)
	return t
}

func cBool(b bool) *Term {
	if b {
		return cVal(constant.MakeBool(true), types.Typ[types.Bool])
	}
	return cVal(constant.MakeBool(false), types.Typ[types.Bool])
}
func cInt(i int64) *Term     { return cVal(constant.MakeInt64(i), types.Typ[types.Int]) }
func cString(s string) *Term { return cVal(constant.MakeString(s), types.Typ[types.String]) }

func cVal(v constant.Value, typ types.Type) *Term {
	kind := "?"
	switch v.Kind() {
	case constant.Bool:
		kind = "b"
	case constant.String:
		kind = "s"
	case constant.Int:
		kind = "i"
	case constant.Float:
		// Represent integral floats as such only through their exact string.
		kind = "f"
	}
	t := mk(OConst, kind+v.ExactString(), 0, nil)
	t.val = v
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

func (t *Term) isConst() bool { return t.Op == OConst }

func (t *Term) boolVal() (bool, bool) {
	if t.Op == OConst && t.val.Kind() == constant.Bool {
		return constant.BoolVal(t.val), true
	}
	return false, false
}

func (t *Term) intVal() (int64, bool) {
	if t.Op == OConst && t.val.Kind() == constant.Int {
		return constant.Int64Val(t.val)
	}
	return 0, false
}

func (t *Term) strVal() (string, bool) {
	if t.Op == OConst && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	return "", false
}

var theNil = mk(ONil, "", 0, nil)

// contains reports whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.Args {
		if a.id >= sub.id && a.contains(sub) {
			return true
		}
	}
	return false
}

// any reports whether some subterm satisfies f.
func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fieldName(t types.Type, n int) string {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case nil:
			return fmt.Sprintf("#%d", n)
		}
		break
	}
	if st, ok := t.Underlying().(*types.Struct); ok && n < st.NumFields() {
		return st.Field(n).Name()
	}
	return fmt.Sprintf("#%d", n)
}

// String renders a term for diagnostics.
func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	a := func(i int) string { return t.Args[i].String() }
	list := func(ts []*Term, sep string) string {
		var out []string
		for _, x := range ts {
			out = append(out, x.String())
		}
		return strings.Join(out, sep)
	}
	switch t.Op {
	case OConst:
		if s, ok := t.strVal(); ok {
			return strconv.Quote(s)
		}
		return t.Sym[1:]
	case ONil:
		return "nil"
	case OZero:
		return "zero(" + shortType(t.Typ) + ")"
	case OSym:
		return t.Sym
	case OGlobal:
		return "&" + t.Sym
	case OObj:
		return "obj" + strconv.Itoa(t.N)
	case OFieldAddr:
		return a(0) + "->" + t.Sym
	case OIndexAddr:
		return "&" + a(0) + "[" + a(1) + "]"
	case OLoad:
		switch t.Args[0].Op {
		case OFieldAddr:
			return a(0)
		case OIndexAddr:
			return a(0)[1:]
		}
		return "*" + a(0)
	case OField:
		return a(0) + "." + t.Sym
	case OStruct:
		return shortType(t.Typ) + "{" + list(t.Args, ", ") + "}"
	case OSeq:
		return "[" + list(t.Args, ", ") + "]"
	case OStr:
		return "(" + list(t.Args, " ++ ") + ")"
	case OSlice:
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case OBin:
		return "(" + a(0) + " " + t.Sym + " " + a(1) + ")"
	case ONot:
		return "!" + a(0)
	case OConv:
		return shortType(t.Typ) + "(" + a(0) + ")"
	case OIface:
		return "iface<" + shortType(t.Typ) + ">(" + a(0) + ")"
	case OIsType, OAssert:
		return opNames[t.Op] + "<" + shortType(t.Typ) + ">(" + a(0) + ")"
	case OCall:
		s := t.Sym
		if t.N != 0 {
			s += "#" + strconv.Itoa(t.N)
		}
		return s + "(" + list(t.Args, ", ") + ")"
	case OExtract:
		return a(0) + "." + strconv.Itoa(t.N)
	case OEach:
		return "each{" + a(0) + ": " + list(t.Args[1:], " | ") + "}"
	case OAlt:
		return "{" + list(t.Args[0].Args, " && ") + " => " + list(t.Args[1].Args, ", ") + "}"
	case OSpread:
		return a(0) + "..."
	case OHole:
		return "hole:" + t.Sym
	}
	s := opNames[t.Op]
	if t.Sym != "" {
		s += "@" + t.Sym
	}
	return s + "(" + list(t.Args, ", ") + ")"
}

// ---- constructors with normalisation ----

func mkNot(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return cBool(!b)
	}
	if t.Op == ONot {
		return t.Args[0]
	}
	return mk(ONot, "", 0, nil, t)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return cBool(true)
	}
	if a.isConst() && b.isConst() {
		if a.val.Kind() == b.val.Kind() || (a.val.Kind() != constant.String && a.val.Kind() != constant.Bool && b.val.Kind() != constant.String && b.val.Kind() != constant.Bool) {
			return cBool(constant.Compare(a.val, tokEQL, b.val))
		}
		return cBool(false)
	}
	// x == true, x == false
	if v, ok := b.boolVal(); ok {
		if v {
			return a
		}
		return mkNot(a)
	}
	if v, ok := a.boolVal(); ok {
		if v {
			return b
		}
		return mkNot(b)
	}
	// Order operands: constants and nil last, else by id.
	if a.isConst() || a.Op == ONil || (!(b.isConst() || b.Op == ONil) && a.id > b.id) {
		a, b = b, a
	}
	if v, ok := b.intVal(); ok && v == 0 && a.Op == OIdx {
		return mkLt(a, cInt(1))
	}
	if b.Op == ONil {
		switch a.Op {
		case OIface, OFieldAddr, OIndexAddr, OGlobal, OClosure, OFunc:
			return cBool(false)
		case OZero, OStruct:
			return cBool(false)
		case OCall:
			if a.Sym == "clone" {
				return mkEq(a.Args[0], b)
			}
		}
	}
	// Comparing a pure emptiness of strings: normalise len(s)==0 to s=="".
	if v, ok := b.intVal(); ok && v == 0 && a.Op == OLen && isStringTerm(a.Args[0]) {
		return mkEq(a.Args[0], cString(""))
	}
	if v, ok := b.strVal(); ok {
		if a.Op == OStr {
			// A concatenation with a non-empty constant part is never empty.
			min := 0
			for _, s := range a.Args {
				if c, ok := s.strVal(); ok {
					min += len(c)
				}
			}
			if min > len(v) {
				return cBool(false)
			}
		}
	}
	if ai, bi, ok := stripOffset(a, b); ok {
		return mkEq(ai, bi)
	}
	return mk(OBin, "==", 0, nil, a, b)
}

// stripOffset rewrites x+c == k into x == k-c.
func stripOffset(a, b *Term) (*Term, *Term, bool) {
	if k, ok := b.intVal(); ok && a.Op == OBin && a.Sym == "+" {
		if c, ok := a.Args[1].intVal(); ok {
			return a.Args[0], cInt(k - c), true
		}
	}
	return nil, nil, false
}

// mkLt builds a < b over integers (or strings).
// plus splits a sum into its base and its constant.
func plus(t *Term) (*Term, int64) {
	if t.Op == OBin && t.Sym == "+" {
		if c, ok := t.Args[1].intVal(); ok {
			return t.Args[0], c
		}
	}
	if t.isConst() {
		return nil, 0
	}
	return t, 0
}

func mkLt(a, b *Term) *Term {
	if a == b {
		return cBool(false)
	}
	if a.isConst() && b.isConst() && a.val.Kind() == b.val.Kind() {
		return cBool(constant.Compare(a.val, tokLSS, b.val))
	}
	if x, c := plus(a); x != nil {
		if y, d := plus(b); x == y {
			return cBool(c < d)
		}
	}
	if k, ok := b.intVal(); ok && a.Op == OBin && a.Sym == "+" {
		if c, ok := a.Args[1].intVal(); ok {
			return mkLt(a.Args[0], cInt(k-c))
		}
	}
	if k, ok := a.intVal(); ok && b.Op == OBin && b.Sym == "+" {
		if c, ok := b.Args[1].intVal(); ok {
			return mkLt(cInt(k-c), b.Args[0])
		}
	}
	// k < x  ==>  !(x < k+1)
	if k, ok := a.intVal(); ok {
		return mkNot(mkLt(b, cInt(k+1)))
	}
	// len(s) < 1  ==>  s is empty
	if k, ok := b.intVal(); ok && a.Op == OLen {
		if k <= 0 {
			return cBool(false)
		}
		if k == 1 {
			return mkEq(a, cInt(0))
		}
	}
	return mk(OBin, "<", 0, nil, a, b)
}

func mkAdd(a, b *Term) *Term {
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			return cInt(x + y)
		}
		a, b = b, a
	}
	if y, ok := b.intVal(); ok {
		if y == 0 {
			return a
		}
		if a.Op == OBin && a.Sym == "+" {
			if x, ok := a.Args[1].intVal(); ok {
				return mkAdd(a.Args[0], cInt(x+y))
			}
		}
		return mk(OBin, "+", 0, nil, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OBin, "+", 0, nil, a, b)
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isStringTerm(t *Term) bool {
	switch t.Op {
	case OStr, OText:
		return true
	case OConst:
		return t.val.Kind() == constant.String
	}
	return isStringType(t.Typ)
}

// mkStr concatenates string terms.
func mkStr(parts ...*Term) *Term {
	var segs []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.Op == OStr {
			for _, s := range p.Args {
				add(s)
			}
			return
		}
		if s, ok := p.strVal(); ok {
			if s == "" {
				return
			}
			if n := len(segs); n > 0 {
				if l, ok := segs[n-1].strVal(); ok {
					segs[n-1] = cString(l + s)
					return
				}
			}
		}
		segs = append(segs, p)
	}
	for _, p := range parts {
		add(p)
	}
	switch {
	case len(segs) == 0:
		return cString("")
	case len(segs) == 1 && segs[0].Op != OEach:
		return segs[0]
	}
	t := mk(OStr, "", 0, nil, segs...)
	t.Typ = types.Typ[types.String]
	return t
}

// strSegs splits a string term into its segments.
func strSegs(t *Term) []*Term {
	if t.Op == OStr {
		return t.Args
	}
	if s, ok := t.strVal(); ok && s == "" {
		return nil
	}
	return []*Term{t}
}

func mkList(ts ...*Term) *Term { return mk(OList, "", 0, nil, ts...) }

func mkAlt(guards, payload []*Term) *Term {
	if len(guards) > 1 {
		guards = append([]*Term(nil), guards...)
		sort.Slice(guards, func(i, j int) bool { return guards[i].id < guards[j].id })
		n := 1
		for _, g := range guards[1:] {
			if g != guards[n-1] {
				guards[n] = g
				n++
			}
		}
		guards = guards[:n]
	}
	return mk(OAlt, "", 0, nil, mkList(guards...), mkList(payload...))
}

func mkField(v *Term, n int, st types.Type) *Term {
	switch v.Op {
	case OStruct:
		return v.Args[n]
	case OZero:
		s := v.Typ.Underlying().(*types.Struct)
		return zeroTerm(s.Field(n).Type())
	case OLoad:
		return mkLoad(mkFieldAddr(v.Args[0], n, v.Typ), fieldType(v.Typ, n))
	}
	t := mk(OField, fieldName(st, n), n, nil, v)
	if t.Typ == nil {
		t.Typ = fieldType(st, n)
	}
	return t
}

func fieldType(t types.Type, n int) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && n < st.NumFields() {
		return st.Field(n).Type()
	}
	return nil
}

// mkFieldAddr builds the address of field n of the struct of type st at p.
func mkFieldAddr(p *Term, n int, st types.Type) *Term {
	t := mk(OFieldAddr, fieldName(st, n), n, nil, p)
	if t.Typ == nil {
		if ft := fieldType(st, n); ft != nil {
			t.Typ = types.NewPointer(ft)
		}
	}
	return t
}

func mkLoad(addr *Term, typ types.Type) *Term {
	t := mk(OLoad, "", 0, nil, addr)
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

func mkLen(x *Term) *Term {
	if s, ok := x.strVal(); ok {
		return cInt(int64(len(s)))
	}
	if x.Op == ONil {
		return cInt(0)
	}
	if x.Op == OConv && (isByteSlice(x.Typ) || isStringType(x.Typ)) && (isStringTerm(x.Args[0]) || isByteSlice(x.Args[0].Typ)) {
		return mkLen(x.Args[0])
	}
	if isCut(x) {
		return mkSub(x.Args[2], x.Args[1])
	}
	t := mk(OLen, "", 0, nil, x)
	if t.Typ == nil {
		t.Typ = types.Typ[types.Int]
	}
	return t
}

// isCut recognises a part of a list that lies in memory the code was given.
func isCut(x *Term) bool {
	if x.Op != OSlice || x.Args[0].Op != OLoad && x.Args[0].Op != OField {
		return false
	}
	t := x.Args[0].Typ
	if t == nil || isByteSlice(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// zeroTerm is the zero value of a type.
func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return cBool(false)
		case u.Info()&types.IsString != 0:
			return cString("")
		case u.Info()&types.IsInteger != 0:
			return cInt(0)
		case u.Info()&types.IsFloat != 0:
			return cVal(constant.MakeFloat64(0), t)
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return theNil
		}
	case *types.Struct:
		if isBuilder(t) {
			return cString("")
		}
		return mk(OZero, "", 0, t)
	case *types.Array:
		return mk(OZero, "", 0, t)
	case *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Interface, *types.Chan:
		return theNil
	}
	return mk(OZero, "", 0, t)
}

// isBuilder reports whether values of type t are modelled by their text.
func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	full := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return full == "strings.Builder" || full == "bytes.Buffer"
}

// subst replaces subterms according to m, rebuilding normal forms.
func (t *Term) subst(m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		changed := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case ONot:
		return mkNot(args[0])
	case OBin:
		switch t.Sym {
		case "==":
			return mkEq(args[0], args[1])
		case "<":
			return mkLt(args[0], args[1])
		case "+":
			return mkAdd(args[0], args[1])
		case "-":
			return mkSub(args[0], args[1])
		}
	case OStr:
		return mkStr(args...)
	case OIndexAddr:
		if args[0].Op == OSlice {
			return mkIndexAddr(args[0], args[1])
		}
	case OField:
		if args[0].Op == OStruct || args[0].Op == OZero || args[0].Op == OLoad {
			return mkField(args[0], t.N, args[0].Typ)
		}
	case OLen:
		return mkLen(args[0])
	case OCall:
		if ss, ok := allStrings(args); ok && len(ss) == 2 {
			switch t.Sym {
			case "Contains":
				return cBool(strings.Contains(ss[0], ss[1]))
			case "ContainsAny":
				return cBool(strings.ContainsAny(ss[0], ss[1]))
			case "HasPrefix":
				return cBool(strings.HasPrefix(ss[0], ss[1]))
			case "HasSuffix":
				return cBool(strings.HasSuffix(ss[0], ss[1]))
			case "EqualFold":
				return cBool(strings.EqualFold(ss[0], ss[1]))
			case "Index":
				return cInt(int64(strings.Index(ss[0], ss[1])))
			case "IndexAny":
				return cInt(int64(strings.IndexAny(ss[0], ss[1])))
			case "Count":
				return cInt(int64(strings.Count(ss[0], ss[1])))
			}
		}
	}
	r := mk(t.Op, t.Sym, t.N, t.Typ, args...)
	if r.Typ == nil {
		r.Typ = t.Typ
	}
	if r.Op == OConst {
		r.val = t.val
	}
	return r
}
