package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) call(fr *Frame, st *State, in *ssa.Call) []alt {
	var args []*Term
	fv := e.value(fr, in.Call.Value)
	for _, a := range in.Call.Args {
		args = append(args, e.value(fr, a))
	}
	return e.callCommon(fr, st, &in.Call, fv, args, in.Pos(), in.Type())
}

func (e *Engine) callCommon(fr *Frame, st *State, c *ssa.CallCommon, fv *Term, args []*Term, pos token.Pos, typ types.Type) []alt {
	if c.IsInvoke() {
		return e.invokeCall(fr, st, fv, c.Method, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, b, c, args, pos, typ)
	}
	return e.callTerm(fr, st, fv, args, pos, c.Signature())
}

func (e *Engine) invokeCall(fr *Frame, st *State, recv *Term, m *types.Func, args []*Term, pos token.Pos) []alt {
	if recv.Op == OIface {
		fn := e.prog.LookupMethod(recv.Typ, m.Pkg(), m.Name())
		if fn == nil {
			e.undecided(pos, "method %s of %s not found", m.Name(), recv.Typ)
		}
		return e.callFn(fr, st, fn, append([]*Term{recv.Args[0]}, args...), nil, pos)
	}
	as, s := e.nilCheck(st, recv, pos, "call of method "+m.Name())
	if s == nil {
		return as
	}
	if e.invoke != nil {
		if os, ok := e.invoke(e, s, recv, m, args, pos); ok {
			return append(as, e.toAlts(os)...)
		}
	}
	if m.Name() == "Error" && len(args) == 0 {
		t := mk(OText, "Error", 0, nil, recv)
		return append(as, alt{st: s, val: t})
	}
	e.undecided(pos, "call of interface method %s on %s", m.FullName(), e.describe(st, recv))
	return nil
}

func (e *Engine) callTerm(fr *Frame, st *State, fv *Term, args []*Term, pos token.Pos, sig *types.Signature) []alt {
	switch fv.Op {
	case OFunc, OClosure:
		if fn := e.funcs[fv.Sym]; fn != nil {
			if m, ok := fn.Object().(*types.Func); ok && len(fn.FreeVars) == 1 && len(fv.Args) == 1 {
				// a method value
				if types.IsInterface(m.Type().(*types.Signature).Recv().Type()) {
					return e.invokeCall(fr, st, fv.Args[0], m, args, pos)
				}
				if f := e.prog.FuncValue(m); f != nil {
					return e.callFn(fr, st, f, append([]*Term{fv.Args[0]}, args...), nil, pos)
				}
			}
			return e.callFn(fr, st, fn, args, fv.Args, pos)
		}
	case ONil:
		return []alt{e.panicAlt(st, "call of nil function", pos)}
	}
	if e.dyncall != nil {
		if os, ok := e.dyncall(e, st, fv, args, pos); ok {
			return e.toAlts(os)
		}
	}
	e.undecided(pos, "call of unknown function value %s", e.describe(st, fv))
	return nil
}

func (e *Engine) toAlts(os []Outcome) []alt {
	var as []alt
	for i := range os {
		o := os[i]
		if o.Panic {
			as = append(as, alt{out: &o})
			continue
		}
		switch len(o.Results) {
		case 0:
			as = append(as, alt{st: o.St})
		case 1:
			as = append(as, alt{st: o.St, val: o.Results[0]})
		default:
			as = append(as, alt{st: o.St, val: mk(OTuple, "", 0, nil, o.Results...)})
		}
	}
	return as
}

// fnName is the full name of a function, without type arguments.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if obj := fn.Object(); obj != nil {
		if f, ok := obj.(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

func fnPkgPath(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
	}
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		return obj.Pkg().Path()
	}
	return ""
}

func (e *Engine) callFn(fr *Frame, st *State, fn *ssa.Function, args, bindings []*Term, pos token.Pos) []alt {
	if e.gather != nil {
		if os, ok := e.gather(e, st, fn, args, bindings, pos); ok {
			return e.toAlts(os)
		}
	}
	if e.contract != nil {
		if os, ok := e.contract(e, st, fn, args, pos); ok {
			return e.toAlts(os)
		}
	}
	if e.inlineOK(fn) && len(fn.Blocks) > 0 {
		if e.onStack(fn) {
			e.undecided(pos, "recursive call of %s", fn)
		}
		saved := e.curFn
		os := e.Call(st, fn, args, bindings)
		e.curFn = saved
		return e.toAlts(os)
	}
	if e.external != nil {
		if os, ok := e.external(e, st, fn, args, pos); ok {
			return e.toAlts(os)
		}
	}
	return e.intrinsic(fr, st, fn, args, pos)
}

func (e *Engine) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, pos token.Pos, typ types.Type) []alt {
	switch b.Name() {
	case "len":
		x := args[0]
		if x.Typ == nil && x.Op != OObj && x.Op != ONil {
			x.Typ = c.Args[0].Type()
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok && x.Op != OObj && x.Op != ONil {
			if len(st.mapLog[x]) > 0 {
				return one(st, mkLen(e.mapVersion(st, x)))
			}
			return one(st, mkLen(x))
		}
		return one(st, e.lenOf(st, x))
	case "cap":
		return one(st, mk(OCap, "", 0, nil, args[0]))
	case "append":
		return one(st, e.appendTo(fr, st, args[0], args[1], c.Args[0].Type(), pos))
	case "copy":
		return e.copyBuiltin(fr, st, args, c, pos)
	case "delete":
		e.mapDelete(fr, st, args[0], args[1], pos)
		return one(st, nil)
	case "clear":
		x := args[0]
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			if x.Op == OObj {
				e.setObj(st, x.N, mk(OMap, "", 0, nil))
			} else if x.Op != ONil {
				st.addEff(&Effect{Kind: "clear", Args: []*Term{x}, Pos: pos, Fn: fr.fn})
				st.mapLog[x] = []*Term{mk(OHole, "cleared", 0, nil)}
			}
			return one(st, nil)
		}
	case "close":
		st.addEff(&Effect{Kind: "close", Args: []*Term{args[0]}, Pos: pos, Fn: fr.fn})
		return one(st, nil)
	case "max", "min":
		all := true
		for _, a := range args {
			if _, ok := a.intVal(); !ok {
				all = false
			}
		}
		if all {
			r, _ := args[0].intVal()
			for _, a := range args[1:] {
				v, _ := a.intVal()
				if b.Name() == "max" && v > r || b.Name() == "min" && v < r {
					r = v
				}
			}
			return one(st, cInt(r))
		}
		t := mk(OCall, b.Name(), 0, nil, args...)
		if t.Typ == nil {
			t.Typ = c.Args[0].Type()
		}
		return one(st, t)
	case "print", "println":
		st.addEff(&Effect{Kind: "call", Name: b.Name(), Args: args, Pos: pos, Fn: fr.fn})
		return one(st, nil)
	case "recover":
		return one(st, theNil)
	case "ssa:wrapnilchk":
		as, s := e.nilCheck(st, args[0], pos, "method value")
		if s == nil {
			return as
		}
		return append(as, alt{st: s, val: args[0]})
	}
	e.undecided(pos, "builtin %s", b.Name())
	return nil
}

func (e *Engine) copyBuiltin(fr *Frame, st *State, args []*Term, c *ssa.CallCommon, pos token.Pos) []alt {
	dst, src := args[0], args[1]
	dl, sl := e.lenOf(st, dst), e.lenOf(st, src)
	if v, ok := dl.intVal(); ok && v == 0 {
		return one(st, cInt(0))
	}
	if dst.Op == OObj && st.heap[dst.N] != nil {
		if dl == sl {
			segs := e.segsOf(st, src)
			if isStringTerm(src) {
				segs = []*Term{mk(OSpread, "", 0, nil, mk(OConv, "", 0, types.NewSlice(types.Typ[types.Byte]), src))}
			}
			e.setObj(st, dst.N, mk(OSeq, "", 0, nil, segs...))
			return one(st, sl)
		}
		e.setObj(st, dst.N, mk(OUpd, "copy", 0, nil, st.heap[dst.N].val, cInt(0), src))
		return one(st, mk(OCall, "min", 0, nil, dl, sl))
	}
	st.addEff(&Effect{Kind: "store", Args: []*Term{mkIndexAddr(dst, mk(OSym, "any", 0, nil)), src}, Pos: pos, Fn: fr.fn, Note: "copy"})
	return one(st, mk(OCall, "min", 0, nil, dl, sl))
}

// ---- library models ----

func text(op string, args ...*Term) *Term {
	t := mk(OText, op, 0, nil, args...)
	if t.Typ == nil {
		t.Typ = types.Typ[types.String]
	}
	return t
}

func allStrings(args []*Term) ([]string, bool) {
	var out []string
	for _, a := range args {
		s, ok := a.strVal()
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

// variadic returns the elements of a variadic argument slice.
func (e *Engine) variadic(st *State, s *Term) ([]*Term, bool) {
	if s.Op == ONil {
		return nil, true
	}
	segs := e.segsOf(st, s)
	for _, x := range segs {
		if x.Op == OEach || x.Op == OSpread || x.Op == ORep {
			return nil, false
		}
	}
	return segs, true
}

var padSpec = regexp.MustCompile(`^(-?)(\*|[1-9]\d*)$`)

// format models Sprintf.
func (e *Engine) format(st *State, f string, args []*Term) *Term {
	var parts []*Term
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, cString(f[i:]))
			break
		}
		parts = append(parts, cString(f[i:i+j]))
		i += j + 1
		k := i
		for k < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			parts = append(parts, cString("%!(NOVERB)"))
			break
		}
		spec, verb := f[i:k], f[k]
		i = k + 1
		if verb == '%' && spec == "" {
			parts = append(parts, cString("%"))
			continue
		}
		if m := padSpec.FindStringSubmatch(spec); m != nil && (verb == 's' || verb == 'v') {
			var width *Term
			w := n
			if m[2] == "*" && n < len(args) && args[n].Op == OIface && isIntType(args[n].Typ) {
				width, w = args[n].Args[0], n+1
			} else if k, err := strconv.Atoi(m[2]); err == nil {
				width = cInt(int64(k))
			}
			if width != nil && w < len(args) {
				left := m[1] == "-"
				a := e.formatArg(st, "", verb, args[w])
				if ok := a.Op != OText || !strings.HasPrefix(a.Sym, "%"); ok && (left || e.eval(st, mkLt(width, cInt(0))) == 0) {
					by := mk(OCall, "missing", 0, nil, width, a)
					by.Typ = types.Typ[types.Int]
					pad := text("Repeat", cString(" "), by)
					if left {
						parts = append(parts, a, pad)
					} else {
						parts = append(parts, pad, a)
					}
					n = w + 1
					continue
				}
			}
		}
		if strings.ContainsAny(spec, "[]*") {
			return text("Sprintf", append([]*Term{cString(f)}, args...)...)
		}
		if n >= len(args) {
			parts = append(parts, cString("%!"+string(verb)+"(MISSING)"))
			continue
		}
		parts = append(parts, e.formatArg(st, spec, verb, args[n]))
		n++
	}
	if n < len(args) {
		parts = append(parts, cString("%!(EXTRA)"))
	}
	return mkStr(parts...)
}

func (e *Engine) formatArg(st *State, spec string, verb byte, a *Term) *Term {
	if a.Op == OIface && spec == "" {
		t := a.Typ
		if isStringType(t) && (verb == 's' || verb == 'v') && !hasMethod(t, "String") && !hasMethod(t, "Error") {
			return a.Args[0]
		}
		if isIntType(t) && (verb == 'd' || verb == 'v') && !hasMethod(t, "String") && !hasMethod(t, "Error") {
			if k, ok := a.Args[0].intVal(); ok {
				return cString(strconv.FormatInt(k, 10))
			}
			return text("int", a.Args[0])
		}
		if isBoolType(t) && (verb == 't' || verb == 'v') {
			return text("FormatBool", a.Args[0])
		}
		if isByteSlice(t) && verb == 's' {
			return e.bytesToString(st, a.Args[0])
		}
		if isIntType(t) && verb == 'c' {
			return e.convert(st, a.Args[0], t, types.Typ[types.String])
		}
	}
	return text("%"+spec+string(verb), a)
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// builderOf returns the address of the text a writer accumulates.
func (e *Engine) builderOf(w *Term) *Term {
	if w.Op == OIface {
		if p, ok := w.Typ.Underlying().(*types.Pointer); ok && isBuilder(p.Elem()) {
			return w.Args[0]
		}
	}
	return nil
}

func (e *Engine) appendText(fr *Frame, st *State, addr, s *Term, pos token.Pos) {
	old := e.load(st, addr, types.Typ[types.String])
	e.store(fr, st, addr, mkStr(old, s), pos)
}

func (e *Engine) write(fr *Frame, st *State, w, s *Term, name string, pos token.Pos) []alt {
	if b := e.builderOf(w); b != nil {
		e.appendText(fr, st, b, s, pos)
		return one(st, mk(OTuple, "", 0, nil, mkLen(s), theNil))
	}
	e.callN++
	st.addEff(&Effect{Kind: "call", Name: name, Args: []*Term{w, s}, Pos: pos, Fn: fr.fn})
	return one(st, mk(OTuple, "", 0, nil, mk(OExtract, "", 0, nil, mk(OCall, name, e.callN, nil, w, s)), mk(OExtract, "", 1, nil, mk(OCall, name, e.callN, nil, w, s))))
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "path": true,
	"errors": true, "bytes": true, "cmp": true, "path/filepath": true, "reflect": true, "regexp": true,
	"github.com/alecthomas/repr": true,
}

func (e *Engine) pure(st *State, fn *ssa.Function, args []*Term) []alt {
	name := fnName(fn)
	res := fn.Signature.Results()
	t := mk(OCall, name, 0, nil, args...)
	switch res.Len() {
	case 0:
		return one(st, nil)
	case 1:
		if isStringType(res.At(0).Type()) {
			return one(st, text(name, args...))
		}
		if t.Typ == nil {
			t.Typ = res.At(0).Type()
		}
		return one(st, t)
	}
	var rs []*Term
	for i := 0; i < res.Len(); i++ {
		x := mk(OExtract, "", i, nil, t)
		if x.Typ == nil {
			x.Typ = res.At(i).Type()
		}
		rs = append(rs, x)
	}
	return one(st, mk(OTuple, "", 0, nil, rs...))
}

// join models strings.Join.
func (e *Engine) join(st *State, list, sep *Term) *Term {
	segs := e.segsOf(st, list)
	if sv, ok := sep.strVal(); ok && sv == "" {
		var parts []*Term
		for _, s := range segs {
			switch s.Op {
			case OSpread:
				b := mk(OIdx, "", 0, nil, s.Args[0])
				b.Typ = types.Typ[types.Int]
				parts = append(parts, mkEach(b, []*Term{mkAlt(nil, []*Term{mkLoad(mkIndexAddr(s.Args[0], b), types.Typ[types.String])})}))
			case ORep:
				return text("Join", mk(OSeq, "", 0, nil, segs...), sep)
			default:
				parts = append(parts, s)
			}
		}
		return mkStr(parts...)
	}
	plain := true
	for _, s := range segs {
		if s.Op == OSpread || s.Op == OEach || s.Op == ORep {
			plain = false
		}
	}
	if plain {
		var parts []*Term
		for i, s := range segs {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, s)
		}
		return mkStr(parts...)
	}
	if len(segs) == 1 {
		var b *Term
		var item []*Term
		switch s := segs[0]; s.Op {
		case OSpread:
			b = mk(OIdx, "", 0, nil, s.Args[0])
			b.Typ = types.Typ[types.Int]
			item = []*Term{mkLoad(mkIndexAddr(s.Args[0], b), types.Typ[types.String])}
		case OEach:
			if s.Args[0].Op == OIdx && s.Args[0].Sym == "" && len(s.Args) == 2 && len(s.Args[1].Args[0].Args) == 0 && len(s.Args[1].Args[1].Args) == 1 {
				b, item = s.Args[0], s.Args[1].Args[1].Args
			}
		}
		if b != nil {
			first := mkLt(b, cInt(1))
			sepd := strSegs(mkStr(append([]*Term{sep}, item...)...))
			return mkStr(mkEach(b, []*Term{mkAlt([]*Term{first}, strSegs(mkStr(item...))), mkAlt([]*Term{mkNot(first)}, sepd)}))
		}
	}
	return text("Join", mk(OSeq, "", 0, nil, segs...), sep)
}

func (e *Engine) exitOutcome(st *State, pos token.Pos, why string) []alt {
	return []alt{{out: &Outcome{Panic: true, Reason: "exit: " + why, St: st, Pos: pos}}}
}

func (e *Engine) intrinsic(fr *Frame, st *State, fn *ssa.Function, args []*Term, pos token.Pos) []alt {
	name := fnName(fn)
	switch name {
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		e.appendText(fr, st, args[0], args[1], pos)
		return one(st, mk(OTuple, "", 0, nil, mkLen(args[1]), theNil))
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		e.appendText(fr, st, args[0], e.bytesToString(st, args[1]), pos)
		return one(st, mk(OTuple, "", 0, nil, e.lenOf(st, args[1]), theNil))
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		s := mk(OConv, "", 0, types.Typ[types.String], args[1])
		if k, ok := args[1].intVal(); ok {
			s = cString(string([]byte{byte(k)}))
		}
		e.appendText(fr, st, args[0], s, pos)
		return one(st, theNil)
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		s := e.convert(st, args[1], types.Typ[types.Rune], types.Typ[types.String])
		e.appendText(fr, st, args[0], s, pos)
		return one(st, mk(OTuple, "", 0, nil, mkLen(s), theNil))
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return one(st, e.load(st, args[0], types.Typ[types.String]))
	case "(*bytes.Buffer).Bytes":
		return one(st, mk(OConv, "", 0, types.NewSlice(types.Typ[types.Byte]), e.load(st, args[0], types.Typ[types.String])))
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return one(st, e.lenTerm(st, e.load(st, args[0], types.Typ[types.String])))
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		e.store(fr, st, args[0], cString(""), pos)
		return one(st, nil)
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return one(st, nil)
	case "bytes.NewBufferString":
		return one(st, e.newObj(st, 'c', fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), args[0], pos))
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Fprintf", "fmt.Printf", "fmt.Appendf":
		i := 0
		if name == "fmt.Fprintf" || name == "fmt.Appendf" {
			i = 1
		}
		vs, ok := e.variadic(st, args[i+1])
		f, isC := args[i].strVal()
		if name == "fmt.Errorf" {
			if !ok {
				vs = []*Term{args[i+1]}
			}
			e.callN++
			t := mk(OCall, name, 0, nil, append([]*Term{args[i]}, vs...)...)
			if t.Typ == nil {
				t.Typ = fn.Signature.Results().At(0).Type()
			}
			return one(st, t)
		}
		var s *Term
		if ok && isC {
			s = e.format(st, f, vs)
		} else if ok {
			s = text("Sprintf", append([]*Term{args[i]}, vs...)...)
		} else {
			s = text("Sprintf", args[i], e.frozen(st, args[i+1]))
		}
		switch name {
		case "fmt.Sprintf":
			return one(st, s)
		case "fmt.Appendf":
			return one(st, e.appendTo(fr, st, args[0], s, args[0].Typ, pos))
		case "fmt.Printf":
			return e.write(fr, st, mk(OGlobal, "os.Stdout", 0, nil), s, name, pos)
		}
		return e.write(fr, st, args[0], s, name, pos)
	case "fmt.Sprint", "fmt.Sprintln", "fmt.Fprint", "fmt.Fprintln", "fmt.Print", "fmt.Println":
		i := 0
		if strings.HasPrefix(name, "fmt.F") {
			i = 1
		}
		var s *Term
		vs, ok := e.variadic(st, args[i])
		if ok {
			var parts []*Term
			for j, v := range vs {
				p := e.formatArg(st, "", 'v', v)
				isS := v.Op == OIface && isStringType(v.Typ)
				if j > 0 {
					prevS := vs[j-1].Op == OIface && isStringType(vs[j-1].Typ)
					if strings.HasSuffix(name, "ln") || !isS && !prevS {
						parts = append(parts, cString(" "))
					}
				}
				parts = append(parts, p)
			}
			if strings.HasSuffix(name, "ln") {
				parts = append(parts, cString("\n"))
			}
			s = mkStr(parts...)
		} else {
			s = text(name, e.frozen(st, args[i]))
		}
		if strings.HasPrefix(name, "fmt.S") {
			return one(st, s)
		}
		if i == 0 {
			return e.write(fr, st, mk(OGlobal, "os.Stdout", 0, nil), s, name, pos)
		}
		return e.write(fr, st, args[0], s, name, pos)
	case "io.WriteString":
		return e.write(fr, st, args[0], args[1], name, pos)
	case "strings.Split", "strings.SplitAfter", "strings.SplitN", "strings.Fields":
		c := e.typed(mk(OCall, name, 0, nil, args...), fn)
		return one(st, e.newSlice(st, c.Typ, []*Term{mk(OSpread, "", 0, nil, c)}, false, pos))
	case "strings.Join":
		return one(st, e.join(st, args[0], args[1]))
	case "strings.Repeat", "bytes.Repeat":
		neg := mkLt(args[1], cInt(0))
		var as []alt
		switch e.eval(st, neg) {
		case 1:
			return []alt{e.panicAlt(st, "strings.Repeat with negative count "+args[1].String(), pos)}
		case -1:
			st2 := st.clone()
			if e.assume(st2, neg, true) {
				as = append(as, e.panicAlt(st2, "strings.Repeat with possibly negative count "+args[1].String(), pos))
			}
			e.assume(st, neg, false)
		}
		if s, ok := args[0].strVal(); ok {
			if k, ok := args[1].intVal(); ok && k < 1000 {
				return append(as, alt{st: st, val: cString(strings.Repeat(s, int(k)))})
			}
		}
		return append(as, alt{st: st, val: text("Repeat", args[0], args[1])})
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimRight", "strings.TrimLeft", "strings.Trim", "strings.TrimSpace", "strings.ReplaceAll", "strings.ToLower", "strings.ToUpper":
		if ss, ok := allStrings(args); ok {
			switch name {
			case "strings.TrimPrefix":
				return one(st, cString(strings.TrimPrefix(ss[0], ss[1])))
			case "strings.TrimSuffix":
				return one(st, cString(strings.TrimSuffix(ss[0], ss[1])))
			case "strings.TrimRight":
				return one(st, cString(strings.TrimRight(ss[0], ss[1])))
			case "strings.TrimLeft":
				return one(st, cString(strings.TrimLeft(ss[0], ss[1])))
			case "strings.Trim":
				return one(st, cString(strings.Trim(ss[0], ss[1])))
			case "strings.TrimSpace":
				return one(st, cString(strings.TrimSpace(ss[0])))
			case "strings.ReplaceAll":
				return one(st, cString(strings.ReplaceAll(ss[0], ss[1], ss[2])))
			case "strings.ToLower":
				return one(st, cString(strings.ToLower(ss[0])))
			case "strings.ToUpper":
				return one(st, cString(strings.ToUpper(ss[0])))
			}
		}
		return one(st, text(strings.TrimPrefix(name, "strings."), args...))
	case "strings.Replace":
		if k, ok := args[3].intVal(); ok && k < 0 {
			return one(st, text("ReplaceAll", args[:3]...))
		}
		return one(st, text("Replace", args...))
	case "strings.Clone":
		return one(st, args[0])
	case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny", "strings.IndexByte", "strings.Index", "strings.IndexAny", "strings.HasPrefix", "strings.HasSuffix", "strings.Count", "strings.EqualFold":
		if ss, ok := allStrings(args); ok {
			switch name {
			case "strings.Contains":
				return one(st, cBool(strings.Contains(ss[0], ss[1])))
			case "strings.ContainsAny":
				return one(st, cBool(strings.ContainsAny(ss[0], ss[1])))
			case "strings.HasPrefix":
				return one(st, cBool(strings.HasPrefix(ss[0], ss[1])))
			case "strings.HasSuffix":
				return one(st, cBool(strings.HasSuffix(ss[0], ss[1])))
			case "strings.Index":
				return one(st, cInt(int64(strings.Index(ss[0], ss[1]))))
			case "strings.Count":
				return one(st, cInt(int64(strings.Count(ss[0], ss[1]))))
			case "strings.EqualFold":
				return one(st, cBool(strings.EqualFold(ss[0], ss[1])))
			}
		}
		n := strings.TrimPrefix(name, "strings.")
		a := append([]*Term(nil), args...)
		// one spelling for "contains this character"
		switch n {
		case "ContainsRune", "IndexByte":
			if k, ok := a[1].intVal(); ok {
				a[1] = cString(string(rune(k)))
				if n == "ContainsRune" {
					n = "Contains"
				} else {
					n = "Index"
				}
			}
		case "ContainsAny", "IndexAny":
			if s, ok := a[1].strVal(); ok && len(s) == 1 {
				n = map[string]string{"ContainsAny": "Contains", "IndexAny": "Index"}[n]
			}
		}
		t := mk(OCall, n, 0, nil, a...)
		if t.Typ == nil {
			t.Typ = fn.Signature.Results().At(0).Type()
		}
		if n == "Index" {
			// Index(s, x) >= 0 is Contains(s, x)
			st.setLo(t, -1)
		}
		return one(st, t)
	case "strconv.FormatBool":
		if b, ok := args[0].boolVal(); ok {
			return one(st, cString(strconv.FormatBool(b)))
		}
		return one(st, text("FormatBool", args[0]))
	case "strconv.ParseBool":
		if s, ok := args[0].strVal(); ok {
			if b, err := strconv.ParseBool(s); err == nil {
				return one(st, mk(OTuple, "", 0, nil, cBool(b), theNil))
			}
		}
		return e.pure(st, fn, args)
	case "strconv.Itoa":
		if k, ok := args[0].intVal(); ok {
			return one(st, cString(strconv.Itoa(int(k))))
		}
		return one(st, text("int", args[0]))
	case "strconv.Quote":
		if s, ok := args[0].strVal(); ok {
			return one(st, cString(strconv.Quote(s)))
		}
		return one(st, text("Quote", args[0]))
	case "errors.New":
		return one(st, e.typed(mk(OCall, name, 0, nil, args...), fn))
	case "reflect.ValueOf":
		return one(st, e.typed(mk(OCall, name, 0, nil, args...), fn))
	case "(reflect.Value).IsZero":
		if v := args[0]; v.Op == OCall && v.Sym == "reflect.ValueOf" && v.Args[0].Op == OIface {
			x := v.Args[0]
			return one(st, mkEq(x.Args[0], zeroTerm(x.Typ)))
		}
	case "regexp.MustCompile":
		if s, ok := args[0].strVal(); ok {
			return one(st, e.typed(mk(OCall, name, 0, nil, cString(s)), fn))
		}
	case "regexp.QuoteMeta":
		if s, ok := args[0].strVal(); ok {
			return one(st, cString(regexp.QuoteMeta(s)))
		}
		return e.pure(st, fn, args)
	case "(*regexp.Regexp).FindStringSubmatch":
		t := e.typed(mk(OCall, name, 0, nil, e.regexOf(st, args[0]), args[1]), fn)
		st2 := st.clone()
		var as []alt
		if e.assume(st2, mkEq(t, theNil), true) {
			as = append(as, alt{st: st2, val: t})
		}
		if e.assume(st, mkEq(t, theNil), false) {
			if n := e.regexGroups(t.Args[0]); n >= 0 {
				st.setLo(mkLen(t), int64(n+1))
				st.setHi(mkLen(t), int64(n+1))
			}
			as = append(as, alt{st: st, val: t})
		}
		return as
	case "math/big.NewFloat":
		return one(st, e.newObj(st, 'c', fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), mk(OCall, "big.const", 0, nil, args[0]), pos))
	case "(*math/big.Float).Copy":
		as, s := e.nilCheck(st, args[1], pos, "big.Float copy")
		if s == nil {
			return as
		}
		e.store(fr, s, args[0], bigCopy(e.load(s, args[1], bigFloatType(fn)), bigFloatType(fn)), pos)
		return append(as, alt{st: s, val: args[0]})
	case "(*math/big.Float).Set":
		as, s := e.nilCheck(st, args[1], pos, "big.Float set")
		if s == nil {
			return as
		}
		old := e.load(s, args[0], bigFloatType(fn))
		v := bigCopy(e.load(s, args[1], bigFloatType(fn)), bigFloatType(fn))
		if old.Op != OZero {
			v = mk(OCall, "big.rounded", 0, nil, old, v)
		}
		e.store(fr, s, args[0], v, pos)
		return append(as, alt{st: s, val: args[0]})
	case "(*math/big.Float).Parse", "(*math/big.Float).SetString":
		old := e.load(st, args[0], bigFloatType(fn))
		v := mk(OCall, "big.parse", 0, nil, append([]*Term{old}, args[1:]...)...)
		e.store(fr, st, args[0], v, pos)
		var rs []*Term
		rs = append(rs, args[0])
		res := fn.Signature.Results()
		for i := 1; i < res.Len(); i++ {
			x := mk(OExtract, "", i, nil, mk(OCall, name, 0, nil, append([]*Term{old}, args[1:]...)...))
			if x.Typ == nil {
				x.Typ = res.At(i).Type()
			}
			rs = append(rs, x)
		}
		return one(st, mk(OTuple, "", 0, nil, rs...))
	case "(*math/big.Float).SetPrec", "(*math/big.Float).SetMode":
		old := e.load(st, args[0], bigFloatType(fn))
		v := mk(OCall, "big."+fn.Name(), 0, nil, old, args[1])
		e.store(fr, st, args[0], v, pos)
		return one(st, args[0])
	case "(*math/big.Float).IsInf", "(*math/big.Float).IsInt", "(*math/big.Float).Sign", "(*math/big.Float).Signbit", "(*math/big.Float).Prec", "(*math/big.Float).MinPrec", "(*math/big.Float).Acc", "(*math/big.Float).Mode":
		as, s := e.nilCheck(st, args[0], pos, "big.Float")
		if s == nil {
			return as
		}
		t := mk(OCall, "big."+fn.Name(), 0, nil, e.load(s, args[0], bigFloatType(fn)))
		if t.Typ == nil {
			t.Typ = fn.Signature.Results().At(0).Type()
		}
		return append(as, alt{st: s, val: t})
	case "(*math/big.Float).String", "(*math/big.Float).Text":
		return one(st, text("big."+fn.Name(), append([]*Term{e.load(st, args[0], bigFloatType(fn))}, args[1:]...)...))
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf":
		var a []*Term
		for _, x := range args {
			if vs, ok := e.variadic(st, x); ok && x.Op == OObj {
				a = append(a, vs...)
			} else {
				a = append(a, x)
			}
		}
		st.addEff(&Effect{Kind: "call", Name: name, Args: a, Pos: pos, Fn: fr.fn})
		return e.exitOutcome(st, pos, name)
	case "(*sync.Once).Do":
		// Either the function runs now or it has run before, leaving the
		// same state behind.
		return e.callTerm(fr, st, args[1], nil, pos, nil)
	case "io.ReadAll", "io/ioutil.ReadAll":
		// The whole input, or an error.
		st.addEff(&Effect{Kind: "call", Name: "io.ReadAll", Args: args, Pos: pos, Fn: fr.fn})
		v := mk(OCall, "io.ReadAll", 0, nil, args...)
		rs := []*Term{mk(OExtract, "", 0, nil, v), mk(OExtract, "", 1, nil, v)}
		for i, x := range rs {
			if x.Typ == nil {
				x.Typ = fn.Signature.Results().At(i).Type()
			}
		}
		return one(st, mk(OTuple, "", 0, nil, rs...))
	case "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bufio.NewReader", "bufio.NewReaderSize":
		t := mk(OCall, name, 0, nil, args...)
		if t.Typ == nil {
			t.Typ = fn.Signature.Results().At(0).Type()
		}
		st.facts.b[mkEq(t, theNil)] = false
		return one(st, t)
	case "maps.Copy":
		return e.mapsCopy(fr, st, args[0], args[1], pos)
	case "maps.Clone":
		if args[0].Op == ONil {
			return one(st, theNil)
		}
		t := fn.Signature.Results().At(0).Type()
		m := e.newObj(st, 'm', t, mk(OMap, "", 0, nil), pos)
		return e.mapsCopyTo(fr, st, m, args[0], pos, m)
	case "sort.Strings", "sort.Slice", "sort.SliceStable", "slices.Sort", "sort.Ints", "slices.SortFunc", "slices.Reverse", "slices.SortStableFunc":
		x := args[0]
		if x.Op == OIface {
			x = x.Args[0]
		}
		if x.Op == OObj && st.heap[x.N] != nil {
			e.setObj(st, x.N, mk(OSeq, "", 0, nil, mk(OSpread, "", 0, nil, mk(OCall, name, 0, nil, st.heap[x.N].val))))
		} else if x.Op != ONil {
			st.addEff(&Effect{Kind: "store", Args: []*Term{mkIndexAddr(x, mk(OSym, "any", 0, nil)), x}, Pos: pos, Fn: fr.fn, Note: name})
		}
		return one(st, nil)
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		st.addEff(&Effect{Kind: "lock", Name: fn.Name(), Args: args, Pos: pos, Fn: fr.fn})
		return one(st, nil)
	}
	path := fnPkgPath(fn)
	if purePkgs[path] {
		// methods with pointer receivers of these packages may mutate
		if recv := fn.Signature.Recv(); recv != nil && path != "regexp" {
			if _, ok := recv.Type().(*types.Pointer); ok {
				e.undecided(pos, "library method %s is not modelled", name)
			}
		}
		var fz []*Term
		for _, a := range args {
			fz = append(fz, e.frozen(st, a))
		}
		return e.pure(st, fn, fz)
	}
	e.undecided(pos, "library function %s is not modelled", name)
	return nil
}

func bigFloatType(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		if p, ok := r.Type().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

func (e *Engine) typed(t *Term, fn *ssa.Function) *Term {
	if t.Typ == nil {
		t.Typ = fn.Signature.Results().At(0).Type()
	}
	return t
}

// frozen replaces a local object by its contents.
func (e *Engine) frozen(st *State, t *Term) *Term {
	if t.Op == OObj {
		if o := st.heap[t.N]; o != nil {
			return o.val
		}
	}
	return t
}

// regexOf resolves a package-level compiled expression to its pattern.
func (e *Engine) regexOf(st *State, t *Term) *Term {
	if t.Op == OLoad && t.Args[0].Op == OGlobal && e.globalInit != nil {
		if v := e.globalInit(t.Args[0].Sym); v != nil {
			return v
		}
	}
	return t
}

func (e *Engine) regexGroups(t *Term) int {
	if t.Op == OCall && t.Sym == "regexp.MustCompile" {
		if s, ok := t.Args[0].strVal(); ok {
			return countGroups(s)
		}
	}
	return -1
}

func (e *Engine) mapsCopy(fr *Frame, st *State, dst, src *Term, pos token.Pos) []alt {
	return e.mapsCopyTo(fr, st, dst, src, pos, nil)
}

func (e *Engine) mapsCopyTo(fr *Frame, st *State, dst, src *Term, pos token.Pos, ret *Term) []alt {
	es := e.mapEntries(st, src)
	for _, y := range es {
		switch y.Op {
		case OIns:
			e.mapUpdate(fr, st, dst, y.Args[0], y.Args[1], pos)
		case OBase, OEach:
			var each *Term
			if y.Op == OEach {
				each = y
			} else {
				k := mk(OKey, "", 0, nil, y.Args[0])
				v := mk(OLookup, "", 0, nil, y.Args[0], k)
				if mt, ok := src.Typ.(*types.Map); ok {
					k.Typ, v.Typ = mt.Key(), mt.Elem()
				}
				each = mk(OEach, "", 0, nil, k, mkAlt(nil, []*Term{mk(OIns, "", 0, nil, k, v)}))
			}
			if dst.Op == OObj {
				e.setObj(st, dst.N, mk(OMap, "", 0, nil, append(append([]*Term(nil), st.heap[dst.N].val.Args...), each)...))
			} else {
				st.mapLog[dst] = append(st.mapLog[dst], each)
				var alts []EffAlt
				for _, a := range each.Args[1:] {
					ea := EffAlt{}
					for _, g := range a.Args[0].Args {
						ea.Guards = append(ea.Guards, asCond(g))
					}
					for _, in := range a.Args[1].Args {
						ea.Effs = append(ea.Effs, &Effect{Kind: "mapset", Args: []*Term{dst, in.Args[0], in.Args[1]}, Pos: pos, Fn: fr.fn})
					}
					alts = append(alts, ea)
				}
				st.addEff(&Effect{Kind: "each", Binder: each.Args[0], Alts: alts, Pos: pos, Fn: fr.fn})
			}
		default:
			e.undecided(pos, "copy of a modified map")
		}
	}
	return one(st, ret)
}

var _ = fmt.Sprint

// bigCopy is the contents of a number after an exact copy into fresh storage.
func bigCopy(v *Term, typ types.Type) *Term {
	if v.Op != OLoad {
		return v
	}
	t := mk(OCall, "big.copy", 0, nil, v)
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}
