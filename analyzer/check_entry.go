package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["E01"] = withLex(checkTreeOrError)
	checks["E02"] = withLex(checkSameParse)
	checks["E16"] = withLex(checkShared)
	checks["L01"] = checkMain
}

var entryNames = []string{"Parse", "ParseString", "ParseBytes"}

// failures lists the error values the calls on a path can return.
func failures(st *State) []*Term {
	var out []*Term
	n := 0
	for _, f := range st.effs {
		if f.Kind != "call" {
			continue
		}
		switch {
		case f.Name == "io.ReadAll":
			out = append(out, mk(OExtract, "", 1, nil, mk(OCall, f.Name, 0, nil, f.Args...)))
		case f.Ret != nil:
			out = append(out, f.Ret)
		}
		n++
	}
	return out
}

// parts of a format that wrap their argument
var verbRe = regexp.MustCompile(`%[-+# 0-9.*\[\]]*([a-zA-Z%])`)

// wraps reports whether the cause c can be recovered from the error t.
func (e *Engine) wraps(st *State, t, c *Term, depth int) bool {
	if t == c {
		return true
	}
	if depth > 6 {
		return false
	}
	switch t.Op {
	case OIface:
		if t.Args[0] == c {
			return true
		}
		fn := e.prog.LookupMethod(t.Typ, nil, "Unwrap")
		if fn == nil {
			return false
		}
		st2 := st.clone()
		os := e.callNoFail(st2, fn, []*Term{t.Args[0]})
		if len(os) == 0 {
			return false
		}
		for _, o := range os {
			if o.Panic || len(o.Results) != 1 || !e.wraps(o.St, o.Results[0], c, depth+1) {
				return false
			}
		}
		return true
	case OCall:
		switch t.Sym {
		case "fmt.Errorf":
			f, ok := t.Args[0].strVal()
			if !ok {
				return false
			}
			i := 0
			for _, v := range verbRe.FindAllStringSubmatch(f, -1) {
				if v[1] == "%" {
					continue
				}
				i++
				if v[1] == "w" && i < len(t.Args) && e.wraps(st, t.Args[i], c, depth+1) {
					return true
				}
			}
		case "errors.Join":
			for _, a := range t.Args {
				if e.wraps(st, a, c, depth+1) {
					return true
				}
				if a.Op == OSeq {
					for _, x := range a.Args {
						if e.wraps(st, x, c, depth+1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// callNoFail calls a function, giving no outcomes when it cannot be decided.
func (e *Engine) callNoFail(st *State, fn *ssa.Function, args []*Term) (outs []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*Undecided); ok {
				outs = nil
				return
			}
			panic(r)
		}
	}()
	return e.Call(st, fn, args, nil)
}

func checkTreeOrError(r *Report, l *LexModel) {
	r.rule = "Every path of the three entry points is enumerated with the parser library's answer and every read as unknowns: a path on which some call failed must return no tree and an error from which that failure can be unwrapped (%w, errors.Join, Unwrap methods); a path on which all calls succeeded and the parser ran must return the parsed tree and no error; no path may ignore an error."
	for _, n := range entryNames {
		run := l.Parse[n]
		r.covers(run.e)
		r.count("entry points", 1)
		sawOK, sawErr := false, false
		for _, o := range run.outs {
			r.paths++
			if o.Panic {
				r.ob(false, "panic:"+n, o.Pos, "%s panics: %s", n, o.Reason)
				continue
			}
			if !r.ob(len(o.Results) == 2, "results:"+n, o.Pos, "%s does not return a tree and an error", n) {
				continue
			}
			tree := run.e.eval(o.St, mkEq(o.Results[0], theNil))
			err := run.e.eval(o.St, mkEq(o.Results[1], theNil))
			fails := failures(o.St)
			parsed := 0
			for _, f := range o.St.effs {
				if f.Kind == "call" && isParseCall(f.Name) {
					parsed++
				}
			}
			var failed *Term
			open := false
			for _, f := range fails {
				switch run.e.eval(o.St, mkEq(f, theNil)) {
				case 0:
					failed = f
				case -1:
					open = true
				}
			}
			if open && failed == nil {
				// handed on unseen: the result must be that very error
				if len(fails) == 1 && o.Results[1] == fails[0] && tree == 1 {
					sawErr = true
					continue
				}
				r.ob(false, "ignored:"+n, o.Pos, "%s returns without looking at an error (%s)", n, effList(o.St.effs))
				continue
			}
			if failed != nil {
				sawErr = true
				r.ob(tree == 1, "tree:"+n, o.Pos, "%s returns %s beside an error", n, o.Results[0])
				r.ob(err == 0, "swallowed:"+n, o.Pos, "%s fails but returns %s as its error", n, o.Results[1])
				r.ob(run.e.wraps(o.St, o.Results[1], failed, 0), "cause:"+n, o.Pos, "the cause cannot be unwrapped from the error %s returns: %s", n, o.Results[1])
				continue
			}
			sawOK = true
			r.ob(parsed > 0, "unparsed:"+n, o.Pos, "%s returns without parsing", n)
			r.ob(tree == 0, "notree:"+n, o.Pos, "%s succeeds but returns %s", n, o.Results[0])
			r.ob(err == 1, "error:"+n, o.Pos, "%s returns the error %s although nothing failed", n, o.Results[1])
		}
		r.ob(sawOK, "success:"+n, run.fn.Pos(), "%s can never succeed", n)
		r.ob(sawErr, "failure:"+n, run.fn.Pos(), "%s can never fail", n)
	}
	r.floor("entry points", 3)
	r.assume = append(r.assume, "the parser library reports every lexing, parsing and reading failure through its error")
}

// wholeInput reports whether a term stands for all of the caller's input.
func wholeInput(t, in *Term) bool {
	if t == in {
		return true
	}
	switch t.Op {
	case OConv, OIface:
		return wholeInput(t.Args[0], in)
	case OExtract:
		return t.N == 0 && t.Args[0].Op == OCall && t.Args[0].Sym == "io.ReadAll" && wholeInput(t.Args[0].Args[0], in)
	case OSpread:
		return wholeInput(t.Args[0], in)
	case OSeq, OStr:
		return len(t.Args) == 1 && wholeInput(t.Args[0], in)
	case OCall:
		switch t.Sym {
		case "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "bufio.NewReader", "bufio.NewReaderSize", "strings.Clone", "bytes.Clone", "slices.Clone":
			return wholeInput(t.Args[0], in)
		}
	case OText:
		return t.Sym == "strings.Clone" && wholeInput(t.Args[0], in)
	}
	return false
}

var freshRe = regexp.MustCompile(`\$\d+`)

func plain(s string) string { return freshRe.ReplaceAllString(s, "") }

func checkSameParse(r *Report, l *LexModel) {
	r.rule = "The summaries of the three entry points are compared: on every path that parses, the parser value (grammar type, token rules, options), the file name, the parse options, the tree handed over, everything done to the tree afterwards and the error built on failure must be equal terms, and the input handed to the parser must be the caller's whole input, converted at most."
	type sig struct{ parser, name, opts, tree, post, fail string }
	var first *sig
	firstName := ""
	for _, n := range entryNames {
		run := l.Parse[n]
		r.covers(run.e)
		r.count("entry points", 1)
		var s sig
		set := func(dst *string, v, what string, o Outcome) {
			if *dst == "" {
				*dst = v
				return
			}
			r.ob(*dst == v, what+":"+n, o.Pos, "%s uses a different %s on some inputs: %.160s and %.160s", n, what, *dst, v)
		}
		for _, o := range run.outs {
			r.paths++
			if o.Panic || len(o.Results) != 2 {
				continue
			}
			var call *Effect
			var post []*Effect
			for _, f := range o.St.effs {
				if f.Kind == "call" && isParseCall(f.Name) {
					r.ob(call == nil, "twice:"+n, f.Pos, "%s parses twice", n)
					call = f
					post = nil
					continue
				}
				if f.Kind == "call" && f.Name == "io.ReadAll" {
					continue
				}
				post = append(post, f)
			}
			ok := run.e.eval(o.St, mkEq(o.Results[1], theNil))
			if call == nil {
				fs := failures(o.St)
				r.ob(ok == 0 && len(fs) > 0, "unparsed:"+n, o.Pos, "%s answers without parsing", n)
				continue
			}
			k := len(call.Args)
			if !r.ob(k >= 4, "call:"+n, call.Pos, "%s calls %s, which is not analysed", n, call.Name) {
				continue
			}
			in := mk(OSym, run.fn.Params[0].Name(), 0, run.fn.Params[0].Type())
			r.ob(wholeInput(call.Args[k-3], in), "input:"+n, call.Pos, "%s hands %.120s to the parser instead of its whole input", n, call.Args[k-3])
			set(&s.parser, plain(call.Args[0].String()), "parser", o)
			set(&s.name, plain(call.Args[k-4].String()), "file name", o)
			set(&s.opts, plain(call.Args[k-1].String()), "parse options", o)
			if call.Before != nil {
				set(&s.tree, plain(call.Before.String()), "initial tree", o)
			}
			if ok == 1 {
				p := effList(post)
				if v := o.Results[0]; v.Op == OObj && o.St.heap[v.N] != nil {
					p += " -> " + run.e.deepFrozen(o.St, v).String()
				} else {
					p += " -> " + v.String()
				}
				set(&s.post, plain(p), "treatment of the parsed tree", o)
			} else if run.e.eval(o.St, mkEq(call.Ret, theNil)) == 0 || ok < 0 {
				set(&s.fail, plain(run.e.deepFrozen(o.St, o.Results[1]).String()), "error", o)
			}
			// nothing but the parser's answer decides
			for _, c := range o.St.pc {
				bad := c.T.any(func(x *Term) bool { return x == in && c.T.Op != OExtract })
				if bad && !c.T.any(func(x *Term) bool { return x.Op == OCall && x.Sym == "io.ReadAll" }) {
					r.ob(false, "depends:"+n, o.Pos, "%s treats inputs differently depending on %s", n, c.term())
				}
			}
		}
		if !r.ob(s.parser != "" && s.post != "", "parses:"+n, run.fn.Pos(), "%s never returns a parsed tree", n) {
			continue
		}
		if first == nil {
			first, firstName = &s, n
			continue
		}
		for _, c := range []struct{ what, a, b string }{{"parser", first.parser, s.parser}, {"file name", first.name, s.name}, {"parse options", first.opts, s.opts}, {"initial tree", first.tree, s.tree}, {"treatment of the parsed tree", first.post, s.post}, {"error", first.fail, s.fail}} {
			i := 0
			for i < len(c.a) && i < len(c.b) && c.a[i] == c.b[i] {
				i++
			}
			from := i - 40
			if from < 0 {
				from = 0
			}
			cut := func(x string) string {
				x = x[from:]
				if len(x) > 120 {
					x = x[:120]
				}
				return x
			}
			r.ob(c.a == c.b, c.what+":"+firstName+":"+n, run.fn.Pos(), "%s and %s differ in the %s: ...%s and ...%s", firstName, n, c.what, cut(c.a), cut(c.b))
		}
	}
	r.floor("entry points", 3)
	r.assume = append(r.assume, "the parser library's Parse, ParseString and ParseBytes behave alike on the same text (they share one tokeniser and one parsing routine)")
}

// ---------------------------------------------------------------------------
// E16: no shared mutable state

// shareCheck follows values that come from package variables.
type shareCheck struct {
	r    *Report
	p    *Prog
	seen map[ssa.Value]bool
	ret  map[*ssa.Function]bool
	call map[*ssa.Function][]ssa.CallInstruction
	fns  map[*ssa.Function]bool // analysed functions
}

// onceOnly: a function literal that is only given to sync.Once.Do.
func onceOnly(fn *ssa.Function) bool {
	if fn.Parent() == nil {
		return false
	}
	ok := false
	var check func(v ssa.Value) bool
	check = func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, in := range *v.Referrers() {
			c, isC := in.(ssa.CallInstruction)
			if isC && c.Common().StaticCallee() != nil && fnName(c.Common().StaticCallee()) == "(*sync.Once).Do" {
				ok = true
				continue
			}
			if _, dbg := in.(*ssa.DebugRef); dbg {
				continue
			}
			return false
		}
		return true
	}
	good := true
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, is := in.(*ssa.MakeClosure); is && mc.Fn == fn {
				good = good && check(mc)
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(fn) {
					c, isC := in.(ssa.CallInstruction)
					if isC && c.Common().StaticCallee() != nil && fnName(c.Common().StaticCallee()) == "(*sync.Once).Do" {
						ok = true
					} else {
						good = false
					}
				}
			}
		}
	}
	return ok && good
}

// harmless types: values of these may be shared freely.
func shareable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Signature:
		return true
	case *types.Pointer:
		if n := namedOf(u.Elem()); n != nil && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "regexp.Regexp", participlePath + ".Parser", "strings.Replacer", "reflect.rtype", "time.Location", lexerPath + ".StatefulDefinition":
				return true
			}
		}
	case *types.Interface:
		k := typeKey(t)
		return k == "error" || k == "reflect.Type" || strings.HasSuffix(k, "lexer.Definition")
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !shareable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return shareable(u.Elem())
	}
	return false
}

// lockType: synchronisation objects, used through their methods.
func lockType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Once" || n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// addr follows the address of shared memory.
func (s *shareCheck) addr(v ssa.Value, g *ssa.Global, skipInit bool) {
	if s.seen[v] {
		return
	}
	if _, isG := v.(*ssa.Global); !isG {
		s.seen[v] = true
	}
	if v.Referrers() == nil {
		return
	}
	for _, in := range *v.Referrers() {
		s.addrUse(v, in, g)
	}
}

func (s *shareCheck) addrUse(v ssa.Value, in ssa.Instruction, g *ssa.Global) {
	fn := in.Parent()
	if !s.fns[fn] {
		return
	}
	key := g.Name() + ":" + fn.Name()
	switch in := in.(type) {
	case *ssa.Store:
		if in.Addr == v {
			s.r.ob(onceOnly(fn), "written:"+key, in.Pos(), "%s writes the package variable %s", fn, g.Name())
		} else {
			s.r.ob(false, "kept:"+key, in.Pos(), "%s stores the address of the package variable %s", fn, g.Name())
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			s.value(in, g)
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		s.addr(in.(ssa.Value), g, false)
	case *ssa.Slice:
		s.value(in, g)
	case *ssa.Phi, *ssa.ChangeType:
		s.addr(in.(ssa.Value), g, false)
	case ssa.CallInstruction:
		f := in.Common().StaticCallee()
		if f != nil && lockType(v.Type()) {
			s.r.ob(true, "lock:"+key, in.Pos(), "")
			return
		}
		if f != nil && s.p.inModule(fnPkgPath(f)) && len(f.Blocks) > 0 {
			for i, a := range in.Common().Args {
				if a == v && i < len(f.Params) {
					s.addr(f.Params[i], g, false)
				}
			}
			return
		}
		s.r.ob(false, "passed:"+key, in.Pos(), "%s hands the package variable %s to %s, which can change it", fn, g.Name(), in.Common().Value)
	case *ssa.DebugRef:
	case *ssa.MakeInterface, *ssa.Return, *ssa.MakeClosure, *ssa.MapUpdate, *ssa.Send:
		s.r.ob(false, "escapes:"+key, in.Pos(), "the address of the package variable %s leaves %s", g.Name(), fn)
	}
}

// value follows a value loaded from shared memory.
func (s *shareCheck) value(v ssa.Value, g *ssa.Global) {
	if shareable(v.Type()) || s.seen[v] {
		return
	}
	s.seen[v] = true
	if v.Referrers() == nil {
		return
	}
	for _, in := range *v.Referrers() {
		fn := in.Parent()
		if !s.fns[fn] {
			continue
		}
		key := g.Name() + ":" + fn.Name()
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr == v {
				s.r.ob(false, "written:"+key, in.Pos(), "%s writes memory that the package variable %s shares between calls", fn, g.Name())
				continue
			}
			if a, ok := in.Addr.(*ssa.Alloc); ok {
				s.value(a, g)
				s.addr(a, g, false)
				continue
			}
			s.r.ob(false, "kept:"+key, in.Pos(), "%s stores memory of the package variable %s in a result", fn, g.Name())
		case *ssa.MapUpdate:
			if in.Map == v {
				s.r.ob(false, "written:"+key, in.Pos(), "%s changes the map in package variable %s", fn, g.Name())
			} else {
				s.r.ob(false, "kept:"+key, in.Pos(), "%s stores memory of the package variable %s", fn, g.Name())
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			s.addr(in.(ssa.Value), g, false)
		case *ssa.UnOp, *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Phi, *ssa.ChangeType, *ssa.Slice, *ssa.Extract, *ssa.Range, *ssa.Next, *ssa.TypeAssert, *ssa.ChangeInterface, *ssa.MakeInterface:
			s.value(in.(ssa.Value), g)
		case *ssa.Send, *ssa.MakeClosure:
			s.r.ob(false, "escapes:"+key, in.Pos(), "memory of the package variable %s leaves %s", g.Name(), fn)
		case *ssa.Return:
			if !s.ret[fn] {
				s.ret[fn] = true
				for _, c := range s.call[fn] {
					if cv := c.Value(); cv != nil && s.fns[c.Parent()] {
						s.value(cv, g)
					}
				}
				if fn.Object() != nil && fn.Object().Exported() {
					s.r.ob(false, "returned:"+key, in.Pos(), "%s returns memory of the package variable %s", fn, g.Name())
				}
			}
		case ssa.CallInstruction:
			c := in.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					if c.Args[0] == v {
						s.r.ob(false, "written:"+key, in.Pos(), "%s appends to the package variable %s, whose spare room is shared", fn, g.Name())
					} else if cv := in.Value(); cv != nil {
						if sl, ok := v.Type().Underlying().(*types.Slice); ok && !shareable(sl.Elem()) {
							s.value(cv, g)
						}
					}
				case "copy":
					if c.Args[0] == v {
						s.r.ob(false, "written:"+key, in.Pos(), "%s copies into the package variable %s", fn, g.Name())
					}
				case "delete", "clear":
					s.r.ob(false, "written:"+key, in.Pos(), "%s changes the map in package variable %s", fn, g.Name())
				}
				continue
			}
			f := c.StaticCallee()
			if f != nil && s.p.inModule(fnPkgPath(f)) && len(f.Blocks) > 0 {
				for i, a := range c.Args {
					if a == v && i < len(f.Params) {
						s.value(f.Params[i], g)
					}
				}
				continue
			}
			if f != nil && (fnPkgPath(f) == "strings" || fnPkgPath(f) == "fmt" || isParticiple(fnPkgPath(f)) || fnPkgPath(f) == "github.com/alecthomas/repr") {
				continue
			}
			s.r.ob(false, "passed:"+key, in.Pos(), "%s hands memory of the package variable %s to %s", fn, g.Name(), c.Value)
		}
	}
}

func checkShared(r *Report, l *LexModel) {
	m := l.m
	r.rule = "Every package-level variable of the language library is followed through all functions reachable after initialisation (loads, fields, elements, parameters, results): none is written, changed through what it refers to, handed to code that may change it or returned to a caller (one-time initialisation under sync.Once is allowed); the entry points allocate the tree they fill; no function of the library starts goroutines or uses channels."
	s := &shareCheck{r: r, p: m.p, seen: map[ssa.Value]bool{}, ret: map[*ssa.Function]bool{}, call: map[*ssa.Function][]ssa.CallInstruction{}, fns: map[*ssa.Function]bool{}}
	// functions reachable from anything but initialisers
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	var all []*ssa.Function
	for fn := range m.p.allFns() {
		if fnPkgPath(fn) != m.p.etx.PkgPath {
			continue
		}
		all = append(all, fn)
		calls[fn] = map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						calls[fn][f] = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						s.call[f] = append(s.call[f], c)
					}
				}
			}
		}
	}
	isInit := func(fn *ssa.Function) bool {
		return fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#")
	}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if s.fns[fn] || isInit(fn) {
			return
		}
		s.fns[fn] = true
		for f := range calls[fn] {
			if calls[f] != nil {
				visit(f)
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, fn := range all {
		if fn.Parent() != nil || isInit(fn) {
			continue
		}
		exported := fn.Object() != nil && fn.Object().Exported() || fn.Signature.Recv() != nil || fn.Synthetic != ""
		if exported {
			visit(fn)
		}
	}
	r.count("functions", len(s.fns))
	for fn := range s.fns {
		r.functions[fn.String()] = true
	}
	for _, mem := range m.p.spkg[m.p.etx.PkgPath].Members {
		g, ok := mem.(*ssa.Global)
		if !ok || strings.HasPrefix(g.Name(), "init$") {
			continue
		}
		r.count("package variables", 1)
		r.ob(true, "variable:"+g.Name(), g.Pos(), "")
		for fn := range s.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(g) {
							s.addrUse(g, in, g)
						}
					}
				}
			}
		}
	}
	// variables of other packages
	for fn := range s.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
					r.ob(false, "goroutine:"+fn.Name(), in.Pos(), "%s starts a goroutine or uses channels", fn)
				case *ssa.Store:
					root := in.Addr
					for {
						switch x := root.(type) {
						case *ssa.FieldAddr:
							root = x.X
							continue
						case *ssa.IndexAddr:
							root = x.X
							continue
						}
						break
					}
					if g, ok := root.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() != m.p.etx.PkgPath {
						r.ob(false, "foreign:"+g.Name(), in.Pos(), "%s writes the variable %s of another package", fn, g)
					}
				}
			}
		}
	}
	r.floor("functions", 150)
	for _, n := range entryNames {
		run := l.Parse[n]
		r.paths += len(run.outs)
		for _, o := range run.outs {
			for _, f := range o.St.effs {
				if f.Kind == "call" && isParseCall(f.Name) {
					v := f.Args[len(f.Args)-2]
					r.ob(v.Op == OObj && o.St.heap[v.N] != nil, "tree:"+n, f.Pos, "%s parses into a tree that existed before: %s", n, v)
				}
			}
		}
	}
	r.assume = append(r.assume, "a participle parser and its tokeniser, and regular expressions, may be used by several goroutines at once (their sources keep per-call state; the tokeniser's cache is a sync.Map)")
}

// ---------------------------------------------------------------------------
// L01: the command line

func checkMain(r *Report, c *Ctx) {
	p := r.p
	r.rule = "Every path of main is enumerated with the result of running the application as an unknown: when it is an error, the path must report that error on standard error and end the process with a non-zero status; otherwise it must end normally or with status zero. The application is run exactly once, on all of os.Args."
	fn := p.spkg[p.cli.PkgPath].Func("main")
	if !r.ob(fn != nil, "main", token.NoPos, "there is no main function") {
		return
	}
	e := p.engine()
	cliPath := "github.com/urfave/cli"
	e.external = func(e *Engine, st *State, f *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool) {
		path := fnPkgPath(f)
		if !strings.HasPrefix(path, cliPath) {
			if path == "context" && f.Signature.Results().Len() == 1 {
				t := mk(OCall, fnName(f), 0, nil, args...)
				t.Typ = f.Signature.Results().At(0).Type()
				return []Outcome{{St: st, Results: []*Term{t}, Pos: pos}}, true
			}
			return nil, false
		}
		if f.Signature.Recv() != nil && (f.Name() == "Run" || f.Name() == "RunContext") && f.Signature.Results().Len() == 1 {
			err := e.fresh("runErr", f.Signature.Results().At(0).Type())
			st.addEff(&Effect{Kind: "call", Name: "run", Args: []*Term{args[len(args)-1], e.deepFrozen(st, args[0])}, Pos: pos, Fn: e.curFn, Ret: err})
			return []Outcome{{St: st, Results: []*Term{err}, Pos: pos}}, true
		}
		if f.Name() == "NewApp" {
			return []Outcome{{St: st, Results: []*Term{e.newObj(st, 'c', f.Signature.Results().At(0).Type().(*types.Pointer).Elem(), e.fresh("app", f.Signature.Results().At(0).Type().(*types.Pointer).Elem()), pos)}, Pos: pos}}, true
		}
		return nil, false
	}
	outs, und := e.runFn(fn, func(st *State) []*Term { return nil })
	r.covers(e)
	if und != nil {
		r.undecided("main", und)
		return
	}
	osArgs := func(t *Term) bool {
		return t.Op == OLoad && t.Args[0].Op == OGlobal && t.Args[0].Sym == "os.Args"
	}
	good, bad := false, false
	for i, o := range outs {
		r.paths++
		var err *Term
		n := 0
		for _, f := range o.St.effs {
			if f.Kind == "call" && f.Name == "run" {
				n++
				err = f.Ret
				r.ob(osArgs(f.Args[0]), "args", f.Pos, "the application is run on %s instead of all process arguments", f.Args[0])
				app := f.Args[1]
				if app.Op == OStruct {
					st, _ := structOf(app.Typ)
					for j, a := range app.Args {
						name := ""
						if st != nil && j < st.NumFields() {
							name = st.Field(j).Name()
						}
						if name == "ExitErrHandler" || name == "ErrWriter" {
							r.ob(a.Op == ONil || a.Op == OZero, "handler:"+name, f.Pos, "%s is set: failures may be reported differently", name)
						}
					}
				}
			}
		}
		if !r.ob(n == 1, fmt.Sprintf("runs:%d", i), o.Pos, "main runs the application %d times", n) {
			continue
		}
		isNil := e.eval(o.St, mkEq(err, theNil))
		code, said := exitCode(e, o, err)
		switch isNil {
		case 1:
			good = true
			r.ob(code == 0, "success", o.Pos, "a successful run ends with status %s", codeName(code))
		case 0:
			bad = true
			r.ob(code > 0, "failure", o.Pos, "a failed run ends with status %s", codeName(code))
			r.ob(said, "message", o.Pos, "the error of a failed run is not written to standard error")
		default:
			r.ob(false, "ignored", o.Pos, "main does not look at the result of the run")
		}
	}
	r.ob(good, "can succeed", fn.Pos(), "main has no path for a successful run")
	r.ob(bad, "can fail", fn.Pos(), "main has no path for a failed run")
	c2 := 0
	for f := range p.allFns() {
		if fnPkgPath(f) != p.cli.PkgPath {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c2++
				g := call.Common().StaticCallee()
				if g == nil {
					continue
				}
				switch fnName(g) {
				case "log.SetOutput", "(*log.Logger).SetOutput":
					r.ob(false, "log", in.Pos(), "the output of the log is redirected")
				case "os.Exit":
					if f != fn && f.Parent() == nil && !r.functions[f.String()] {
						r.ob(false, "exit:"+f.Name(), in.Pos(), "%s ends the process on its own", f)
					}
				}
				if g.Name() == "init" && false {
					continue
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && g.Pkg != nil && (g.Pkg.Pkg.Path() == "os" || strings.HasPrefix(g.Pkg.Pkg.Path(), cliPath)) {
						r.ob(false, "global:"+g.Name(), in.Pos(), "%s replaces %s", f, g)
					}
				}
			}
		}
	}
	r.count("call sites", c2)
	r.floor("call sites", 2)
	r.assume = append(r.assume, "the command library returns every failure of the command from Run, or ends the process with the exit code the failure carries", "log.Fatal writes to standard error and exits with status 1")
}

func codeName(c int) string {
	if c < 0 {
		return "unknown"
	}
	return fmt.Sprint(c)
}

// exitCode gives the process status of a path of main, -1 when unknown, and
// whether the error was written to standard error.
func exitCode(e *Engine, o Outcome, err *Term) (int, bool) {
	said := false
	code := 0
	mentions := func(f *Effect) bool {
		for _, a := range f.Args {
			if a.any(func(x *Term) bool { return x == err }) {
				return true
			}
		}
		return false
	}
	for _, f := range o.St.effs {
		if f.Kind != "call" {
			continue
		}
		switch {
		case f.Name == "os.Exit":
			code = -1
			if v, ok := f.Args[0].intVal(); ok {
				code = int(v & 0xff)
			}
			return code, said
		case strings.HasPrefix(f.Name, "log.Fatal"):
			return 1, said || mentions(f)
		case strings.HasPrefix(f.Name, "log.Panic"):
			return 2, said || mentions(f)
		case strings.HasPrefix(f.Name, "log.Print"):
			said = said || mentions(f)
		case strings.Contains(f.Name, "rint") || strings.Contains(f.Name, "rite"):
			if len(f.Args) > 0 && f.Args[0].any(func(x *Term) bool { return x.Op == OGlobal && x.Sym == "os.Stderr" }) {
				said = said || mentions(f)
			}
		}
	}
	if o.Panic {
		return 2, true
	}
	return code, said
}
