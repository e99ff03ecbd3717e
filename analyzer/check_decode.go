package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Decoding of literals: the capturing methods on every token text the grammar
// hands to them.

// capInput is one form of captured text.
type capInput struct {
	name string // stable name
	desc string
	vals []*Term          // the texts, in terms of vars
	vars map[*Term]strVar // their languages
	text string           // the text, when it is fixed
	form string           // "octal", "plain", "raw" (heredoc forms)
	rest *Term            // the variable part
}

const (
	octalForm  = `0[0-9_]+`
	headerForm = `<<-?\w+\n`
)

// capField finds the field of a struct with a type.
func capField(t *NodeType, want func(types.Type) bool) int {
	r := -1
	for i := 0; i < t.St.NumFields(); i++ {
		f := t.St.Field(i)
		if f.Embedded() || !want(f.Type()) {
			continue
		}
		if r >= 0 {
			return -2
		}
		r = i
	}
	return r
}

func isBoolField(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isBigPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBigFloat(p.Elem())
}

// captureInputs lists the forms of text the grammar captures into a type.
func (l *LexModel) captureInputs(r *Report, t *NodeType) []capInput {
	m := l.m
	var out []capInput
	seen := map[string]bool{}
	for _, o := range m.inTree() {
		walkG(o.Prod, func(g *GNode) {
			if g.Kind != GCap || namedOf(o.St.Field(g.Field).Type()) != t.Named || g.Kids[0].Kind == GRef {
				return
			}
			ws, err := m.words(o, g.Kids[0])
			if err != nil {
				r.failAt("capture:"+t.Name, r.p.pos(t.Named.Obj().Pos()), "%v", err)
				return
			}
			for _, w := range ws {
				ins := []capInput{{vars: map[*Term]strVar{}}}
				for i, s := range w {
					forms := l.forms(t, s.g, fmt.Sprintf("w%d", i))
					var next []capInput
					for _, a := range ins {
						for _, b := range forms {
							c := capInput{vars: map[*Term]strVar{}, text: a.text + b.text, form: b.form, rest: b.rest}
							c.name = strings.TrimSpace(a.name + " " + b.name)
							c.desc = strings.TrimSpace(a.desc + " " + b.desc)
							c.vals = append(append([]*Term{}, a.vals...), b.vals...)
							for k, v := range a.vars {
								c.vars[k] = v
							}
							for k, v := range b.vars {
								c.vars[k] = v
							}
							next = append(next, c)
						}
					}
					ins = next
				}
				for _, c := range ins {
					if !seen[c.name] {
						seen[c.name] = true
						out = append(out, c)
					}
				}
			}
		})
	}
	return out
}

// forms lists the forms of one captured token.
func (l *LexModel) forms(t *NodeType, g *GNode, name string) []capInput {
	if ts, ok := l.symTexts(g); ok {
		var out []capInput
		for _, s := range ts {
			out = append(out, capInput{name: fmt.Sprintf("%q", s), desc: fmt.Sprintf("the text %q", s), text: s, vals: []*Term{cString(s)}})
		}
		return out
	}
	mkVar := func(in string, out ...string) (*Term, map[*Term]strVar) {
		v := mk(OSym, name, 0, types.Typ[types.String])
		return v, map[*Term]strVar{v: {in, out}}
	}
	p, ok := "(?s:.*)", false
	if g.Kind == GTok {
		if p, ok = l.tokenLang(g.Text); !ok {
			p = "(?s:.*)"
		}
	}
	switch {
	case capField(t, isBigPtr) >= 0:
		v, vars := mkVar(p, octalForm)
		d, dvars := mkVar(`[0-9_]+`)
		return []capInput{
			{name: g.String(), desc: "a " + g.String() + " token without octal prefix", form: "plain", vals: []*Term{v}, vars: vars, rest: v},
			{name: g.String() + " octal", desc: "a " + g.String() + " token of the form 0 and octal digits", form: "octal", vals: []*Term{mkStr(cString("0"), d)}, vars: dvars, rest: d},
		}
	}
	if in, _ := langWithin(p, headerForm); in {
		var out []capInput
		for _, f := range []struct{ form, pre, pat string }{{"indented", "<<-", `<<-\w+\n`}, {"flush", "<<", `<<\w+\n`}} {
			if meets, _ := langMeets(p, f.pat); !meets {
				continue
			}
			d, vars := mkVar(`\w+`)
			out = append(out, capInput{name: g.String() + " " + f.form, desc: "a heredoc header of the form " + f.pre + "word", form: f.form, vals: []*Term{mkStr(cString(f.pre), d, cString("\n"))}, vars: vars, rest: d})
		}
		return out
	}
	v, vars := mkVar(p)
	return []capInput{{name: g.String(), desc: "a " + g.String() + " token", vals: []*Term{v}, vars: vars, rest: v}}
}

// capRun is the analysis of a capturing method on one form of text.
type capRun struct {
	fn   *ssa.Function
	e    *Engine
	w    *strWorld
	node *Term
	outs []Outcome
	und  *Undecided
}

func (l *LexModel) runCapture(t *NodeType, in capInput) *capRun {
	e := l.m.p.engine()
	c := &capRun{e: e, fn: l.m.p.method(t.Named, "Capture")}
	if c.fn == nil {
		c.und = &Undecided{Msg: "no Capture method is declared on " + t.Name, Pos: t.Named.Obj().Pos()}
		return c
	}
	c.w = newStrWorld(e)
	for k, v := range in.vars {
		c.w.vars[k] = v
	}
	c.outs, c.und = e.runFn(c.fn, func(st *State) []*Term {
		c.node = e.newObj(st, 'c', t.Named, zeroTerm(t.Named), t.Named.Obj().Pos())
		return []*Term{c.node, e.newSlice(st, c.fn.Params[1].Type(), in.vals, false, c.fn.Pos())}
	})
	return c
}

// field reads a field of the captured node.
func (c *capRun) field(o Outcome, t *NodeType, i int) *Term {
	return c.e.load(o.St, mkFieldAddr(c.node, i, t.Named), t.St.Field(i).Type())
}

func checkDecode(r *Report, l *LexModel) {
	m := l.m
	r.rule = "Each capturing method is analysed on every form of text the grammar hands to it (texts as regular languages; pattern matches and cuts decided by language inclusion); on every path the fields it sets are compared with the documented decoding. In every lexer state that reads numbers, a product automaton decides that a documented numeral is read as one number token."
	kinds := map[string]bool{}
	for _, t := range m.inTree() {
		if !t.Capture {
			continue
		}
		big, str, flag := capField(t, isBigPtr), capField(t, isStringType), capField(t, isBoolField)
		kind := ""
		switch {
		case big >= 0 && str >= 0:
			kind = "number"
		case flag >= 0 && str >= 0:
			kind = "heredoc"
		case flag >= 0 && str == -1:
			kind = "bool"
		}
		pos := t.Named.Obj().Pos()
		if !r.ob(kind != "", "kind:"+t.Name, pos, "%s is decoded from text but is not a truth value, number or heredoc header", t.Name) {
			continue
		}
		kinds[kind] = true
		ins := l.captureInputs(r, t)
		r.count("forms", len(ins))
		for _, in := range ins {
			key := t.Name + ":" + in.name
			if !r.ob(len(in.vals) == 1, "tokens:"+key, pos, "%s is decoded from %d tokens", t.Name, len(in.vals)) {
				continue
			}
			switch kind {
			case "bool":
				r.ob(in.text == "true" || in.text == "false", "text:"+key, pos, "%s is decoded from %s", t.Name, in.desc)
			case "heredoc":
				r.ob(in.form == "indented" || in.form == "flush", "text:"+key, pos, "%s is decoded from %s, which is not a heredoc header", t.Name, in.desc)
			}
			run := l.runCapture(t, in)
			r.covers(run.e)
			if run.und != nil {
				r.undecided("Capture of "+t.Name+" on "+in.name, run.und)
				continue
			}
			r.paths += len(run.outs)
			r.ob(len(run.outs) > 0, "paths:"+key, pos, "%s has no outcome", run.fn)
			for _, o := range run.outs {
				if o.Panic {
					r.ob(false, "panic:"+key, o.Pos, "%s panics on %s: %s", run.fn, in.desc, o.Reason)
					continue
				}
				okRes := run.e.eval(o.St, mkEq(o.Results[0], theNil))
				if !r.ob(okRes >= 0, "error:"+key, o.Pos, "on %s it cannot be told whether %s reports an error: %s", in.desc, run.fn, o.Results[0]) {
					continue
				}
				switch kind {
				case "bool":
					if !r.ob(okRes == 1, "error:"+key, o.Pos, "%s reports an error on %s", run.fn, in.desc) {
						continue
					}
					want := 0
					if in.text == "true" {
						want = 1
					}
					v := run.field(o, t, flag)
					r.ob(run.e.eval(o.St, v) == want, "value:"+key, o.Pos, "%s decodes %q as %s", run.fn, in.text, v)
				case "heredoc":
					if !r.ob(okRes == 1, "error:"+key, o.Pos, "%s reports an error on %s", run.fn, in.desc) {
						continue
					}
					want := 0
					if in.form == "indented" {
						want = 1
					}
					v := run.field(o, t, flag)
					r.ob(run.e.eval(o.St, v) == want, "flag:"+key, o.Pos, "on %s, %s is %s", in.desc, t.St.Field(flag).Name(), v)
					d := run.field(o, t, str)
					r.ob(d == in.rest, "word:"+key, o.Pos, "on %s, %s is %s instead of the word", in.desc, t.St.Field(str).Name(), d)
				case "number":
					l.numberOutcome(r, t, in, run, o, okRes == 1, big, str, key)
				}
			}
		}
	}
	for _, k := range []string{"bool", "number", "heredoc"} {
		r.ob(kinds[k], "kinds:"+k, l.Pos, "no part of the tree is decoded as a %s", map[string]string{"bool": "truth value", "number": "number", "heredoc": "heredoc header"}[k])
	}
	for _, s := range l.exprStates() {
		insts, err := l.instances(s)
		if err != nil {
			r.failAt("state:"+s, r.p.pos(l.Pos), "state %s: %v", s, err)
			continue
		}
		for _, g := range insts {
			mc, err := l.machine(s, g, "0123456789xXbBoOeE+-._abcdefABCDEF")
			if err != nil {
				r.failAt("state:"+s, r.p.pos(l.Pos), "state %s: %v", s, err)
				continue
			}
			sp := &numSpec{l: l}
			r.obligations++
			r.discharged++
			r.count("configurations", mc.explore(sp, func(rule *LexRule, input, why string) {
				r.failAt("numeral:"+s, r.p.pos(l.Pos), "state %s, text %q: %s", s, input, why)
			}))
		}
	}
	r.floor("forms", 5)
	r.floor("configurations", 100)
	r.assume = append(r.assume, "big.Float.Parse with base 0 reads a numeral as Go does, rounding to the precision of the receiver (math/big)", "rounding to the precision of big.Float, and underflow to zero, are not errors")
}

func (l *LexModel) numberOutcome(r *Report, t *NodeType, in capInput, run *capRun, o Outcome, good bool, big, str int, key string) {
	// what was parsed on this path
	parsed := map[*Term]bool{}
	find := func(x *Term) {
		x.any(func(y *Term) bool {
			if y.Op == OCall && y.Sym == "big.parse" {
				parsed[y] = true
			}
			if y.Op == OCall && (y.Sym == "(*math/big.Float).Parse" || y.Sym == "(*math/big.Float).SetString" || y.Sym == "math/big.ParseFloat") {
				parsed[mk(OCall, "big.parse", 0, nil, y.Args...)] = true
			}
			return false
		})
	}
	for _, c := range o.St.pc {
		find(c.T)
	}
	status := func(p *Term) (failed, inf int) {
		failed, inf = -1, -1
		for i, n := range []string{"(*math/big.Float).Parse", "(*math/big.Float).SetString", "math/big.ParseFloat"} {
			c := mk(OCall, n, 0, nil, p.Args...)
			var v int
			if i == 1 {
				v = run.e.eval(o.St, mkNot(mk(OExtract, "", 1, nil, c)))
			} else {
				v = run.e.eval(o.St, mkNot(mkEq(mk(OExtract, "", 2, nil, c), theNil)))
			}
			if v >= 0 {
				failed = v
			}
		}
		return failed, run.e.eval(o.St, mk(OCall, "big.IsInf", 0, nil, p))
	}
	if !good {
		why := false
		for p := range parsed {
			f, inf := status(p)
			if f == 1 || inf == 1 {
				why = true
			}
		}
		r.ob(why, "reject:"+key, o.Pos, "%s rejects %s although it denotes a number", run.fn, in.desc)
		return
	}
	src := run.field(o, t, str)
	want := in.rest
	if in.form == "octal" {
		want = mkStr(cString("0o"), in.rest)
	}
	r.ob(src == want, "source:"+key, o.Pos, "on %s, %s is %s instead of %s", in.desc, t.St.Field(str).Name(), src, want)
	p := run.field(o, t, big)
	if !r.ob(p.Op == OObj && o.St.heap[p.N] != nil, "value:"+key, o.Pos, "on %s, %s is %s: no number of its own", in.desc, t.St.Field(big).Name(), p) {
		return
	}
	v := o.St.heap[p.N].val
	if !r.ob(v.Op == OCall && v.Sym == "big.parse", "value:"+key, o.Pos, "on %s, the value is %s, which is not what the text denotes", in.desc, v) {
		return
	}
	base := int64(0)
	if len(v.Args) > 2 {
		var ok bool
		if base, ok = v.Args[2].intVal(); !ok {
			base = -1
		}
	}
	r.ob(base == 0, "base:"+key, o.Pos, "on %s, the value is read with base %d instead of the base the text shows", in.desc, base)
	r.ob(v.Args[1] == want, "value:"+key, o.Pos, "on %s, the value is read from %s instead of %s", in.desc, v.Args[1], want)
	prec := ""
	switch old := v.Args[0]; {
	case old.Op == OZero || old.Op == OCall && old.Sym == "big.const":
	case old.Op == OCall && old.Sym == "big.SetPrec":
		if n, ok := old.Args[1].intVal(); !ok || n < 53 && n != 0 {
			prec = old.Args[1].String()
		}
	default:
		prec = old.String()
	}
	r.ob(prec == "", "precision:"+key, o.Pos, "on %s, the value is rounded to fewer than 53 bits (%s)", in.desc, prec)
	f, inf := status(v)
	r.ob(f == 0, "checked:"+key, o.Pos, "on %s, success is reported without checking that the text is a number", in.desc)
	r.ob(inf == 0, "range:"+key, o.Pos, "on %s, a number too large to be represented is decoded as infinity", in.desc)
}

// numSpec: a documented numeral followed by something that cannot continue it
// is one number token.
type numSpec struct{ l *LexModel }

func numStep(s string, r rune) string {
	dig := r >= '0' && r <= '9'
	isE := r == 'e' || r == 'E'
	switch s {
	case "S":
		if r == '0' {
			return "Z"
		}
		if dig {
			return "D"
		}
	case "Z", "D":
		if s == "Z" {
			switch r {
			case 'x', 'X':
				return "X"
			case 'b', 'B':
				return "B"
			case 'o', 'O':
				return "O"
			}
		}
		switch {
		case dig:
			return "D"
		case r == '_':
			return "U"
		case r == '.':
			return "P"
		case isE:
			return "E"
		}
	case "U":
		if dig {
			return "D"
		}
	case "P", "F":
		if dig {
			return "F"
		}
		if isE && s == "F" {
			return "E"
		}
	case "E":
		if dig {
			return "EX"
		}
		if r == '+' || r == '-' {
			return "ES"
		}
	case "ES", "EX":
		if dig {
			return "EX"
		}
	case "X", "XD":
		if dig || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F' {
			return "XD"
		}
	case "B", "BD":
		if r == '0' || r == '1' {
			return "BD"
		}
	case "O", "OD":
		if r >= '0' && r <= '7' {
			return "OD"
		}
	}
	return "dead"
}

func numAccept(s string) bool {
	switch s {
	case "Z", "D", "F", "EX", "XD", "BD", "OD":
		return true
	}
	return false
}

func (numSpec) start() string { return "S" }
func (numSpec) step(s string, r rune) string {
	if s == "done" || s == "dead" {
		return s
	}
	if numAccept(s) && (r < 0 || !isWordRune(r) && r != '.') {
		return "done"
	}
	if r < 0 {
		return "dead"
	}
	return numStep(s, r)
}
func (numSpec) mark(s string) string {
	if numAccept(s) {
		return "end?"
	}
	return "bad"
}
func (numSpec) stepMark(m string, r rune) string {
	if m == "end?" {
		if r < 0 || !isWordRune(r) && r != '.' {
			return "end"
		}
		return "bad"
	}
	return m
}
func (sp numSpec) judge(rule *LexRule, main, mark string, eof bool) (bool, bool, string) {
	if main == "dead" {
		return true, true, ""
	}
	if main != "done" {
		return true, false, ""
	}
	if rule == nil {
		return false, true, "the numeral is not accepted"
	}
	num := false
	for _, n := range sp.l.numberTokens() {
		if n == rule.Name {
			num = true
		}
	}
	if !num {
		return false, true, fmt.Sprintf("the numeral is read by rule %s", rule.Name)
	}
	if mark != "end" {
		return false, true, fmt.Sprintf("rule %s stops inside the numeral", rule.Name)
	}
	return true, true, ""
}

// numberTokens are the tokens captured into a number.
func (l *LexModel) numberTokens() []string {
	var out []string
	for _, o := range l.m.inTree() {
		walkG(o.Prod, func(g *GNode) {
			if g.Kind != GCap {
				return
			}
			c := l.m.of2(o.St.Field(g.Field).Type())
			if c == nil || !c.Capture || capField(c, isBigPtr) < 0 {
				return
			}
			walkG(g.Kids[0], func(x *GNode) {
				if x.Kind == GTok {
					out = append(out, x.Text)
				}
			})
		})
	}
	return out
}
