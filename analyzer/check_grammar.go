package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"
)

func init() {
	checks["E03"] = withLex(checkNoPanic)
	checks["E04"] = withLex(checkTerminates)
	checks["E05"] = withLex(checkLossless)
	checks["E06"] = withLex(checkPrecedence)
	checks["E09"] = withLex(checkDecode)
}

// ---------------------------------------------------------------------------
// E03: no input makes parsing panic

func checkNoPanic(r *Report, l *LexModel) {
	m := l.m
	r.rule = "Every way the parser library can panic on some input, as its source gives them, is excluded on the extracted token rules and productions (leaving the initial state, groups that take no part in a match, alternatives and captures that match nothing, captures of captures); the capturing methods, the entry points and the linking of the tree are analysed for panicking paths on every token text the grammar lets through."
	// the tokeniser
	for _, s := range l.reachable() {
		for _, lr := range l.States[s] {
			r.count("rules", 1)
			if s == "Root" {
				r.ob(!lr.Pop && !lr.Return, "root:"+lr.Name, l.Pos, "token %s leaves the initial state of the tokeniser: a text with an unmatched %s panics", lr.Name, lr.Name)
			}
			if lr.Return {
				r.failAt("return:"+s, r.p.pos(l.Pos), "state %s returns without reading a token", s)
				continue
			}
			re, err := syntax.Parse("^(?:"+lr.Pattern+")", syntax.Perl)
			if lr.Backref {
				insts, ierr := l.instances(s)
				r.ob(ierr == nil, "groups:"+s+":"+lr.Name, l.Pos, "the references of token %s cannot be resolved: %v", lr.Name, ierr)
				for _, g := range insts {
					sp, serr := substBackref(lr.Pattern, g)
					if serr == nil {
						re, err = syntax.Parse("^(?:"+sp+")", syntax.Perl)
					} else {
						err = serr
					}
					if err != nil {
						break
					}
				}
			}
			if !r.ob(err == nil, "pattern:"+s+":"+lr.Name, l.Pos, "the pattern of token %s is invalid: %v", lr.Name, err) {
				continue
			}
			if lr.Push != "" || lr.Pop {
				for i, must := range mustGroups(re) {
					r.ob(must, fmt.Sprintf("group:%s:%s:%d", s, lr.Name, i), l.Pos, "group %d of token %s takes no part in some matches: reading such a token panics", i, lr.Name)
				}
			}
			if lr.Push != "" {
				r.ob(l.States[lr.Push] != nil, "push:"+lr.Name, l.Pos, "token %s enters the unknown state %s", lr.Name, lr.Push)
			}
		}
	}
	r.floor("rules", 20)
	// the productions
	for _, t := range m.inTree() {
		l.parseable(r, t)
		if t.Prod == nil {
			continue
		}
		r.count("productions", 1)
		walkG(t.Prod, func(g *GNode) {
			switch g.Kind {
			case GAlt:
				for _, k := range g.Kids {
					r.ob(!m.nullable(k), "alternative:"+t.Name+":"+k.String(), t.Named.Obj().Pos(), "an alternative of %s matches nothing: the parser panics when it is chosen (%s)", t.Name, k)
				}
			case GCap:
				f := t.St.Field(g.Field)
				if g.Kids[0].Kind != GRef {
					k := kindOfField(f.Type())
					r.ob(k == keepList || k == keepText || !m.nullable(g.Kids[0]), "empty:"+t.Name+"."+f.Name(), f.Pos(), "%s.%s can capture nothing: setting it panics", t.Name, f.Name())
					nested := false
					walkG(g.Kids[0], func(x *GNode) {
						if x.Kind == GRef || x.Kind == GCap {
							nested = true
						}
					})
					r.ob(!nested, "nested:"+t.Name+"."+f.Name(), f.Pos(), "%s.%s captures a sub-production as text", t.Name, f.Name())
				} else if n := namedOf(f.Type()); n != nil {
					if c := m.of(n); c != nil {
						r.ob(!c.Capture, "nested:"+t.Name+"."+f.Name(), f.Pos(), "%s.%s hands a sub-production to the capturing method of %s", t.Name, f.Name(), c.Name)
					}
				}
			case GTok:
				ok := false
				for _, s := range l.reachable() {
					for _, lr := range l.States[s] {
						if lr.Name == g.Text {
							ok = true
						}
					}
				}
				r.ob(ok || g.Text == "EOF", "token:"+t.Name+":"+g.Text, t.Named.Obj().Pos(), "%s refers to token %s, which the tokeniser never produces", t.Name, g.Text)
			}
		})
	}
	r.floor("productions", 40)
	// capturing methods
	for _, t := range m.inTree() {
		if !t.Capture {
			continue
		}
		r.count("capturing methods", 1)
		for _, in := range l.captureInputs(r, t) {
			c := l.runCapture(t, in)
			r.covers(c.e)
			if c.und != nil {
				r.undecided("Capture of "+t.Name+" on "+in.name, c.und)
				continue
			}
			r.paths += len(c.outs)
			for _, o := range c.outs {
				r.ob(!o.Panic, "capture:"+t.Name+":"+in.name, o.Pos, "%s panics on %s: %s", c.fn, in.desc, o.Reason)
			}
		}
	}
	r.floor("capturing methods", 1)
	// entry points
	for _, n := range []string{"Parse", "ParseString", "ParseBytes"} {
		run := l.Parse[n]
		r.covers(run.e)
		r.paths += len(run.outs)
		for _, o := range run.outs {
			r.ob(!o.Panic, "entry:"+n, o.Pos, "%s panics: %s", n, o.Reason)
		}
	}
	m.linkPanics(r)
	r.assume = append(r.assume, "the parser library does not panic for other reasons than those its source shows", "reading from the caller's reader does not panic", "stack exhaustion by nesting is excluded by the property")
}

// parseable rejects types that bypass their production.
func (l *LexModel) parseable(r *Report, t *NodeType) {
	ms := types.NewMethodSet(types.NewPointer(t.Named))
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		sig := f.Type().(*types.Signature)
		switch f.Name() {
		case "Parse":
			if sig.Params().Len() == 1 && strings.Contains(typeKey(sig.Params().At(0).Type()), "PeekingLexer") {
				r.fail("parseable:"+t.Name, f.Pos(), "%s replaces its production by hand-written parsing, which is not analysed", t.Name)
			}
		case "UnmarshalText":
			r.fail("parseable:"+t.Name, f.Pos(), "%s decodes itself from text, which is not analysed", t.Name)
		}
	}
	for i := 0; i < t.St.NumFields(); i++ {
		f := t.St.Field(i)
		if k := typeKey(f.Type()); strings.HasSuffix(k, "lexer.Token") {
			r.fail("parseable:"+t.Name+"."+f.Name(), f.Pos(), "%s.%s captures raw tokens, which is not analysed", t.Name, f.Name())
		}
	}
}

// ---------------------------------------------------------------------------
// E04: parsing terminates

type emptySpec struct{}

func (emptySpec) start() string { return "0" }
func (emptySpec) step(s string, r rune) string {
	return "1"
}
func (emptySpec) mark(s string) string             { return "m" + s }
func (emptySpec) stepMark(m string, r rune) string { return m }
func (emptySpec) judge(rule *LexRule, main, mark string, eof bool) (bool, bool, string) {
	if rule != nil && mark == "m0" {
		return false, true, "an empty token"
	}
	return true, true, ""
}

func checkTerminates(r *Report, l *LexModel) {
	m := l.m
	r.rule = "On the extracted productions: no body of a repetition can match nothing, and no production can expect itself again before reading a token (cycle search over the leftmost-reference relation); on the token automata of every lexer state: every token has at least one character; on the code that runs while parsing (entry points, capturing methods, linking and what they call): every loop is bounded by a variable that moves on every turn towards a fixed bound, and recursion descends to children."
	for _, t := range m.inTree() {
		if t.Prod == nil {
			continue
		}
		r.count("productions", 1)
		l.parseable(r, t)
		walkG(t.Prod, func(g *GNode) {
			if g.Kind == GStar || g.Kind == GPlus {
				r.count("repetitions", 1)
				r.ob(!m.nullable(g.Kids[0]), "repeat:"+t.Name+":"+g.Kids[0].String(), t.Named.Obj().Pos(), "%s repeats something that can match nothing: %s", t.Name, g)
			}
		})
	}
	r.floor("repetitions", 10)
	left := map[*NodeType][]*NodeType{}
	for _, t := range m.inTree() {
		seen := map[*NodeType]bool{}
		var rec func(g *GNode) bool // reports whether g can match nothing
		rec = func(g *GNode) bool {
			switch g.Kind {
			case GSeq:
				for _, k := range g.Kids {
					if !rec(k) {
						return false
					}
				}
				return true
			case GRef:
				if c := m.of(g.Ref); c != nil && !seen[c] {
					seen[c] = true
					left[t] = append(left[t], c)
				}
				return m.nullable(g)
			}
			for _, k := range g.Kids {
				rec(k)
			}
			return m.nullable(g)
		}
		if t.Prod != nil {
			rec(t.Prod)
		}
	}
	for _, t := range m.inTree() {
		// a shortest way back to t
		prev := map[*NodeType]*NodeType{}
		queue := []*NodeType{t}
		var back *NodeType
		for len(queue) > 0 && back == nil {
			x := queue[0]
			queue = queue[1:]
			for _, y := range left[x] {
				if y == t {
					back = x
					break
				}
				if _, ok := prev[y]; !ok {
					prev[y] = x
					queue = append(queue, y)
				}
			}
		}
		path := t.Name
		for x := back; x != nil && x != t; x = prev[x] {
			path = x.Name + " -> " + path
		}
		r.ob(back == nil, "left:"+t.Name, t.Named.Obj().Pos(), "%s expects itself again without reading anything: %s -> %s", t.Name, t.Name, path)
	}
	for _, s := range l.reachable() {
		insts, err := l.instances(s)
		if err != nil {
			r.failAt("state:"+s, r.p.pos(l.Pos), "state %s: %v", s, err)
			continue
		}
		for _, g := range insts {
			mc, err := l.machine(s, g, "")
			if err != nil {
				r.failAt("state:"+s, r.p.pos(l.Pos), "state %s: %v", s, err)
				continue
			}
			r.obligations++
			r.discharged++
			r.count("configurations", mc.explore(emptySpec{}, func(rule *LexRule, input, why string) {
				r.failAt("empty:"+s+":"+rule.Name, r.p.pos(l.Pos), "state %s: rule %s produces an empty token at %q", s, rule.Name, input)
			}))
		}
	}
	l.codeEnds(r)
	r.assume = append(r.assume, "every node is above its descendants: a tree built by the parser is finite (linking ends when it descends)", "the parser library's backtracking is a finite search (bounded by the alternatives of the productions)")
}

// ---------------------------------------------------------------------------
// E05: nothing is lost

// ignorable reports whether a symbol carries no content of its own.
func (l *LexModel) ignorable(g *GNode) bool {
	if g.Kind == GTok && (l.spacing(g.Text) || l.closerTok(g.Text)) {
		return true
	}
	if ts, ok := l.symTexts(g); ok {
		for _, t := range ts {
			switch t {
			case ",", "(", ")", `"`, `'`:
			default:
				return false
			}
		}
		return true
	}
	return false
}

func checkLossless(r *Report, l *LexModel) {
	m := l.m
	r.rule = "The words of every production (repetitions up to twice) are mapped to what the parser library stores in the node's fields; two words with the same stored contents must agree on everything that carries content (names, texts, keywords, operators, sub-nodes and their order). Tokens whose text varies must be captured, elided tokens must consist of white space, and the parser is built without options that drop or rewrite tokens."
	// settings
	for _, o := range l.Options {
		name := strings.TrimPrefix(o.Sym, participlePath+".")
		ok := o.Op == OCall && (name == "UseLookahead" || name == "Elide")
		if ok && name == "UseLookahead" {
			n, isC := o.Args[0].intVal()
			ok = isC && n >= 1
		}
		r.ob(ok, "option:"+name, l.Pos, "the parser is built with option %s, which can change what is recorded", o)
	}
	for n, run := range l.Parse {
		for _, o := range run.outs {
			for _, f := range o.St.effs {
				if f.Kind == "call" && isParseCall(f.Name) {
					last := f.Args[len(f.Args)-1]
					r.ob(last.Op == ONil || last.Op == OSeq && len(last.Args) == 0, "allow:"+n, f.Pos, "%s parses with an option: %s", n, last)
				}
			}
		}
	}
	for _, s := range l.reachable() {
		for _, lr := range l.States[s] {
			if !lr.Elided {
				continue
			}
			r.count("elided rules", 1)
			in, w := langWithin(lr.Pattern, `\s*`)
			r.ob(in, "elided:"+s+":"+lr.Name, l.Pos, "text such as %q is skipped as token %s", w, lr.Name)
		}
	}
	for _, t := range m.inTree() {
		if t.Prod == nil {
			continue
		}
		l.parseable(r, t)
		r.count("productions", 1)
		ws, err := m.words(t, t.Prod)
		if err != nil {
			r.failAt("words:"+t.Name, r.p.pos(t.Named.Obj().Pos()), "%v", err)
			continue
		}
		r.count("words", len(ws))
		stored := map[string]gWord{}
		content := map[string]string{}
		for _, w := range ws {
			fields := map[int][]string{}
			var cont []string
			for _, s := range w {
				item := ""
				switch s.g.Kind {
				case GRef:
					item = "@" + s.g.Ref.Obj().Name()
				case GLit, GTok:
					if one, ok := l.one(s.g); ok {
						item = one
					} else {
						item = "text"
					}
				case GNeg:
					item = "text"
				}
				if s.field < 0 {
					if l.ignorable(s.g) {
						continue
					}
					if item == "text" && !l.opensText(s.g.Text) {
						r.fail("uncaptured:"+t.Name+":"+s.g.String(), t.Named.Obj().Pos(), "%s matches %s without recording its text", t.Name, s.g)
					}
					if item == "text" && l.opensText(s.g.Text) {
						// a quote, or a heredoc header
						if ts, ok := l.symTexts(s.g); !ok || len(ts) == 0 {
							r.fail("uncaptured:"+t.Name+":"+s.g.String(), t.Named.Obj().Pos(), "%s matches %s without recording its text", t.Name, s.g)
						}
						continue
					}
					cont = append(cont, item)
					continue
				}
				if s.g.Kind != GTok || !l.spacing(s.g.Text) && !l.closerTok(s.g.Text) {
					cont = append(cont, item)
				}
				ft := t.St.Field(s.field).Type()
				switch kindOfField(ft) {
				case keepList, keepText:
					fields[s.field] = append(fields[s.field], item)
				case keepFlag:
					fields[s.field] = []string{"true"}
				default:
					fields[s.field] = []string{item}
				}
			}
			var fk []string
			for f, items := range fields {
				fk = append(fk, fmt.Sprintf("%d=%s", f, strings.Join(items, "\x00")))
			}
			sort.Strings(fk)
			k, c := strings.Join(fk, "\x01"), strings.Join(cont, " ")
			if w0, ok := stored[k]; ok && content[k] != c {
				r.obligations++
				r.fail("lost:"+t.Name, t.Named.Obj().Pos(), "%s records the same for two different texts: %q and %q", t.Name, w0.String(), w.String())
				continue
			}
			r.obligations++
			r.discharged++
			if _, ok := stored[k]; !ok {
				stored[k], content[k] = w, c
			}
		}
	}
	r.floor("productions", 40)
	r.floor("words", 200)
	r.assume = append(r.assume, "the parser library stores captures as its source says: pointers and booleans are overwritten, texts concatenated, lists appended")
}

// ---------------------------------------------------------------------------
// E06: operator precedence

func checkPrecedence(r *Report, l *LexModel) {
	m := l.m
	r.rule = "The words of the expression productions are compared with the documented precedence table: each binary operator is accepted by exactly one production, whose words are an operand of the next tighter production followed by operators of that row and operands that are no looser; conditional, unary, postfix and grouping productions have the shapes the table gives them."
	sym := func(s gSym) string {
		if s.g.Kind == GRef {
			return "@" + s.g.Ref.Obj().Name()
		}
		if o, ok := l.one(s.g); ok {
			return o
		}
		return s.g.String()
	}
	words := map[*NodeType][][]string{}
	exprTypes := m.inTree()
	for _, t := range exprTypes {
		if t.Prod == nil {
			continue
		}
		ws, err := m.words(t, t.Prod)
		if err != nil {
			continue
		}
		for _, w := range ws {
			var out []string
			for _, s := range w {
				if s.g.Kind == GTok && l.spacing(s.g.Text) {
					continue
				}
				out = append(out, sym(s))
			}
			words[t] = append(words[t], out)
		}
	}
	isRef := func(s string) bool { return strings.HasPrefix(s, "@") }
	refType := func(s string) *NodeType { return m.ByName[strings.TrimPrefix(s, "@")] }
	// infix users: productions with a word [@X, op, @Y]
	infix := func(op string) []*NodeType {
		var out []*NodeType
		for _, t := range exprTypes {
			for _, w := range words[t] {
				hit := false
				for i := 1; i+1 < len(w); i++ {
					if w[i] == op && isRef(w[i-1]) && isRef(w[i+1]) {
						hit = true
					}
				}
				if hit {
					out = append(out, t)
					break
				}
			}
		}
		return out
	}
	var levels []*NodeType
	for _, row := range docBinary {
		var lt *NodeType
		for _, op := range row {
			us := infix(op)
			r.count("operators", 1)
			if !r.ob(len(us) == 1, "row:"+op, m.Root.Named.Obj().Pos(), "the operator %s is accepted by %d productions %s instead of one", op, len(us), typeNames(us)) {
				if len(us) == 0 {
					continue
				}
			}
			if lt == nil {
				lt = us[0]
			}
			r.ob(lt == us[0], "row:"+op+":with:"+row[0], us[0].Named.Obj().Pos(), "the operators %s and %s share a row of the precedence table but are parsed by %s and %s", row[0], op, lt.Name, us[0].Name)
		}
		levels = append(levels, lt)
	}
	r.floor("operators", 18)
	for i, lt := range levels {
		for j := i + 1; j < len(levels); j++ {
			if lt != nil {
				r.ob(lt != levels[j], fmt.Sprintf("rows:%s:%s", docBinary[i][0], docBinary[j][0]), lt.Named.Obj().Pos(), "the operators %s and %s are parsed at the same level by %s", docBinary[i][0], docBinary[j][0], lt.Name)
			}
		}
	}
	for i, lt := range levels {
		if lt == nil {
			continue
		}
		var next *NodeType
		if i+1 < len(levels) {
			next = levels[i+1]
		}
		pos := lt.Named.Obj().Pos()
		for _, w := range words[lt] {
			ws := strings.Join(w, " ")
			ok := len(w)%2 == 1
			for k, s := range w {
				if k%2 == 1 {
					if !contains(docBinary[i], s) {
						ok = false
					}
					continue
				}
				if !isRef(s) {
					ok = false
					continue
				}
				c := refType(s)
				if next == nil && c != nil && c != lt {
					next = c // the operand of the tightest row: the unary level
				}
				if k == 0 && c != next {
					ok = false
				}
				if k > 0 && c != next && !(c == lt && k == len(w)-1) {
					ok = false
				}
			}
			want := "the next tighter level"
			if next != nil {
				want = next.Name
			}
			r.ob(ok, "level:"+lt.Name+":"+ws, pos, "%s accepts %q; in the row of %s every operand is %s and the operators are %s", lt.Name, ws, docBinary[i][0], want, strings.Join(docBinary[i], " "))
		}
		if i+1 == len(levels) && next != nil {
			l.checkTight(r, words, next, refType)
		}
	}
	// the conditional and what an expression is
	if levels[0] != nil {
		var cond *NodeType
		for _, t := range exprTypes {
			for _, w := range words[t] {
				if contains(w, "?") {
					r.ob(cond == nil || cond == t, "conditional:"+t.Name, t.Named.Obj().Pos(), "the conditional operator is parsed by both %s and %s", nameOf(cond), t.Name)
					cond = t
				}
			}
		}
		if r.ob(cond != nil, "conditional", levels[0].Named.Obj().Pos(), "no production accepts the conditional operator") {
			top := "@" + levels[0].Name
			exprName := ""
			n := 0
			for _, w := range words[cond] {
				switch {
				case len(w) == 1 && w[0] == top:
				case len(w) == 5 && w[0] == top && w[1] == "?" && w[3] == ":" && isRef(w[2]) && isRef(w[4]):
					n++
					for _, x := range []string{w[2], w[4]} {
						if exprName == "" {
							exprName = x
						}
						r.ob(x == exprName, "conditional:branches", cond.Named.Obj().Pos(), "the branches of the conditional differ: %s and %s", exprName, x)
					}
				default:
					r.obligations++
					r.fail("conditional:"+strings.Join(w, " "), cond.Named.Obj().Pos(), "%s accepts %q, which is not a condition of the || level with an optional ? and :", cond.Name, strings.Join(w, " "))
				}
			}
			r.ob(n > 0, "conditional:shape", cond.Named.Obj().Pos(), "%s does not accept condition ? expression : expression", cond.Name)
			if et := refType(exprName); et != nil {
				hasCond := et == cond
				for _, w := range words[et] {
					if len(w) == 1 && w[0] == "@"+cond.Name {
						hasCond = true
						continue
					}
					if len(w) == 1 && isRef(w[0]) {
						// other expressions start with their own keyword
						if c := refType(w[0]); c != nil && et != cond {
							for _, x := range words[c] {
								r.ob(len(x) > 0 && !isRef(x[0]), "expression:"+c.Name, c.Named.Obj().Pos(), "the expression %s does not start with a keyword of its own", c.Name)
							}
						}
						continue
					}
					if et != cond {
						r.obligations++
						r.fail("expression:"+strings.Join(w, " "), et.Named.Obj().Pos(), "%s accepts %q beside complete expressions", et.Name, strings.Join(w, " "))
					}
				}
				r.ob(hasCond, "expression", et.Named.Obj().Pos(), "a branch of the conditional cannot itself be a conditional")
				r.checkGroup(l, words, et)
			}
		}
	}
}

func nameOf(t *NodeType) string {
	if t == nil {
		return "nothing"
	}
	return t.Name
}

func typeNames(ts []*NodeType) string {
	var out []string
	for _, t := range ts {
		out = append(out, t.Name)
	}
	return fmt.Sprint(out)
}

// checkTight checks the unary, postfix and primary levels.
func (l *LexModel) checkTight(r *Report, words map[*NodeType][][]string, unary *NodeType, refType func(string) *NodeType) {
	isRef := func(s string) bool { return strings.HasPrefix(s, "@") }
	var post *NodeType
	seen := map[string]bool{}
	pos := unary.Named.Obj().Pos()
	for _, w := range words[unary] {
		if len(w) == 1 && isRef(w[0]) {
			post = refType(w[0])
		}
	}
	if !r.ob(post != nil, "unary:operand", pos, "%s does not accept an operand without operator", unary.Name) {
		return
	}
	for _, w := range words[unary] {
		ops := w[:len(w)-1]
		last := w[len(w)-1]
		ok := isRef(last) && (refType(last) == post || refType(last) == unary)
		for _, o := range ops {
			if isRef(o) || !contains(docUnary, o) && o != "+" {
				ok = false
			}
			seen[o] = true
		}
		r.ob(ok, "unary:"+strings.Join(w, " "), pos, "%s accepts %q, which is not an optional unary operator before a postfix expression", unary.Name, strings.Join(w, " "))
	}
	for _, o := range docUnary {
		r.ob(seen[o], "unary:op:"+o, pos, "%s does not accept the unary operator %s", unary.Name, o)
	}
	// postfix and primary: looser expressions only inside brackets
	loose := map[string]bool{}
	level := map[*NodeType]bool{post: true}
	var prim *NodeType
	for _, w := range words[post] {
		if len(w) > 0 && isRef(w[0]) {
			prim = refType(w[0])
		}
	}
	level[prim] = true
	// every type that can derive an unbracketed binary, unary or conditional
	// expression is loose
	for _, t := range l.m.inTree() {
		for _, w := range words[t] {
			if contains(w, "?") {
				loose["@"+t.Name] = true
			}
			for i, s := range w {
				if isRef(s) || i+1 >= len(w) {
					continue
				}
				for _, row := range docBinary {
					if contains(row, s) && i > 0 && isRef(w[i-1]) {
						loose["@"+t.Name] = true
					}
				}
			}
		}
	}
	loose["@"+unary.Name] = true
	for ch := true; ch; {
		ch = false
		for _, t := range l.m.inTree() {
			if loose["@"+t.Name] || level[t] {
				continue
			}
			for _, w := range words[t] {
				if len(w) == 1 && loose[w[0]] {
					loose["@"+t.Name] = true
					ch = true
				}
			}
		}
	}
	for _, t := range []*NodeType{post, prim} {
		if t == nil {
			continue
		}
		for _, w := range words[t] {
			depth := 0
			for _, s := range w {
				switch s {
				case "(", "[":
					depth++
				case ")", "]":
					depth--
				}
				r.ob(!(depth == 0 && loose[s]), "tight:"+t.Name+":"+strings.Join(w, " "), t.Named.Obj().Pos(), "%s accepts %s outside brackets in %q: looser operators bind tighter than postfix", t.Name, s, strings.Join(w, " "))
			}
		}
		if t == post {
			idx := false
			for _, w := range words[t] {
				for i := 1; i+2 < len(w)+0; i++ {
					if w[i] == "[" && loose[w[i+1]] && w[i+2] == "]" {
						idx = true
					}
				}
			}
			r.ob(idx, "postfix:index", t.Named.Obj().Pos(), "%s does not accept an index in brackets after its operand", t.Name)
		}
	}
	if prim != nil {
		group, call := false, false
		for _, w := range words[prim] {
			if len(w) == 3 && w[0] == "(" && loose[w[1]] && w[2] == ")" {
				group = true
			}
			for i := 1; i+2 < len(w); i++ {
				if w[i] == "(" && isRef(w[i+1]) && w[i+2] == ")" {
					call = true
				}
			}
			for i := 1; i+2 == len(w)-0; i++ {
				if w[i] == "(" && isRef(w[i+1]) && w[len(w)-1] == ")" {
					call = true
				}
			}
		}
		r.ob(group, "group", prim.Named.Obj().Pos(), "%s does not accept an expression in parentheses", prim.Name)
		r.ob(call, "call", prim.Named.Obj().Pos(), "%s does not accept an invocation after a name", prim.Name)
	}
}

// checkGroup: parentheses hold complete expressions.
func (r *Report) checkGroup(l *LexModel, words map[*NodeType][][]string, expr *NodeType) {
	for _, t := range l.m.inTree() {
		for _, w := range words[t] {
			if len(w) == 3 && w[0] == "(" && w[2] == ")" && strings.HasPrefix(t.Name, "Expr") {
				r.ob(w[1] == "@"+expr.Name, "group:"+t.Name, t.Named.Obj().Pos(), "parentheses in %s hold %s instead of any expression", t.Name, w[1])
			}
		}
	}
}
