package main

import (
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic strings with a known language. Questions about them (does it match
// a pattern, start with a text, what does a capture group hold) are decided by
// inclusion between regular languages.

type strVar struct {
	in  string   // pattern of all its texts
	out []string // patterns of texts it does not have
}

type strWorld struct {
	e     *Engine
	vars  map[*Term]strVar
	cache map[string]bool
}

func newStrWorld(e *Engine) *strWorld {
	w := &strWorld{e: e, vars: map[*Term]strVar{}, cache: map[string]bool{}}
	prevE := e.external
	e.external = func(e *Engine, st *State, fn *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool) {
		if os, ok := w.call(st, fn, args, pos); ok {
			return os, true
		}
		if prevE != nil {
			return prevE(e, st, fn, args, pos)
		}
		return nil, false
	}
	prevD := e.decide
	e.decide = func(st *State, t *Term) int {
		if r := w.decide(t); r >= 0 {
			return r
		}
		if prevD != nil {
			return prevD(st, t)
		}
		return -1
	}
	prevL := e.lenHook
	e.lenHook = func(st *State, x *Term) (int64, int64) {
		lo, hi := int64(0), int64(inf)
		if prevL != nil {
			lo, hi = prevL(st, x)
		}
		for lo < 4 && w.known(x) && w.within(x, `(?s:.{`+strconv.Itoa(int(lo)+1)+`,})`) {
			lo++
		}
		return lo, hi
	}
	return w
}

func (w *strWorld) variable(name, in string, out ...string) *Term {
	t := mk(OSym, name, 0, types.Typ[types.String])
	w.vars[t] = strVar{in, out}
	return t
}

func (w *strWorld) known(t *Term) bool {
	_, _, ok := w.pattern(t)
	return ok && t.Op != OConst
}

// pattern gives a language that includes all texts of t.
func (w *strWorld) pattern(t *Term) (in string, out []string, ok bool) {
	if t.Op == OConv {
		return w.pattern(t.Args[0])
	}
	if v, ok := w.vars[t]; ok {
		return v.in, v.out, true
	}
	if s, ok := t.strVal(); ok {
		return regexp.QuoteMeta(s), nil, true
	}
	if t.Op != OStr {
		return "", nil, false
	}
	nv := 0
	for _, a := range t.Args {
		if a.Op != OConst {
			nv++
		}
	}
	var outs []string
	pre := ""
	for i, a := range t.Args {
		p, o, ok := w.pattern(a)
		if !ok || a.Op == OEach {
			return "", nil, false
		}
		if nv == 1 {
			for _, x := range o {
				post := ""
				for _, b := range t.Args[i+1:] {
					q, _, _ := w.pattern(b)
					post += "(?:" + q + ")"
				}
				outs = append(outs, pre+"(?:"+x+")"+post)
			}
		}
		pre += "(?:" + p + ")"
	}
	return pre, outs, true
}

func (w *strWorld) ask(t *Term, pat string, want bool) bool {
	in, out, ok := w.pattern(t)
	if !ok {
		return false
	}
	k := in + "\x00" + strings.Join(out, "\x00") + "\x01" + pat
	if want {
		k += "+"
	}
	if v, ok := w.cache[k]; ok {
		return v
	}
	_, found, err := langFind(func(acc []bool) bool {
		if !acc[0] || acc[1] == want {
			return false
		}
		for _, x := range acc[2:] {
			if x {
				return false
			}
		}
		return true
	}, append([]string{in, pat}, out...)...)
	r := err == nil && !found
	w.cache[k] = r
	return r
}

// within: every text of t matches pat as a whole.
func (w *strWorld) within(t *Term, pat string) bool { return w.ask(t, pat, true) }

// outside: no text of t matches pat as a whole.
func (w *strWorld) outside(t *Term, pat string) bool { return w.ask(t, pat, false) }

const anyText = `(?s:.*)`

func search(re string) string { return anyText + "(?:" + re + ")" + anyText }

// predicate reads a boolean term as membership of a text in a language.
func (w *strWorld) predicate(t *Term) (x *Term, pat string, neg, ok bool) {
	switch t.Op {
	case ONot:
		x, pat, neg, ok = w.predicate(t.Args[0])
		return x, pat, !neg, ok
	case OCall:
		if len(t.Args) == 2 {
			if s, isC := t.Args[1].strVal(); isC {
				q := regexp.QuoteMeta(s)
				switch t.Sym {
				case "HasPrefix":
					return t.Args[0], q + anyText, false, true
				case "HasSuffix":
					return t.Args[0], anyText + q, false, true
				case "Contains":
					return t.Args[0], anyText + q + anyText, false, true
				case "ContainsAny":
					return t.Args[0], anyText + charClass(s) + anyText, false, true
				case "EqualFold":
					return t.Args[0], `(?i:` + q + `)`, false, true
				}
			}
			if re, isR := regexText(t.Args[0]); isR && t.Sym == "(*regexp.Regexp).MatchString" {
				return t.Args[1], search(re), false, true
			}
		}
	case OBin:
		a, b := t.Args[0], t.Args[1]
		if t.Sym == "<" {
			// Index(...) < 0
			if k, isI := b.intVal(); isI && k == 0 && a.Op == OCall && strings.HasPrefix(a.Sym, "Index") && len(a.Args) == 2 {
				if s, isC := a.Args[1].strVal(); isC {
					q := regexp.QuoteMeta(s)
					if a.Sym == "IndexAny" {
						q = charClass(s)
					}
					return a.Args[0], anyText + q + anyText, true, true
				}
			}
			return
		}
		if t.Sym != "==" {
			return
		}
		if a.isConst() {
			a, b = b, a
		}
		if s, isC := b.strVal(); isC {
			if a.Op == OText && strings.HasPrefix(a.Sym, "Trim") && s == "" && len(a.Args) == 2 {
				if cs, isC := a.Args[1].strVal(); isC {
					switch a.Sym {
					case "Trim", "TrimLeft", "TrimRight":
						return a.Args[0], charClass(cs) + "*", false, true
					}
				}
			}
			return a, regexp.QuoteMeta(s), false, true
		}
		if c, isI := b.intVal(); isI && c >= 0 && c < 128 && a.Op == OLoad && a.Args[0].Op == OIndexAddr {
			if k, isK := a.Args[0].Args[1].intVal(); isK && k < 16 {
				return a.Args[0].Args[0], `[[:ascii:]]{` + strconv.Itoa(int(k)) + `}` + regexp.QuoteMeta(string(rune(c))) + anyText, false, true
			}
		}
	}
	return
}

func charClass(set string) string {
	if set == "" {
		return `[^\x00-\x{10FFFF}]`
	}
	var sb strings.Builder
	sb.WriteByte('[')
	for _, r := range set {
		sb.WriteString(`\x{` + strconv.FormatInt(int64(r), 16) + `}`)
	}
	sb.WriteByte(']')
	return sb.String()
}

func (w *strWorld) decide(t *Term) int {
	x, pat, neg, ok := w.predicate(t)
	if !ok || !w.known(x) {
		return -1
	}
	yes, no := 1, 0
	if neg {
		yes, no = 0, 1
	}
	if w.within(x, pat) {
		return yes
	}
	if w.outside(x, pat) {
		return no
	}
	return -1
}

func regexText(t *Term) (string, bool) {
	if t.Op == OCall && (t.Sym == "regexp.MustCompile" || t.Sym == "regexp.Compile") {
		return t.Args[0].strVal()
	}
	if t.Op == OExtract {
		return regexText(t.Args[0])
	}
	return "", false
}

func oneOut(st *State, vals ...*Term) ([]Outcome, bool) {
	return []Outcome{{St: st, Results: vals}}, true
}

func (w *strWorld) call(st *State, fn *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool) {
	e := w.e
	name := fnName(fn)
	switch name {
	case "strings.TrimPrefix", "strings.CutPrefix", "strings.TrimSuffix", "strings.CutSuffix":
		c, ok := args[1].strVal()
		if !ok || !w.known(args[0]) {
			return nil, false
		}
		var rest *Term
		q := regexp.QuoteMeta(c)
		if strings.HasSuffix(name, "Prefix") {
			if w.outside(args[0], q+anyText) {
				rest = args[0]
			} else {
				rest, ok = cutStr(args[0], len(c), -1)
				if !ok || !w.within(args[0], q+anyText) {
					return nil, false
				}
			}
		} else {
			if w.outside(args[0], anyText+q) {
				rest = args[0]
			} else {
				rest, ok = cutStr(args[0], 0, len(c))
				if !ok || !w.within(args[0], anyText+q) {
					return nil, false
				}
			}
		}
		if strings.Contains(name, "Cut") {
			return oneOut(st, rest, cBool(rest != args[0] || c == ""))
		}
		return oneOut(st, rest)
	case "(*regexp.Regexp).MatchString":
		re, ok := regexText(e.regexOf(st, args[0]))
		if !ok || !w.known(args[1]) {
			return nil, false
		}
		if w.within(args[1], search(re)) {
			return oneOut(st, cBool(true))
		}
		if w.outside(args[1], search(re)) {
			return oneOut(st, cBool(false))
		}
	case "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindString", "(*regexp.Regexp).ReplaceAllString":
		re, ok := regexText(e.regexOf(st, args[0]))
		if !ok || !w.known(args[1]) {
			return nil, false
		}
		var groups []*Term
		switch {
		case w.outside(args[1], search(re)):
		case w.within(args[1], search(re)):
			parsed, err := syntax.Parse(re, syntax.Perl)
			if err != nil {
				return nil, false
			}
			for g := 0; g <= parsed.MaxCap(); g++ {
				t, ok := w.group(args[1], re, g)
				if !ok {
					return nil, false
				}
				groups = append(groups, t)
			}
		default:
			return nil, false
		}
		switch {
		case strings.HasSuffix(name, "FindStringSubmatch"):
			if groups == nil {
				return oneOut(st, theNil)
			}
			return oneOut(st, e.newSlice(st, fn.Signature.Results().At(0).Type(), groups, false, pos))
		case strings.HasSuffix(name, "FindString"):
			if groups == nil {
				return oneOut(st, cString(""))
			}
			return oneOut(st, groups[0])
		default:
			if groups == nil {
				return oneOut(st, args[1])
			}
			repl, ok := args[2].strVal()
			if !ok || groups[0] != args[1] {
				return nil, false
			}
			return oneOut(st, expandRepl(repl, groups))
		}
	}
	return nil, false
}

var replRe = regexp.MustCompile(`\$(?:\$|\{(\d+)\}|(\d+)(\w*))`)

func expandRepl(repl string, groups []*Term) *Term {
	var parts []*Term
	last := 0
	for _, m := range replRe.FindAllStringSubmatchIndex(repl, -1) {
		parts = append(parts, cString(repl[last:m[0]]))
		last = m[1]
		num := ""
		switch {
		case m[2] >= 0:
			num = repl[m[2]:m[3]]
		case m[4] >= 0 && m[6] == m[7]:
			num = repl[m[4]:m[5]]
		case m[4] >= 0:
			continue // $1x names the group "1x", which does not exist
		default:
			parts = append(parts, cString("$"))
			continue
		}
		n, _ := strconv.Atoi(num)
		if n < len(groups) {
			parts = append(parts, groups[n])
		}
	}
	parts = append(parts, cString(repl[last:]))
	return mkStr(parts...)
}

// cutStr removes constant text from the ends of a string: lo bytes at the
// start, hi bytes at the end (-1: none).
func cutStr(t *Term, lo, hi int) (*Term, bool) {
	if hi < 0 {
		hi = 0
	}
	segs := append([]*Term(nil), strSegs(t)...)
	for lo > 0 {
		if len(segs) == 0 {
			return nil, false
		}
		s, ok := segs[0].strVal()
		if !ok {
			return nil, false
		}
		if len(s) <= lo {
			lo -= len(s)
			segs = segs[1:]
			continue
		}
		segs[0] = cString(s[lo:])
		lo = 0
	}
	for hi > 0 {
		if len(segs) == 0 {
			return nil, false
		}
		s, ok := segs[len(segs)-1].strVal()
		if !ok {
			return nil, false
		}
		if len(s) <= hi {
			hi -= len(s)
			segs = segs[:len(segs)-1]
			continue
		}
		segs[len(segs)-1] = cString(s[:len(s)-hi])
		hi = 0
	}
	return mkStr(segs...), true
}

const (
	markOpen  = '\U0010FFF0'
	markClose = '\U0010FFF1'
)

// group finds what a capture group holds in every match of re in t.
func (w *strWorld) group(t *Term, re string, g int) (*Term, bool) {
	var atoms []*Term
	nv := 0
	for _, s := range strSegs(t) {
		if c, ok := s.strVal(); ok {
			for _, r := range c {
				atoms = append(atoms, cString(string(r)))
			}
			continue
		}
		nv++
		atoms = append(atoms, s)
	}
	if nv > 1 || len(atoms) > 10 {
		return nil, false
	}
	in, _, ok := w.pattern(t)
	if !ok {
		return nil, false
	}
	marked, ok := markGroup(re, g)
	if !ok {
		return nil, false
	}
	pats := func(ts []*Term) string {
		s := ""
		for _, x := range ts {
			p, _, _ := w.pattern(x)
			s += "(?:" + p + ")"
		}
		return s
	}
	try := func(hyp string) bool {
		k := "g" + in + "\x00" + marked + "\x00" + hyp
		if v, ok := w.cache[k]; ok {
			return v
		}
		r := markedWithin(in, marked, hyp)
		w.cache[k] = r
		return r
	}
	for i := 0; i <= len(atoms); i++ {
		for j := len(atoms); j >= i; j-- {
			if try(pats(atoms[:i]) + string(markOpen) + pats(atoms[i:j]) + string(markClose) + pats(atoms[j:])) {
				return mkStr(atoms[i:j]...), true
			}
		}
	}
	if try(in) {
		return cString(""), true
	}
	return nil, false
}

// markGroup puts markers around a capture group of an unanchored search.
func markGroup(re string, g int) (string, bool) {
	p, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return "", false
	}
	bad := false
	lit := func(r rune) *syntax.Regexp {
		return &syntax.Regexp{Op: syntax.OpLiteral, Rune: []rune{r}}
	}
	wrap := func(x *syntax.Regexp) *syntax.Regexp {
		return &syntax.Regexp{Op: syntax.OpConcat, Sub: []*syntax.Regexp{lit(markOpen), x, lit(markClose)}}
	}
	var rec func(x *syntax.Regexp) *syntax.Regexp
	rec = func(x *syntax.Regexp) *syntax.Regexp {
		if x.Op == syntax.OpWordBoundary || x.Op == syntax.OpNoWordBoundary {
			bad = true
		}
		n := *x
		n.Sub = nil
		for _, s := range x.Sub {
			n.Sub = append(n.Sub, rec(s))
		}
		if x.Op == syntax.OpCapture {
			if x.Cap == g {
				return wrap(n.Sub[0])
			}
			return n.Sub[0]
		}
		return &n
	}
	m := rec(p)
	if g == 0 {
		m = wrap(m)
	}
	if bad {
		return "", false
	}
	return anyText + "(?:" + m.String() + ")" + anyText, true
}

// markedWithin decides: every marked text that the marked pattern accepts and
// that without its markers belongs to in, belongs to hyp.
func markedWithin(in, marked, hyp string) bool {
	s, err := newReSet(string(markOpen)+string(markClose), in, marked, hyp)
	if err != nil {
		return false
	}
	s.markers = true
	s.ignore = []bool{true, false, false}
	ok := true
	s.explore(func(acc []bool, text string) bool {
		if acc[0] && acc[1] && !acc[2] {
			ok = false
		}
		return ok
	})
	return ok
}

func isMarker(r rune) bool { return r == markOpen || r == markClose }
