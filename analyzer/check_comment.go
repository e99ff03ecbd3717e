package main

import (
	"fmt"
	"strings"
)

// E25: comments extend exactly to their own end.

func init() { checks["E25"] = withLex(checkComments) }

// commentSpec reads a comment. Its states: "" at the start, "/" after a slash,
// "l" in a comment that ends with its line, "L" once that has ended, "b" in a
// comment that has its own end, "b*" after an asterisk there, "e" just after
// its end and "E" later; "x" for text that is no comment. Marks of line
// comments become "ok" or "bad" with the next character.
type commentSpec struct {
	seen map[string]bool
}

func (s *commentSpec) start() string { return "" }
func (s *commentSpec) step(st string, r rune) string {
	switch st {
	case "":
		switch r {
		case '/':
			return "/"
		case '#':
			return "l"
		}
		return "x"
	case "/":
		switch r {
		case '/':
			return "l"
		case '*':
			return "b"
		}
		return "x"
	case "l":
		if r == '\n' || r < 0 {
			return "L"
		}
	case "b", "b*":
		switch {
		case r == '*':
			return "b*"
		case r == '/' && st == "b*":
			return "e"
		}
		return "b"
	case "e":
		return "E"
	}
	return st
}
func (s *commentSpec) mark(st string) string { return st }
func (s *commentSpec) stepMark(m string, r rune) string {
	if m == "l" {
		// The end of a line may be taken to include the CR before it.
		if r == '\n' || r == '\r' || r < 0 {
			return "ok"
		}
		return "bad"
	}
	return m
}
func (s *commentSpec) judge(rule *LexRule, main, mark string, eof bool) (bool, bool, string) {
	switch main {
	case "", "/":
		return true, eof, ""
	case "x":
		return true, true, ""
	case "b", "b*":
		return true, eof, "" // not ended (yet)
	}
	kind := "a comment that ends with its line"
	if main == "e" || main == "E" {
		kind = "a comment between /* and */"
	}
	switch {
	case rule == nil:
		return false, true, kind + " is not accepted"
	case rule.Elided:
		return false, true, fmt.Sprintf("%s is skipped as %s", kind, rule.Name)
	case rule.Push != "" || rule.Pop:
		return false, true, fmt.Sprintf("rule %s, which reads %s, changes the state", rule.Name, kind)
	case mark == "ok" || mark == "e":
		s.seen[kind] = true
		return true, true, ""
	case mark == "L" || mark == "E":
		return false, true, fmt.Sprintf("rule %s reads over the end of %s", rule.Name, kind)
	}
	return false, true, fmt.Sprintf("rule %s stops within %s", rule.Name, kind)
}

func checkComments(r *Report, l *LexModel) {
	r.rule = "In every lexer state that tokenises expressions the automaton of the state's rules is run, over all inputs, beside a specification automaton of comments: a text that starts with # or // must be read as one token up to the end of its line, one that starts with /* as one token up to the first */."
	for _, s := range l.exprStates() {
		r.count("states", 1)
		insts, err := l.instances(s)
		if err != nil {
			r.failAt("state:"+s, r.p.pos(l.Pos), "state %s: %v", s, err)
			continue
		}
		for _, g := range insts {
			mc, err := l.machine(s, g, "\r\n/*#\"'\\${}")
			if err != nil {
				r.failAt("state:"+s, r.p.pos(l.Pos), "state %s: %v", s, err)
				continue
			}
			sp := &commentSpec{seen: map[string]bool{}}
			n := mc.explore(sp, func(rule *LexRule, input, why string) {
				r.failAt("comment:"+s+":"+firstWords(why, 12), r.p.pos(l.Pos), "in state %s, on %q: %s", s, input, why)
			})
			r.count("configurations", n)
			for _, k := range []string{"a comment that ends with its line", "a comment between /* and */"} {
				r.ob(sp.seen[k], "comments:"+s+":"+strings.Fields(k)[3], l.Pos, "in state %s, %s is never read", s, k)
			}
		}
	}
	r.floor("states", 1)
}
