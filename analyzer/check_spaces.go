package main

import "fmt"

// E24: blanks between tokens never change what is read.

func init() { checks["E24"] = withLex(checkSpaces) }

// commentText is what every comment starts with; adding blanks inside one
// changes its text.
const commentText = `(\/\/|#|\/\*)(.|\n)*`

// ends explores the ways to finish the token whose text so far is c's: the
// rules of the tokens that are exactly that text, by what follows it, and
// whether there are other outcomes.
func (mc *lexMachine) ends(c *lexPos, next []rune) (exact map[int]string, other string) {
	exact = map[int]string{}
	type st struct {
		p    *lexPos
		here bool // the best match so far is exactly c's text
	}
	var queue []st
	seen := map[string]bool{}
	push := func(from st, r rune, first bool) {
		n, hit, alive := mc.next(from.p, r)
		here := from.here
		if hit {
			here = first
		}
		if !alive || r < 0 {
			switch {
			case here:
				if _, ok := exact[n.best]; !ok {
					exact[n.best] = n.text
				}
			case other == "":
				other = n.text
			}
			return
		}
		if k := fmt.Sprintf("%s|%v", n.key(), here); !seen[k] {
			seen[k] = true
			queue = append(queue, st{n, here})
		}
	}
	for _, r := range next {
		push(st{p: c}, r, true)
	}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		for _, r := range append([]rune{-1}, mc.alpha.reps...) {
			push(s, r, false)
		}
	}
	return exact, other
}

// spaced decides that every token of the state is read alike when a blank is
// put after it.
func (mc *lexMachine) spaced(skip func(*LexRule) bool, report func(rule *LexRule, text, why string)) (states, tokens int) {
	init := mc.begin()
	queue := []*lexPos{init}
	seen := map[string]bool{init.key(): true}
	for len(queue) > 0 {
		c := queue[0]
		queue = queue[1:]
		for _, r := range mc.alpha.reps {
			if n, _, alive := mc.next(c, r); alive {
				if k := n.key(); !seen[k] {
					seen[k] = true
					queue = append(queue, n)
				}
			}
		}
		if c == init {
			continue
		}
		exact, _ := mc.ends(c, append([]rune{-1}, mc.alpha.reps...))
		for i, rest := range exact {
			rule := &mc.rules[i]
			if skip(rule) {
				continue
			}
			tokens++
			for _, blank := range []rune{' ', '\t'} {
				after, other := mc.ends(c, []rune{blank})
				if other != "" {
					report(rule, c.text, fmt.Sprintf("is read by rule %s before %q, but not before a blank (%q)", rule.Name, rest[len(c.text):], other))
					continue
				}
				for j := range after {
					if j != i {
						report(rule, c.text, fmt.Sprintf("is read by rule %s before %q, but by rule %s before a blank", rule.Name, rest[len(c.text):], mc.rules[j].Name))
					}
				}
			}
		}
	}
	return len(seen), tokens
}

func checkSpaces(r *Report, l *LexModel) {
	r.rule = "In every lexer state that tokenises expressions, for all inputs: the automaton of the state's rules is run beside itself with a blank inserted after the token, and must read the same token; a text that starts with a blank must be read as a skipped token made of blanks only."
	expr := map[string]bool{}
	for _, s := range l.exprStates() {
		expr[s] = true
	}
	for _, s := range l.exprStates() {
		r.count("states", 1)
		insts, err := l.instances(s)
		if err != nil {
			r.failAt("state:"+s, r.p.pos(l.Pos), "state %s: %v", s, err)
			continue
		}
		for _, g := range insts {
			mc, err := l.machine(s, g, "\r\n\t aA_0.")
			if err != nil {
				r.failAt("state:"+s, r.p.pos(l.Pos), "state %s: %v", s, err)
				continue
			}
			comment := map[string]bool{}
			for i := range mc.rules {
				if lr := &mc.rules[i]; !lr.Backref {
					in, _ := langWithin("(?:"+lr.Pattern+`)(.|\n)*`, commentText)
					comment[lr.Name] = in
				}
			}
			skip := func(lr *LexRule) bool {
				return lr.Elided || lr.Pop || comment[lr.Name] || lr.Push != "" && !expr[lr.Push]
			}
			said := map[string]bool{}
			n, toks := mc.spaced(skip, func(rule *LexRule, text, why string) {
				if said[rule.Name] {
					return
				}
				said[rule.Name] = true
				r.failAt("blank after:"+s+":"+rule.Name, r.p.pos(l.Pos), "in state %s, %q %s", s, text, why)
			})
			r.count("configurations", n)
			r.count("tokens", toks)
			for _, lr := range mc.rules {
				if lr := lr; !skip(&lr) && !said[lr.Name] {
					r.ob(true, "blank after:"+s+":"+lr.Name, l.Pos, "")
				}
			}
			sp := &lineSpec{names: map[string]bool{}, blanks: true}
			n = mc.explore(sp, func(rule *LexRule, input, why string) {
				r.failAt("blank:"+s+":"+firstWords(why, 12), r.p.pos(l.Pos), "in state %s, on %q: %s", s, input, why)
			})
			r.ob(true, "blank:"+s, l.Pos, "")
			r.count("configurations", n)
		}
	}
	r.floor("tokens", 20)
	r.assume = append(r.assume, "the parser library restarts each match at the current position, so that a token does not depend on what precedes it, and leaves skipped tokens out of what the grammar sees")
}
