package main

import "regexp/syntax"

// countGroups is the number of capture groups of a pattern, -1 if invalid.
func countGroups(p string) int {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return -1
	}
	return re.MaxCap()
}
