package main

import (
	"strings"
)

// Account expressions, matched here without regular expressions: an expression is a list of words; between two words there
// is either one colon (the next word starts ... see below) or two.
//
//	w1:w2   w1 is found in some element, w2 in the next element (any characters may surround the words)
//	w1::w2  w1 is found, and later in the name w2, any number of elements in between (none included)
//
// Matching is case insensitive; letters, digits, - / _ only.

func isElemChar(c byte) bool {
	return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '/'
}

// exprMatches tells if name matches the expression, by search over positions.
func exprMatches(expr, name string) bool {
	expr, name = strings.ToLower(expr), strings.ToLower(name)
	words := strings.Split(expr, ":")
	type item struct {
		w      string
		double bool // preceded by ::
	}
	var items []item
	items = append(items, item{words[0], false})
	dbl := false
	for _, w := range words[1:] {
		if w == "" {
			dbl = true
			continue
		}
		items = append(items, item{w, dbl})
		dbl = false
	}
	// positions in name where the match so far may end
	ends := map[int]bool{}
	for i := 0; i+len(items[0].w) <= len(name); i++ {
		if strings.HasPrefix(name[i:], items[0].w) {
			ends[i+len(items[0].w)] = true
		}
	}
	for _, it := range items[1:] {
		next := map[int]bool{}
		for e := range ends {
			for s := e; s+len(it.w) <= len(name); s++ {
				gap := name[e:s]
				colons := strings.Count(gap, ":")
				if !it.double && colons != 1 {
					continue
				}
				if strings.HasPrefix(name[s:], it.w) {
					next[s+len(it.w)] = true
				}
			}
		}
		ends = next
	}
	return len(ends) > 0
}

// matches lists the accounts matching an expression, sorted.
func (l *Ledger) matches(expr string) []string {
	var out []string
	for _, n := range l.allAccs() {
		if exprMatches(expr, n) {
			out = append(out, n)
		}
	}
	return out
}

// resolve finds the account an expression denotes. ok is false if it denotes none or is ambiguous.
func (l *Ledger) resolve(expr string) (string, bool) {
	all := l.allAccs()
	for _, n := range all {
		if n == expr {
			return n, true
		}
	}
	ms := l.matches(expr)
	if len(ms) == 0 {
		return "", false
	}
	if len(ms) == 1 {
		return ms[0], true
	}
	for _, m := range ms[1:] {
		if !strings.HasPrefix(m, ms[0]+":") {
			return "", false
		}
	}
	return ms[0], true
}
