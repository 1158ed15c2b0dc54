package main

import (
	"math/rand/v2"
	"regexp"
	"sort"
	"strings"
)

// Import rules, as ofx.rules and the second section of csv.rules describe them.

type ruleLine struct {
	acc   string // target account, "--" to drop
	expr  string // how the account is written
	pat   string // regular expression, may be empty
	notes []string
	ref   *ruleGroup // a reference to a set instead of a rule
}

type ruleGroup struct {
	name    string // of a set
	id, acc string // of an account's rules
	expr    string
	lines   []*ruleLine
}

type ruleFile struct {
	groups []*ruleGroup
}

func (f *ruleFile) byId(id string) *ruleGroup {
	for _, g := range f.groups {
		if g.id != "" && g.id == id {
			return g
		}
	}
	return nil
}

// decide returns the first rule matching the payee, references expanded in place.
func (g *ruleGroup) decide(payee string) *ruleLine {
	if g == nil {
		return nil
	}
	for _, r := range g.lines {
		if r.ref != nil {
			if x := r.ref.decide(payee); x != nil {
				return x
			}
			continue
		}
		if regexp.MustCompile(r.pat).MatchString(payee) {
			return r
		}
	}
	return nil
}

var rulePats = []string{"COSTCO", "COSTCO GAS|PETROCAN", "SHELL|ESSO", "^ACME", "ACME PAY", "GAS$", "Fee|HST", "x", ".", "7-ELEVEN", "NO\\.\\d+",
	"[TC]W", "(?i)costco", "a b", "FARM BOY|LOBLAWS|METRO", "\\bFOO\\b", "PAY", "Interest", "Dividend|DRIP", "^$", "TF", "Ñ", "\\d\\d\\d", "E", "^[^A-Z]*$", "COSTCO.*#9", "@", ":", "Sold|Bought", "q"}

var rulePayees = []string{"COSTCO", "COSTCO GAS", "COSTCO WHOLESALE #9239", "PETROCAN 12", "SHELL", "ACME PAY", "THE ACME PAY", "MONTHLY Fee", "HST on fee", "x",
	"7-ELEVEN", "[CK]NO.272", "[CW] TF", "Costco", "a b", "FARM BOY", "METRO GAS", "FOO", "FOOD", "Interest paid", "Dividend", "DRIP", "CAFÉ Ñ", "12", "999 ST", "joe@pay.ca", "to: me", "Sold", "Bought VXF",
	"q", "LOBLAWS 0123", "zzz", "ESSO STN 5", "WATSWR", "(A1) STORE", "(77)", "(x) y", "FOO; BAR #tag", "PAY ;a; b", "; q", "a (b) c", "((x)) y", "(no code) z", "(55);late", "(9); x"}

// genRules makes rules for accounts with the given ids.
func (t *T) genRules(l *Ledger, ids map[string]string) *ruleFile {
	r := t.R
	f := &ruleFile{}
	var sets []*ruleGroup
	targets := append([]string(nil), l.Names...)
	body := func(g *ruleGroup, n int) {
		for i := 0; i < n; i++ {
			if len(sets) > 0 && r.IntN(4) == 0 {
				g.lines = append(g.lines, &ruleLine{ref: pick(r, sets)})
				continue
			}
			x := &ruleLine{acc: pick(r, targets), pat: pick(r, rulePats)}
			if r.IntN(8) == 0 {
				x.acc = "--"
			}
			if r.IntN(14) == 0 {
				x.pat = ""
			}
			if r.IntN(6) == 0 {
				x.pat += "|" + pick(r, rulePats)
			}
			x.expr = x.acc
			if x.acc != "--" && r.IntN(8) == 0 {
				if e := l.shorten(r, x.acc); e != "" {
					x.expr = e
				}
			}
			if r.IntN(3) == 0 {
				for k := 1 + r.IntN(3); k > 0; k-- {
					x.notes = append(x.notes, pick(r, []string{"service/maintenance", "#food", "#trip: Paris", "a note", "x", "see COSTCO", "@common", "Assets:Bank", "two  spaces", "a; b", "x;y"}))
				}
			}
			g.lines = append(g.lines, x)
		}
	}
	var names []string
	for id := range ids {
		names = append(names, id)
	}
	sort.Strings(names)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for i := r.IntN(4); i > 0; i-- {
		g := &ruleGroup{name: pick(r, []string{"common", "shops", "set_", "S", "GAS", "9lives"}) + string(rune('a'+i))}
		if r.IntN(5) > 0 { // else a set without rules
			body(g, 1+r.IntN(4))
		}
		sets = append(sets, g)
		f.groups = append(f.groups, g)
		if len(names) > 0 && r.IntN(3) == 0 {
			f.addAcc(l, r, &names, ids, body)
		}
	}
	for len(names) > 0 {
		f.addAcc(l, r, &names, ids, body)
	}
	return f
}

func (f *ruleFile) addAcc(l *Ledger, r *rand.Rand, names *[]string, ids map[string]string, body func(*ruleGroup, int)) {
	id := (*names)[0]
	*names = (*names)[1:]
	g := &ruleGroup{id: id, acc: ids[id], expr: ids[id]}
	body(g, r.IntN(7))
	f.groups = append(f.groups, g)
}

func (f *ruleFile) render(r *rand.Rand, fancy bool) string {
	var b strings.Builder
	gap := func(min int) string {
		if !fancy {
			return strings.Repeat(" ", min)
		}
		if r.IntN(10) == 0 {
			return "\t"
		}
		return strings.Repeat(" ", min+r.IntN(5))
	}
	end := func() {
		if fancy && r.IntN(6) == 0 {
			b.WriteString(strings.Repeat(" ", 1+r.IntN(3)))
		}
		b.WriteByte('\n')
		if fancy && r.IntN(12) == 0 {
			b.WriteString(pick(r, []string{"\n", "  \n", "; a comment\n", "\n; Expenses:Food x\n\n", ";\n"}))
		}
	}
	stray := func() { // a note that follows no rule
		if fancy && r.IntN(8) == 0 {
			b.WriteString(gap(2) + ";" + gap(1) + pick(r, []string{"stray", "#stray", "Assets:Bank x"}) + "\n")
		}
	}
	for _, g := range f.groups {
		if g.name != "" {
			b.WriteString(g.name)
		} else {
			b.WriteString(g.id + gap(1) + g.expr)
		}
		end()
		stray()
		for _, x := range g.lines {
			b.WriteString(gap(2))
			if x.ref != nil {
				b.WriteString("@" + x.ref.name)
				end()
				stray()
				continue
			}
			b.WriteString(x.expr)
			if x.pat != "" {
				b.WriteString(gap(1) + x.pat)
			}
			end()
			for _, n := range x.notes {
				b.WriteString(gap(2) + ";" + gap(1) + n + "\n")
			}
		}
	}
	return b.String()
}
