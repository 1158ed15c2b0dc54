package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C11", Quick: 500, Thor: 15000, Case: c11,
		Rule: "random account trees over a small vocabulary of overlapping names (cases, prefixes, digits, - / _) and random expressions (full names, dropped and abbreviated elements, ::, other case, unrelated words), as arguments of register, balance and modify and as posting accounts; the account they denote is found by search without regular expressions; an evaluation is one expression, distinct by tree and expression, non-trivial if it is not a full name"})
}

// acctTree makes declared account names with many overlaps.
func (t *T) acctTree() []string {
	vocab := pick(t.R, [][]string{
		{"A", "B", "AB", "a", "BA", "C", "ABC"},
		{"Assets", "Bank", "Joe", "Joe-2", "BankJoe", "assets", "Broker", "RRSP", "VGRO"},
		{"Expenses", "Food", "Foods", "Fast-Food", "F/D", "food_2", "Out", "Dining"},
		{"X1", "X11", "X1_1", "Y", "X", "YX", "R"},
	})
	seen := map[string]bool{}
	var out []string
	n := 2 + t.N(14)
	for i := 0; i < n; i++ {
		name := pick(t.R, vocab)
		if len(out) > 0 && t.N(3) > 0 {
			name = pick(t.R, out) + ":" + name
		}
		if strings.Count(name, ":") > 5 || seen[name] {
			continue
		}
		seen[name] = true
		out = append(out, name)
	}
	return out
}

func (t *T) acctExpr(all []string) string {
	el := strings.Split(pick(t.R, all), ":")
	if t.N(8) == 0 {
		el = append(el, strings.Split(pick(t.R, all), ":")...)
	}
	if t.N(10) == 0 {
		t.R.Shuffle(len(el), func(i, j int) { el[i], el[j] = el[j], el[i] })
	}
	var out []string
	dbl := false
	for i, e := range el {
		if t.N(4) == 0 && !(i == len(el)-1 && len(out) == 0) {
			dbl = t.N(3) > 0
			continue
		}
		switch t.N(5) {
		case 0:
			e = e[:1+t.N(len(e))]
		case 1:
			k := t.N(len(e))
			if isLetter(e[k]) {
				e = e[k:]
			}
		case 2:
			e = flipCase(e)
		}
		if len(out) > 0 && (dbl || t.N(12) == 0) {
			out = append(out, "")
		}
		dbl = false
		out = append(out, e)
	}
	return strings.Join(out, ":")
}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func c11(t *T) {
	names := t.acctTree()
	l := &Ledger{Coms: map[string]*Com{"CAD": {Id: "CAD", Dec: 2}}, ComIds: []string{"CAD"}, Default: "CAD", Accs: map[string]*Acc{}}
	var b strings.Builder
	for _, n := range names {
		l.Accs[n] = &Acc{Full: n, Com: "CAD"}
		l.Names = append(l.Names, n)
		fmt.Fprintf(&b, "account %s\n", n)
		if t.N(6) == 0 {
			b.WriteString("  closed 2019/06/30\n")
		}
		b.WriteString("\n")
	}
	// implied parents
	for _, n := range names {
		for p := parentOf(n); p != ""; p = parentOf(p) {
			if l.Accs[p] == nil {
				l.Accs[p] = &Acc{Full: p, Com: "CAD", Implied: true}
			}
		}
	}
	for _, n := range []string{"Root", "Unbalanced"} {
		if l.Accs[n] == nil {
			l.Accs[n] = &Acc{Full: n, Com: "CAD", Implied: true}
		}
	}
	db := t.Path("db")
	t.Write("db/commodities.coin", "commodity CAD\n  format 1.00 CAD\n")
	t.Write("db/accounts.coin", b.String())
	all := l.allAccs()
	type ex struct{ e, acc string }
	var good, bad []ex
	for i := 0; i < 40; i++ {
		e := t.acctExpr(all)
		acc, ok := l.resolve(e)
		if ok {
			good = append(good, ex{e, acc})
		} else {
			bad = append(bad, ex{e, fmt.Sprint(l.matches(e))})
		}
		t.evals.Add(1)
		if _, full := l.Accs[e]; !full {
			t.Nontrivial(strings.Join(all, " ") + "|" + e)
		}
	}
	// as posting accounts: format writes them in full
	var x strings.Builder
	for i, g := range good {
		fmt.Fprintf(&x, "2020/01/01 x\n  %s  1 CAD\n  %s  -1 CAD\n\n", g.e, good[(i+1)%len(good)].e)
	}
	if len(good) > 0 {
		fn := t.Write("x.txns", x.String())
		r := t.Exec(db, "coin", "format", fn)
		if r.Code != 0 {
			t.Fail("refused", "every expression denotes an account but the file is refused\n%s\naccounts %v\n%s", r, all, x.String())
		}
		var got []string
		for _, ln := range lines(r.Out) {
			if f := strings.Fields(ln); len(f) == 3 && f[2] == "CAD" {
				got = append(got, f[0])
			}
		}
		if len(got) != 2*len(good) {
			t.Fail("format", "%d postings of %d\n%s", len(got), 2*len(good), r)
		}
		for i, g := range good {
			if got[2*i] != g.acc || got[2*i+1] != good[(i+1)%len(good)].acc {
				t.Fail("posting", "posting account %q or %q of transaction %d is read as %s and %s, it denotes %s and %s\naccounts %v", g.e, good[(i+1)%len(good)].e, i, got[2*i], got[2*i+1], g.acc, good[(i+1)%len(good)].acc, all)
			}
		}
		t.Count("postings_resolved", len(got))
	}
	t.Write("db/t.coin", "")
	for k := 0; k < 3 && k < len(good); k++ {
		g := good[k]
		cmd := pick(t.R, []string{"register", "balance"})
		if cmd == "balance" {
			r := t.Exec(db, "coin", "balance", "-z", g.e)
			ls := lines(r.Out)
			if r.Code != 0 || len(ls) == 0 || !strings.HasSuffix(ls[0], "| "+g.acc) {
				t.Fail("argument", "%q denotes %s\naccounts %v\n%s", g.e, g.acc, all, r)
			}
			if len(ls) != len(l.subtree(g.acc)) && g.acc != "Root" {
				t.Fail("argument", "%q denotes %s with %v\n%s", g.e, g.acc, l.subtree(g.acc), r)
			}
		} else {
			// a ledger whose only postings are to that account and another one
			o := pick(t.R, all)
			t.Write("db/t.coin", fmt.Sprintf("2020/01/01 x\n  %s  7 CAD\n  %s  -7 CAD\n", g.acc, o))
			r := t.Exec(db, "coin", "register", g.e)
			ls := lines(r.Out)
			n := 2
			if o == g.acc {
				n = 3
			}
			if r.Code != 0 || len(ls) != n || ls[0] != g.acc+" CAD" {
				t.Fail("argument", "%q denotes %s, expected %d lines\naccounts %v\n%s", g.e, g.acc, n, all, r)
			}
		}
		t.Count("arguments_resolved", 1)
	}
	t.Write("db/t.coin", "")
	for k := 0; k < 3 && k < len(bad); k++ {
		g := bad[k]
		r := t.Exec(db, "coin", pick(t.R, []string{"register", "balance"}), g.e)
		if r.Code == 0 || r.Out != "" {
			t.Fail("accepted", "%q denotes no single account (matches %s) but is accepted\naccounts %v\n%s", g.e, g.acc, all, r)
		}
		if isAccountExpr(g.e) {
			fn := t.Write("y.txns", fmt.Sprintf("2020/01/01 x\n  %s  1 CAD\n  %s  -1 CAD\n", g.e, all[0]))
			r := t.Exec(db, "coin", "format", fn)
			if r.Code == 0 || r.Out != "" {
				t.Fail("accepted", "posting account %q denotes no single account (matches %s) but is accepted\naccounts %v\n%s", g.e, g.acc, all, r)
			}
		}
		t.Count("refused", 1)
	}
	if t.I < 3 {
		t.Sample(map[string]any{"accounts": all, "resolved": fmt.Sprint(good[:mini(8, len(good))]), "refused": fmt.Sprint(bad[:mini(5, len(bad))])})
	}
}
