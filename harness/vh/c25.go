package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C25", Quick: 1200, Thor: 25000, Case: c25,
		Rule: "random declarations (account trees with implied parents, accounts closed at every level, declared Root and Unbalanced, descriptions, commodities with and without symbol, name and nomarket) spread over included files; every row of coin accounts (with and without -c and pattern) and coin commodities (also -p and the price list of every commodity) compared with the model, in order; an evaluation is one set of declarations, distinct by output, non-trivial if some account is hidden and some implied"})
}

func c25(t *T) {
	o := defOpt(t)
	o.Accounts = 1 + t.N(30)
	o.Closed = pick(t.R, []float64{0, .1, .4})
	o.Coms = 1 + t.N(7)
	l := t.genBase(&o)
	declare := func(n string) {
		if l.Accs[n] == nil {
			l.Accs[n] = &Acc{Full: n}
			l.Names = append(l.Names, n)
		}
		a := l.Accs[n]
		a.Com = pick(t.R, l.ComIds)
		if t.N(2) == 0 {
			a.Desc = "declared by hand"
		}
		if t.N(4) == 0 {
			d := mkDay(2019, 2, 28)
			a.Closed = &d
		}
	}
	if t.N(4) == 0 {
		declare("Unbalanced")
	}
	if t.N(6) == 0 {
		declare("Root")
	}
	for _, n := range l.Names {
		if t.N(8) == 0 {
			l.Accs[n].Desc = pick(t.R, []string{"a | b", "100% of it", "#tag: x", "Ünïcode – ok", "%s %d", "- old", "-", "(joint) x; y", "note n", "commodity CAD", "\"quoted\""})
		}
	}
	for _, id := range l.ComIds {
		if t.N(6) == 0 {
			l.Coms[id].Symbol = pick(t.R, []string{"X", "T", "7", "A.B"})
		}
	}
	for k := t.N(12); len(l.ComIds) > 1 && k > 0; k-- {
		a, b := pick(t.R, l.ComIds), pick(t.R, l.ComIds)
		if a != b {
			l.Prices = append(l.Prices, &Price{D: mkDay(2010+t.N(3), 1+t.N(12), 1+t.N(28)), Com: a, Cur: b, V: bigRand(t.R, 1+t.N(9))})
			if t.N(10) == 0 {
				l.Prices[len(l.Prices)-1].V = new(big.Int)
			}
			if t.N(4) == 0 { // once more
				p := *l.Prices[len(l.Prices)-1]
				l.Prices = append(l.Prices, &p)
			}
		}
	}
	y := t.newLayout("db", Style{Fancy: true, Comments: true, Tight: true})
	coms, accs, prices, _ := y.entries(l)
	t.R.Shuffle(len(coms), func(i, j int) { coms[i], coms[j] = coms[j], coms[i] })
	t.R.Shuffle(len(accs), func(i, j int) { accs[i], accs[j] = accs[j], accs[i] })
	y.put("db/commodities.coin", coms, 2)
	y.put("db/accounts.coin", accs, 2)
	t.R.Shuffle(len(prices), func(i, j int) { prices[i], prices[j] = prices[j], prices[i] })
	y.put("db/prices.coin", prices, 2)
	os.MkdirAll(filepath.Join(t.dir, "db"), 0o755)
	db := t.Path("db")
	// accounts
	var outs []string
	implied, hidden := 0, 0
	var pats []string
	pats = append(pats, "")
	all := l.allAccs()
	for k := 0; k < 3; k++ {
		pats = append(pats, t.acctExpr(all))
	}
	for _, p := range pats {
		for _, closed := range []bool{false, true} {
			args := []string{pick(t.R, []string{"accounts", "acc", "a"})}
			if closed {
				args = append(args, "-c")
			}
			if p != "" {
				args = append(args, p)
			}
			r := t.ExecIn(db, "", y.envList(), "coin", args...)
			if r.Code != 0 {
				t.Fail("exit", "command failed: %s", r)
			}
			var want []string
			for _, n := range all {
				if p != "" && !exprMatches(p, n) {
					continue
				}
				if !closed && l.closed(n) {
					hidden++
					continue
				}
				desc := ""
				if a := l.Accs[n]; a != nil {
					desc = a.Desc
				} else {
					implied++
				}
				want = append(want, fmt.Sprintf("%s | %s | %s", n, l.com(n), desc))
			}
			var got []string
			for _, ln := range lines(r.Out) {
				f := strings.SplitN(ln, " | ", 3)
				if len(f) != 3 {
					t.Fail("format", "row %q\n%s", ln, r)
				}
				got = append(got, strings.TrimRight(f[0], " ")+" | "+strings.TrimSpace(f[1])+" | "+f[2])
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				t.Fail("accounts", "expected\n%s\n\ngot\n%s\n\n%s", strings.Join(want, "\n"), strings.Join(got, "\n"), r)
			}
			outs = append(outs, r.Out)
			t.Count("account_rows", len(got))
		}
	}
	r := t.ExecIn(db, "", y.envList(), "coin", pick(t.R, []string{"commodities", "com", "c"}))
	if r.Code != 0 {
		t.Fail("exit", "command failed: %s", r)
	}
	var want, got []string
	for _, id := range l.ComIds {
		c := l.Coms[id]
		q := ""
		if c.Symbol != "" && !c.NoMarket {
			q = "Q"
		}
		want = append(want, fmt.Sprintf("%s | %s | %s | %s", c.Id, c.Symbol, q, c.Name))
	}
	for _, ln := range lines(r.Out) {
		f := strings.SplitN(ln, " | ", 4)
		if len(f) != 4 {
			t.Fail("format", "row %q\n%s", ln, r)
		}
		got = append(got, fmt.Sprintf("%s | %s | %s | %s", strings.TrimSpace(f[0]), strings.TrimSpace(f[1]), strings.TrimSpace(f[2]), f[3]))
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		t.Fail("commodities", "expected\n%s\n\n%s", strings.Join(want, "\n"), r)
	}
	t.Count("commodity_rows", len(got))
	// prices
	r = t.ExecIn(db, "", y.envList(), "coin", pick(t.R, []string{"commodities", "com", "c"}), "-p")
	if r.Code != 0 {
		t.Fail("exit", "command failed: %s", r)
	}
	stats := lines(r.Out)
	if len(stats) != len(l.ComIds) {
		t.Fail("price-stats", "%d commodities\n%s", len(l.ComIds), r)
	}
	for i, id := range l.ComIds {
		by := map[string][]*Price{}
		var curs []string
		for _, p := range l.Prices {
			if p.Com == id {
				if by[p.Cur] == nil {
					curs = append(curs, p.Cur)
				}
				by[p.Cur] = append(by[p.Cur], p)
			}
		}
		sort.Strings(curs)
		// -p: the latest price and the number of prices in each currency
		rest, ok := stats[i], false
		if rest, ok = strings.CutPrefix(rest, id); !ok || len(curs) > 0 && !strings.HasPrefix(rest, ": ") {
			t.Fail("price-stats", "row %q should be of %s\n%s", stats[i], id, r)
		}
		rest = strings.TrimPrefix(rest, ": ")
		for k, cur := range curs {
			if k > 0 {
				rest = strings.TrimPrefix(rest, ", ")
			}
			ps := by[cur]
			sort.SliceStable(ps, func(i, j int) bool { return ps[i].D > ps[j].D })
			ok := false
			for _, p := range ps {
				if p.D == ps[0].D && !ok {
					rest, ok = strings.CutPrefix(rest, fmt.Sprintf("%s %s %s [%d]", p.D, l.amt(p.V, cur), cur, len(ps)))
				}
			}
			if !ok {
				t.Fail("price-stats", "row %q: latest of the %d prices of %s in %s is %s of %s\n%s", stats[i], len(ps), id, cur, l.amt(ps[0].V, cur), ps[0].D, r)
			}
		}
		if rest != "" {
			t.Fail("price-stats", "row %q shows %q that is not in the files\n%s", stats[i], rest, r)
		}
		// a commodity's prices: by currency, latest first
		r := t.ExecIn(db, "", y.envList(), "coin", pick(t.R, []string{"commodities", "com", "c"}), id)
		if r.Code != 0 {
			t.Fail("exit", "command failed: %s", r)
		}
		got := lines(r.Out)
		for _, cur := range curs {
			ps := by[cur]
			if len(got) < len(ps) {
				t.Fail("prices", "%d prices of %s in %s\n%s", len(ps), id, cur, r)
			}
			var have, want []string
			for k, p := range ps {
				if !strings.HasPrefix(got[k], p.D.String()+" ") {
					t.Fail("prices", "price %d of %s in %s should be of %s: %q\n%s", k, id, cur, p.D, got[k], r)
				}
				have, want = append(have, got[k]), append(want, fmt.Sprintf("%s %s %s", p.D, l.amt(p.V, cur), cur))
			}
			sort.Strings(have)
			sort.Strings(want)
			if strings.Join(have, "\n") != strings.Join(want, "\n") {
				t.Fail("prices", "prices of %s in %s should be\n%s\n\n%s", id, cur, strings.Join(want, "\n"), r)
			}
			got = got[len(ps):]
			t.Count("price_rows", len(ps))
		}
		if len(got) > 0 {
			t.Fail("prices", "rows that are not in the files: %q\n%s", got, r)
		}
	}
	if t.N(4) == 0 { // one that is not there
		id := pick(t.R, []string{"nosuch", "cad", "CADX", "C", "*"})
		if l.Coms[id] == nil {
			r := t.ExecIn(db, "", y.envList(), "coin", "commodities", id)
			if r.Panicked() || r.Out != "" || !strings.Contains(r.Err, id) {
				t.Fail("unknown", "there is no commodity %s\n%s", id, r)
			}
			t.Count("unknown_commodities", 1)
		}
	}
	t.Count("hidden_rows", hidden)
	t.Count("implied_rows", implied)
	if hidden > 0 && implied > 0 {
		t.Nontrivial(strings.Join(outs, "") + r.Out)
		t.Sample(outs[0])
	}
}
