package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C12", Quick: 700, Thor: 20000, Case: c12,
		Rule: "random price graphs over 2 to 6 commodities (chains, branches, cycles, missing links, several days per pair, written in random order over one or several price files), every ordered pair converted by balance (child total into the parent) and register (foreign postings, running totals); accepted are exactly the values of a simple chain of latest prices (the direct price if there is one), refusal exactly if there is none; an evaluation is one pair, distinct by prices, pair and amount, non-trivial if a chain is needed or refused"})
}

// chains lists the values of v units of from converted to to along every simple chain of latest prices.
func (l *Ledger) chains(v *big.Int, from, to string) (out []*big.Int) {
	if from == to {
		return []*big.Int{v}
	}
	if p := l.latest(from, to); p != nil {
		return []*big.Int{l.step(v, p)}
	}
	var walk func(v *big.Int, c string, seen map[string]bool)
	walk = func(v *big.Int, c string, seen map[string]bool) {
		if c == to {
			out = append(out, v)
			return
		}
		seen[c] = true
		for _, d := range l.ComIds {
			if !seen[d] {
				if p := l.latest(c, d); p != nil {
					walk(l.step(v, p), d, seen)
				}
			}
		}
		delete(seen, c)
	}
	walk(v, from, map[string]bool{})
	return
}

func has(vs []*big.Int, v *big.Int) bool {
	for _, x := range vs {
		if x.Cmp(v) == 0 {
			return true
		}
	}
	return false
}

func c12(t *T) {
	l := &Ledger{Coms: map[string]*Com{}, Default: "CAD", Accs: map[string]*Acc{}}
	names := []string{"CAD", "USD", "EUR", "XAU", "VGRO", "MXN", "BTC"}
	rest := names[1:]
	t.R.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	l.ComIds = append([]string{"CAD"}, rest[:1+t.N(5)]...)
	var coms strings.Builder
	for _, c := range l.ComIds {
		d := pick(t.R, []int{0, 1, 2, 2, 2, 3, 4, 6, 8})
		l.Coms[c] = &Com{Id: c, Dec: d}
		f := "1"
		if d > 0 {
			f += "." + strings.Repeat("0", d)
		}
		fmt.Fprintf(&coms, "commodity %s\n  format %s %s\n\n", c, f, c)
	}
	// prices
	dense := t.R.Float64()
	var ls []string
	for _, a := range l.ComIds {
		for _, b := range l.ComIds {
			if a == b || t.R.Float64() > dense {
				continue
			}
			seen := map[Day]bool{}
			n := 1 + t.N(3)
			if t.N(10) == 0 {
				n = 15 + t.N(10)
			}
			for i := 0; i < n; i++ {
				d := mkDay(2018+t.N(3), 1+t.N(12), 1+t.N(28))
				if seen[d] {
					continue
				}
				seen[d] = true
				p := &Price{D: d, Com: a, Cur: b, V: bigRand(t.R, 1+t.N(7))}
				if t.N(20) == 0 {
					p.V = bigRand(t.R, 15)
				}
				l.Prices = append(l.Prices, p)
				ls = append(ls, fmt.Sprintf("P %s %s %s %s", p.D, a, l.amt(p.V, b), b))
			}
		}
	}
	// one account per ordered pair
	type pair struct {
		from, to string
		v, w     *big.Int
		acc      string
	}
	var ps []pair
	var accs, txns strings.Builder
	day := 1
	for _, a := range l.ComIds {
		fmt.Fprintf(&accs, "account Z:%s\n  commodity %s\n\n", a, a)
		for _, b := range l.ComIds {
			if a == b {
				continue
			}
			p := pair{a, b, bigRand(t.R, 1+t.N(9)), bigRand(t.R, 1+t.N(9)), "P:" + a + "to" + b}
			if t.N(2) == 0 {
				p.v.Neg(p.v)
			}
			ps = append(ps, p)
			fmt.Fprintf(&accs, "account %s\n  commodity %s\n\naccount %s:C\n  commodity %s\n\naccount %s:F\n  commodity %s\n\n", p.acc, b, p.acc, a, p.acc, b)
			fmt.Fprintf(&txns, "2021/01/%02d x\n  %s:C  %s %s\n  Z:%s  %s %s\n\n", day, p.acc, l.amt(p.v, a), a, a, l.amt(new(big.Int).Neg(p.v), a), a)
			if len(l.chains(p.v, a, b)) > 0 { // two postings in a foreign commodity
				fmt.Fprintf(&txns, "2021/02/%02d y\n  %s:F  %s %s\n  Z:%s  %s %s\n\n", day, p.acc, l.amt(p.v, a), a, a, l.amt(new(big.Int).Neg(p.v), a), a)
				fmt.Fprintf(&txns, "2021/02/%02d z\n  %s:F  %s %s\n  Z:%s  %s %s\n\n", day, p.acc, l.amt(p.w, a), a, a, l.amt(new(big.Int).Neg(p.w), a), a)
			}
			day = day%28 + 1
		}
	}
	write := func(dir string) string {
		t.Write(dir+"/commodities.coin", coms.String())
		t.Write(dir+"/accounts.coin", accs.String())
		t.Write(dir+"/t.coin", txns.String())
		x := append([]string{}, ls...)
		t.R.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
		if t.N(2) == 0 {
			t.Write(dir+"/prices.coin", strings.Join(x, "\n")+"\n")
		} else {
			k := t.N(len(x) + 1)
			t.Write(dir+"/b.prices", strings.Join(x[:k], "\n")+"\n")
			t.Write(dir+"/a.prices", strings.Join(x[k:], "\n")+"\n")
		}
		return t.Path(dir)
	}
	db, db2 := write("db"), write("db2")
	run := func(args ...string) Res {
		r := t.Exec(db, "coin", args...)
		if t.N(3) == 0 {
			if r2 := t.Exec(db2, "coin", args...); r2.Out != r.Out || r2.Code != r.Code {
				t.Fail("order", "the order of prices changes the result\n%s\n%s", r, r2)
			}
			t.Count("order_comparisons", 1)
		}
		return r
	}
	t.R.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	for i, p := range ps {
		if i >= 6 && t.tier == "quick" {
			break
		}
		t.evals.Add(1)
		want := l.chains(p.v, p.from, p.to)
		r := run("balance", "-z", p.acc)
		if len(want) == 0 {
			if r.Code == 0 || r.Out != "" {
				t.Fail("no-chain", "no chain of prices from %s to %s but balance answers\n%s\n%s", p.from, p.to, r, strings.Join(ls, "\n"))
			}
			t.Count("refused", 1)
		} else {
			var got *big.Int
			for _, ln := range lines(r.Out) {
				f := strings.Fields(strings.ReplaceAll(ln, "|", " "))
				if len(f) == 4 && f[3] == p.acc {
					got, _ = parseDec(f[1], l.Coms[p.to].Dec)
				}
			}
			// the foreign postings of :F are in the total too
			fv, fw := l.chains(p.v, p.from, p.to), l.chains(p.w, p.from, p.to)
			ok := false
			if got != nil {
				for _, a := range want {
					for _, b := range fv {
						for _, c := range fw {
							s := new(big.Int).Add(a, b)
							if s.Add(s, c).Cmp(got) == 0 {
								ok = true
							}
						}
					}
				}
			}
			if !ok || r.Code != 0 {
				t.Fail("balance", "%s of %s in %s: total %v units, possible are %v (each posting)\n%s\n%s", p.v, p.from, p.to, got, want, r, strings.Join(ls, "\n"))
			}
			// register of the foreign postings
			r := run("register", p.acc+":F")
			rows := lines(r.Out)
			if len(rows) != 3 || r.Code != 0 {
				t.Fail("register", "expected 2 rows\n%s", r)
			}
			f1, f2 := fields(rows[1]), fields(rows[2])
			t1, t2 := strings.Fields(f1[len(f1)-1]), strings.Fields(f2[len(f2)-1])
			a, ok1 := parseDec(t1[0], l.Coms[p.to].Dec)
			b, ok2 := parseDec(t2[0], l.Coms[p.to].Dec)
			if !ok1 || !ok2 || !has(fv, a) || !has(fw, new(big.Int).Sub(b, a)) {
				t.Fail("register", "running totals %v %v in %s, possible are %v and %v more\n%s\n%s", a, b, p.to, fv, fw, r, strings.Join(ls, "\n"))
			}
			t.Count("converted", 1)
			if l.latest(p.from, p.to) == nil {
				t.Count("converted_by_chain", 1)
			}
		}
		if l.latest(p.from, p.to) == nil {
			t.Nontrivial(fmt.Sprint(ls, p.from, p.to, p.v))
		}
	}
	// listings
	com := pick(t.R, l.ComIds)
	var want []string
	curs := map[string][]*Price{}
	for _, p := range l.Prices {
		if p.Com == com {
			curs[p.Cur] = append(curs[p.Cur], p)
		}
	}
	var ids []string
	for c := range curs {
		ids = append(ids, c)
		sort.Slice(curs[c], func(i, j int) bool { return curs[c][i].D > curs[c][j].D })
	}
	sort.Strings(ids)
	var heads []string
	for _, c := range ids {
		for _, p := range curs[c] {
			want = append(want, fmt.Sprintf("%s %s %s", p.D, l.amt(p.V, c), c))
		}
		p := curs[c][0]
		heads = append(heads, fmt.Sprintf("%s %s %s [%d]", p.D, l.amt(p.V, c), c, len(curs[c])))
	}
	r := run("commodities", com)
	// newest first within each currency; the order of currencies is not prescribed
	got := lines(r.Out)
	norm := func(x []string) string {
		var y []string
		m := map[string][]string{}
		for _, s := range x {
			f := strings.Fields(s)
			m[f[len(f)-1]] = append(m[f[len(f)-1]], s)
		}
		for k, v := range m {
			y = append(y, k+"\n"+strings.Join(v, "\n"))
		}
		sort.Strings(y)
		return strings.Join(y, "\n")
	}
	if r.Code != 0 || norm(got) != norm(want) {
		t.Fail("price-list", "prices of %s:\n%s\nexpected\n%s\n%s", com, strings.Join(got, "\n"), strings.Join(want, "\n"), r)
	}
	r = run("commodities", "-p")
	line := com
	if len(heads) > 0 {
		sort.Strings(heads)
		line = com
	}
	found := false
	for _, ln := range lines(r.Out) {
		k, v, _ := strings.Cut(ln, ": ")
		if k != line {
			continue
		}
		h := strings.Split(v, ", ")
		if v == "" {
			h = nil
		}
		sort.Strings(h)
		found = strings.Join(h, "|") == strings.Join(heads, "|")
	}
	if !found || len(lines(r.Out)) != len(l.ComIds) {
		t.Fail("price-stats", "expected %s: %s\n%s", com, strings.Join(heads, ", "), r)
	}
	t.Count("listings", 2)
	if t.I < 3 {
		t.Sample(map[string]any{"commodities": l.ComIds, "prices": len(ls), "pairs": len(ps)})
	}
}
