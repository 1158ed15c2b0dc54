package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C02", Quick: 3000, Thor: 12000, Case: c02,
		Rule: "random ledgers (1-5 commodities, account trees up to 4 levels, several files, foreign and huge amounts) and random balance invocations (-b -e -p -t -z -l, account argument); distinct by output, non-trivial if the report selects some but not all postings or shows at least two levels"})
}

type balRow struct {
	acc      string
	own, cum *big.Int
}

// expectBalance computes the rows of a balance report.
func (l *Ledger) expectBalance(acc string, sel func(*Post) bool, zero bool, level int) (rows []balRow, err error) {
	defer func() {
		if e := recover(); e != nil {
			if c, ok := e.(convErr); ok {
				err = fmt.Errorf("no conversion %s => %s", c.from, c.to)
				return
			}
			panic(e)
		}
	}()
	sub := l.subtree(acc)
	own, cum := map[string]*big.Int{}, map[string]*big.Int{}
	for _, a := range sub {
		s := new(big.Int)
		for _, p := range l.postings(a) {
			if sel(p) {
				s = l.addIn(s, l.com(a), p.Q, p.C)
			}
		}
		own[a] = s
		cum[a] = s
	}
	for i := len(sub) - 1; i > 0; i-- {
		a := sub[i]
		p := parentOf(a)
		if p == "" {
			p = "Root"
		}
		cum[p] = l.addIn(cum[p], l.com(p), cum[a], l.com(a))
	}
	for _, a := range sub {
		if level != 0 && l.depth(a) > level {
			continue
		}
		if zero || cum[a].Sign() != 0 {
			rows = append(rows, balRow{a, own[a], cum[a]})
		}
	}
	return rows, nil
}

// checkBalance compares a balance output to the expected rows.
func (t *T) checkBalance(l *Ledger, r Res, want []balRow, sig string) {
	got := lines(r.Out)
	if len(got) != len(want) {
		var names []string
		for _, w := range want {
			names = append(names, w.acc)
		}
		t.Fail(sig+"-rows", "balance shows %d rows, expected %d: %v\n%s", len(got), len(want), names, r)
	}
	for i, g := range got {
		f := fields(g)
		if len(f) != 3 {
			t.Fail(sig+"-format", "row %q: expected own | cumulative commodity | account\n%s", g, r)
		}
		w := want[i]
		c := l.com(w.acc)
		exp := fmt.Sprintf("%s | %s %s | %s", l.amt(w.own, c), l.amt(w.cum, c), c, w.acc)
		cf := strings.Fields(f[1])
		if f[0] != l.amt(w.own, c) || len(cf) != 2 || cf[0] != l.amt(w.cum, c) || cf[1] != c || f[2] != w.acc {
			t.Fail(sig+"-values", "row %d is %q, expected %q\n%s", i, g, exp, r)
		}
	}
}

func c02(t *T) {
	o := defOpt(t)
	o.Foreign = 0.15 * float64(t.N(2))
	o.Odd = t.Chance(.3)
	o.Assert = .1 * float64(t.N(2))
	l := t.gen(&o)
	db := t.writeDB(l, "db", Style{Fancy: t.Chance(.5), Comments: t.Chance(.3)})
	for k := 0; k < 4; k++ {
		f := &Filter{}
		if k > 0 {
			f = t.genFilter(l, false)
		}
		args := append([]string{pick(t.R, []string{"balance", "bal", "b"})}, f.args()...)
		zero := t.N(3) == 0
		level := 0
		if t.N(3) == 0 {
			level = 1 + t.N(4)
		}
		if zero {
			args = append(args, "-z")
		}
		if level > 0 {
			args = append(args, "-l", strconv.Itoa(level))
		}
		acc := "Root"
		if t.N(2) == 0 {
			acc = pick(t.R, l.allAccs())
			args = append(args, acc)
		}
		want, err := l.expectBalance(acc, f.match, zero, level)
		if k == 0 && len(args) == 1 && t.N(2) == 0 {
			args = nil // balance is the default command
		}
		r := t.Exec(db, "coin", args...)
		if err != nil {
			t.Inconclusive("generator made an unconnected ledger: %v", err)
		}
		if r.Code != 0 {
			t.Fail("failed", "balance failed on a valid ledger\n%s", r)
		}
		t.checkBalance(l, r, want, "balance")
		sel := 0
		all := 0
		for _, tx := range l.Txns {
			for _, p := range tx.Posts {
				all++
				if f.match(p) {
					sel++
				}
			}
		}
		t.Count("rows", len(want))
		t.Count("postings", sel)
		if sel > 0 && sel < all || len(want) > 1 {
			t.Nontrivial(r.Out)
			if t.I < 3 {
				t.Sample(map[string]any{"args": args, "rows": len(want), "postings_selected": sel, "postings": all, "output_head": clip1(r.Out, 300)})
			}
		}
	}
}

func clip1(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
