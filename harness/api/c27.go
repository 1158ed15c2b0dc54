package main

import (
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"

	"github.com/mkobetic/coin"
)

func init() {
	register(&Check{ID: "C27", Quick: 6000, Thor: 400000, Case: c27,
		Rule: "random histories of loading a ledger, posting, moving postings, dropping everything and looking transactions up, over a few accounts and days, with the invariants checked after every step against a plain list of what is live; distinct by history, non-trivial if at least 10 steps"})
}

var libMu sync.Mutex // accounts and transactions are globals of the library

func c27(t *T) {
	libMu.Lock()
	defer libMu.Unlock()
	// a fresh ledger
	coin.Transactions = nil
	coin.Prices = nil
	coin.Root, coin.Unbalanced = nil, nil
	for k := range coin.AccountsByName {
		delete(coin.AccountsByName, k)
	}
	names := []string{"A", "B", "A:X", "A:X:Y", "C", "B:Z"}[:2+t.N(5)]
	var b strings.Builder
	b.WriteString("commodity CAD\n  format 1.00 CAD\n\ncommodity USD\n  format 1.00 USD\n\nP 2000/01/01 USD 1.5 CAD\n\n")
	for _, n := range names {
		fmt.Fprintf(&b, "account %s\n\n", n)
	}
	ndays := 1 + t.N(5)
	day := func() time.Time { return time.Date(2020, 2, 26+t.N(ndays), 12, 0, 0, 0, time.UTC) }
	for i := t.N(12); i > 0; i-- {
		k := 2 + t.N(3)
		fmt.Fprintf(&b, "%s%s x\n", day().Format("2006/01/02"), pick(t.R, []string{"", " (c1)", " (c2)"}))
		for j := 0; j < k-1; j++ {
			fmt.Fprintf(&b, "  %s  %d CAD\n", pick(t.R, names), t.N(5)-2)
		}
		fmt.Fprintf(&b, "  %s\n\n", pick(t.R, names))
	}
	coin.Load(strings.NewReader(b.String()), "")
	coin.ResolveAll()
	var hist []string
	live := map[*coin.Posting]bool{}
	for _, tx := range coin.Transactions {
		for _, p := range tx.Postings {
			live[p] = true
		}
	}
	var accs []*coin.Account
	for _, n := range names {
		accs = append(accs, coin.MustFindAccount(n))
	}
	// the postings of each account by date, in the order they were added
	lists := map[*coin.Account][]*coin.Posting{}
	insert := func(a *coin.Account, p *coin.Posting) {
		l := lists[a]
		i := len(l)
		for i > 0 && l[i-1].Transaction.Posted.After(p.Transaction.Posted) {
			i--
		}
		lists[a] = append(l[:i:i], append([]*coin.Posting{p}, l[i:]...)...)
	}
	remove := func(a *coin.Account, p *coin.Posting) {
		for i, q := range lists[a] {
			if p == q {
				lists[a] = append(lists[a][:i:i], lists[a][i+1:]...)
				return
			}
		}
	}
	verify := func() {
		coin.AccountsDo(func(a *coin.Account) {
			same := len(a.Postings) == len(lists[a])
			for i := 0; same && i < len(a.Postings); i++ {
				same = a.Postings[i] == lists[a][i]
			}
			if !same {
				t.Fail("list", "the postings of %s are not those added and not removed, by date and in the order they were added, after\n%s", a.FullName, strings.Join(hist, "\n"))
			}
		})
		seen := map[*coin.Posting]int{}
		coin.AccountsDo(func(a *coin.Account) {
			for i, p := range a.Postings {
				seen[p]++
				if p.Account != a {
					t.Fail("wrong-account", "posting of %s is in the list of %s after\n%s", p.Account.FullName, a.FullName, strings.Join(hist, "\n"))
				}
				if i > 0 && a.Postings[i-1].Transaction.Posted.After(p.Transaction.Posted) {
					t.Fail("order", "postings of %s are not in date order after\n%s", a.FullName, strings.Join(hist, "\n"))
				}
				if !live[p] {
					t.Fail("dead-posting", "a dropped posting is in the list of %s after\n%s", a.FullName, strings.Join(hist, "\n"))
				}
			}
		})
		for p := range live {
			if seen[p] != 1 {
				t.Fail("membership", "posting %s %a of %s is %d times in the lists after\n%s", p.Account.FullName, p.Quantity, p.Transaction.Posted.Format("2006/01/02"), seen[p], strings.Join(hist, "\n"))
			}
		}
		t.Count("states_checked", 1)
	}
	hist = append(hist, "load\n"+b.String())
	coin.AccountsDo(func(a *coin.Account) { lists[a] = append([]*coin.Posting(nil), a.Postings...) })
	verify()
	equal := func(x, y *coin.Transaction) bool {
		if civil(x.Posted) != civil(y.Posted) || x.Code != y.Code || len(x.Postings) != len(y.Postings) {
			return false
		}
		for i := range x.Postings {
			p, q := x.Postings[i], y.Postings[i]
			if p.Account != q.Account || p.Quantity.Commodity.Id != q.Quantity.Commodity.Id || p.Quantity.Int.Cmp(q.Quantity.Int) != 0 {
				return false
			}
		}
		return true
	}
	steps := 5 + t.N(40)
	cad, usd := coin.Commodities["CAD"], coin.Commodities["USD"]
	amt := func() *coin.Amount {
		c := cad
		if t.N(5) == 0 {
			c = usd
		}
		return coin.NewAmount(big.NewInt(int64(t.N(5)-2)*100), c)
	}
	for s := 0; s < steps; s++ {
		switch op := t.N(20); {
		case op < 8: // move
			var ps []*coin.Posting
			for _, a := range accs {
				ps = append(ps, a.Postings...)
			}
			if len(ps) == 0 {
				continue
			}
			p, a := pick(t.R, ps), pick(t.R, accs)
			hist = append(hist, fmt.Sprintf("move %s %s -> %s", p.Transaction.Posted.Format("01/02"), p.Account.FullName, a.FullName))
			if p.Account != a {
				remove(p.Account, p)
				insert(a, p)
			}
			p.MoveTo(a)
			if p.Account != a {
				t.Fail("move", "posting not moved after\n%s", strings.Join(hist, "\n"))
			}
		case op < 14: // post
			tx := &coin.Transaction{Posted: day(), Code: pick(t.R, []string{"", "c1", "c2"}), Description: "new"}
			from, to := pick(t.R, accs), pick(t.R, accs)
			if t.N(2) == 0 {
				tx.Post(from, to, amt(), nil)
			} else {
				tx.PostConversion(from, amt(), nil, to, amt(), nil)
			}
			hist = append(hist, fmt.Sprintf("post %s %s %s", tx.Posted.Format("01/02"), from.FullName, to.FullName))
			if len(tx.Postings) != 2 {
				t.Fail("post", "transaction has %d postings after\n%s", len(tx.Postings), strings.Join(hist, "\n"))
			}
			if len(tx.Postings) == 2 {
				p, q := tx.Postings[0], tx.Postings[1]
				if from == to {
					// either may come first
					n := len(from.Postings)
					for i, x := range from.Postings {
						if i < n && x == q {
							p, q = q, p
							break
						}
						if x == p {
							break
						}
					}
					insert(from, p)
					insert(from, q)
				} else {
					insert(p.Account, p)
					insert(q.Account, q)
				}
			}
			for _, p := range tx.Postings {
				live[p] = true
			}
			// keep the list sorted by date
			i := 0
			for i < len(coin.Transactions) && !coin.Transactions[i].Posted.After(tx.Posted) {
				i++
			}
			l := append(coin.TransactionsByTime{}, coin.Transactions[:i]...)
			coin.Transactions = append(append(l, tx), coin.Transactions[i:]...)
		case op < 16: // look up a day
			d := day()
			got := coin.Transactions.Day(d)
			var want []*coin.Transaction
			for _, tx := range coin.Transactions {
				if tx.Posted.Equal(d) {
					want = append(want, tx)
				}
			}
			ok := len(got) == len(want)
			for i := 0; ok && i < len(got); i++ {
				ok = got[i] == want[i]
			}
			if !ok {
				t.Fail("day", "Day(%s) returns %d transactions, expected %d, after\n%s", d.Format("01/02"), len(got), len(want), strings.Join(hist, "\n"))
			}
			t.Count("day_lookups", 1)
		case op < 19: // equal
			if len(coin.Transactions) == 0 {
				continue
			}
			x := pick(t.R, coin.Transactions)
			// a copy, sometimes changed in one respect
			y := &coin.Transaction{Posted: x.Posted, Code: x.Code, Description: "other"}
			for _, p := range x.Postings {
				y.Postings = append(y.Postings, &coin.Posting{Account: p.Account, Quantity: p.Quantity.Copy(), Transaction: y})
			}
			switch t.N(7) {
			case 0:
				y.Posted = day()
			case 1:
				y.Code += "x"
			case 2:
				pick(t.R, y.Postings).Account = pick(t.R, accs)
			case 3:
				p := pick(t.R, y.Postings)
				p.Quantity = coin.NewAmount(new(big.Int).Set(p.Quantity.Int), usd)
			case 4:
				p := pick(t.R, y.Postings)
				p.Quantity = p.Quantity.Negated()
			case 5:
				y.Postings = y.Postings[:len(y.Postings)-1]
			}
			any := false
			for _, z := range coin.Transactions {
				any = any || equal(z, y)
			}
			got := coin.Transactions.FindEqual(y)
			if (got != nil) != any || coin.Transactions.Includes(y) != any {
				t.Fail("find", "an equal transaction is there: %v, found: %v, after\n%s", any, got, strings.Join(hist, "\n"))
			}
			if got != nil {
				inList := false
				for _, z := range coin.Transactions {
					inList = inList || z == got
				}
				if !inList || !equal(got, y) {
					t.Fail("find", "FindEqual returns a transaction that is not in the list (%v) or not equal, after\n%s", inList, strings.Join(hist, "\n"))
				}
			}
			if x.IsEqual(y) != equal(x, y) || y.IsEqual(x) != equal(x, y) {
				t.Fail("equal", "IsEqual %v\n%v\n%v", x.IsEqual(y), x, y)
			}
			t.Count("equality_lookups", 1)
		default:
			if t.N(3) > 0 {
				continue
			}
			hist = append(hist, "drop all")
			coin.DropTransactions()
			lists = map[*coin.Account][]*coin.Posting{}
			live = map[*coin.Posting]bool{}
			if len(coin.Transactions) != 0 {
				t.Fail("drop", "transactions left after\n%s", strings.Join(hist, "\n"))
			}
		}
		verify()
	}
	if steps >= 10 {
		t.Nontrivial(strings.Join(hist, "\n"))
	}
	if t.I < 3 {
		t.Sample(hist)
	}
}
