package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C24", Quick: 900, Thor: 20000, Case: c24,
		Rule: "random ledgers with repeated transactions (also on another day, with another payee, code, amount, account, commodity, note, assertion or order of postings), postings to Unbalanced and postings whose numbers cancel in different commodities and precisions; stats -d, -u, -c and the counts, with and without -b/-e, compared with the model: pairs and postings by location and transaction text; an evaluation is one ledger, distinct by output, non-trivial if something was reported and something similar was not"})
}

// equalTxns is what stats -d takes for duplicates.
func equalTxns(a, b *Txn) bool {
	if a.D != b.D || a.Code != b.Code || len(a.Posts) != len(b.Posts) {
		return false
	}
	for i, p := range a.Posts {
		q := b.Posts[i]
		if p.Acc != q.Acc || p.C != q.C || p.Q.Cmp(q.Q) != 0 {
			return false
		}
	}
	return true
}

// nearly makes a copy of a transaction that differs in at most one thing.
func (t *T) nearly(l *Ledger, o *GenOpt, tx *Txn) *Txn {
	n := cloneTxn(tx)
	for _, p := range n.Posts {
		p.Elided = false
	}
	n.Home = t.N(o.Files)
	switch t.N(10) {
	case 0:
		n.D += Day(t.N(3) - 1)
	case 1:
		n.Code = pick(t.R, []string{"", "123", "A1"})
	case 2:
		n.Desc = pick(t.R, payees)
	case 3: // amounts
		if k := len(n.Posts); k > 1 && n.Posts[0].C == n.Posts[k-1].C {
			n.Posts[0].Q.Add(n.Posts[0].Q, big.NewInt(1))
			n.Posts[k-1].Q.Sub(n.Posts[k-1].Q, big.NewInt(1))
		}
	case 4:
		if len(n.Posts) > 1 {
			n.Posts[0], n.Posts[1] = n.Posts[1], n.Posts[0]
		}
	case 5:
		if len(n.Posts) > 0 {
			p := pick(t.R, n.Posts)
			a := pick(t.R, l.Names)
			if l.com(a) == l.com(p.Acc) {
				p.Acc = a
			}
		}
	case 6:
		n.Notes = append(n.Notes, genNote(t.R, o))
	case 7: // a longer one
		if len(n.Posts) > 0 {
			p := *n.Posts[0]
			p.Q = new(big.Int)
			n.Posts = append(n.Posts, &p)
		}
	case 8, 9: // the same number of another commodity, which its account can take
		coms := map[string]bool{}
		for _, p := range n.Posts {
			coms[l.com(p.Acc)] = true
		}
		if len(coms) < 2 { // it would have to balance
			break
		}
		p := pick(t.R, n.Posts)
		for _, i := range t.R.Perm(len(l.ComIds)) {
			c, k := l.ComIds[i], l.Coms[l.ComIds[i]].Dec-l.Coms[p.C].Dec
			q, m := p.Q, new(big.Int)
			if k >= 0 {
				q = new(big.Int).Mul(q, pow10(k))
			} else if q, m = new(big.Int).QuoRem(q, pow10(-k), m); m.Sign() != 0 {
				continue
			}
			if _, ok, unique := l.convert(q, c, l.com(p.Acc)); c == p.C || !ok || !unique {
				continue
			}
			p.Q, p.C = q, c
			t.Count("copies in another commodity", 1)
			break
		}
	}
	return n
}

func c24(t *T) {
	o := defOpt(t)
	o.Foreign = pick(t.R, []float64{0, 0, .1})
	o.Assert = pick(t.R, []float64{0, .2})
	o.Files = 1 + t.N(3)
	o.Days = 1 + t.N(60)
	o.Coms = 2 + t.N(3)
	l := t.gen(&o)
	if l.Accs["Unbalanced"] == nil && t.N(2) == 0 {
		l.Accs["Unbalanced"] = &Acc{Full: "Unbalanced", Com: l.Default}
		l.Names = append(l.Names, "Unbalanced")
	}
	def := l.Default
	if t.N(4) == 0 { // another account of that name
		if n := pick(t.R, []string{"Assets", "Expenses", "X"}) + ":Unbalanced"; l.Accs[n] == nil {
			l.Accs[n] = &Acc{Full: n, Com: def}
			l.Names = append(l.Names, n)
		}
	}
	var defs []string
	for _, n := range l.Names {
		if l.com(n) == def {
			defs = append(defs, n)
		}
	}
	n := len(l.Txns)
	for i := 0; i < n; i++ {
		tx := l.Txns[i]
		switch t.N(8) {
		case 0, 1, 2:
			for k := 1 + t.N(3); k > 0; k-- {
				l.Txns = append(l.Txns, t.nearly(l, &o, tx))
			}
		case 3: // to Unbalanced
			if len(defs) > 0 {
				v := genAmt(t.R, &o)
				x := &Txn{D: tx.D, Desc: "to do", Home: t.N(o.Files)}
				a := &Post{Acc: pick(t.R, defs), Q: v, C: def}
				b := &Post{Acc: "Unbalanced", Q: new(big.Int).Neg(v), C: def}
				x.Posts = []*Post{a, b}
				if t.N(2) == 0 {
					x.Posts = []*Post{b, a}
				}
				if t.N(5) == 0 {
					x.Posts = append(x.Posts, &Post{Acc: "Unbalanced", Q: new(big.Int), C: def})
				}
				l.Txns = append(l.Txns, x)
			}
		case 4, 5: // in different commodities
			a, b := pick(t.R, l.Names), pick(t.R, l.Names)
			ca, cb := l.com(a), l.com(b)
			if ca == cb {
				continue
			}
			da, db := l.Coms[ca].Dec, l.Coms[cb].Dec
			v := genAmt(t.R, &o) // at the smaller precision
			m := mini(da, db)
			va := new(big.Int).Mul(v, pow10(da-m))
			vb := new(big.Int).Neg(new(big.Int).Mul(v, pow10(db-m)))
			switch t.N(4) {
			case 0:
				va.Add(va, big.NewInt(int64(t.N(3)-1)))
			case 1:
				vb.Add(vb, big.NewInt(int64(t.N(3)-1)))
			case 2:
				if t.N(2) == 0 {
					vb.Neg(vb)
				}
			}
			x := &Txn{D: tx.D, Desc: "exchange", Home: t.N(o.Files), Posts: []*Post{{Acc: a, Q: va, C: ca}, {Acc: b, Q: vb, C: cb}}}
			if t.N(6) == 0 {
				x.Posts = append(x.Posts, &Post{Acc: a, Q: new(big.Int), C: ca})
			}
			l.Txns = append(l.Txns, x)
		}
	}
	for _, tx := range l.Txns { // keep what loads: transactions in one commodity balance
		coms := map[string]bool{}
		sum := new(big.Int)
		ok := true
		for _, p := range tx.Posts {
			coms[l.com(p.Acc)] = true
			sum.Add(sum, p.Q)
			ok = ok && p.C == l.com(p.Acc)
		}
		if len(coms) == 1 && ok && sum.Sign() != 0 {
			p := tx.Posts[0]
			p.Q = new(big.Int).Sub(p.Q, sum)
		}
	}
	l.order()
	var txns []*Txn // foreign postings: only transactions that were generated balanced, or mixed
	for _, tx := range l.Txns {
		coms, foreign := map[string]bool{}, false
		for _, p := range tx.Posts {
			coms[l.com(p.Acc)] = true
			foreign = foreign || p.C != l.com(p.Acc)
		}
		if len(coms) == 1 && foreign {
			sum, c := new(big.Int), l.com(tx.Posts[0].Acc)
			for _, p := range tx.Posts {
				sum = l.addIn(sum, c, p.Q, p.C)
			}
			if sum.Sign() != 0 {
				continue
			}
		}
		txns = append(txns, tx)
	}
	l.Txns = txns
	l.order()
	db := t.writeDB(l, "db", Style{Fancy: true, Comments: true})
	loc := func(x *Txn) string { return fmt.Sprintf("%s:%d", x.File, x.Line) }
	byLoc := map[string]*Txn{}
	for _, tx := range l.Txns {
		byLoc[loc(tx)] = tx
	}
	var args []string
	f := &Filter{}
	if t.N(2) == 0 && len(l.Txns) > 0 {
		if t.N(2) == 0 {
			d := pick(t.R, l.Txns).D + Day(t.N(2))
			f.B = &d
			args = append(args, "-b", t.dateArg(d))
		}
		if t.N(2) == 0 {
			d := pick(t.R, l.Txns).D + Day(t.N(2))
			f.E = &d
			args = append(args, "-e", t.dateArg(d))
		}
	}
	var in []*Txn
	for _, tx := range l.sorted() {
		if (f.B == nil || tx.D >= *f.B) && (f.E == nil || tx.D < *f.E) {
			in = append(in, tx)
		}
	}
	// duplicates
	want := map[string]int{}
	npairs := 0
	for i, a := range in {
		for _, b := range in[:i] {
			if equalTxns(a, b) {
				k := []string{loc(a), loc(b)}
				sort.Strings(k)
				want[strings.Join(k, " ")]++
				npairs++
			}
		}
	}
	r := t.MustOK(db, "coin", append([]string{"stats", "-d"}, args...)...)
	blocks := t.statBlocks(l, r, "DUPLICATE TRANSACTION?", 2, byLoc)
	for _, b := range blocks {
		k := []string{loc(b[0]), loc(b[1])}
		sort.Strings(k)
		kk := strings.Join(k, " ")
		if want[kk] == 0 {
			t.Fail("dup-extra", "reported as duplicates, but they differ (or were reported before): %s%s\n%s", b[0], b[1], r)
		}
		want[kk]--
	}
	if len(blocks) != npairs {
		for k, n := range want {
			if n > 0 {
				t.Fail("dup-missing", "%d pairs reported, expected %d; missing %s\n%s", len(blocks), npairs, k, r)
			}
		}
	}
	// unbalanced
	wantU := map[string]int{}
	nu := 0
	var bad []string
	for _, tx := range in {
		for _, p := range tx.Posts {
			if p.Acc == "Unbalanced" {
				wantU[loc(tx)]++
				nu++
			}
		}
		if len(tx.Posts) == 2 {
			p, q := tx.Posts[0], tx.Posts[1]
			x := new(big.Int).Mul(p.Q, pow10(l.Coms[q.C].Dec))
			y := new(big.Int).Mul(q.Q, pow10(l.Coms[p.C].Dec))
			if p.C != q.C && x.Add(x, y).Sign() == 0 {
				bad = append(bad, fmt.Sprintf("BAD CONVERSION: %s %s %s => %s %s : %s", tx.D, l.amt(p.Q, p.C), p.C, l.amt(q.Q, q.C), q.C, loc(tx)))
			}
		}
	}
	counts := []string{fmt.Sprint("Commodities: ", len(l.ComIds)), fmt.Sprint("Prices: ", len(l.Prices)),
		fmt.Sprint("Accounts: ", len(l.allAccs())), fmt.Sprint("Transactions: ", len(in))}
	tail := func(r Res) Res { // drop the counts
		ls := lines(r.Out)
		if len(ls) < 4 || strings.Join(ls[len(ls)-4:], "\n") != strings.Join(counts, "\n") {
			t.Fail("counts", "expected counts %v\n%s", counts, r)
		}
		r.Out = strings.Join(ls[:len(ls)-4], "\n")
		return r
	}
	r = tail(t.MustOK(db, "coin", append([]string{"stats", "-u"}, args...)...))
	blocks = t.statBlocks(l, r, "UNBALANCED TRANSACTION!", 1, byLoc)
	for _, b := range blocks {
		if wantU[loc(b[0])] == 0 {
			t.Fail("unbalanced-extra", "reported without reason: %s\n%s", b[0], r)
		}
		wantU[loc(b[0])]--
	}
	if len(blocks) != nu {
		t.Fail("unbalanced-missing", "%d postings to Unbalanced reported, expected %d\n%s", len(blocks), nu, r)
	}
	r = tail(t.MustOK(db, "coin", append([]string{"stats", "-c"}, args...)...))
	got := lines(r.Out)
	sort.Strings(got)
	sort.Strings(bad)
	if strings.Join(squeeze(got), "\n") != strings.Join(squeeze(bad), "\n") {
		t.Fail("conversions", "expected\n%s\n%s", strings.Join(bad, "\n"), r)
	}
	if r = tail(t.MustOK(db, "coin", append([]string{"stats"}, args...)...)); strings.TrimSpace(r.Out) != "" {
		t.Fail("silent", "unasked reports\n%s", r)
	}
	// all at once but -d
	if r = tail(t.MustOK(db, "coin", append([]string{"stats", "-u", "-c"}, args...)...)); strings.Count(r.Out, "UNBALANCED TRANSACTION!\n") != nu || strings.Count(r.Out, "BAD CONVERSION:") != len(bad) {
		t.Fail("both", "-u -c: expected %d and %d\n%s", nu, len(bad), r)
	}
	t.Count("pairs", npairs)
	t.Count("unbalanced", nu)
	t.Count("conversions", len(bad))
	if npairs+nu+len(bad) > 0 && len(in) > npairs {
		t.Nontrivial(fmt.Sprint(npairs, nu, bad, in))
		t.Sample(fmt.Sprintf("%d transactions in range: %d pairs, %d unbalanced, %d conversions", len(in), npairs, nu, len(bad)))
	}
}

func squeeze(ls []string) (out []string) {
	for _, l := range ls {
		out = append(out, strings.Join(strings.Fields(l), " "))
	}
	return
}

// statBlocks reads blocks of a title followed by n times a location and its transaction, and checks the transaction's text.
func (t *T) statBlocks(l *Ledger, r Res, title string, n int, byLoc map[string]*Txn) (out [][]*Txn) {
	text := r.Out
	for i, b := range strings.Split("\n"+text, "\n"+title+"\n") {
		if i == 0 {
			if strings.TrimSpace(b) != "" {
				t.Fail("stats-noise", "unexpected %q\n%s", clip(b), r)
			}
			continue
		}
		var txs []*Txn
		var cur *Txn
		var body []string
		flush := func() {
			if cur == nil {
				return
			}
			got, err := l.parseFormatted(strings.Join(body, "\n"))
			if err != nil || len(got) != 1 {
				t.Fail("stats-text", "%d transactions below location (%v)\n%s", len(got), err, r)
			}
			if why := sameTxn(cur, got[0], false); why != "" {
				t.Fail("stats-text", "the transaction printed is not the one at %s:%d: %s\n%s", cur.File, cur.Line, why, r)
			}
			txs = append(txs, cur)
			body = nil
		}
		for _, ln := range strings.Split(b, "\n") {
			if x := byLoc[ln]; x != nil {
				flush()
				cur = x
				continue
			}
			if cur == nil && strings.TrimSpace(ln) != "" {
				t.Fail("stats-location", "%q is not the location of a transaction\n%s", ln, r)
			}
			body = append(body, ln)
		}
		flush()
		if len(txs) != n {
			t.Fail("stats-block", "%d transactions in a block\n%s", len(txs), r)
		}
		out = append(out, txs)
	}
	return
}
