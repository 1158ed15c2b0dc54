package main

import (
	"fmt"
	"math/big"
	"strings"
)

func init() {
	register(&Check{ID: "C01", Quick: 1500, Thor: 30000, Case: c01,
		Rule: "a valid random ledger in which one transaction is then broken in a random way (one unit off in a random posting, one more missing amount, a missing amount in a mixed transaction, a posting dropped or sign flipped) or only re-spelled; non-trivial: the broken transaction is refused naming file:line, or the valid ledger's elided amounts are read back from format/register; distinct by kind, shape and amounts"})
	register(&Check{ID: "C03", Quick: 1500, Thor: 30000, Case: c03,
		Rule: "random ledgers with right and wrong balance assertions at random postings, several same-day postings and files; non-trivial: at least one wrong assertion warned about and one right one silent; distinct by warning text"})
}

// locIn tells if text names file:line (not followed by another digit).
func locIn(text, file string, line int) bool {
	loc := fmt.Sprintf("%s:%d", file, line)
	for i := 0; ; {
		j := strings.Index(text[i:], loc)
		if j < 0 {
			return false
		}
		e := i + j + len(loc)
		if e >= len(text) || text[e] < '0' || text[e] > '9' {
			return true
		}
		i = e
	}
}

// breakTxn breaks transaction tx so that it must be refused; "" if it cannot be broken that way.
func (t *T) breakTxn(l *Ledger, tx *Txn) (kind string) {
	if len(tx.Posts) == 0 {
		return ""
	}
	coms := map[string]bool{}
	elided := 0
	foreign := false
	for _, p := range tx.Posts {
		coms[l.com(p.Acc)] = true
		if p.Elided {
			elided++
		}
		foreign = foreign || p.C != l.com(p.Acc)
	}
	k := t.N(len(tx.Posts))
	if foreign && len(coms) == 1 {
		defer func() {
			if kind == "" || strings.HasPrefix(kind, "several") {
				return
			}
			// what it is worth may still be zero
			sum := new(big.Int)
			c := ""
			for _, p := range tx.Posts {
				c = l.com(p.Acc)
			}
			for _, p := range tx.Posts {
				sum = l.addIn(sum, c, p.Q, p.C)
			}
			if sum.Sign() == 0 {
				kind = ""
				l.balances()
			} else {
				kind = "foreign " + kind
			}
		}()
	}
	p := tx.Posts[k]
	if len(coms) > 1 {
		p.Elided = true
		p.Assert = nil
		return "missing amount in mixed transaction"
	}
	switch t.N(4) {
	case 0: // two missing
		if len(tx.Posts) < 2 {
			return ""
		}
		for i := 0; i < 2+t.N(len(tx.Posts)-1) && i < len(tx.Posts); i++ {
			q := tx.Posts[(k+i)%len(tx.Posts)]
			q.Elided = true
			q.Assert = nil
		}
		return "several missing amounts"
	case 1: // off by one unit (or a bit more)
		for _, q := range tx.Posts {
			q.Elided = false
		}
		d := big.NewInt(int64(1 + t.N(2)*t.N(1000)))
		if t.N(2) == 0 {
			d.Neg(d)
		}
		p.Q = new(big.Int).Add(p.Q, d)
		return "off by " + d.String() + " units"
	case 2: // sign flipped
		if p.Q.Sign() == 0 {
			return ""
		}
		for _, q := range tx.Posts {
			q.Elided = false
		}
		p.Q = new(big.Int).Neg(p.Q)
		return "sign flipped"
	default: // posting dropped
		if p.Q.Sign() == 0 || len(tx.Posts) < 2 {
			return ""
		}
		for _, q := range tx.Posts {
			q.Elided = false
		}
		tx.Posts = append(append([]*Post(nil), tx.Posts[:k]...), tx.Posts[k+1:]...)
		return "posting dropped"
	}
}

func c01(t *T) {
	o := defOpt(t)
	o.Odd = t.Chance(.3)
	o.Txns = 1 + t.N(25)
	o.Big = .2
	o.Elide = .6
	if t.I%3 == 0 {
		o.Uniform = true
	}
	if t.N(4) == 0 {
		o.Foreign = .1 + .4*t.R.Float64()
		o.Explicit = .5
	}
	l := t.gen(&o)
	st := Style{Fancy: t.Chance(.6), Comments: t.Chance(.3), Tight: t.Chance(.3)}
	if t.I%2 == 0 {
		tx := pick(t.R, l.Txns)
		for k := 0; k < 10 && o.Foreign > 0 && !isForeign(l, tx); k++ {
			tx = pick(t.R, l.Txns)
		}
		kind := t.breakTxn(l, tx)
		if kind != "" {
			db := t.writeDB(l, "db", st)
			var r Res
			switch t.N(5) {
			case 0:
				r = t.Exec(db, "coin", "register", pick(t.R, l.allAccs()))
			case 1:
				r = t.Exec(db, "coin", "stats")
			case 2:
				r = t.Exec(db, "coin", "tags")
			case 3:
				r = t.Exec(db, "coin", "format", tx.File)
				if o.Foreign > 0 { // which reads no prices
					r = t.Exec(db, "coin", "balance", "-z")
				}
			default:
				r = t.Exec(db, "coin", "balance")
			}
			if r.Code == 0 {
				t.Fail("accepted-"+sigWord(kind), "transaction accepted (%s): %s\n%s", kind, tx, r)
			}
			if !locIn(r.Err, tx.File, tx.Line) {
				t.Fail("location", "refused (%s) but stderr does not name %s:%d\n%s", kind, tx.File, tx.Line, r)
			}
			if strings.TrimSpace(r.Out) != "" {
				t.Fail("output", "a report was printed although the ledger is refused (%s)\n%s", kind, r)
			}
			t.Count("refused", 1)
			t.Nontrivial(fmt.Sprint(kind, tx))
			if t.I < 4 {
				t.Sample(map[string]any{"broken": kind, "transaction": tx.String(), "stderr": clip1(r.Err, 300)})
			}
			return
		}
	}
	db := t.writeDB(l, "db", st)
	// valid: accepted, the elided amounts exact
	r := t.Exec(db, "coin", "balance", "-z")
	if r.Code != 0 {
		t.Fail("refused-valid", "valid ledger refused\n%s", r)
	}
	want, err := l.expectBalance("Root", func(*Post) bool { return true }, true, 0)
	if err != nil {
		t.Inconclusive("%v", err)
	}
	t.checkBalance(l, r, want, "balance")
	if o.Uniform && want[0].cum.Sign() != 0 {
		t.Inconclusive("model: grand total not zero")
	}
	// read every quantity back from format
	n := 0
	for h := 0; h < maxi(1, o.Files) && o.Foreign == 0; h++ {
		var txs []*Txn
		for _, tx := range l.sorted() {
			if tx.Home == h {
				txs = append(txs, tx)
			}
		}
		if len(txs) == 0 {
			continue
		}
		fr := t.Exec(db, "coin", "format", txs[0].File)
		if fr.Code != 0 {
			t.Fail("refused-valid", "valid file refused by format\n%s", fr)
		}
		got, perr := l.parseFormatted(fr.Out)
		if perr != nil {
			t.Fail("format", "cannot read format output: %v\n%s", perr, fr)
		}
		if len(got) != len(txs) {
			t.Fail("format", "format printed %d transactions, file has %d\n%s", len(got), len(txs), fr)
		}
		for i, tx := range txs {
			g := got[i]
			if len(g.Posts) != len(tx.Posts) {
				t.Fail("postings", "expected %sgot %s", tx, g)
			}
			for k, p := range tx.Posts {
				if g.Posts[k].Q.Cmp(p.Q) != 0 || g.Posts[k].C != p.C {
					t.Fail("elided", "posting %d: expected %s %s, got %s %s\nexpected %sgot %s", k, p.Q, p.C, g.Posts[k].Q, g.Posts[k].C, tx, g)
				}
				if p.Elided {
					n++
				}
			}
		}
	}
	t.Count("elided_amounts_checked", n)
	t.Count("accepted", 1)
	if o.Foreign > 0 { // through the balances
		for _, tx := range l.Txns {
			for _, p := range tx.Posts {
				if p.Elided {
					n++
				}
			}
		}
	}
	if n > 0 {
		t.Nontrivial(r.Out)
	}
}

func isForeign(l *Ledger, tx *Txn) bool {
	coms := map[string]bool{}
	f := false
	for _, p := range tx.Posts {
		coms[l.com(p.Acc)] = true
		f = f || p.C != l.com(p.Acc)
	}
	return f && len(coms) == 1
}

func sigWord(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' {
			return r
		}
		return -1
	}, s)
}

func c03(t *T) {
	o := defOpt(t)
	o.Assert = .1 + .4*t.R.Float64()
	o.Wrong = .3 * t.R.Float64()
	o.SameDay = .6
	o.Odd = t.Chance(.2)
	o.Elide = .2
	o.Foreign = .1 * float64(t.N(2))
	o.Zero = .15 * float64(t.N(2))
	l := t.gen(&o)
	// an assertion needs an amount
	for _, tx := range l.Txns {
		for _, p := range tx.Posts {
			if p.Elided && p.Assert != nil {
				p.Elided = false
			}
		}
	}
	db := t.writeDB(l, "db", Style{Fancy: t.Chance(.5), Comments: t.Chance(.3), Tight: t.Chance(.3)})
	var r Res
	acc := pick(t.R, l.allAccs())
	switch t.N(4) {
	case 0:
		r = t.Exec(db, "coin", "stats")
	case 1:
		r = t.Exec(db, "coin", "register", acc)
	case 2:
		r = t.Exec(db, "coin", "tags")
	default:
		r = t.Exec(db, "coin", "balance", "-z")
		want, err := l.expectBalance("Root", func(*Post) bool { return true }, true, 0)
		if err != nil {
			t.Inconclusive("%v", err)
		}
		if r.Code == 0 {
			t.checkBalance(l, r, want, "balance-with-warnings")
		}
	}
	if r.Code != 0 {
		t.Fail("failed", "command failed\n%s", r)
	}
	got := lines(r.Err)
	used := make([]bool, len(got))
	toks := make([]map[string]bool, len(got))
	for i, g := range got {
		toks[i] = map[string]bool{}
		for _, w := range strings.Fields(g) {
			toks[i][strings.TrimRight(w, ":,")] = true
			toks[i][w] = true
		}
	}
	wrong, right := 0, 0
	for _, tx := range l.Txns {
		for _, p := range tx.Posts {
			if p.Assert == nil {
				continue
			}
			if p.Assert.Cmp(p.Bal) == 0 {
				right++
				continue
			}
			wrong++
			c := l.com(p.Acc)
			need := []string{p.Acc, tx.D.String(), l.amt(p.Bal, c), l.amt(p.Assert, p.AssertC), fmt.Sprintf("%s:%d", tx.File, tx.Line)}
			found := false
			for i := range got {
				ok := !used[i]
				for _, w := range need {
					ok = ok && toks[i][w]
				}
				// actual before asserted
				if ok && strings.Index(got[i], " "+need[2]) <= strings.LastIndex(got[i], " "+need[3]) {
					used[i], found = true, true
					break
				}
			}
			if !found {
				t.Fail("missing", "no warning with %q for the wrong assertion of\n%s\n%s", need, tx, r)
			}
		}
	}
	for i := range got {
		if !used[i] {
			t.Fail("spurious", "unexpected stderr line %q\n%s", got[i], r)
		}
	}
	t.Count("wrong_assertions", wrong)
	t.Count("right_assertions", right)
	if wrong > 0 && right > 0 {
		t.Nontrivial(r.Err)
		if t.I < 6 {
			t.Sample(map[string]any{"cmd": r.Cmd, "warnings": got, "right_assertions": right})
		}
	}
}
