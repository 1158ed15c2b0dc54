package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"sort"
	"strings"
)

// GenOpt steers the ledger generator.
type GenOpt struct {
	Coms     int     // number of commodities
	Uniform  bool    // every account has the default commodity
	PerTree  bool    // commodity chosen per top level account rather than per account
	Prices   bool    // prices connecting every commodity to the default one by exactly one chain, both ways
	Foreign  float64 // chance of a posting in another commodity than its account's
	Txns     int
	Accounts int
	Assert   float64 // chance of a posting asserting its balance
	Wrong    float64 // chance of an assertion being wrong
	Notes    float64
	Tags     float64
	Codes    float64
	Elide    float64
	Days     int // date range
	Files    int
	Big      float64 // chance of a huge amount
	Closed   float64
	Odd      bool // single posting, empty description and other rare shapes
	Shorten  float64
	Dups     float64 // chance of repeating an earlier transaction
	SameDay  float64
	FewPay   bool // few different payees
	MaxDepth int
	Zero     float64 // chance of a transaction of zero amounts
	Explicit float64 // chance of a transaction with foreign postings having all its amounts
}

func defOpt(t *T) GenOpt {
	return GenOpt{Coms: 1 + t.N(4), Txns: 5 + t.N(40), Accounts: 3 + t.N(14), Notes: .25, Tags: .25, Codes: .2, Elide: .4,
		Days: 30 + t.N(800), Files: 1 + t.N(3), Big: .05, Closed: .15, SameDay: .3, Uniform: t.Chance(.4), PerTree: t.Chance(.6),
		Prices: true, MaxDepth: 4, FewPay: t.Chance(.4)}
}

var comPool = []*Com{
	{Id: "USD", Name: "US Dollar", Dec: 2}, {Id: "EUR", Dec: 2, Symbol: "EURX"}, {Id: "JPY", Name: "Yen", Dec: 0},
	{Id: "VGRO", Name: "Vanguard Growth ETF", Dec: 4, Symbol: "VGRO.TO"}, {Id: "BTC", Dec: 8, NoMarket: true},
	{Id: "X1", Name: "Fund 1", Dec: 3}, {Id: "M_2", Dec: 1, Symbol: "M2", NoMarket: true}, {Id: "gold", Name: "Gold, oz", Dec: 5},
}

var topNames = []string{"Assets", "Liabilities", "Income", "Expenses", "Equity"}
var elemNames = []string{"Bank", "Cash", "Savings", "Food", "Rent", "Auto", "Gas", "Broker", "RRSP", "Joe", "Salary", "Bonus",
	"Visa", "A/R", "Mort-gage", "Home_1", "Kids", "Fun", "Tax", "Fees", "Pets", "Bank2", "Groceries", "bank", "Z", "q", "Root"}

var payees = []string{"Costco", "Shell", "Tim Hortons", "A&W", "ACME Corp.", "Rent", "Payroll", "7-Eleven 12", "Metro  Store", "Café Ñandú",
	"Amazon.ca*MX12", "Interest", "Transfer", "x", "Bob & Alice", "MR. O'NEIL", "100% Juice", "a [b] c", "cost plus", "Shell Canada 123 Some Very Long Street Name Boulevard Ottawa"}

var noteWords = []string{"lunch", "with", "Bob", "ref", "12/34", "for", "a friend", "paid; late", "see", "receipt", "no. 5", "(x)", "= 5", "100 CAD", "über"}
var tagKeys = []string{"food", "trip", "work", "a-b", "tax/2020", "K9", "foo", "food2"}
var tagVals = []string{"Paris", "New York", "x y z", "2020", "a:b", "yes", "12.5%", "paris"}

func bigRand(r *rand.Rand, digits int) *big.Int {
	s := fmt.Sprint(1 + r.IntN(9))
	for i := 1; i < digits; i++ {
		s += fmt.Sprint(r.IntN(10))
	}
	v, _ := new(big.Int).SetString(s, 10)
	return v
}

// genAmt returns a random amount of units, of either sign, not zero unless rarely.
func genAmt(r *rand.Rand, o *GenOpt) *big.Int {
	var v *big.Int
	switch x := r.Float64(); {
	case x < .03:
		return new(big.Int)
	case x < .03+o.Big:
		v = bigRand(r, 10+r.IntN(8))
	case x < .3:
		v = big.NewInt(int64(1 + r.IntN(20)))
	default:
		v = bigRand(r, 2+r.IntN(5))
	}
	if r.IntN(2) == 0 {
		v.Neg(v)
	}
	return v
}

func genNote(r *rand.Rand, o *GenOpt) string {
	if r.IntN(40) == 0 {
		return pick(r, []string{"x", "7", "?", "é", "-", "'"})
	}
	var parts []string
	n := 1 + r.IntN(3)
	for i := 0; i < n; i++ {
		parts = append(parts, pick(r, noteWords))
	}
	s := strings.Join(parts, " ")
	if r.Float64() < .1 {
		s += "  " + pick(r, noteWords)
	}
	if r.Float64() < o.Tags {
		s += " " + genTag(r)
		if r.Float64() < .3 {
			s += ", " + genTag(r)
		}
		if r.Float64() < .2 {
			s += ", " + pick(r, noteWords)
		}
	}
	if r.Float64() < .08 {
		s = strings.Repeat("long ", r.IntN(20)) + s
	} else if r.Float64() < .08 {
		s += strings.Repeat(" long", 20)
	}
	if r.Float64() < .03 {
		s += pick(r, []string{" ;", ";", " ; ;"})
	}
	return s
}

func genTag(r *rand.Rand) string {
	s := "#" + pick(r, tagKeys)
	if r.IntN(2) == 0 {
		s += ": " + pick(r, tagVals)
	}
	return s
}

func (t *T) genBase(o *GenOpt) *Ledger {
	r := t.R
	l := &Ledger{Coms: map[string]*Com{}, Accs: map[string]*Acc{}, Default: "CAD"}
	add := func(c *Com) {
		if l.Coms[c.Id] == nil {
			cc := *c
			l.Coms[c.Id] = &cc
			l.ComIds = append(l.ComIds, c.Id)
		}
	}
	add(&Com{Id: "CAD", Name: "Canadian Dollar", Dec: 2})
	for len(l.ComIds) < o.Coms {
		add(pick(r, comPool))
	}
	sort.Strings(l.ComIds)
	if r.IntN(3) == 0 {
		l.Default = pick(r, l.ComIds)
	}
	treeCom := map[string]string{}
	comFor := func(name string) string {
		if o.Uniform {
			return l.Default
		}
		if o.PerTree {
			top := strings.SplitN(name, ":", 2)[0]
			if treeCom[top] == "" {
				treeCom[top] = pick(r, l.ComIds)
				if r.IntN(2) == 0 {
					treeCom[top] = l.Default
				}
			}
			return treeCom[top]
		}
		if r.IntN(2) == 0 {
			return l.Default
		}
		return pick(r, l.ComIds)
	}
	addAcc := func(name string) {
		if l.Accs[name] != nil {
			return
		}
		a := &Acc{Full: name, Com: comFor(name)}
		if r.IntN(3) == 0 {
			a.Desc = pick(r, []string{"Main account", "All about it", "x y", "Old, unused"})
		}
		l.Accs[name] = a
		l.Names = append(l.Names, name)
	}
	for _, n := range topNames[:2+r.IntN(4)] {
		if r.Float64() < .85 {
			addAcc(n)
		} else {
			addAcc(n + ":" + pick(r, elemNames)) // implied top level account
		}
	}
	for len(l.Names) < o.Accounts {
		p := pick(r, l.Names)
		if strings.Count(p, ":") >= o.MaxDepth-1 {
			continue
		}
		n := p + ":" + pick(r, elemNames)
		if r.Float64() < .1 && strings.Count(p, ":") < o.MaxDepth-2 {
			n = p + ":" + pick(r, elemNames) + ":" + pick(r, elemNames)
		}
		addAcc(n)
	}
	if r.IntN(4) == 0 {
		addAcc("Unbalanced")
		l.Accs["Unbalanced"].Com = pick(r, []string{l.Default, l.Accs["Unbalanced"].Com})
	}
	// implied parents have the default commodity; with PerTree they would differ, so declare them half of the time
	if o.PerTree && !o.Uniform && r.IntN(2) == 0 {
		for _, n := range l.allAccs() {
			if n != "Root" && n != "Unbalanced" {
				addAcc(n)
			}
		}
	}
	for _, n := range l.Names {
		if r.Float64() < o.Closed {
			d := mkDay(2000, 1, 1) + Day(r.IntN(9000))
			l.Accs[n].Closed = &d
		}
	}
	if o.Prices {
		// a random tree over the commodities, with prices in both directions
		for i, c := range l.ComIds {
			if i == 0 {
				continue
			}
			p := l.ComIds[r.IntN(i)]
			for _, pr := range [][2]string{{c, p}, {p, c}} {
				n := 1 + r.IntN(4)
				used := map[Day]bool{}
				for j := 0; j < n; j++ {
					d := mkDay(2015, 1, 1) + Day(r.IntN(2500))
					if used[d] {
						continue
					}
					used[d] = true
					l.Prices = append(l.Prices, &Price{D: d, Com: pr[0], Cur: pr[1], V: bigRand(r, 1+r.IntN(6))})
				}
			}
		}
		r.Shuffle(len(l.Prices), func(i, j int) { l.Prices[i], l.Prices[j] = l.Prices[j], l.Prices[i] })
	}
	return l
}

// genTxn makes one valid transaction.
func (t *T) genTxn(l *Ledger, o *GenOpt, day Day) *Txn {
	r := t.R
	tx := &Txn{D: day}
	if o.FewPay {
		tx.Desc = payees[r.IntN(5)]
	} else {
		tx.Desc = pick(r, payees)
	}
	if r.Float64() < o.Codes {
		tx.Code = pick(r, []string{"123", "A1", "ck_77", "0001"})
	}
	if r.Float64() < o.Notes {
		n := 1 + r.IntN(2)
		if r.IntN(6) == 0 {
			n += 2 + r.IntN(3)
		}
		for ; n > 0; n-- {
			tx.Notes = append(tx.Notes, genNote(r, o))
		}
	}
	n := 2
	if r.Float64() < .3 {
		n = 3 + r.IntN(3)
	}
	if o.Odd && r.Float64() < .06 {
		tx.Desc = ""
	}
	if o.Odd && r.Float64() < .05 {
		n = r.IntN(2)
	}
	names := l.Names
	coms := map[string]bool{}
	for i := 0; i < n; i++ {
		a := pick(r, names)
		if o.Uniform == false && i > 0 && r.Float64() < .5 {
			// prefer an account of the same commodity
			for k := 0; k < 8 && l.com(a) != l.com(tx.Posts[0].Acc); k++ {
				a = pick(r, names)
			}
		}
		p := &Post{Acc: a, T: tx, I: i, C: l.com(a)}
		coms[p.C] = true
		if r.Float64() < o.Notes {
			p.Notes = append(p.Notes, genNote(r, o))
			for n := r.IntN(4); n > 1; n-- {
				p.Notes = append(p.Notes, genNote(r, o))
			}
			if r.Float64() < o.Tags/2 && len(tx.Notes) > 0 { // a tag of the transaction with another value
				if _, k, ok := strings.Cut(tx.Notes[r.IntN(len(tx.Notes))], "#"); ok {
					k = k[:len(k)-len(strings.TrimLeft(k, "abcdefghijklmnopqrstuvwxyzK0123456789-/"))]
					p.Notes = append(p.Notes, "#"+k+pick(r, []string{"", ": Rome", ": " + pick(r, tagVals)}))
				}
			}
		}
		tx.Posts = append(tx.Posts, p)
	}
	foreign := false
	zero := r.Float64() < o.Zero
	for _, p := range tx.Posts {
		p.Q = genAmt(r, o)
		if zero {
			p.Q = new(big.Int)
		}
		if o.Foreign > 0 && r.Float64() < o.Foreign {
			p.C = pick(r, l.ComIds)
			foreign = foreign || p.C != l.com(p.Acc)
		}
	}
	if len(coms) == 1 && n > 0 {
		c := tx.Posts[0].C
		k := r.IntN(n)
		e := tx.Posts[k]
		if foreign {
			c = l.com(e.Acc)
			e.Elided = r.Float64() >= o.Explicit
		} else {
			e.Elided = r.Float64() < o.Elide
		}
		e.C = c
		sum := new(big.Int)
		for i, q := range tx.Posts {
			if i != k {
				sum = l.addIn(sum, c, q.Q, q.C)
			}
		}
		e.Q = sum.Neg(sum)
	}
	return tx
}

// gen makes a valid ledger; assertions are right unless o.Wrong says otherwise.
func (t *T) gen(o *GenOpt) *Ledger {
	r := t.R
	l := t.genBase(o)
	start := mkDay(2015, 1, 1) + Day(r.IntN(1500))
	prev := start
	for i := 0; i < o.Txns; i++ {
		d := start + Day(r.IntN(o.Days+1))
		if r.Float64() < o.SameDay {
			d = prev
		}
		prev = d
		var tx *Txn
		if len(l.Txns) > 0 && r.Float64() < o.Dups {
			tx = cloneTxn(pick(r, l.Txns))
			if r.IntN(3) == 0 {
				tx.Desc = pick(r, payees)
			}
			if r.IntN(4) == 0 {
				tx.D += Day(r.IntN(3) - 1)
			}
		} else {
			tx = t.genTxn(l, o, d)
		}
		tx.Home = r.IntN(maxi(1, o.Files))
		l.Txns = append(l.Txns, tx)
	}
	l.order()
	l.balances()
	if o.Assert > 0 {
		// add assertions; load order is not changed by them
		for _, tx := range l.Txns {
			for _, p := range tx.Posts {
				if !p.Elided && r.Float64() < o.Assert {
					p.AssertC = l.com(p.Acc)
					p.Assert = new(big.Int).Set(p.Bal)
					if r.Float64() < o.Wrong {
						switch r.IntN(5) {
						case 4:
							p.Assert.SetInt64(0)
						case 0:
							p.Assert.Add(p.Assert, big.NewInt(1))
						case 1:
							p.Assert.Neg(p.Assert)
						case 2:
							p.Assert.Sub(p.Bal, p.Q)
						default:
							p.Assert.Sub(p.Assert, bigRand(r, 1+r.IntN(5)))
						}
					}
				}
			}
		}
	}
	if o.Shorten > 0 {
		for _, tx := range l.Txns {
			for _, p := range tx.Posts {
				if r.Float64() < o.Shorten {
					p.Expr = l.shorten(r, p.Acc)
				}
			}
		}
	}
	return l
}

// order sets the load order: by file, and in generation order within a file, which is how they are rendered.
func (l *Ledger) order() {
	ts := append([]*Txn(nil), l.Txns...)
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].Home < ts[j].Home })
	for i, t := range ts {
		t.Seq = i
		for k, p := range t.Posts {
			p.T, p.I = t, k
		}
	}
}

func cloneTxn(t *Txn) *Txn {
	n := *t
	n.Notes = append([]string(nil), t.Notes...)
	n.Posts = nil
	for _, p := range t.Posts {
		q := *p
		q.T = &n
		q.Notes = append([]string(nil), p.Notes...)
		if p.Q != nil {
			q.Q = new(big.Int).Set(p.Q)
		}
		n.Posts = append(n.Posts, &q)
	}
	return &n
}

// shorten returns a plain (colon free) expression that denotes acc only, or "" if there is none.
func (l *Ledger) shorten(r *rand.Rand, acc string) string {
	try := []string{baseName(acc), strings.ToLower(baseName(acc)), baseName(acc)[:1+r.IntN(len(baseName(acc)))]}
	if p := parentOf(acc); p != "" {
		try = append(try, baseName(p)+":"+baseName(acc))
	}
	r.Shuffle(len(try), func(i, j int) { try[i], try[j] = try[j], try[i] })
	for _, e := range try {
		if !isAccountExpr(e) {
			continue
		}
		if got, ok := l.resolve(e); ok && got == acc {
			return e
		}
	}
	return ""
}

func isAccountExpr(e string) bool {
	for _, w := range strings.Split(e, ":") {
		if w == "" {
			return false
		}
		if c := w[0]; !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z') {
			return false
		}
	}
	return true
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}
func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}
