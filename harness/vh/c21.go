package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"
)

func init() {
	register(&Check{ID: "C21", Quick: 400, Thor: 8000, Case: c21,
		Rule: "random date ranges (a day to eleven years, empty ones, leap days, week and month borders, defaults) and modes (stdout, JSON, one file (also over existing files), by year, by month, -wb); every printed transaction is judged by an own statement of the rules; modes run in the same second with the same seeds are compared; distinct by output, non-trivial if there are transactions"})
}

// genRule is what gen2coin's personal rules say.
type genRule struct {
	payees         string
	weekly         int // weeks, 0: monthly
	months         int
	days           string // allowed days: "wd" weekdays, "any", or days of month, negative from the end
	count          int
	from, to       string
	min, max       int64
	repay, percent bool
}

var genRules = []*genRule{
	{payees: "Costco", weekly: 2, days: "wd", count: 1, from: "Assets:Bank:Checking|Liabilities:MasterCard|Liabilities:Amex", to: "Expenses:Groceries", min: 100, max: 1000},
	{payees: "FARM BOY|FRESHCO|LOBLAWS|LOEB|SOBEY'S|NO FRILLS", weekly: 1, days: "any", count: 2, from: "Assets:Bank:Checking|Liabilities:MasterCard|Liabilities:Amex", to: "Expenses:Groceries", min: 30, max: 200},
	{payees: "ACME Inc", months: 1, days: "15,-1", count: 2, from: "Income:Salary", to: "Assets:Bank:Checking", min: 2000, max: 2000},
	{payees: "repay balance", months: 1, days: "-1,-2,-3", count: 1, from: "Assets:Bank:Checking", to: "Liabilities:MasterCard", repay: true},
	{payees: "repay balance", months: 1, days: "-1,-2,-3", count: 1, from: "Assets:Bank:Checking", to: "Liabilities:Amex", repay: true},
	{payees: "Enbridge Gas", months: 1, days: "1", count: 1, from: "Assets:Bank:Checking", to: "Expenses:Heat", min: 100, max: 200},
	{payees: "Hydro One", months: 1, days: "1", count: 1, from: "Assets:Bank:Checking", to: "Expenses:Electricity", min: 50, max: 100},
	{payees: "City Water&Sewer", months: 2, days: "-15", count: 1, from: "Assets:Bank:Checking", to: "Expenses:Water", min: 100, max: 150},
	{payees: "monthly savings", months: 1, days: "1", count: 1, from: "Assets:Bank:Checking", to: "Assets:Bank:Savings", min: 300, max: 2000},
	{payees: "monthly interest %2/12", months: 1, days: "-1", count: 1, from: "Income:Interest", to: "Assets:Bank:Savings", percent: true},
}

func (d Day) weekday() int { return int((int64(d) + 4) % 7) } // 0 Sunday

func monthIdx(d Day) int { y, m, _ := d.ymd(); return y*12 + m - 1 }

func monthLen(d Day) int {
	y, m, _ := d.ymd()
	return int(mkDay(y, m+1, 1) - mkDay(y, m, 1))
}

func (g *genRule) dayOK(d Day) bool {
	switch g.days {
	case "any":
		return true
	case "wd":
		return d.weekday() > 0 && d.weekday() < 6
	}
	_, _, dd := d.ymd()
	for _, s := range strings.Split(g.days, ",") {
		n := 0
		fmt.Sscan(s, &n)
		if n < 0 {
			n = monthLen(d) + 1 + n
		}
		if n == dd {
			return true
		}
	}
	return false
}

// period is the number of the rule's period the day is in, counted from the one of begin; all says that the period is inside
// the range. on tells whether the rule applies in it.
func (g *genRule) period(d, b, e Day) (k int, all, on bool) {
	if g.weekly > 0 {
		w0 := b - Day(b.weekday())
		w := d - Day(d.weekday())
		k = int(w-w0) / 7
		return k, w >= b && w+6 <= e, k%g.weekly == 0
	}
	y, m, _ := d.ymd()
	k = monthIdx(d) - monthIdx(b)
	first := mkDay(y, m, 1)
	return k, first >= b && first+Day(monthLen(d))-1 <= e, k%g.months == 0
}

// judge checks the transactions of one run.
func (t *T) judgeGen(l *Ledger, ts []*Txn, b, e Day, wb bool, res Res) {
	bal := map[string]*big.Int{}
	seen := map[string]int{}
	for i, x := range ts {
		if i > 0 && x.D < ts[i-1].D {
			t.Fail("order", "%s comes after %s\n%s", x, ts[i-1], res)
		}
		if x.D < b || x.D > e {
			t.Fail("range", "%s is outside of %s to %s\n%s", x, b, e, res)
		}
		if len(x.Posts) != 2 {
			t.Fail("postings", "%d postings: %s\n%s", len(x.Posts), x, res)
		}
		sum := new(big.Int)
		for _, p := range x.Posts {
			if l.Accs[p.Acc] == nil {
				t.Fail("account", "undeclared account: %s\n%s", x, res)
			}
			if p.Q == nil || p.C != "CAD" {
				t.Fail("amount", "no amount: %s\n%s", x, res)
			}
			sum.Add(sum, p.Q)
		}
		if sum.Sign() != 0 {
			t.Fail("unbalanced", "does not balance: %s\n%s", x, res)
		}
		// its rule
		var g *genRule
		gi := 0
		var amt *big.Int
		for k, r := range genRules {
			if !containsStr(strings.Split(r.payees, "|"), x.Desc) {
				continue
			}
			to, from := x.Posts[0], x.Posts[1]
			if to.Acc != r.to {
				to, from = from, to
			}
			if to.Acc == r.to && containsStr(strings.Split(r.from, "|"), from.Acc) {
				g, gi, amt = r, k, to.Q
			}
		}
		if g == nil {
			t.Fail("rule", "of no rule: %s\n%s", x, res)
		}
		k, _, on := g.period(x.D, b, e)
		if !g.dayOK(x.D) || !on {
			t.Fail("day", "not a day of its rule (%s, period %d): %s\n%s", g.days, k, x, res)
		}
		key := fmt.Sprintf("%d@%d", gi, k)
		seen[key]++
		if seen[key] > g.count {
			t.Fail("count", "more than %d times: %s\n%s", g.count, x, res)
		}
		dk := fmt.Sprintf("%d@%s", gi, x.D)
		seen[dk]++
		if seen[dk] > 1 {
			t.Fail("count", "twice on the same day: %s\n%s", x, res)
		}
		old := bal[g.to]
		if old == nil {
			old = new(big.Int)
		}
		switch {
		case g.repay:
			if new(big.Int).Add(old, amt).Sign() != 0 {
				t.Fail("repay", "balance %s is not repaid: %s\n%s", old, x, res)
			}
		case g.percent:
			diff := new(big.Int).Sub(new(big.Int).Mul(amt, big.NewInt(600)), old)
			if diff.CmpAbs(big.NewInt(600)) > 0 {
				t.Fail("interest", "of %s: %s\n%s", old, x, res)
			}
		default:
			if amt.Cmp(big.NewInt(g.min*100)) < 0 || amt.Cmp(big.NewInt(g.max*100)) > 0 {
				t.Fail("amount", "not between %d and %d: %s\n%s", g.min, g.max, x, res)
			}
		}
		for _, p := range x.Posts {
			if bal[p.Acc] == nil {
				bal[p.Acc] = new(big.Int)
			}
			bal[p.Acc] = new(big.Int).Add(bal[p.Acc], p.Q)
			if wb && (p.Assert == nil || p.Assert.Cmp(bal[p.Acc]) != 0 || p.AssertC != "CAD") {
				t.Fail("balance", "the balance of %s after %s is %s, shown is %v\n%s", p.Acc, x, bal[p.Acc], p.Assert, res)
			}
			if !wb && p.Assert != nil {
				t.Fail("balance", "a balance is shown: %s\n%s", x, res)
			}
		}
	}
	// complete periods
	for gi, g := range genRules {
		for d := b; d <= e; d++ {
			k, all, on := g.period(d, b, e)
			if all && on && seen[fmt.Sprintf("%d@%d", gi, k)] != g.count {
				t.Fail("missing", "%q (%s, every %d weeks or %d months) %d times in the period of %s, expected %d\n%s", g.payees, g.days, g.weekly, g.months, seen[fmt.Sprintf("%d@%d", gi, k)], d, g.count, res)
			}
		}
	}
}

func txnKeys(ts []*Txn) (out []string) {
	for _, x := range ts {
		k := txnKey(x) + " " + x.Desc
		for _, p := range x.Posts {
			k += fmt.Sprint(" ", p.Assert)
		}
		out = append(out, k)
	}
	return
}

func c21(t *T) {
	r := t.R
	b := mkDay(1990+r.IntN(40), 1+r.IntN(12), 1+r.IntN(31))
	if r.IntN(3) == 0 { // around borders
		y := 1992 + 4*r.IntN(10)
		b = pick(r, []Day{mkDay(y, 2, 28), mkDay(y, 2, 29), mkDay(y, 1, 1), mkDay(y-1, 12, 31), mkDay(y, 1, 31), mkDay(y, 3, 31)}) + Day(r.IntN(3)-1)
	}
	e := b + Day(pick(r, []int{0, 1, 6, 7, 13, 27, 30, 31, 60, r.IntN(100), r.IntN(400), r.IntN(1100)}))
	if r.IntN(4) == 0 { // ends with a month
		e = e + Day(monthLen(e)) - 1
		y, m, _ := e.ymd()
		e = mkDay(y, m, 1) - 1
		if e < b {
			e = b
		}
	}
	switch r.IntN(20) {
	case 0: // many years
		e = b + Day(1100+r.IntN(3000))
	case 1: // nothing lies within
		e = b - Day(1+r.IntN(100))
	}
	args := []string{"-b", b.String(), "-e", e.String()}
	now := time.Now().UTC()
	today := mkDay(now.Year(), int(now.Month()), now.Day())
	if e >= b && r.IntN(8) == 0 {
		y, m, d := e.ymd()
		args, b = args[2:], mkDay(y, m-3, d)
	} else if r.IntN(8) == 0 {
		b = today - Day(r.IntN(400))
		args, e = []string{"-b", b.String()}, today
	}
	l := &Ledger{Coms: map[string]*Com{"CAD": {Id: "CAD", Dec: 2}}, ComIds: []string{"CAD"}, Default: "CAD", Accs: map[string]*Acc{}}
	wb := r.IntN(2) == 0
	if wb {
		args = append(args, "-wb")
	}
	env := []string{"GODEBUG=randautoseed=0"}
	gen := func(more ...string) Res {
		res := t.ExecIn("", "", env, "gen2coin", append(append([]string(nil), args...), more...)...)
		if res.Code != 0 {
			t.Fail("failed", "gen2coin failed\n%s", res)
		}
		return res
	}
	accounts := func(text string) {
		sf := strictParse(text, map[any][2]amt{})
		if sf.bad+sf.unsure != "" || len(sf.txns)+len(sf.prices)+len(sf.coms) > 0 {
			t.Fail("accounts", "accounts.coin is no list of accounts: %s%s\n%s", sf.bad, sf.unsure, text)
		}
		for _, a := range sf.accs {
			l.Accs[a.Full] = a
			l.Names = append(l.Names, a.Full)
		}
	}
	read := func(text string, res Res) []*Txn {
		ts, err := l.parseFormatted(text)
		if err != nil {
			t.Fail("unreadable", "%v\n%s\n%s", err, text, res)
		}
		return ts
	}
	type mode struct {
		name string
		res  Res
		ts   []*Txn
	}
	var modes []*mode
	comparable := false
	stale := r.IntN(4) == 0 && e >= b+61 // the files are there already; two months have transactions for sure
	for try := 0; try < 3 && !comparable; try++ {
		if f := time.Now().Nanosecond(); f > 650e6 {
			time.Sleep(time.Duration(1e9-f) + time.Millisecond)
		}
		sec := time.Now().Unix()
		modes = []*mode{{name: "text", res: gen()}, {name: "json", res: gen("-j")}}
		for _, d := range []string{"one", "years", "months"} {
			t.rmTree(d)
			os.MkdirAll(t.Path(d), 0o755)
			m := &mode{name: d}
			switch d {
			case "one":
				if stale {
					t.Write("one/accounts.coin", strings.Repeat("account Stale:Account\n  commodity CAD\n\n", 200))
					t.Write("one/commodities.coin", strings.Repeat("commodity STALE\n  format 1.00 STALE\n\n", 200))
					t.Write("one/transactions.coin", strings.Repeat("1980/01/01 stale\n  Assets:Bank:Checking 1.00 CAD\n  Expenses:Groceries -1.00 CAD\n\n", 6000))
					t.Count("stale", 1)
				}
				m.res = gen(t.Path(d))
			case "years":
				m.res = gen("-y", t.Path(d))
			case "months":
				m.res = gen("-m", t.Path(d))
			}
			modes = append(modes, m)
		}
		again := gen()
		comparable = again.Out == modes[0].res.Out && time.Now().Unix() == sec
	}
	for _, m := range modes {
		switch m.name {
		case "text":
			m.ts = nil
		case "json":
		default:
			files := t.files(m.name)
			if m.name == "one" {
				accounts(files["accounts.coin"])
			}
			re := map[string]string{"one": `^transactions\.coin$`, "years": `^(\d{4})\.coin$`, "months": `^(\d{4})-(\d\d)\.coin$`}[m.name]
			all := ""
			for _, n := range sortedKeys(files) {
				if strings.Contains(strings.ToLower(files[n]), "stale") {
					t.Fail("stale", "%s holds what was in the file before\n%s", n, m.res)
				}
			}
			for _, n := range sortedKeys(files) {
				if n == "accounts.coin" || n == "commodities.coin" {
					continue
				}
				mm := regexp.MustCompile(re).FindStringSubmatch(n)
				if mm == nil {
					t.Fail("file", "unexpected file %s\n%s", n, m.res)
				}
				for _, x := range read(files[n], m.res) {
					if !strings.HasPrefix(x.D.String(), strings.Join(mm[1:], "/")) {
						t.Fail("period", "%s holds %s\n%s", n, x, m.res)
					}
				}
				all += files[n] + "\n"
			}
			m.ts = read(all, m.res)
		}
	}
	modes[0].ts = read(modes[0].res.Out, modes[0].res)
	modes[1].ts = t.genJson(modes[1].res)
	for _, m := range modes {
		m.res.Out = clip(m.res.Out)
		t.judgeGen(l, m.ts, b, e, wb, m.res)
		t.Count("transactions", len(m.ts))
		if comparable {
			t.sameBag("modes", txnKeys(modes[0].ts), txnKeys(m.ts), m.res)
		}
	}
	if comparable {
		t.Count("compared", 1)
	} else {
		t.Count("not_comparable", 1)
	}
	if len(modes[0].ts) > 0 {
		t.Nontrivial(modes[0].res.Out)
		t.Sample(map[string]any{"args": args, "output": clip(modes[0].res.Out)})
	}
	// coin loads them
	m := modes[2+r.IntN(3)]
	db := t.Path(m.name)
	st := t.Exec(db, "coin", "stats")
	if st.Code != 0 || st.Err != "" {
		t.Fail("does-not-load", "coin does not load the output cleanly\n%s", st)
	}
	if !strings.Contains(st.Out, fmt.Sprintf("Transactions: %d\n", len(m.ts))) {
		t.Fail("stats", "coin reads another number of transactions than %d\n%s", len(m.ts), st)
	}
	for i, x := range m.ts {
		x.Seq = i
		for k, p := range x.Posts {
			p.T, p.I = x, k
		}
	}
	l.Txns = m.ts
	want, err := l.expectBalance("Root", func(*Post) bool { return true }, true, 0)
	if err != nil {
		t.Inconclusive("%v", err)
	}
	t.checkBalance(l, t.MustOK(db, "coin", "balance", "-z"), want, "totals")
}

// genJson reads gen2coin's JSON.
func (t *T) genJson(res Res) (out []*Txn) {
	var doc []struct {
		Posted, Description string
		Postings            []struct {
			Account, Quantity string
			Balance           *string
		}
	}
	if err := json.Unmarshal([]byte(res.Out), &doc); err != nil {
		t.Fail("json", "not JSON: %v\n%s", err, res)
	}
	amount := func(s string) *big.Int {
		n, c, _ := strings.Cut(s, " ")
		v, ok := parseDec(n, 2)
		if !ok || c != "CAD" {
			t.Fail("json", "amount %q\n%s", s, res)
		}
		return v
	}
	for _, d := range doc {
		tm, err := time.Parse("2006/01/02", d.Posted)
		if err != nil {
			t.Fail("json", "date %q\n%s", d.Posted, res)
		}
		x := &Txn{D: Day(tm.Unix() / 86400), Desc: d.Description}
		for i, p := range d.Postings {
			q := &Post{T: x, I: i, Acc: p.Account, Q: amount(p.Quantity), C: "CAD"}
			if p.Balance != nil {
				q.Assert, q.AssertC = amount(*p.Balance), "CAD"
			}
			x.Posts = append(x.Posts, q)
		}
		out = append(out, x)
	}
	return
}

// rmTree removes a directory of the case.
func (t *T) rmTree(d string) { os.RemoveAll(t.Path(d)) }

func sortedKeys[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}
