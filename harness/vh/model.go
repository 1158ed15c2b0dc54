package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

// The reference model: a ledger as plain data, and what coin should make of it. It shares no code with coin.

// Day is a calendar day (days since 1970/01/01).
type Day int

func mkDay(y, m, d int) Day {
	return Day(time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC).Unix() / 86400)
}
func (d Day) ymd() (int, int, int) {
	t := time.Unix(int64(d)*86400, 0).UTC()
	return t.Year(), int(t.Month()), t.Day()
}
func (d Day) String() string { y, m, dd := d.ymd(); return fmt.Sprintf("%04d/%02d/%02d", y, m, dd) }

type Com struct {
	Id, Name, Symbol string
	Dec              int
	NoMarket         bool
	File             string
	Line             int
}

type Acc struct {
	Full, Com, Desc string
	Closed          *Day
	Implied         bool // not declared, exists as the parent of another
	OfxId, CsvId    string
	BankId          string
	File            string
	Line            int
}

type Price struct {
	D        Day
	Com, Cur string
	V        *big.Int // in units of Cur's precision
	File     string
	Line     int
}

type Post struct {
	Acc     string // full name
	Expr    string // what is written instead of Acc, if not empty
	Q       *big.Int
	C       string // commodity of Q
	Elided  bool   // amount left out
	Assert  *big.Int
	AssertC string
	Notes   []string
	// computed
	Bal *big.Int // account balance after this posting
	T   *Txn
	I   int
}

type Txn struct {
	D          Day
	Code, Desc string
	Notes      []string
	Posts      []*Post
	Home       int // file number
	File       string
	Line       int
	Seq        int // load order
}

type Ledger struct {
	Coms    map[string]*Com
	ComIds  []string
	Default string
	Accs    map[string]*Acc
	Names   []string // declared accounts in declaration order
	Prices  []*Price
	Txns    []*Txn // in generation order
	Tests   []string
}

func (t *Txn) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s (%s) %q %q [%s:%d]\n", t.D, t.Code, t.Desc, t.Notes, t.File, t.Line)
	for _, p := range t.Posts {
		fmt.Fprintf(&b, "  %s %v %s elided=%v assert=%v notes=%q\n", p.Acc, p.Q, p.C, p.Elided, p.Assert, p.Notes)
	}
	return b.String()
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// dec renders v units at n decimals.
func dec(v *big.Int, n int) string {
	s := new(big.Int).Abs(v).String()
	for len(s) <= n {
		s = "0" + s
	}
	if n > 0 {
		s = s[:len(s)-n] + "." + s[len(s)-n:]
	}
	if v.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func (l *Ledger) amt(v *big.Int, c string) string { return dec(v, l.Coms[c].Dec) }

// parseDec reads a printed decimal at exactly n decimals.
func parseDec(s string, n int) (*big.Int, bool) {
	t := s
	neg := strings.HasPrefix(t, "-")
	if neg {
		t = t[1:]
	}
	i := strings.IndexByte(t, '.')
	frac := ""
	if i >= 0 {
		frac = t[i+1:]
		t = t[:i]
	}
	if len(t) == 0 || len(frac) != n || (i >= 0 && n == 0) {
		return nil, false
	}
	for _, c := range t + frac {
		if c < '0' || c > '9' {
			return nil, false
		}
	}
	v, ok := new(big.Int).SetString(t+frac, 10)
	if !ok {
		return nil, false
	}
	if neg {
		v.Neg(v)
	}
	return v, true
}

func parentOf(full string) string {
	if i := strings.LastIndexByte(full, ':'); i >= 0 {
		return full[:i]
	}
	return ""
}
func baseName(full string) string {
	if i := strings.LastIndexByte(full, ':'); i >= 0 {
		return full[i+1:]
	}
	return full
}

// allAccs returns every account coin should know, including Root, Unbalanced and missing parents, sorted by name.
func (l *Ledger) allAccs() []string {
	set := map[string]bool{"Root": true, "Unbalanced": true}
	for n := range l.Accs {
		for ; n != ""; n = parentOf(n) {
			set[n] = true
		}
	}
	var out []string
	for n := range set {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// com returns the commodity of an account (implied accounts have the default one).
func (l *Ledger) com(acc string) string {
	if a := l.Accs[acc]; a != nil && a.Com != "" {
		return a.Com
	}
	return l.Default
}

func (l *Ledger) children(acc string) []string {
	var out []string
	for _, n := range l.allAccs() {
		if n == "Root" || n == acc {
			continue
		}
		p := parentOf(n)
		if p == "" {
			p = "Root"
		}
		if p == acc {
			out = append(out, n)
		}
	}
	sort.Slice(out, func(i, j int) bool { return baseName(out[i]) < baseName(out[j]) })
	return out
}

// subtree lists acc and its descendants, parent first, children by name.
func (l *Ledger) subtree(acc string) []string {
	kids := map[string][]string{}
	for _, n := range l.allAccs() {
		if n == "Root" {
			continue
		}
		p := parentOf(n)
		if p == "" {
			p = "Root"
		}
		kids[p] = append(kids[p], n)
	}
	for _, k := range kids {
		sort.Slice(k, func(i, j int) bool { return baseName(k[i]) < baseName(k[j]) })
	}
	var out []string
	var walk func(a string)
	walk = func(a string) {
		out = append(out, a)
		for _, k := range kids[a] {
			walk(k)
		}
	}
	walk(acc)
	return out
}

func (l *Ledger) depth(acc string) int {
	if acc == "Root" {
		return 1
	}
	return strings.Count(acc, ":") + 1
}

func (l *Ledger) closed(acc string) bool {
	for n := acc; n != ""; n = parentOf(n) {
		if a := l.Accs[n]; a != nil && a.Closed != nil {
			return true
		}
	}
	if a := l.Accs["Root"]; a != nil && a.Closed != nil {
		return true
	}
	return false
}

// loaded returns the transactions in load order (file order, then position).
func (l *Ledger) loaded() []*Txn {
	ts := append([]*Txn(nil), l.Txns...)
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].Seq < ts[j].Seq })
	return ts
}

// postings of one account in coin's order: by date, then in load order.
func (l *Ledger) postings(acc string) []*Post {
	var ps []*Post
	for _, t := range l.loaded() {
		for _, p := range t.Posts {
			if p.Acc == acc {
				ps = append(ps, p)
			}
		}
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].T.D < ps[j].T.D })
	return ps
}

func (t *Txn) asserted() bool {
	for _, p := range t.Posts {
		if p.Assert != nil {
			return true
		}
	}
	return false
}

// sorted returns the transactions in coin's report order.
func (l *Ledger) sorted() []*Txn {
	ts := l.loaded()
	sort.SliceStable(ts, func(i, j int) bool {
		a, b := ts[i], ts[j]
		return a.D < b.D
	})
	return ts
}

func (p *Post) other() *Post {
	for _, q := range p.T.Posts {
		if q != p {
			return q
		}
	}
	return nil
}

// latest returns the latest price of com in cur, nil if none.
func (l *Ledger) latest(com, cur string) *Price {
	var best *Price
	for _, p := range l.Prices {
		if p.Com == com && p.Cur == cur && (best == nil || p.D > best.D) {
			best = p
		}
	}
	return best
}

func quo(a, b *big.Int) *big.Int { return new(big.Int).Quo(a, b) }

// step converts v units of com using price p, exactly, truncated toward zero at the precision of the price's currency.
func (l *Ledger) step(v *big.Int, p *Price) *big.Int {
	r := new(big.Int).Mul(v, p.V)
	return quo(r, pow10(l.Coms[p.Com].Dec))
}

// convert v units of from to units of to. All simple chains are explored; ok is false if there is none. unique is false
// if different chains give different results (and there is no direct price).
func (l *Ledger) convert(v *big.Int, from, to string) (res *big.Int, ok, unique bool) {
	if from == to {
		return v, true, true
	}
	if p := l.latest(from, to); p != nil {
		return l.step(v, p), true, true
	}
	unique = true
	var walk func(v *big.Int, c string, seen map[string]bool)
	walk = func(v *big.Int, c string, seen map[string]bool) {
		if c == to {
			if ok && res.Cmp(v) != 0 {
				unique = false
			}
			res, ok = v, true
			return
		}
		seen[c] = true
		for _, d := range l.ComIds {
			if !seen[d] {
				if p := l.latest(c, d); p != nil {
					walk(l.step(v, p), d, seen)
				}
			}
		}
		delete(seen, c)
	}
	walk(v, from, map[string]bool{})
	return res, ok, unique
}

type convErr struct{ from, to string }

// addIn returns a (in commodity c) plus v units of vc; panics with convErr if there is no conversion.
func (l *Ledger) addIn(a *big.Int, c string, v *big.Int, vc string) *big.Int {
	if c != vc {
		w, ok, uniq := l.convert(v, vc, c)
		if !ok || !uniq {
			panic(convErr{vc, c})
		}
		v = w
	}
	return new(big.Int).Add(a, v)
}

// elide fills in the quantities of elided postings; the generator keeps transactions valid.
func (l *Ledger) elide() {
	for _, t := range l.Txns {
		for i, p := range t.Posts {
			p.T, p.I = t, i
		}
		for _, p := range t.Posts {
			if !p.Elided {
				continue
			}
			c := l.com(p.Acc)
			sum := new(big.Int)
			for _, q := range t.Posts {
				if q != p {
					sum = l.addIn(sum, c, q.Q, q.C)
				}
			}
			p.Q, p.C = sum.Neg(sum), c
		}
	}
}

// balances computes the running balance after every posting.
func (l *Ledger) balances() {
	for _, a := range l.allAccs() {
		c := l.com(a)
		bal := new(big.Int)
		for _, p := range l.postings(a) {
			bal = l.addIn(bal, c, p.Q, p.C)
			p.Bal = bal
		}
	}
}
