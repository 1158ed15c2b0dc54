package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func init() {
	register(&Check{ID: "C29", Quick: 1500, Thor: 40000, Case: c29,
		Rule: "random ledgers (account trees with closed and implied accounts, other root accounts, several commodities with one price or a price history each, postings on the boundaries of periods) are written by coin2html; the viewer's code is opened on that page in a small DOM in one of several time zones and acted on at random: accounts, views, dates, aggregation, sub-accounts, exclusions, clicks on cells and bars. After every action what is displayed is compared with what the displayed controls ask for, computed from the model; an evaluation is one page, distinct by the page and actions, non-trivial if at least three displays with amounts were compared"})
}

type jsSel struct {
	Options  []string
	Selected string
}
type jsTable struct {
	Head []string
	Rows [][]string
}
type jsChart struct {
	Layers [][]string
	Legend []string
	Titles []string
	Bars   [][][]float64
	Nodes  []struct {
		Title string
		Texts []string
		Width *float64
	}
}
type jsState struct {
	Heading          []string
	Commodity        string
	Roots, Views     *jsSel
	List             []string
	Start, End       string
	Closed           bool
	Sub              *bool
	Aggregate, Style *jsSel
	Max, Depth       *string
	Notes, Location  *bool
	Excluded         []string
	Table, Details   *jsTable
	Tables           int
	Chart            *jsChart
}
type jsStep struct {
	Action       string
	Target       *string
	Error        *string
	Inconclusive *string
	State        *jsState
}
type jsAction struct {
	Op string `json:"op"`
	N  int    `json:"n"`
	V  string `json:"v"`
}

// approx is an amount known up to the rounding of conversions.
type approx struct{ v, e int64 }

func (a approx) plus(b approx) approx { return approx{a.v + b.v, a.e + b.e} }
func (a approx) is(v int64) bool      { return v >= a.v-a.e && v <= a.v+a.e }

type viewer struct {
	t     *T
	l     *Ledger
	rb    *rateBook
	convs int
	pos   map[string][]*Post
	kids  map[string][]string
	acc   string
	root  string   // of the account list
	list  []string // accounts listed
	st    *jsState
	from  Day
	to    Day
	excl  []string
	cols  []string // accounts of the columns displayed, "" unknown
	grps  [][][]*Post
	what  string
	seen  int
	dets  int
}

func c29(t *T) {
	if msg, err := os.ReadFile(filepath.Join(t.bins, "viewer.err")); err == nil {
		if strings.Contains(string(msg), "harness/js/d3.js") || strings.Contains(string(msg), "Could not resolve") {
			t.Count("viewer uses unknown library functions", 1)
			t.empty()
			return
		}
		t.Fail("bundle", "the viewer's code is broken: %s", msg)
	}
	l := t.genViewer()
	db := t.writeDB(l, "db", Style{})
	page := t.MustOK(db, "coin2html").Out
	acts := t.viewerActions(l)
	js, _ := json.Marshal(acts)
	pf, af := t.Write("page.html", page), t.Write("actions.json", string(js))
	tz := pick(t.R, []string{"UTC", "America/Toronto", "Asia/Tokyo", "Pacific/Auckland", "Europe/Prague", "America/Sao_Paulo", "Pacific/Apia", "Asia/Kolkata"})
	node, err := exec.LookPath("node")
	if err != nil {
		t.Inconclusive("no node: %v", err)
	}
	res := t.ExecIn("", "", []string{"TZ=" + tz}, node, filepath.Join(verifDir(), "harness/js/run.js"), filepath.Join(t.bins, "viewer.js"), pf,
		filepath.Join(t.repo, "cmd/coin2html/js/body.html"), af)
	t.log.Reset()
	fmt.Fprintf(&t.log, "TZ=%s coin2html > page.html; node run.js viewer.js page.html body.html actions.json\n", tz)
	v := &viewer{t: t, l: l, rb: newRates(l), pos: map[string][]*Post{}, kids: map[string][]string{}}
	for _, a := range l.allAccs() {
		v.pos[a] = l.postings(a)
		if a != "Root" {
			v.kids[parentOf(a)] = append(v.kids[parentOf(a)], a)
		}
	}
	steps := 0
	for _, line := range strings.Split(strings.TrimSpace(res.Out), "\n") {
		var s jsStep
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			t.Inconclusive("cannot read what the viewer shows: %v\n%s", err, res)
		}
		b, _ := json.Marshal(s)
		t.Logf("%s", b)
		if s.Inconclusive != nil {
			t.Count("unknown browser features", 1)
			t.empty()
			t.Logf("%s", *s.Inconclusive)
			break
		}
		if s.Error != nil {
			t.Fail("js-error", "action %d (%s %s): the viewer failed: %s", steps, s.Action, deref(s.Target), *s.Error)
		}
		v.what = fmt.Sprintf("after action %d (%s %s)", steps, s.Action, deref(s.Target))
		var a jsAction
		if steps > 0 {
			a = acts[steps-1]
		}
		v.step(a, &s)
		steps++
	}
	t.Count("actions", steps)
	t.Count("displays compared", v.seen)
	t.Count("details compared", v.dets)
	t.Count("TZ "+tz, 1)
	if v.seen >= 3 {
		t.Nontrivial(page + string(js))
	}
	t.Sample(map[string]any{"timezone": tz, "transactions": len(l.Txns), "accounts": len(l.Accs), "actions": acts})
}

func (t *T) empty() {
	t.mu.Lock()
	t.mayBeEmpty = true
	t.mu.Unlock()
}

func deref(s *string) string {
	if s == nil {
		return "-"
	}
	return *s
}

func (t *T) genViewer() *Ledger {
	r := t.R
	o := defOpt(t)
	o.Prices, o.Foreign, o.Big, o.Odd = false, 0, 0, true
	o.PerTree, o.Uniform = t.N(2) == 0, t.N(8) == 0
	o.Coms = 1 + t.N(6)
	o.Accounts = 3 + t.N(18)
	o.Days = pick(r, []int{20, 100, 400, 1000, 3000})
	o.Txns = pick(r, []int{0, 1, 5, 20, 40, 60, 90, 200})
	if t.N(4) > 0 && o.Txns < 20 {
		o.Txns = 30
	}
	l := t.genBase(&o)
	// accounts in the default commodity may have any sub-accounts, others only those in the same one, as coin asks of totals
	ren := func(from, to string) {
		for i, n := range l.Names {
			if n == from || strings.HasPrefix(n, from+":") {
				a := l.Accs[n]
				delete(l.Accs, n)
				a.Full = to + n[len(from):]
				l.Accs[a.Full] = a
				l.Names[i] = a.Full
			}
		}
	}
	if t.N(5) == 0 {
		ren(pick(r, topNames), pick(r, []string{"Wealth", "A", "constructor", "Vermögen"[:1] + "ermoegen", "Root2"}))
	}
	if t.N(10) == 0 {
		n := pick(r, l.Names)
		if parentOf(n) != "" && l.Accs[parentOf(n)+":Root"] == nil {
			ren(n, parentOf(n)+":Root")
		}
	}
	if t.N(4) == 0 { // long names get shortened
		n := pick(r, l.Names)
		if parentOf(n) != "" {
			ren(n, parentOf(n)+":"+strings.Repeat("Long", 2+t.N(12)))
		}
	}
	sort.Strings(l.Names)
	start := mkDay(2015, 1, 1) + Day(r.IntN(1500))
	mixed := t.N(4) == 0 // accounts may have any sub-accounts
	fine := t.N(6) == 0  // as finely divided as crypto-currencies
	if fine {
		mixed = false
		l.Coms[pick(r, l.ComIds)].Dec = 15 + r.IntN(4)
	}
	depth := map[string]int{l.Default: 0}
	done := []string{l.Default}
	history := func(c, cur string) {
		// one price or a history of them, which may begin after the first transaction and end before the last
		d, p := mkDay(2015, 1, 1)+Day(r.IntN(2500)), 1+bigRand(r, 1+r.IntN(6)).Int64()
		n := 1
		if t.N(3) > 0 {
			d, n = start-400+Day(r.IntN(500)), 1+r.IntN(pick(r, []int{3, 20, 100}))
		}
		gap, trend := 1+r.IntN(pick(r, []int{2, 10, 60, 200})), pick(r, []int64{-8, 0, 3, 8, 25})
		for ; n > 0; n-- {
			l.Prices = append(l.Prices, &Price{D: d, Com: c, Cur: cur, V: big.NewInt(p)})
			if !mixed && r.IntN(60) == 0 {
				l.Prices[len(l.Prices)-1].V = new(big.Int) // worthless
			}
			d += Day(r.IntN(gap + 1))
			if p += p * (trend + r.Int64N(11) - 5) / 100; p < 2 || p > 1e9 {
				p = 1 + r.Int64N(100000)
			}
		}
	}
	chains := t.N(2) == 0
	for _, c := range l.ComIds {
		if c == l.Default {
			continue
		}
		cur := l.Default
		if chains {
			cur = pick(r, done)
		}
		before := len(l.Prices)
		history(c, cur)
		depth[c] = depth[cur] + 1
		if other := pick(r, done); t.N(3) == 0 && (depth[other] == depth[cur]+1 || depth[other] == depth[cur]-1) { // the shortest way counts
			history(c, other)
			depth[c] = min(depth[c], depth[other]+1)
		}
		done = append(done, c)
		if newRates(l).highest(done) > 1e10 { // more than the viewer's numbers can hold exactly
			l.Prices = l.Prices[:before]
			mixed, chains, depth[c] = false, false, 1
			for {
				history(c, l.Default)
				if newRates(l).highest([]string{c}) <= 1e10 {
					break
				}
				l.Prices = l.Prices[:before]
			}
		}
	}
	r.Shuffle(len(l.Prices), func(i, j int) { l.Prices[i], l.Prices[j] = l.Prices[j], l.Prices[i] })
	if mixed {
		rb := newRates(l)
		mixed = rb.highest(nil) <= 1e10 && rb.unique()
	}
	for _, n := range l.allAccs() { // sorted: parents first
		if mixed {
			t.Count("mixed_trees", 1)
			break
		}
		for p := parentOf(n); p != ""; p = parentOf(p) {
			if c := l.com(p); c != l.Default && l.com(n) != c {
				if l.Accs[n] != nil {
					l.Accs[n].Com = c
				} else {
					l.Accs[p].Com = l.Default
				}
			}
		}
	}
	for _, n := range l.allAccs() { // implied accounts have the default commodity, so must what is above them
		if !mixed && l.com(n) == l.Default {
			for p := parentOf(n); p != ""; p = parentOf(p) {
				if l.Accs[p] != nil {
					l.Accs[p].Com = l.Default
				}
			}
		}
	}
	if most := newRates(l).most(mixed); (fine || t.N(6) == 0) && most <= 1 { // no total is more than 63 bits
		o.Big = pick(r, []float64{.05, .3})
		t.Count("amounts over 53 bits", 1)
	}
	prev := start
	few := l.Names
	switch t.N(4) {
	case 0:
		few = nil
		for i := 0; i < 4; i++ {
			few = append(few, pick(r, l.Names))
		}
	case 1, 2: // mostly in one tree
		top, _, _ := strings.Cut(pick(r, l.Names), ":")
		for _, n := range l.Names {
			if n == top || strings.HasPrefix(n, top+":") {
				few = append(few, n, n, n)
			}
		}
	}
	for i := 0; i < o.Txns; i++ {
		d := start + Day(r.IntN(o.Days+1))
		switch r.IntN(8) {
		case 0, 1:
			d = prev
		case 2: // the ends of months, quarters and years
			y, m, _ := d.ymd()
			d = mkDay(y, m, 1) - Day(r.IntN(2))
		case 3:
			y, _, _ := d.ymd()
			d = mkDay(y, 1+r.IntN(4)*3, 1) - Day(r.IntN(2))
		case 4:
			d -= (d+4)%7 + Day(r.IntN(2))
		}
		prev = d
		names := l.Names
		l.Names = few
		tx := t.genTxn(l, &o, d)
		l.Names = names
		if r.IntN(6) == 0 {
			for _, p := range tx.Posts { // equal amounts
				if !p.Elided && p.Q.Sign() != 0 && len(tx.Posts) == 2 {
					p.Q.SetInt64(int64(500 * p.Q.Sign()))
				}
			}
			if len(tx.Posts) == 2 && tx.Posts[0].C == tx.Posts[1].C {
				k := 0
				if tx.Posts[0].Elided {
					k = 1
				}
				tx.Posts[1-k].Q = new(big.Int).Neg(tx.Posts[k].Q)
			}
		}
		tx.Home = r.IntN(maxi(1, o.Files))
		l.Txns = append(l.Txns, tx)
	}
	l.order()
	l.balances()
	return l
}

func (t *T) viewerActions(l *Ledger) []jsAction {
	r := t.R
	var days []Day
	for _, tx := range l.Txns {
		days = append(days, tx.D)
	}
	days = append(days, mkDay(2016, 1, 1), mkDay(2017, 12, 31))
	day := func() string {
		d := pick(r, days) + Day(r.IntN(3)-1)
		switch r.IntN(6) {
		case 0:
			y, _, _ := d.ymd()
			d = mkDay(y+r.IntN(3)-1, 1, 1)
		case 1:
			y, _, _ := d.ymd()
			d = mkDay(y+r.IntN(3)-1, 12, 31)
		case 2:
			d += Day(r.IntN(200) - 100)
		}
		for l.closedOn(d) { // whether an account counts as closed on that very day is left open
			d++
		}
		y, m, dd := d.ymd()
		return fmt.Sprintf("%04d-%02d-%02d", y, m, dd)
	}
	ops := strings.Fields("root view view view view li li li dbl head start end end closed sub sub aggregate aggregate aggregate aggregate style style max max depth notes location exclude exclude include cell cell cell cell cell bar bar node hide")
	as := []jsAction{{Op: "root", N: r.IntN(6)}, {Op: "view", N: pick(r, []int{0, 1, 1, 1, 2, 3, 3})}, {Op: "sub"}}
	if r.IntN(2) == 0 { // sub-accounts by period, some excluded, details
		as[1].N = pick(r, []int{1, 3})
		as = append(as, jsAction{Op: "aggregate", N: 1 + r.IntN(4)}, jsAction{Op: "max", V: fmt.Sprint(1 + r.IntN(6))})
		for _, op := range strings.Fields(pick(r, []string{"exclude", "exclude exclude include", "exclude exclude exclude include include", "exclude bar include cell", "style cell cell bar", "exclude li cell bar", "exclude exclude dbl exclude include cell", "cell exclude cell bar"})) {
			as = append(as, jsAction{Op: op, N: r.IntN(100000)})
		}
	}
	if r.IntN(4) == 0 { // down and up the boxes of the balances
		as = append(as, jsAction{Op: "view", N: 2}, jsAction{Op: "depth", V: fmt.Sprint(2 + r.IntN(4))})
		for n := 1 + r.IntN(4); n > 0; n-- {
			as = append(as, jsAction{Op: "node", N: r.IntN(100000), V: pick(r, []string{"", "text"})})
			if r.IntN(3) == 0 {
				as = append(as, jsAction{Op: "root", N: r.IntN(6)})
			}
		}
	}
	for n := 6 + r.IntN(16); n > 0; n-- {
		a := jsAction{Op: pick(r, ops), N: r.IntN(100000)}
		switch a.Op {
		case "start", "end":
			a.V = day()
		case "view":
			a.N = pick(r, []int{0, 1, 1, 1, 2, 3, 3})
		case "aggregate":
			a.N = pick(r, []int{0, 1, 2, 3, 3, 4, 4})
		case "max":
			a.V = fmt.Sprint(1 + r.IntN(1+r.IntN(6)))
		case "depth":
			a.V = fmt.Sprint(r.IntN(5))
		case "node":
			a.V = pick(r, []string{"", "text"})
		}
		as = append(as, a)
		if a.Op == "exclude" && r.IntN(2) == 0 {
			as = append(as, jsAction{Op: "exclude", N: r.IntN(1000)}, jsAction{Op: "exclude", N: r.IntN(1000)}, jsAction{Op: "include", N: r.IntN(1000)})
		}
	}
	return as
}

func (l *Ledger) closedOn(d Day) bool {
	for _, a := range l.Accs {
		if a.Closed != nil && *a.Closed == d {
			return true
		}
	}
	return false
}

func (v *viewer) fail(sig, format string, args ...any) {
	v.t.Fail(sig, "%s, %s: %s", v.what, v.where(), fmt.Sprintf(format, args...))
}

func (v *viewer) where() string {
	s := v.st
	d := fmt.Sprintf("account %s, view %s, %s to %s", strings.Join(s.Heading, ":"), s.Views.Selected, s.Start, s.End)
	if s.Closed {
		d += ", closed accounts"
	}
	if s.Sub != nil && *s.Sub {
		d += ", sub-accounts"
	}
	if s.Aggregate != nil {
		d += ", aggregate " + s.Aggregate.Selected
	}
	if s.Style != nil {
		d += " " + s.Style.Selected
	}
	if s.Max != nil {
		d += ", max " + *s.Max
	}
	if s.Depth != nil {
		d += ", depth " + *s.Depth
	}
	if len(s.Excluded) > 0 {
		d += fmt.Sprintf(", excluded %q", s.Excluded)
	}
	return d
}

func jsDay(s string) (Day, bool) {
	d, err := time.Parse("2006-01-02", s)
	return Day(d.Unix() / 86400), err == nil
}

// open tells if the account is shown by itself, as its closing date goes.
func (v *viewer) open(acc string, closedToo bool) bool {
	a := v.l.Accs[acc]
	return closedToo || a == nil || a.Closed == nil || *a.Closed > v.to
}

// below lists the sub-accounts shown, depth first, without the excluded ones and what is below them.
func (v *viewer) below(acc string, excl []string) (out []string) {
	for _, k := range v.kids[acc] {
		if v.open(k, v.st.Closed) && !containsStr(excl, k) {
			out = append(append(out, k), v.below(k, excl)...)
		}
	}
	return out
}

// unsure tells if the selected account itself is closed and closed accounts are not to be shown: then it is not said what is below it.
func (v *viewer) unsure() bool {
	for a := v.acc; a != ""; a = parentOf(a) {
		if !v.open(a, v.st.Closed) {
			return true
		}
	}
	return false
}

func rel(acc, sub string) string { return strings.TrimPrefix(sub, acc) }

// short tells if label stands for the relative account name: each part may be cut short.
func short(label, name string) bool {
	a, b := strings.Split(label, ":"), strings.Split(name, ":")
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !strings.HasPrefix(b[i], a[i]) || a[i] == "" && b[i] != "" {
			return false
		}
	}
	return true
}

func (v *viewer) day(s string) Day {
	d, ok := jsDay(s)
	if !ok {
		v.fail("display", "%q is no date", s)
	}
	return d
}

// rateBook knows the prices of a ledger.
type rateBook struct {
	l      *Ledger
	prices map[[2]string][]*Price // by commodity and currency, by date
}

func newRates(l *Ledger) *rateBook {
	b := &rateBook{l, map[[2]string][]*Price{}}
	for _, p := range l.Prices {
		k := [2]string{p.Com, p.Cur}
		b.prices[k] = append(b.prices[k], p)
	}
	for _, ps := range b.prices {
		sort.SliceStable(ps, func(i, j int) bool { return ps[i].D < ps[j].D })
	}
	return b
}

// path is the shortest chain of commodities, each of which has a price in the next or the other way round.
func (b *rateBook) path(from, to string) []string {
	type node struct {
		com  string
		path []string
	}
	q := []node{{from, []string{from}}}
	seen := map[string]bool{from: true}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if n.com == to {
			return n.path
		}
		for _, c := range b.l.ComIds {
			if !seen[c] && (b.prices[[2]string{n.com, c}] != nil || b.prices[[2]string{c, n.com}] != nil) {
				seen[c] = true
				q = append(q, node{c, append(append([]string{}, n.path...), c)})
			}
		}
	}
	return nil
}

// unique tells if there is one shortest chain between any two commodities.
func (b *rateBook) unique() bool {
	for _, from := range b.l.ComIds {
		ways, dist, q := map[string]int{from: 1}, map[string]int{from: 0}, []string{from}
		for len(q) > 0 {
			n := q[0]
			q = q[1:]
			for _, c := range b.l.ComIds {
				if b.prices[[2]string{n, c}] == nil && b.prices[[2]string{c, n}] == nil {
					continue
				}
				if _, ok := dist[c]; !ok {
					dist[c] = dist[n] + 1
					q = append(q, c)
				}
				if dist[c] == dist[n]+1 {
					ways[c] += ways[n]
				}
			}
		}
		for _, w := range ways {
			if w > 1 {
				return false
			}
		}
	}
	return true
}

// direct are the lowest and highest direct rate that may count for a day from d1 to d2, in units of to: those of at most
// 11 days before or after (the viewer keeps one a week), or the next one.
func (b *rateBook) direct(from, to string, d1, d2 Day) (lo, hi *big.Int) {
	ps := b.prices[[2]string{from, to}]
	reverse := ps == nil
	if reverse {
		ps = b.prices[[2]string{to, from}]
	}
	clamp := func(d Day) Day {
		if d < ps[0].D {
			return ps[0].D
		}
		if last := ps[len(ps)-1].D; d > last {
			return last
		}
		return d
	}
	d1, d2 = clamp(d1)-11, clamp(d2)+11
	for i, p := range ps {
		if p.D < d1 {
			continue
		}
		if lo == nil || p.V.Cmp(lo) < 0 {
			lo = p.V
		}
		if hi == nil || p.V.Cmp(hi) > 0 {
			hi = p.V
		}
		if p.D > d2 && (i+1 == len(ps) || ps[i+1].D > p.D) {
			break
		}
	}
	if reverse {
		one := new(big.Int).Mul(pow10(b.l.Coms[from].Dec), pow10(b.l.Coms[to].Dec))
		lo, hi = new(big.Int).Div(one, hi), ceilDiv(one, lo)
	}
	return
}

func ceilDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	if m.Sign() > 0 {
		q.Add(q, big.NewInt(1))
	}
	return q
}

// rates are the lowest and highest rate, along the shortest chain of prices; each product may be rounded to the unit.
func (b *rateBook) rates(from, to string, d1, d2 Day) (lo, hi *big.Int) {
	p := b.path(from, to)
	for i := len(p) - 2; i >= 0; i-- {
		l, h := b.direct(p[i], p[i+1], d1, d2)
		if lo == nil {
			lo, hi = l, h
			continue
		}
		d := pow10(b.l.Coms[p[i+1]].Dec)
		lo, hi = new(big.Int).Div(new(big.Int).Mul(l, lo), d), ceilDiv(new(big.Int).Mul(h, hi), d)
	}
	return
}

// highest is the highest rate of these commodities in the default one, or of any in any other.
func (b *rateBook) highest(coms []string) float64 {
	to := []string{b.l.Default}
	if coms == nil {
		coms, to = b.l.ComIds, b.l.ComIds
	}
	x := 0.
	for _, c := range coms {
		for _, d := range to {
			if c != d {
				_, hi := b.rates(c, d, -1e6, 1e6)
				f, _ := new(big.Float).SetInt(hi).Float64()
				x = max(x, f)
			}
		}
	}
	return x
}

// most is how many units at most one unit becomes, converted to the default commodity or to any.
func (b *rateBook) most(any bool) float64 {
	x := 0.
	for _, c := range b.l.ComIds {
		for _, d := range b.l.ComIds {
			if c == d || d != b.l.Default && !any {
				continue
			}
			_, hi := b.rates(c, d, -1e6, 1e6)
			f, _ := new(big.Float).SetInt(hi).Float64()
			x = max(x, f/math.Pow10(b.l.Coms[c].Dec))
		}
	}
	return x
}

// conv converts an amount as of a day from d1 to d2.
func (v *viewer) conv(a approx, from, to string, d1, d2 Day) approx {
	if from == to || a.v == 0 && a.e == 0 {
		return a
	}
	r1, r2 := v.rb.rates(from, to, d1, d2)
	d := pow10(v.l.Coms[from].Dec)
	d2x := new(big.Int).Mul(d, big.NewInt(2))
	lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
	for _, x := range []int64{a.v - a.e, a.v + a.e} {
		for _, r := range []*big.Int{r1, r2} {
			// half up
			n := new(big.Int).Mul(big.NewInt(2*x), r)
			q, _ := n.Add(n, d).DivMod(n, d2x, new(big.Int))
			lo, hi = min(lo, q.Int64()), max(hi, q.Int64())
		}
	}
	v.convs++
	if v.rb.prices[[2]string{from, to}] == nil {
		v.t.Count("indirect_conversions", 1)
	}
	return approx{lo + (hi-lo)/2, (hi-lo+1)/2 + 1}
}

// amount reads a displayed amount, in units.
func (v *viewer) amount(s string) (int64, string) {
	num, com, ok := strings.Cut(s, " ")
	c := v.l.Coms[com]
	if !ok || c == nil {
		v.fail("amount", "%q is no amount", s)
	}
	ip, fp, _ := strings.Cut(strings.TrimPrefix(num, "-"), ".")
	if parts := strings.Split(ip, ","); len(parts) > 1 {
		for i, p := range parts {
			if len(p) != 3 && !(i == 0 && len(p) > 0 && len(p) < 3) {
				v.fail("amount", "%q is no amount", s)
			}
		}
		num = strings.ReplaceAll(num, ",", "")
	}
	_ = fp
	q, ok := parseDec(num, c.Dec)
	if !ok || strings.HasPrefix(num, "-") && q.Sign() == 0 {
		v.fail("amount", "%q is no amount of %d decimals", s, c.Dec)
	}
	return q.Int64(), com
}

func (v *viewer) expectAmount(sig, what, got string, want approx, com string) {
	q, c := v.amount(got)
	if c != com || !want.is(q) {
		d := v.l.amt(big.NewInt(want.v), com) + " " + com
		if want.e > 0 {
			d += fmt.Sprintf(" up to %d units", want.e)
		}
		v.fail(sig, "%s is %s, expected %s", what, got, d)
	}
}

func (v *viewer) step(a jsAction, s *jsStep) {
	st := s.State
	old := v.st
	v.st = st
	var ok1, ok2 bool
	wasFrom, wasTo := v.from, v.to
	v.from, ok1 = jsDay(st.Start)
	v.to, ok2 = jsDay(st.End)
	if !ok1 || !ok2 {
		v.fail("controls", "dates are %q and %q", st.Start, st.End)
	}
	if s.Action != "load" && s.Action != "start" && v.from != wasFrom || s.Action != "load" && s.Action != "end" && v.to != wasTo {
		v.fail("controls", "the dates changed from %s and %s to %s and %s", wasFrom, wasTo, v.from, v.to)
	}
	shown := strings.Join(st.Heading, ":")
	sel := func(acc string) { v.acc, v.excl = acc, nil }
	relist := func() {
		v.root = v.acc
		v.list = v.below(v.acc, nil)
	}
	target := deref(s.Target)
	var roots []string
	for _, n := range v.kids[""] {
		roots = append(roots, n)
	}
	switch {
	case s.Action == "load":
		if !containsStr(roots, shown) {
			v.fail("heading", "the account selected first is %q", shown)
		}
		for _, tx := range v.l.Txns {
			if tx.D < v.from || tx.D > v.to {
				v.fail("dates", "a transaction of %s is not in the range shown first", tx.D)
			}
		}
		sel(shown)
		relist()
	case s.Target == nil:
		if s.Action == "root" {
			v.fail("controls", "no root accounts to choose from")
		}
	case s.Action == "root":
		sel(target)
		relist()
	case s.Action == "li":
		sel(v.list[a.N%len(v.list)])
	case s.Action == "dbl":
		sel(v.list[a.N%len(v.list)])
		relist()
	case s.Action == "head":
		sel(target)
		if strings.HasPrefix(v.root, target+":") {
			relist()
		}
	case s.Action == "closed":
		sel(v.acc)
		relist()
		if fmt.Sprint(st.Closed) != target {
			v.fail("controls", "closed accounts shown: %v", st.Closed)
		}
	case s.Action == "start" || s.Action == "end":
		if got := map[string]string{"start": st.Start, "end": st.End}[s.Action]; got != a.V {
			v.fail("controls", "%s date is %s", s.Action, got)
		}
	case s.Action == "node":
		n, _, _ := strings.Cut(target, " ")
		if n != v.acc {
			v.t.Count("boxes opened", 1)
		}
		sel(n)
	case s.Action == "exclude":
		var added []string
		for _, x := range st.Excluded {
			if !containsStr(v.excl, v.acc+x) {
				added = append(added, x)
			}
		}
		if len(added) != 1 || len(st.Excluded) != len(v.excl)+1 || !short(target, added[0]) {
			v.fail("exclude", "excluded are %q, were %q", st.Excluded, v.excl)
		}
		v.excl = append(v.excl, v.acc+added[0])
	case s.Action == "include":
		var left []string
		for _, x := range v.excl {
			if rel(v.acc, x) != strings.TrimSpace(target) {
				left = append(left, x)
			}
		}
		v.excl = left
	case s.Action == "view" && st.Views.Selected != target:
		v.fail("controls", "view selected is %s", st.Views.Selected)
	case s.Action == "aggregate" && (st.Aggregate == nil || st.Aggregate.Selected != target):
		v.fail("controls", "another aggregation is selected")
	case s.Action == "style" && (st.Style == nil || st.Style.Selected != target):
		v.fail("controls", "another style is selected")
	case s.Action == "max" && deref(st.Max) != a.V, s.Action == "depth" && deref(st.Depth) != a.V:
		v.fail("controls", "max %s depth %s", deref(st.Max), deref(st.Depth))
	case s.Action == "notes" && (st.Notes == nil || fmt.Sprint(*st.Notes) != target), s.Action == "location" && (st.Location == nil || fmt.Sprint(*st.Location) != target):
		v.fail("controls", "notes or locations are not %s", target)
	case s.Action == "sub" && (st.Sub == nil || fmt.Sprint(*st.Sub) != target):
		v.fail("controls", "sub-accounts are not %s", target)
	}
	if shown != v.acc {
		v.fail("heading", "the account shown is %s, expected %s", shown, v.acc)
	}
	if c := strings.Trim(st.Commodity, "()"); c != v.l.com(v.acc) {
		v.fail("heading", "the commodity shown is %s, expected %s", c, v.l.com(v.acc))
	}
	got := append([]string(nil), st.Roots.Options...)
	sort.Strings(got)
	sort.Strings(roots)
	if strings.Join(got, " ") != strings.Join(roots, " ") {
		v.fail("roots", "the root accounts are %q, expected %q", got, roots)
	}
	if top, _, _ := strings.Cut(v.acc, ":"); st.Roots.Selected != top {
		v.fail("roots", "the root account selected is %s, the account shown is %s", st.Roots.Selected, v.acc)
	}
	if old != nil && s.Action != "view" && st.Views.Selected != old.Views.Selected && containsStr(st.Views.Options, old.Views.Selected) {
		v.fail("views", "the view changed from %s to %s", old.Views.Selected, st.Views.Selected)
	}
	lists := func(want []string) bool {
		if len(want) != len(st.List) {
			return false
		}
		for i, n := range want {
			if !short(st.List[i], rel(v.root, n)) || len(rel(v.root, n)) <= 30 && st.List[i] != rel(v.root, n) {
				return false
			}
		}
		return true
	}
	now := v.below(v.root, nil)
	if lists(now) {
		v.list = now
	} else if !lists(v.list) {
		v.fail("list", "accounts listed are %q, expected %q", st.List, now)
	}
	if st.Excluded != nil {
		var want []string
		for _, x := range v.excl {
			want = append(want, rel(v.acc, x))
		}
		if strings.Join(want, " ") != strings.Join(st.Excluded, " ") {
			v.fail("exclude", "excluded are %q, expected %q", st.Excluded, want)
		}
	}
	if !containsStr(st.Views.Options, "Balances") || !containsStr(st.Views.Options, "Register") {
		v.fail("views", "views are %q", st.Views.Options)
	}
	if st.Tables > 1 || st.Table != nil && st.Chart != nil {
		v.fail("display", "%d tables and a chart: %v", st.Tables, st.Chart != nil)
	}
	if s.Action == "cell" || s.Action == "bar" || s.Action == "hide" {
		if old != nil {
			a, _ := json.Marshal([]any{old.Table, old.Chart})
			b, _ := json.Marshal([]any{st.Table, st.Chart})
			if string(a) != string(b) {
				v.fail("display", "the display changed")
			}
		}
		if s.Target != nil && s.Action != "hide" {
			v.details(target, s.Action == "bar")
		}
		return
	}
	v.cols, v.grps = nil, nil
	switch st.Views.Selected {
	case "Balances":
		v.balances()
	case "Balances - Chart":
		v.balancesChart()
	case "Register":
		if st.Aggregate == nil || st.Sub == nil {
			v.fail("display", "the register has no choice of aggregation or sub-accounts")
		}
		switch {
		case st.Aggregate.Selected == "None" && !*st.Sub:
			v.register(v.inRange(v.acc), false)
		case st.Aggregate.Selected == "None":
			if v.unsure() {
				return
			}
			var ps []*Post
			for _, a := range append([]string{v.acc}, v.below(v.acc, nil)...) {
				ps = append(ps, v.inRange(a)...)
			}
			sort.SliceStable(ps, func(i, j int) bool { return ps[i].T.D < ps[j].T.D })
			v.register(ps, true)
		case !*st.Sub:
			v.aggregated()
		default:
			v.aggregatedSubs()
		}
	case "Aggregated Register - Chart":
		v.aggregatedChart()
	default:
		return
	}
	v.t.Count("shown "+st.Views.Selected, 1)
}

func (v *viewer) inRange(acc string) (out []*Post) {
	for _, p := range v.pos[acc] {
		if p.T.D >= v.from && p.T.D <= v.to {
			out = append(out, p)
		}
	}
	return out
}

func (v *viewer) balance(acc string, d Day) int64 {
	var b int64
	for _, p := range v.pos[acc] {
		if p.T.D <= d {
			b = p.Bal.Int64()
		}
	}
	return b
}

// total of an account and the sub-accounts shown, at the end date
func (v *viewer) total(acc string) approx {
	sum := approx{v.balance(acc, v.to), 0}
	for _, k := range v.kids[acc] {
		if v.open(k, v.st.Closed) {
			sum = sum.plus(v.conv(v.total(k), v.l.com(k), v.l.com(acc), v.to, v.to))
		}
	}
	return sum
}

func (v *viewer) table(t *jsTable, need ...string) map[string]int {
	if t == nil {
		v.fail("display", "there is no table")
	}
	at := map[string]int{}
	for i, h := range t.Head {
		at[h] = i
	}
	for _, n := range need {
		if _, ok := at[n]; !ok {
			v.fail("display", "there is no column %s: %q", n, t.Head)
		}
	}
	return at
}

func (v *viewer) number(s *string) int {
	n, err := strconv.Atoi(deref(s))
	if err != nil {
		v.fail("controls", "%q is no number", deref(s))
	}
	return n
}

func (v *viewer) balances() {
	at := v.table(v.st.Table, "Balance", "Total", "Account")
	depth := v.number(v.st.Depth)
	rows := v.st.Table.Rows
	var want []string
	for _, a := range append([]string{v.acc}, v.below(v.acc, nil)...) {
		if v.l.depth(a)-v.l.depth(v.acc) <= depth {
			want = append(want, a)
		}
	}
	if v.unsure() {
		return
	}
	if len(rows) != len(want) {
		v.fail("balances", "%d accounts listed, expected %q\n%q", len(rows), want, rows)
	}
	for i, a := range want {
		row := rows[i]
		if len(row) != len(v.st.Table.Head) || row[at["Account"]] != rel(v.acc, a) {
			v.fail("balances", "row %d is %q, expected account %s", i, row, rel(v.acc, a))
		}
		v.expectAmount("balance", "balance of "+a, row[at["Balance"]], approx{v.balance(a, v.to), 0}, v.l.com(a))
		v.expectAmount("total", "total of "+a, row[at["Total"]], v.total(a), v.l.com(a))
	}
	v.seen++
}

func (v *viewer) balancesChart() {
	if v.st.Chart == nil {
		v.fail("display", "there is no chart")
	}
	if v.unsure() {
		return
	}
	depth := v.number(v.st.Depth)
	want := map[string]bool{}
	for _, a := range append([]string{v.acc}, v.below(v.acc, nil)...) {
		want[a] = v.l.depth(a)-v.l.depth(v.acc) < depth
	}
	seen := map[string]bool{}
	for _, n := range v.st.Chart.Nodes {
		acc, rest, _ := strings.Cut(n.Title, " ")
		_, ok := want[acc]
		if !ok || seen[acc] || v.l.depth(acc)-v.l.depth(v.acc) > depth {
			v.fail("chart-accounts", "the chart shows %q", n.Title)
		}
		seen[acc] = true
		tot, bal, has := strings.Cut(rest, " [ ")
		v.expectAmount("chart-total", "total of "+acc, tot, v.total(acc), v.l.com(acc))
		own := v.balance(acc, v.to)
		if has {
			v.expectAmount("chart-balance", "balance of "+acc, strings.TrimSuffix(bal, " ]"), approx{own, 0}, v.l.com(acc))
		} else if own != 0 && len(v.below(acc, nil)) > 0 {
			v.fail("chart-balance", "the balance of %s is not shown: %q", acc, n.Title)
		}
		if len(n.Texts) < 2 || n.Texts[0] != baseName(acc) || n.Texts[1] != tot {
			v.fail("chart-text", "the texts %q do not agree with %q", n.Texts, n.Title)
		}
	}
	for a, must := range want {
		if must && !seen[a] {
			v.fail("chart-accounts", "the chart does not show %s", a)
		}
	}
	v.boxes()
	v.t.Count("boxes compared", len(v.st.Chart.Nodes))
	if len(v.st.Chart.Nodes) > 2 {
		v.t.Count("charts of more than two boxes", 1)
	}
	v.seen++
}

// weight is what the box of an account stands for: the balances of it and of the accounts shown below it that are on the account's usual side.
func (v *viewer) weight(acc string) approx {
	w := v.conv(approx{v.balance(acc, v.to), 0}, v.l.com(acc), v.l.com(v.acc), v.to, v.to)
	if v.negated() {
		w.v = -w.v
	}
	if w.v < 0 {
		w = approx{0, max(0, w.v+w.e)}
	}
	for _, k := range v.kids[acc] {
		if v.open(k, v.st.Closed) {
			w = w.plus(v.weight(k))
		}
	}
	return w
}

// boxes compares the sizes of the boxes of the balances chart; the layout that the viewer runs with here makes a box as wide as its share of its parent's.
func (v *viewer) boxes() {
	whole := v.weight(v.acc)
	width := 0.0
	for _, n := range v.st.Chart.Nodes {
		if acc, _, _ := strings.Cut(n.Title, " "); acc == v.acc && n.Width != nil {
			width = *n.Width
		}
	}
	if width <= 0 || whole.v <= 20*whole.e || whole.v == 0 {
		return
	}
	for _, n := range v.st.Chart.Nodes {
		acc, _, _ := strings.Cut(n.Title, " ")
		if n.Width == nil {
			continue
		}
		w := v.weight(acc)
		share := float64(w.v) / float64(whole.v)
		slack := 0.01 + float64(w.e)/float64(whole.v) + share*float64(whole.e)/float64(whole.v)
		if got := *n.Width / width; got < share-slack || got > share+slack {
			v.fail("chart-size", "the box of %s is %.3f of the chart, expected %.3f", acc, got, share)
		}
		v.t.Count("boxes measured", 1)
	}
}

// others are the accounts that may be shown as the other one of a posting.
func others(p *Post) map[string]bool {
	out := map[string]bool{}
	for _, q := range p.T.Posts {
		if q != p && q.Q.Sign() != p.Q.Sign() || q != p && p.Q.Sign() == 0 {
			out[q.Acc] = true
		}
	}
	if len(out) == 0 {
		for _, q := range p.T.Posts {
			if q != p || len(p.T.Posts) == 1 {
				out[q.Acc] = true
			}
		}
	}
	return out
}

// same tells if a row describes the posting, apart from the running total.
func (v *viewer) same(row []string, at map[string]int, p *Post, sub bool) bool {
	y, m, d := p.T.D.ymd()
	if row[at["Date"]] != fmt.Sprintf("%04d-%02d-%02d", y, m, d) || row[at["Description"]] != p.T.Desc || !others(p)[row[at["Account"]]] {
		return false
	}
	if q, c := v.amount(row[at["Amount"]]); q != p.Q.Int64() || c != p.C {
		return false
	}
	if sub {
		if name := rel(v.acc, p.Acc); !short(row[at["SubAccount"]], name) || len(name) <= 20 && row[at["SubAccount"]] != name {
			return false
		}
	} else if b, ok := at["Balance"]; ok {
		if q, c := v.amount(row[b]); q != p.Bal.Int64() || c != v.l.com(p.Acc) {
			return false
		}
	}
	if c, ok := at["Location"]; ok {
		f, n, ok := v.t.whereis(v.t.dir, row[c])
		if !ok || f != filepath.Clean(p.T.File) || n != p.T.Line {
			return false
		}
	}
	return true
}

func (v *viewer) register(ps []*Post, sub bool) {
	need := []string{"Date", "Description", "Account", "Amount", "Cum.Total"}
	if sub {
		need = append(need, "SubAccount")
	} else {
		need = append(need, "Balance")
	}
	if *v.st.Location {
		need = append(need, "Location")
	}
	at := v.table(v.st.Table, need...)
	rows := v.st.Table.Rows
	if *v.st.Notes {
		var post [][]string
		if len(rows) != 2*len(ps) {
			v.fail("register", "%d rows, expected %d with notes", len(rows), 2*len(ps))
		}
		for i := 0; i < len(rows); i += 2 {
			if len(rows[i+1]) != 1 {
				v.fail("notes", "row %d has no notes: %q", i, rows[i+1])
			}
			post = append(post, append(append([]string(nil), rows[i]...), rows[i+1][0]))
		}
		rows = post
	}
	if len(rows) != len(ps) {
		v.fail("register", "%d postings listed, expected %d", len(rows), len(ps))
	}
	n := len(v.st.Table.Head)
	ok := func(i int, p *Post) bool {
		row := rows[i]
		if len(row) != n && !(*v.st.Notes && len(row) == n+1) {
			v.fail("register", "row %d is %q", i, row)
		}
		if *v.st.Notes {
			var ns []string
			for _, x := range p.T.Notes {
				ns = append(ns, strings.TrimSpace(x))
			}
			if strings.Join(strings.Fields(row[n]), " ") != strings.Join(strings.Fields(strings.Join(ns, "; ")), " ") {
				return false
			}
		}
		return v.same(row, at, p, sub)
	}
	// the same day's postings of several accounts are in no particular order
	for i := 0; i < len(ps); {
		j := i + 1
		for sub && j < len(ps) && ps[j].T.D == ps[i].T.D {
			j++
		}
		if k := match(j-i, j-i, func(a, b int) bool { return ok(i+a, ps[i+b]) }); k >= 0 {
			v.fail("register", "row %d is %q, expected %s of\n%s", i+k, rows[i+k], ps[i].Acc, ps[i].T)
		}
		i = j
	}
	// the running total is that of the rows as they are
	var cum approx
	com := v.l.com(v.acc)
	for i, row := range rows {
		q, c := v.amount(row[at["Amount"]])
		d := v.day(row[at["Date"]])
		cum = cum.plus(v.conv(approx{q, 0}, c, com, d, d))
		v.expectAmount("cum-total", fmt.Sprintf("cumulative total of row %d", i), row[at["Cum.Total"]], cum, com)
	}
	v.seen++
	v.t.Count("postings compared", len(rows))
}

// match assigns every one of n rows its own of m candidates, and returns a row without one, or -1.
func match(n, m int, ok func(i, j int) bool) int {
	taken := make([]int, m)
	for j := range taken {
		taken[j] = -1
	}
	var try func(i int, seen []bool) bool
	try = func(i int, seen []bool) bool {
		for j := 0; j < m; j++ {
			if !seen[j] && ok(i, j) {
				seen[j] = true
				if taken[j] < 0 || try(taken[j], seen) {
					taken[j] = i
					return true
				}
			}
		}
		return false
	}
	for i := 0; i < n; i++ {
		if !try(i, make([]bool, m)) {
			return i
		}
	}
	return -1
}

// periods are the first days of those that cover the date range, and the day after the last.
func (v *viewer) periods() []Day {
	if v.to < v.from {
		return nil
	}
	var floor, next func(d Day) Day
	month := func(n int) {
		floor = func(d Day) Day { y, m, _ := d.ymd(); return mkDay(y, (m-1)/n*n+1, 1) }
		next = func(d Day) Day { y, m, _ := d.ymd(); return mkDay(y, m+n, 1) }
	}
	switch v.st.Aggregate.Selected {
	case "Weekly":
		floor = func(d Day) Day { return d - ((d+4)%7+7)%7 }
		next = func(d Day) Day { return d + 7 }
	case "Monthly":
		month(1)
	case "Quarterly":
		month(3)
	case "Yearly":
		month(12)
	default:
		return nil
	}
	out := []Day{floor(v.from)}
	for out[len(out)-1] <= v.to {
		out = append(out, next(out[len(out)-1]))
	}
	return out
}

// serie is an account's amounts over the periods.
type serie struct {
	acc   string
	flow  []int64
	val   []int64 // what the style asks for
	total int64
	posts [][]*Post
}

func (v *viewer) serie(acc string, ps []Day) *serie {
	s := &serie{acc: acc}
	in := v.inRange(acc)
	for i := 0; i+1 < len(ps); i++ {
		var f int64
		var g []*Post
		for _, p := range in {
			if p.T.D >= ps[i] && p.T.D < ps[i+1] {
				f += p.Q.Int64()
				g = append(g, p)
			}
		}
		s.flow = append(s.flow, f)
		s.posts = append(s.posts, g)
		s.total += f
		val := f
		if v.st.Style.Selected == "Balances" {
			end := ps[i+1] - 1
			if end > v.to {
				end = v.to
			}
			val = v.balance(acc, end)
		}
		s.val = append(s.val, val)
	}
	return s
}

func (v *viewer) dates(rows [][]string, ps []Day) {
	n := len(ps) - 1
	if len(ps) == 0 {
		n = 0
	}
	if len(rows) != n {
		v.fail("periods", "%d periods shown, expected %d", len(rows), n)
	}
	for i, r := range rows {
		y, m, d := ps[i].ymd()
		if len(r) == 0 || r[0] != fmt.Sprintf("%04d-%02d-%02d", y, m, d) {
			v.fail("periods", "period %d is %q, expected %s", i, r, ps[i])
		}
	}
}

func (v *viewer) style() {
	if v.st.Style == nil || v.st.Style.Selected != "Flows" && v.st.Style.Selected != "Balances" {
		v.fail("controls", "no choice of aggregation style")
	}
}

func (v *viewer) aggregated() {
	v.style()
	at := v.table(v.st.Table, "Date", "Amount")
	ps := v.periods()
	v.dates(v.st.Table.Rows, ps)
	s := v.serie(v.acc, ps)
	var cum approx
	com := v.l.com(v.acc)
	for i, row := range v.st.Table.Rows {
		if len(row) != len(v.st.Table.Head) {
			v.fail("display", "row %d is %q", i, row)
		}
		v.expectAmount("aggregate", fmt.Sprintf("amount of %s", ps[i]), row[at["Amount"]], approx{s.val[i], 0}, com)
		cum.v += s.flow[i]
		if c, ok := at["Cum.Total"]; ok {
			v.expectAmount("aggregate-cum", fmt.Sprintf("cumulative total of %s", ps[i]), row[c], cum, com)
		}
	}
	for range v.st.Table.Head {
		v.grps = append(v.grps, s.posts)
	}
	v.seen++
	v.t.Count("periods compared", len(v.st.Table.Rows))
}

func (v *viewer) negated() bool {
	root, _, _ := strings.Cut(v.acc, ":")
	return root == "Liabilities" || root == "Income"
}

// candidates are the accounts with postings that are shown or go into Other, biggest total first.
func (v *viewer) candidates(ps []Day) (out []*serie, rank []approx) {
	for _, a := range append([]string{v.acc}, v.below(v.acc, v.excl)...) {
		if len(v.pos[a]) > 0 {
			out = append(out, v.serie(a, ps))
		}
	}
	key := func(s *serie) approx {
		if len(ps) < 2 {
			return approx{}
		}
		k := v.conv(approx{s.total, 0}, v.l.com(s.acc), v.l.com(v.acc), ps[len(ps)-2], ps[len(ps)-1]-1)
		if v.negated() {
			k.v = -k.v
		}
		return k
	}
	sort.SliceStable(out, func(i, j int) bool { return key(out[i]).v > key(out[j]).v })
	for _, s := range out {
		rank = append(rank, key(s))
	}
	return out, rank
}

// assign finds out which accounts the columns stand for. It returns the account series by column, nil for Other, the ones in Other, and
// whether the answer is the only one.
func (v *viewer) assign(labels []string, full bool, vals func(col, i int) (int64, string), ps []Day) (cols, rest []*serie, sure bool) {
	cand, rank := v.candidates(ps)
	max := v.number(v.st.Max)
	n := len(cand)
	if n > max {
		n = max
	}
	if len(labels) != n {
		v.fail("columns", "%d accounts shown of %d, expected %d", len(labels), len(cand), n)
	}
	used := make([]bool, len(cand))
	sure = true
	var ranks []approx
	for c, lab := range labels {
		if len(cand) > max && c == n-1 {
			if lab != "Other" {
				v.fail("columns", "the last of %d accounts is %q, expected Other", n, lab)
			}
			cols = append(cols, nil)
			continue
		}
		found := -1
		for k, s := range cand {
			if used[k] || full && lab != s.acc || !full && !short(lab, rel(v.acc, s.acc)) {
				continue
			}
			same := true
			for i := range s.val {
				q, com := vals(c, i)
				if com != v.l.com(s.acc) || q != s.val[i] {
					same = false
					break
				}
			}
			if same && found < 0 {
				found = k
			} else if same {
				sure = false
			}
		}
		if found < 0 {
			var d []string
			for i := range ps {
				if i+1 < len(ps) {
					q, _ := vals(c, i)
					d = append(d, fmt.Sprint(q))
				}
			}
			v.fail("columns", "the amounts of %q (column %d) are those of no account left: %v", lab, c, d)
		}
		used[found] = true
		cols = append(cols, cand[found])
		ranks = append(ranks, rank[found])
	}
	for i := 1; i < len(ranks); i++ {
		if ranks[i].v-ranks[i].e > ranks[i-1].v+ranks[i-1].e {
			v.fail("top", "the accounts shown are not in the order of their totals: %q", labels)
		}
	}
	for k, s := range cand {
		if !used[k] {
			rest = append(rest, s)
			if m := len(ranks) - 1; m >= 0 && rank[k].v-rank[k].e > ranks[m].v+ranks[m].e {
				v.fail("top", "%s is not shown, with more than %s", s.acc, cols[m].acc)
			}
		}
	}
	if len(cand) > max {
		v.t.Count("displays with Other", 1)
	}
	if len(v.excl) > 0 {
		if v.st.Excluded == nil {
			v.fail("exclude", "what is shown leaves out %q, which it does not say", v.excl)
		}
		v.t.Count("displays with excluded accounts", 1)
	}
	return cols, rest, sure
}

func (v *viewer) sum(ss []*serie, ps []Day, i int, flow bool) (sum approx) {
	for _, s := range ss {
		x := s.val[i]
		if flow {
			x = s.flow[i]
		}
		sum = sum.plus(v.conv(approx{x, 0}, v.l.com(s.acc), v.l.com(v.acc), ps[i], ps[i+1]-1))
	}
	return sum
}

func posts(ss []*serie, i int) (out []*Post) {
	for _, s := range ss {
		out = append(out, s.posts[i]...)
	}
	return out
}

func (v *viewer) aggregatedSubs() {
	v.style()
	head, rows := v.st.Table, v.st.Table
	v.table(head, "Date", "Total")
	ps := v.periods()
	v.dates(rows.Rows, ps)
	h := head.Head
	last := len(h) - 1
	if h[last] == "Cum.Total" {
		last--
	}
	if h[0] != "Date" || last < 1 || h[last] != "Total" {
		v.fail("columns", "columns are %q", h)
	}
	for i, r := range rows.Rows {
		if len(r) != len(h) {
			v.fail("columns", "row %d is %q, columns %q", i, r, h)
		}
	}
	if v.unsure() {
		return
	}
	cols, rest, sure := v.assign(h[1:last], false, func(c, i int) (int64, string) { return v.amount(rows.Rows[i][c+1]) }, ps)
	all := append([]*serie(nil), rest...)
	for _, c := range cols {
		if c != nil {
			all = append(all, c)
		}
	}
	com := v.l.com(v.acc)
	groups := make([][][]*Post, len(h))
	var cum approx
	for i, r := range rows.Rows {
		for c, s := range cols {
			if s == nil {
				v.expectAmount("other", fmt.Sprintf("Other of %s", ps[i]), r[c+1], v.sum(rest, ps, i, false), com)
				groups[c+1] = append(groups[c+1], posts(rest, i))
			} else {
				groups[c+1] = append(groups[c+1], s.posts[i])
			}
		}
		v.expectAmount("sum", fmt.Sprintf("total of %s", ps[i]), r[last], v.sum(all, ps, i, false), com)
		groups[last] = append(groups[last], posts(all, i))
		cum = cum.plus(v.sum(all, ps, i, true))
		if last+1 < len(h) {
			v.expectAmount("sum-cum", fmt.Sprintf("cumulative total of %s", ps[i]), r[last+1], cum, com)
			groups[last+1] = append(groups[last+1], posts(all, i))
		}
	}
	if sure {
		v.grps = groups
	}
	v.seen++
	v.t.Count("periods compared", len(rows.Rows))
}

func (v *viewer) aggregatedChart() {
	v.style()
	ch := v.st.Chart
	if ch == nil {
		v.fail("display", "there is no chart")
	}
	ps := v.periods()
	if len(ps) == 0 && v.from <= v.to {
		v.fail("controls", "the aggregation is %q", v.st.Aggregate.Selected)
	}
	if v.unsure() {
		return
	}
	n := len(ps) - 1
	if n <= 0 {
		return
	}
	var labels []string
	for i, lay := range ch.Layers {
		if len(lay) != n {
			v.fail("periods", "%d periods shown, expected %d", len(lay), n)
		}
		lab, _, _ := strings.Cut(lay[0], " ")
		labels = append(labels, lab)
		leg := rel(v.acc, lab)
		if i >= len(ch.Legend) || ch.Legend[i] != leg && !short(ch.Legend[i], leg) {
			v.fail("legend", "the legend %q does not go with the layers %q", ch.Legend, labels)
		}
	}
	value := func(c, i int) (int64, string) {
		name, amt, _ := strings.Cut(ch.Layers[c][i], " ")
		if name != labels[c] {
			v.fail("columns", "layer %d is of %s and %s", c, labels[c], name)
		}
		return v.amount(amt)
	}
	cols, rest, sure := v.assign(labels, true, value, ps)
	com := v.l.com(v.acc)
	groups := make([][][]*Post, len(cols))
	kmin, kmax, atMin, atMax := 0.0, math.Inf(1), "", ""
	for i := 0; i < n; i++ {
		// the bars are drawn to one scale, those of a period one after the other; negative amounts have none
		var lo, hi []float64
		for c, s := range cols {
			var a approx
			if s == nil {
				a = v.sum(rest, ps, i, false)
				v.expectAmount("other", fmt.Sprintf("Other of %s", ps[i]), strings.TrimPrefix(ch.Layers[c][i], "Other "), a, com)
				groups[c] = append(groups[c], posts(rest, i))
			} else {
				a = v.conv(approx{s.val[i], 0}, v.l.com(s.acc), com, ps[i], ps[i+1]-1)
				groups[c] = append(groups[c], s.posts[i])
			}
			x, e := float64(a.v)/math.Pow10(v.l.Coms[com].Dec), float64(a.e)/math.Pow10(v.l.Coms[com].Dec)
			if v.negated() {
				x = -x
			}
			lo, hi = append(lo, math.Max(0, x-e-1.01)), append(hi, math.Max(0, x+e+.01))
		}
		{
			off := 0.0
			for c := range cols {
				x, w := ch.Bars[c][i][0], ch.Bars[c][i][1]
				if d := (w - .01) / hi[c]; d > kmin {
					kmin, atMin = d, fmt.Sprintf("bar %d of %s is %g wide for %g to %g", c, ps[i], w, lo[c], hi[c])
				}
				if d := (w + .01) / lo[c]; d < kmax {
					kmax, atMax = d, fmt.Sprintf("bar %d of %s is %g wide for %g to %g", c, ps[i], w, lo[c], hi[c])
				}
				if kmin > kmax {
					v.fail("bars", "%s, but %s", atMin, atMax)
				}
				if w > .01 && math.Abs(x-off) > .01 {
					v.fail("bars", "period %s: bar %d begins at %g, expected %g", ps[i], c, x, off)
				}
				off += w
				if i > 0 && ch.Bars[c][i][2] <= ch.Bars[c][i-1][2] {
					v.fail("bars", "period %s is not below %s", ps[i], ps[i-1])
				}
			}
			if off > 1200 {
				v.fail("bars", "the bars of %s are %g wide together, the window has 1200", ps[i], off)
			}
			v.t.Count("bars compared", len(cols))
		}
	}
	if sure {
		v.grps = groups
	}
	v.seen++
	v.t.Count("periods compared", n)
}

// details of a cell or bar are its postings of the biggest amounts.
func (v *viewer) details(target string, bar bool) {
	d := v.st.Details
	if d == nil {
		v.fail("details", "no details are shown")
	}
	var row, col int
	fmt.Sscan(target, &row, &col)
	if bar {
		row, col = col, row
	}
	sub := v.st.Sub == nil || *v.st.Sub
	if v.grps == nil || !bar && col == 0 && sub {
		return
	}
	if col >= len(v.grps) || row >= len(v.grps[col]) {
		v.fail("details", "there is no cell %d %d", row, col)
	}
	g := v.grps[col][row]
	at := v.table(d, "Date", "Description", "Account", "Amount", "Cum.Total")
	_, sub = at["SubAccount"]
	n := mini(20, len(g))
	if len(d.Rows) != n {
		v.fail("details", "%d postings shown of %d", len(d.Rows), len(g))
	}
	if k := match(n, len(g), func(i, j int) bool { return v.same(d.Rows[i], at, g[j], sub) }); k >= 0 {
		v.fail("details", "row %d is of no posting left: %q", k, d.Rows[k])
	}
	com := v.l.com(v.acc)
	var all, shown []approx
	abs := func(q int64, c string, d Day) approx {
		a := v.conv(approx{q, 0}, c, com, d, d)
		if a.v < 0 {
			a.v = -a.v
		}
		return a
	}
	for _, p := range g {
		all = append(all, abs(p.Q.Int64(), p.C, p.T.D))
	}
	var cum approx
	for i, r := range d.Rows {
		q, c := v.amount(r[at["Amount"]])
		d := v.day(r[at["Date"]])
		a := abs(q, c, d)
		if i > 0 && a.v-a.e > shown[i-1].v+shown[i-1].e {
			v.fail("details", "row %d is bigger than the one before", i)
		}
		shown = append(shown, a)
		cum = cum.plus(v.conv(approx{q, 0}, c, com, d, d))
		v.expectAmount("details-cum", fmt.Sprintf("cumulative total of detail %d", i), r[at["Cum.Total"]], cum, com)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].v-all[i].e > all[j].v-all[j].e })
	for i, a := range shown {
		if a.v+a.e < all[i].v-all[i].e {
			v.fail("details", "row %d is at most %d, the amount in that place is at least %d", i, a.v+a.e, all[i].v-all[i].e)
		}
	}
	v.dets++
	if len(g) > 20 {
		v.t.Count("details of more than 20", 1)
	}
}
