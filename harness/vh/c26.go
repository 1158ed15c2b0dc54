package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C26", Quick: 260, Thor: 6000, Case: c26,
		Rule: "random ledgers laid out at random (nested includes of all forms, comments, blank lines, CRLF, working directories inside, above and beside the database, relative and absolute COINDB), every transaction with a payee of its own; all locations printed by register -f, commodities X -f, stats -d/-u/-c, assertion warnings, refusals, coin test and the exported JSON are resolved against the working directory and compared with where the generator put the entry; an evaluation is one ledger, distinct by printed locations, non-trivial if at least one of them is in an included file"})
}

// whereis splits a printed location and resolves its file.
func (t *T) whereis(cwd, loc string) (string, int, bool) {
	i := strings.LastIndexByte(loc, ':')
	if i < 0 {
		return "", 0, false
	}
	n, err := strconv.Atoi(strings.TrimSpace(loc[i+1:]))
	if err != nil {
		return "", 0, false
	}
	f := loc[:i]
	if !filepath.IsAbs(f) {
		f = filepath.Join(cwd, f)
	}
	return filepath.Clean(f), n, true
}

type spot struct {
	file string
	line int
}

func (s spot) String() string { return fmt.Sprintf("%s:%d", s.file, s.line) }

type locCheck struct {
	t    *T
	cwd  string
	seen int
}

func (c *locCheck) expect(sig, loc string, want spot, r Res) {
	f, n, ok := c.t.whereis(c.cwd, loc)
	if !ok || f != filepath.Clean(want.file) || n != want.line {
		c.t.Fail(sig, "location %q, but the entry is at %s (working directory %s)\n%s", loc, want, c.cwd, r)
	}
	c.seen++
}

func c26(t *T) {
	o := defOpt(t)
	o.Dups = .25
	o.Assert, o.Wrong = .2, .5
	o.Odd = true
	o.Txns = 5 + t.N(25)
	l := t.gen(&o)
	byDesc := map[string]*Txn{}
	plain := t.N(1 + 2*len(l.Txns)) // one without a payee
	for i, tx := range l.Txns {
		tx.Desc = fmt.Sprintf("T%dx", i)
		if i == plain {
			tx.Desc = ""
		}
		byDesc[tx.Desc] = tx
	}
	// postings to Unbalanced, and bad conversions
	for _, tx := range l.Txns {
		if len(tx.Posts) == 2 && t.N(8) == 0 && l.com(tx.Posts[0].Acc) == l.Default && l.com("Unbalanced") == l.Default && tx.Posts[0].C == l.Default && tx.Posts[0].Assert == nil {
			tx.Posts[0].Acc, tx.Posts[0].Expr = "Unbalanced", ""
		}
	}
	for _, tx := range l.Txns { // only what can be computed
		for _, p := range tx.Posts {
			p.Bal = nil
		}
	}
	l.balances()

	name := pick(t.R, []string{"db", "db", "db", "d[b]", "d*", "d?b", "d$b", "d b", `d\b`, "d[b"})
	y := t.newLayout(name, Style{Fancy: true, Comments: true, Tight: true})
	switch t.N(6) {
	case 0:
		y.cwd = t.Path(name)
	case 1:
		y.cwd = t.Path("d") // its name is the start of the other's
	case 2:
		y.cwd = t.Path(name, "x")
	case 3:
		y.cwd = t.Path("elsewhere")
	}
	os.MkdirAll(y.cwd, 0o755)
	keep := true
	y.write(l, keep, t.N(3) == 0)
	db := t.Path(name)
	if t.N(3) == 0 {
		rel, _ := filepath.Rel(y.cwd, db)
		db = pick(t.R, []string{rel, "./" + rel, rel + "/"})
	}
	run := func(bin string, args ...string) Res { return t.ExecIn(db, y.cwd, y.envList(), bin, args...) }
	ok := func(r Res) Res {
		if r.Code != 0 {
			t.Fail("exit", "command failed on a valid ledger: %s", r)
		}
		return r
	}
	c := &locCheck{t: t, cwd: y.cwd}
	at := func(x *Txn) spot { return spot{x.File, x.Line} }

	// register -f
	for k := 0; k < 2; k++ {
		acc := pick(t.R, l.Names)
		r := run("coin", "register", "-f", acc)
		if r.Code != 0 && strings.Contains(r.Err, "cannot convert") {
			continue
		}
		ok(r)
		rows := 0
		for _, ln := range lines(r.Out) {
			f := fields(ln)
			if len(f) != 6 {
				continue
			}
			tx := byDesc[f[1]]
			if tx == nil {
				t.Fail("register-row", "row %q shows no payee of the ledger\n%s", ln, r)
			}
			c.expect("register", f[5], at(tx), r)
			rows++
		}
		if rows != len(l.postings(acc)) {
			t.Fail("register-rows", "%d rows with a location for %d postings\n%s", rows, len(l.postings(acc)), r)
		}
		if k == 0 { // warnings come with every load
			want := map[string]int{}
			n := 0
			for _, tx := range l.Txns {
				for _, p := range tx.Posts {
					if p.Assert != nil && p.Assert.Cmp(p.Bal) != 0 {
						want[at(tx).String()]++
						n++
					}
				}
			}
			for _, ln := range lines(r.Err) {
				i := strings.LastIndex(ln, ": ")
				if i < 0 {
					continue
				}
				f, num, good := t.whereis(c.cwd, ln[i+2:])
				if !good {
					t.Fail("warning-format", "no location in warning %q", ln)
				}
				s := spot{f, num}.String()
				if want[s] == 0 {
					t.Fail("warning", "warning %q names a place where no wrong assertion is\n%s", ln, r)
				}
				want[s]--
				n--
				c.seen++
			}
			if n != 0 {
				t.Fail("warnings", "%d wrong assertions not located: %v\n%s", n, want, r)
			}
		}
	}
	// prices
	if len(l.Prices) > 0 {
		com := pick(t.R, l.Prices).Com
		r := ok(run("coin", "commodities", "-f", com))
		for _, ln := range lines(r.Out) {
			f := strings.SplitN(ln, " ", 4)
			var p *Price
			for _, q := range l.Prices {
				if q.Com == com && len(f) == 4 && q.D.String() == f[0] && q.Cur == f[2] {
					p = q
				}
			}
			if p == nil {
				t.Fail("price-row", "row %q shows no price of the ledger\n%s", ln, r)
			}
			c.expect("price", f[3], spot{p.File, p.Line}, r)
		}
	}
	// stats: a location is followed by its transaction
	for _, flag := range []string{"-d", "-u"} {
		r := ok(run("coin", "stats", flag))
		ls := lines(r.Out)
		for i := 0; i+1 < len(ls); i++ {
			d, rest, _ := strings.Cut(ls[i+1], " ")
			if len(d) != 10 || d[0] < '0' || d[0] > '9' {
				continue
			}
			var tx *Txn
			for _, w := range strings.Fields(rest) {
				if tx == nil {
					tx = byDesc[w]
				}
			}
			if tx == nil {
				tx = byDesc[""]
			}
			if tx == nil {
				t.Fail("stats-txn", "%q is no transaction of the ledger\n%s", ls[i+1], r)
			}
			c.expect("stats"+flag, ls[i], at(tx), r)
		}
	}
	r := ok(run("coin", "stats", "-c"))
	want := map[string]bool{}
	for _, tx := range l.Txns {
		if len(tx.Posts) == 2 && tx.Posts[0].C != tx.Posts[1].C {
			want[at(tx).String()] = true
		}
	}
	for _, ln := range lines(r.Out) {
		if strings.HasPrefix(ln, "BAD CONVERSION") {
			f, n, good := t.whereis(c.cwd, ln[strings.LastIndex(ln, " : ")+3:])
			if !good || !want[spot{f, n}.String()] {
				t.Fail("stats-c", "%q: no such transaction there\n%s", ln, r)
			}
			c.seen++
		}
	}
	// exported JSON
	if t.N(2) == 0 {
		r := run("coin2html")
		if r.Code != 0 {
			t.Fail("exit", "coin2html failed on a valid ledger: %s", r)
		}
		var coms, accs map[string]struct{ Location string }
		var prices []struct{ Location, Time, Commodity, Currency string }
		var txns []struct{ Location, Description string }
		for id, v := range map[string]any{"importedCommodities": &coms, "importedPrices": &prices, "importedAccounts": &accs, "importedTransactions": &txns} {
			if err := json.Unmarshal([]byte(jsonBlock(r.Out, id)), v); err != nil {
				t.Fail("json", "%s is not readable: %v", id, err)
			}
		}
		r.Out = "..."
		for id, x := range coms {
			c.expect("json-commodity", x.Location, spot{l.Coms[id].File, l.Coms[id].Line}, r)
		}
		for n, x := range accs {
			if a := l.Accs[n]; a != nil {
				c.expect("json-account", x.Location, spot{a.File, a.Line}, r)
			} else if x.Location != "" {
				t.Fail("json-implied", "account %s is not in the ledger but has location %q", n, x.Location)
			}
		}
		for _, x := range txns {
			c.expect("json-transaction", x.Location, at(byDesc[x.Description]), r)
		}
		for _, x := range prices {
			for _, p := range l.Prices {
				if p.Com == x.Commodity && p.Cur == x.Currency && p.D.String() == x.Time {
					c.expect("json-price", x.Location, spot{p.File, p.Line}, r)
				}
			}
		}
	}
	t.testLocations(c)
	t.refusalLocations(c, &o)
	t.Count("locations_checked", c.seen)
	t.Count("includes", y.incs)
	if y.incs > 0 && c.seen > 5 {
		var b strings.Builder
		for _, tx := range l.Txns {
			fmt.Fprintln(&b, strings.TrimPrefix(tx.File, t.dir), tx.Line)
		}
		t.Nontrivial(b.String())
		t.Sample(fmt.Sprintf("%d locations checked, e.g. %s:%d", c.seen, strings.TrimPrefix(l.Txns[0].File, t.dir), l.Txns[0].Line))
	}
}

// jsonBlock returns the content of the script element with the given id.
func jsonBlock(html, id string) string {
	i := strings.Index(html, `<script type="application/json" id="`+id+`">`)
	if i < 0 {
		return ""
	}
	html = html[i:]
	i = strings.IndexByte(html, '>')
	html = html[i+1:]
	j := strings.Index(html, "</script>")
	if j < 0 {
		return ""
	}
	return html[:j]
}

// testLocations lays out a suite of tests and checks where coin test says they are.
func (t *T) testLocations(c *locCheck) {
	y := t.newLayout("suite", Style{Fancy: true, Comments: true, Tight: true})
	y.cwd = c.cwd
	type tst struct {
		cmd string
		at  spot
	}
	var ts []*tst
	es := []entry{{render: func(w *writer) int { return w.ln("commodity CAD\n  format 1.00 CAD") }},
		{render: func(w *writer) int { return w.ln("account Assets:Cash") }}}
	for i := 0; i < 2+t.N(6); i++ {
		x := &tst{cmd: fmt.Sprintf("accounts Cash|n%d", i)}
		ts = append(ts, x)
		good := t.N(2) == 0
		n := t.N(4)
		es = append(es, entry{func(w *writer) int {
			at := w.ln("test %s", x.cmd)
			if good {
				w.ln("Assets:Cash | CAD        | ")
			} else {
				for k := 0; k <= n; k++ {
					w.ln("something else %d", k)
				}
			}
			w.ln("end test")
			return at
		}, func(f string, n int) { x.at = spot{f, n} }})
	}
	y.put(filepath.Join("suite", "all.test"), es, 2)
	r := t.ExecIn(t.Path("suite"), c.cwd, y.envList(), "coin", "test", "-v", t.Path("suite", "all.test"))
	n := 0
	for _, ln := range lines(r.Out) {
		st, rest, _ := strings.Cut(ln, " ")
		if st != "OK" && st != "FAIL" {
			continue
		}
		loc, cmd, _ := strings.Cut(rest, " ")
		for _, x := range ts {
			if x.cmd == cmd {
				c.expect("test", loc, x.at, r)
				n++
			}
		}
	}
	if n != len(ts) {
		t.Fail("tests", "%d locations for %d tests\n%s", n, len(ts), r)
	}
}

// refusalLocations puts one entry that must be refused into a laid out ledger and looks for its location on stderr.
func (t *T) refusalLocations(c *locCheck, o *GenOpt) {
	o.Assert = 0
	o.Shorten = 0
	o.Dups = 0
	l := t.gen(o)
	t.N(2)
	y := t.newLayout("bad", Style{Fancy: true, Comments: true, Tight: true})
	y.cwd = c.cwd
	var bad spot
	note := func(f string, n int) { bad = spot{f, n} }
	coms, accs, prices, txns := y.entries(l)
	ins := func(es []entry, e entry) []entry {
		k := t.N(len(es) + 1)
		return append(es[:k:k], append([]entry{e}, es[k:]...)...)
	}
	def := l.Default
	acc := "Qa"
	accs = append(accs, entry{render: func(w *writer) int { return w.ln("account Qa\n  commodity %s", def) }}, entry{render: func(w *writer) int { return w.ln("account Qb\n  commodity %s", def) }})
	kind := pick(t.R, []string{"unbalanced", "two-missing", "no-commodity", "no-commodity-assert", "price-commodity", "price-currency", "account-commodity"})
	d := mkDay(2016+t.N(3), 1+t.N(12), 1+t.N(28))
	amt := func(v int64) string { return l.amt(big.NewInt(v), def) }
	text := func(s string) entry { return entry{func(w *writer) int { return w.ln("%s", s) }, note} }
	switch kind {
	case "unbalanced":
		txns = ins(txns, text(fmt.Sprintf("%s x\n  %s  %s %s\n  Qb  %s %s", d, acc, amt(100), def, amt(-101), def)))
	case "two-missing":
		txns = ins(txns, text(fmt.Sprintf("%s x ; note\n  %s\n  Qb", d, acc)))
	case "no-commodity":
		txns = ins(txns, text(fmt.Sprintf("%s x\n  %s  1 %s\n  Qb  -1 NOPE", d, acc, def)))
	case "no-commodity-assert":
		txns = ins(txns, text(fmt.Sprintf("%s x\n  %s  1 %s\n  Qb  -1 %s = 5 NOPE", d, acc, def, def)))
	case "price-commodity":
		prices = ins(prices, text(fmt.Sprintf("P %s NOPE 1 %s", d, def)))
	case "price-currency":
		prices = ins(prices, text(fmt.Sprintf("P %s %s 1 NOPE", d, def)))
	case "account-commodity":
		accs = ins(accs, text("account Qc\n  commodity NOPE\n"))
	}
	y.put("bad/commodities.coin", coms, 2)
	y.put("bad/accounts.coin", accs, 2)
	y.put("bad/prices.coin", prices, 2)
	y.put("bad/transactions.coin", txns, 3)
	r := t.ExecIn(t.Path("bad"), c.cwd, y.envList(), "coin", "balance")
	if r.Code == 0 {
		t.Fail("accepted", "%s entry at %s accepted\n%s", kind, bad, r)
	}
	for _, w := range strings.FieldsFunc(r.Err, func(c rune) bool { return c == ' ' || c == '\n' || c == '\t' || c == '(' || c == ')' }) {
		if f, n, good := t.whereis(c.cwd, w); good && f == bad.file && n == bad.line {
			c.seen++
			t.Count("refusals", 1)
			return
		}
	}
	var ls []string
	for i, s := range lines(t.Read(bad.file)) {
		ls = append(ls, fmt.Sprintf("%d %s", i+1, s))
	}
	sort.Strings(ls)
	t.Fail("refusal-"+kind, "the %s entry is at %s, which the message does not name\n%s", kind, bad, r)
}
