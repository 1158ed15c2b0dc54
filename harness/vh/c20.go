package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C20", Quick: 700, Thor: 20000, Case: c20,
		Rule: "random GnuCash books (currencies with and without fraction, funds, prices as fractions, account trees in any order, splits as any fraction, several time zones around a year's end, empty sections, names coin cannot read, further elements) converted to stdout, to a directory and by year, normal and for ledger; the output is read by an own reader and by coin; distinct by book, non-trivial if it has transactions"})
}

// A GnuCash book.

type gcCom struct {
	space, id, name, code string
	frac                  int64 // 0: not given
	dec                   int
	plain                 bool // coin can use the id as it is
	out                   string
}

type gcAcc struct {
	guid, name, typ string
	com             *gcCom
	parent          *gcAcc
	desc            string
	bank, acct      string
	online          string // as stored
	plain           bool   // the name without blanks is what coin uses
	out             string // full name in the output
}

type gcSplit struct {
	acc      *gcAcc
	num, den *big.Int
	memo     string
}

type gcTxn struct {
	num, desc  string
	d          Day
	zone, time string
	splits     []*gcSplit
}

type gcPrice struct {
	com, cur   *gcCom
	d          Day
	zone, time string
	num, den   *big.Int
}

type gcBook struct {
	coms   []*gcCom
	accs   []*gcAcc
	prices []*gcPrice
	txns   []*gcTxn
}

func (b *gcBook) root() *gcAcc { return b.accs[0] }

// asciify spells other characters so that the strict reader can be used.
func asciify(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c < 128 {
			b.WriteRune(c)
		} else {
			fmt.Fprintf(&b, "u%04x", c)
		}
	}
	return b.String()
}

func oneLine(s string) string { return strings.Join(strings.Fields(s), " ") }

func xmlText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;").Replace(s)
}

func guid(r *rand.Rand) string { return fmt.Sprintf("%016x%016x", r.Uint64(), r.Uint64()) }

func gcText(r *rand.Rand, odd bool) string {
	xs := []string{"Groceries", "Shell 0123", "Amazon.ca", "Tim's & Co", "a < b > c", "Payroll, May", "x", "Hydro/Gas", "Fee \"1\"", "e-transfer", "Trip #trip: Rome", "= 5", "50% off", "100.00 CAD", "O - P", "@Home"}
	if odd {
		xs = append(xs, "Café", "one; two", "; only", "(abc) def", "two\nlines", "(x", "  padded  ", "日本", ";", "Tab\there")
	}
	return pick(r, xs)
}

var plainAcc = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_/-]*$`)
var plainCom = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*$`)

func genBook(r *rand.Rand) *gcBook {
	b := &gcBook{}
	odd := r.IntN(3) == 0 // names and texts that need care
	space := pick(r, []string{"ISO4217", "CURRENCY"})
	ids := []string{"CAD", "USD", "EUR", "CHF"}
	if r.IntN(4) == 0 {
		ids = ids[1:]
	}
	r.Shuffle(len(ids)-1, func(i, j int) { ids[i+1], ids[j+1] = ids[j+1], ids[i+1] })
	noFrac := r.IntN(3) == 0
	for _, id := range ids[:1+r.IntN(len(ids))] {
		c := &gcCom{space: space, id: id, frac: 100, dec: 2, plain: true}
		if noFrac {
			c.frac = 0
		}
		b.coms = append(b.coms, c)
	}
	if r.IntN(6) == 0 {
		b.coms = append(b.coms, &gcCom{space: space, id: "KWD", frac: int64(1000 * (1 - r.IntN(2))), dec: 3, plain: true})
	}
	base := b.coms[0]
	seen := map[string]bool{}
	for _, c := range b.coms {
		seen[c.id] = true
	}
	for i := r.IntN(4); i > 0; i-- {
		c := &gcCom{space: pick(r, []string{"TSX", "FUND", "NASDAQ"}), id: pick(r, []string{"ZLB", "VXF", "X1", "TDB_900", "BTC", "t"}), name: pick(r, []string{"Fund", "Low Volatility ETF", "A & B", ""}), code: pick(r, []string{"", "05573T102"})}
		c.dec = pick(r, []int{0, 1, 2, 3, 4, 6, 9})
		c.frac = pow10(c.dec).Int64()
		if odd && r.IntN(2) == 0 {
			c.id = pick(r, []string{"BRK.B", "0P0000", "A-B", "500325", "A B", "ZLB", "BRKB", "É"})
			c.name = fmt.Sprintf("odd fund %d", i)
		}
		c.plain = plainCom.MatchString(c.id)
		if seen[c.id] {
			if !odd || c.name == "" || !strings.HasPrefix(c.name, "odd") || seen[c.space+":"+c.id] {
				continue
			}
			c.plain = false // the same id in another name space
			for _, o := range b.coms {
				if o.id == c.id && o.space == c.space {
					c = nil
					break
				}
			}
			if c == nil {
				continue
			}
		}
		seen[c.id], seen[c.space+":"+c.id] = true, true
		b.coms = append(b.coms, c)
	}
	// two ids that become one: neither is predictable
	for _, c := range b.coms {
		for _, o := range b.coms {
			if o != c && comKey(o.id) == comKey(c.id) && (!o.plain || !c.plain) {
				for _, x := range []*gcCom{o, c} {
					if x.name == "" || !strings.HasPrefix(x.name, "odd") {
						x.name = "odd " + x.space + " " + fmt.Sprint(len(b.coms))
					}
				}
				o.plain, c.plain = false, false
			}
		}
	}
	for i, c := range b.coms {
		if !c.plain {
			c.name = fmt.Sprintf("odd%d", i)
		} else {
			c.out = c.id
		}
	}
	zones := []string{pick(r, []string{"-0500", "+0000", "+0100", "-0400"})}
	if r.IntN(2) == 0 {
		zones = append(zones, pick(r, []string{"-0400", "+1000", "+0000", "-1000", "+1300"}))
	}
	clock := func() string {
		return pick(r, []string{"00:00:00", "10:59:00", "23:59:59", "05:59:00"})
	}
	// accounts
	root := &gcAcc{guid: guid(r), name: "Root Account", typ: "ROOT", plain: true, out: "Root"}
	b.accs = []*gcAcc{root}
	names := []string{"Assets", "Bank", "Current Assets", "Visa", "Food", "Laundry/Dry Cleaning", "Imbalance-CAD", "A", "b", "401k", "Joe_s", "Income", "Fixed  Assets"}
	if odd {
		names = append(names, "Dining & Out", "Mom's", "2019 Taxes", "401(k)", "Épargne", "A:B", "-", "日本", "Cash.", "FixedAssets", "Root", "Unbalanced", "food", "Food!", "CurrentAssets")
	}
	n := r.IntN(14)
	usable := b.coms
	for i := 0; i < n; i++ {
		a := &gcAcc{guid: guid(r), name: pick(r, names), typ: pick(r, []string{"BANK", "ASSET", "EXPENSE", "INCOME", "STOCK", "CREDIT"}), com: base}
		a.parent = pick(r, b.accs)
		if r.IntN(3) == 0 {
			a.parent = root
		}
		if r.IntN(3) == 0 {
			a.com = pick(r, usable)
		}
		if r.IntN(12) == 0 {
			a.com = nil
		}
		dup := false
		for _, o := range b.accs {
			dup = dup || o.parent == a.parent && o.name == a.name
		}
		if dup {
			continue
		}
		if r.IntN(3) == 0 {
			a.desc = gcText(r, odd)
			if strings.TrimSpace(a.desc) == "" || strings.Contains(a.desc, ";") {
				a.desc = ""
			}
		}
		switch r.IntN(6) {
		case 0:
			a.acct = fmt.Sprint(100000 + r.IntN(900000))
			a.online = a.acct
		case 1:
			a.bank, a.acct = fmt.Sprint(1000+r.IntN(9000)), fmt.Sprint(100000+r.IntN(900000))
			a.online = a.bank + strings.Repeat(" ", 1+r.IntN(3)) + a.acct
		case 2:
			if odd {
				a.online = "n/a"
			}
		}
		b.accs = append(b.accs, a)
	}
	for _, c := range b.coms { // the fraction of currencies may only be known from the accounts
		used := false
		for _, a := range b.accs {
			used = used || a.com == c
		}
		if c.frac == 0 && !used {
			c.dec = 2
		}
	}
	// which names are what they look like
	key := func(s string) string {
		s = strings.ToLower(s)
		return regexp.MustCompile(`[^a-z0-9_/-]`).ReplaceAllString(s, "")
	}
	for i, a := range b.accs[1:] {
		a.plain = plainAcc.MatchString(strings.ReplaceAll(a.name, " ", ""))
		for _, o := range b.accs[1:] {
			if o != a && o.parent == a.parent && key(o.name) == key(a.name) && strings.ReplaceAll(o.name, " ", "") == strings.ReplaceAll(a.name, " ", "") {
				a.plain = false
			}
			if o != a && o.parent == a.parent && !plainAcc.MatchString(strings.ReplaceAll(o.name, " ", "")) && key(o.name) == key(a.name) {
				a.plain = false
			}
		}
		if a.parent == root && (a.name == "Root" || a.name == "Unbalanced") {
			a.plain = false
		}
		if !a.plain {
			a.desc = fmt.Sprintf("odd account %d", i)
		}
	}
	// prices
	start := mkDay(2015+r.IntN(6), 12, 20)
	span := pick(r, []int{5, 20, 20, 400, 1500})
	for i := r.IntN(8); i > 0 && len(b.coms) > 1; i-- {
		p := &gcPrice{com: pick(r, b.coms), cur: pick(r, b.coms), d: start + Day(r.IntN(span)), zone: pick(r, zones), time: clock()}
		if p.com == p.cur || strings.HasPrefix(p.cur.name, "odd") && r.IntN(3) > 0 {
			continue
		}
		p.num, p.den = big.NewInt(int64(r.IntN(2000000))), big.NewInt(pick(r, []int64{1, 100, 10000, 211, 1061, 1000000}))
		b.prices = append(b.prices, p)
	}
	// transactions
	comOf := func(a *gcAcc) *gcCom {
		if a.com == nil {
			return base
		}
		return a.com
	}
	if len(b.accs) > 2 {
		for i := r.IntN(12); i > 0; i-- {
			t := &gcTxn{desc: gcText(r, odd && r.IntN(2) == 0), d: start + Day(r.IntN(span)), zone: pick(r, zones), time: clock()}
			if r.IntN(2) == 0 {
				t.desc += " - " + gcText(r, odd && r.IntN(2) == 0)
			}
			if r.IntN(12) == 0 {
				t.desc = ""
			}
			if r.IntN(5) == 0 {
				t.num = pick(r, []string{"272", "A1", "0"})
				if odd {
					t.num = pick(r, []string{"272", "1-2", "n. 5", "é"})
				}
			}
			same := true
			first := pick(r, b.accs[1:])
			sum := new(big.Int)
			scale := pow10(comOf(first).dec)
			add := func(a *gcAcc, v *big.Int) {
				s := &gcSplit{acc: a}
				k := big.NewInt(pick(r, []int64{1, 1, 1, 2, 20, 100}))
				s.num, s.den = new(big.Int).Mul(v, k), new(big.Int).Mul(scale, k)
				if new(big.Int).Rem(v, scale).Sign() == 0 && r.IntN(2) == 0 {
					s.num, s.den = new(big.Int).Quo(v, scale), big.NewInt(1)
				}
				if r.IntN(4) == 0 {
					s.memo = gcText(r, odd && r.IntN(2) == 0)
				}
				t.splits = append(t.splits, s)
			}
			for k := 1 + r.IntN(3); k > 0; k-- {
				a := pick(r, b.accs[1:])
				if k == 1 {
					a = first
				}
				v := genAmt(r, &GenOpt{Big: .03})
				same = same && comOf(a) == comOf(first)
				if comOf(a) != comOf(first) {
					s := &gcSplit{acc: a, num: v, den: pow10(comOf(a).dec + pick(r, []int{0, 0, 2}))}
					if r.IntN(4) == 0 {
						s.memo = gcText(r, false)
					}
					t.splits = append(t.splits, s)
					continue
				}
				add(a, v)
				sum.Sub(sum, v)
			}
			var peers []*gcAcc
			for _, a := range b.accs[1:] {
				if comOf(a) == comOf(first) {
					peers = append(peers, a)
				}
			}
			add(pick(r, peers), sum)
			r.Shuffle(len(t.splits), func(i, j int) { t.splits[i], t.splits[j] = t.splits[j], t.splits[i] })
			b.txns = append(b.txns, t)
			if r.IntN(10) == 0 {
				b.txns = append(b.txns, t)
			}
		}
	}
	return b
}

func comKey(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9_]`).ReplaceAllString(s, "")
}

func (b *gcBook) xml(r *rand.Rand) string {
	var w strings.Builder
	ln := func(f string, args ...any) { fmt.Fprintf(&w, f+"\n", args...) }
	ln(`<?xml version="1.0" encoding="utf-8" ?>`)
	ln(`<gnc-v2`)
	for _, n := range []string{"gnc", "act", "book", "cd", "cmdty", "price", "slot", "split", "sx", "trn", "ts", "lot"} {
		ln(`     xmlns:%s="http://www.gnucash.org/XML/%s"`, n, n)
	}
	ln(`     >`)
	ln(`<gnc:count-data cd:type="book">1</gnc:count-data>`)
	ln(`<gnc:book version="2.0.0">`)
	ln(`<book:id type="guid">%s</book:id>`, guid(r))
	ln(`<book:slots><slot><slot:key>options</slot:key><slot:value type="frame"><slot><slot:key>Budgeting</slot:key><slot:value type="frame"/></slot></slot:value></slot></book:slots>`)
	ln(`<gnc:count-data cd:type="commodity">%d</gnc:count-data>`, len(b.coms))
	ref := func(tag string, c *gcCom) {
		ln("<%s>\n  <cmdty:space>%s</cmdty:space>\n  <cmdty:id>%s</cmdty:id>\n</%s>", tag, c.space, xmlText(c.id), tag)
	}
	for _, c := range b.coms {
		ln(`<gnc:commodity version="2.0.0">`)
		ln(`  <cmdty:space>%s</cmdty:space>`, c.space)
		ln(`  <cmdty:id>%s</cmdty:id>`, xmlText(c.id))
		if c.name != "" {
			ln(`  <cmdty:name>%s</cmdty:name>`, xmlText(c.name))
		}
		if c.code != "" {
			ln(`  <cmdty:xcode>%s</cmdty:xcode>`, c.code)
		}
		if c.frac > 0 {
			ln(`  <cmdty:fraction>%d</cmdty:fraction>`, c.frac)
		}
		if r.IntN(2) == 0 {
			ln("  <cmdty:get_quotes/>\n  <cmdty:quote_source>currency</cmdty:quote_source>\n  <cmdty:quote_tz/>")
		}
		if r.IntN(3) == 0 {
			ln(`  <cmdty:slots><slot><slot:key>user_symbol</slot:key><slot:value type="string">X</slot:value></slot></cmdty:slots>`)
		}
		ln(`</gnc:commodity>`)
	}
	if r.IntN(2) == 0 {
		ln("<gnc:commodity version=\"2.0.0\">\n  <cmdty:space>template</cmdty:space>\n  <cmdty:id>template</cmdty:id>\n  <cmdty:name>template</cmdty:name>\n  <cmdty:xcode>template</cmdty:xcode>\n  <cmdty:fraction>1</cmdty:fraction>\n</gnc:commodity>")
	}
	stamp := func(d Day, tm, zone string) string {
		y, m, dd := d.ymd()
		return fmt.Sprintf("<ts:date>%04d-%02d-%02d %s %s</ts:date>", y, m, dd, tm, zone)
	}
	if len(b.prices) > 0 || r.IntN(2) == 0 {
		ln(`<gnc:pricedb version="1">`)
		for _, p := range b.prices {
			ln("<price>\n<price:id type=\"guid\">%s</price:id>", guid(r))
			ref("price:commodity", p.com)
			ref("price:currency", p.cur)
			ln("<price:time>\n  %s\n</price:time>", stamp(p.d, p.time, p.zone))
			ln("<price:source>user:price-editor</price:source>")
			if r.IntN(2) == 0 {
				ln("<price:type>last</price:type>")
			}
			ln("<price:value>%s/%s</price:value>\n</price>", p.num, p.den)
		}
		ln(`</gnc:pricedb>`)
	}
	full := map[*gcCom]*gcAcc{} // one account that shows all decimals of the commodity
	for _, a := range b.accs {
		if full[a.com] == nil || r.IntN(3) == 0 {
			full[a.com] = a
		}
	}
	account := func(a *gcAcc) {
		ln(`<gnc:account version="2.0.0">`)
		ln(`  <act:name>%s</act:name>`, xmlText(a.name))
		ln(`  <act:id type="guid">%s</act:id>`, a.guid)
		ln(`  <act:type>%s</act:type>`, a.typ)
		if a.com != nil {
			ref("act:commodity", a.com)
			scu := a.com.dec
			if full[a.com] != a && r.IntN(2) == 0 {
				scu = r.IntN(scu + 1)
			}
			ln("  <act:commodity-scu>%s</act:commodity-scu>", pow10(scu))
		}
		if a.desc != "" {
			ln("  <act:description>%s</act:description>", xmlText(a.desc))
		}
		if a.online != "" || r.IntN(4) == 0 {
			ln(`  <act:slots>`)
			other := `    <slot><slot:key>placeholder</slot:key><slot:value type="string">true</slot:value></slot>`
			if r.IntN(2) == 0 {
				ln(other)
			}
			if a.online != "" {
				ln("    <slot>\n      <slot:key>online_id</slot:key>\n      <slot:value type=\"string\">%s</slot:value>\n    </slot>", a.online)
			}
			if r.IntN(3) == 0 {
				ln(`    <slot><slot:key>reconcile-info</slot:key><slot:value type="frame"><slot><slot:key>last-date</slot:key><slot:value type="integer">1</slot:value></slot></slot:value></slot>`)
			}
			ln(`  </act:slots>`)
		}
		if a.parent != nil {
			ln(`  <act:parent type="guid">%s</act:parent>`, a.parent.guid)
		}
		if r.IntN(10) == 0 {
			ln(`  <act:lots><gnc:lot version="2.0.0"><lot:id type="guid">%s</lot:id></gnc:lot></act:lots>`, guid(r))
		}
		ln(`</gnc:account>`)
	}
	accs := append([]*gcAcc(nil), b.accs...)
	if r.IntN(2) == 0 {
		r.Shuffle(len(accs)-1, func(i, j int) { accs[i+1], accs[j+1] = accs[j+1], accs[i+1] })
	}
	for _, a := range accs {
		account(a)
	}
	txn := func(t *gcTxn) {
		ln(`<gnc:transaction version="2.0.0">`)
		ln(`  <trn:id type="guid">%s</trn:id>`, guid(r))
		ref("trn:currency", b.coms[0])
		if t.num != "" {
			ln(`  <trn:num>%s</trn:num>`, t.num)
		}
		ln("  <trn:date-posted>\n    %s\n  </trn:date-posted>", stamp(t.d, t.time, t.zone))
		ln("  <trn:date-entered>\n    %s\n  </trn:date-entered>", stamp(t.d+3, "12:00:00", t.zone))
		if t.desc != "" || r.IntN(2) == 0 {
			ln(`  <trn:description>%s</trn:description>`, xmlText(t.desc))
		}
		if r.IntN(3) == 0 {
			ln(`  <trn:slots><slot><slot:key>date-posted</slot:key><slot:value type="gdate"><gdate>2001-01-01</gdate></slot:value></slot></trn:slots>`)
		}
		ln(`  <trn:splits>`)
		for _, s := range t.splits {
			ln("    <trn:split>\n      <split:id type=\"guid\">%s</split:id>", guid(r))
			if s.memo != "" {
				ln("      <split:memo>%s</split:memo>", xmlText(s.memo))
			}
			if r.IntN(5) == 0 {
				ln("      <split:action>Buy</split:action>")
			}
			ln("      <split:reconciled-state>%s</split:reconciled-state>", pick(r, []string{"n", "y", "c"}))
			ln("      <split:value>%s/%s</split:value>", s.num, s.den)
			ln("      <split:quantity>%s/%s</split:quantity>", s.num, s.den)
			ln("      <split:account type=\"guid\">%s</split:account>\n    </trn:split>", s.acc.guid)
		}
		ln(`  </trn:splits>`)
		ln(`</gnc:transaction>`)
	}
	for _, t := range b.txns {
		txn(t)
	}
	if r.IntN(3) == 0 { // scheduled transactions are no transactions
		ta := &gcAcc{guid: guid(r), name: "Template Account", typ: "BANK", com: b.coms[0]}
		w.WriteString("<gnc:template-transactions>\n")
		account(&gcAcc{guid: guid(r), name: "Template Root", typ: "ROOT"})
		account(ta)
		txn(&gcTxn{desc: "Scheduled", d: 18000, time: "00:00:00", zone: "+0000", splits: []*gcSplit{{acc: ta, num: big.NewInt(0), den: big.NewInt(1)}}})
		w.WriteString("</gnc:template-transactions>\n")
	}
	ln(`</gnc:book>`)
	ln(`</gnc-v2>`)
	return w.String()
}

func gzipped(s string) []byte {
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	z.Write([]byte(s))
	z.Close()
	return b.Bytes()
}

// folded is a transaction's header text whatever part of it is taken for code, description and notes.
func folded(code, desc string, notes []string) string {
	s := desc + " ; " + strings.Join(notes, " ; ")
	if code != "" {
		s = "(" + code + ") " + s
	}
	s = strings.ReplaceAll(s, ";", " ")
	return oneLine(s)
}

func c20(t *T) {
	r := t.R
	b := genBook(r)
	text := b.xml(r)
	gz := t.Path("book.gnucash")
	if err := os.WriteFile(gz, gzipped(text), 0o644); err != nil {
		t.Inconclusive("%v", err)
	}
	t.Write("book.xml", text)
	base := b.coms[0]
	if len(b.txns) > 0 {
		t.Nontrivial(text)
	}
	t.Count("transactions", len(b.txns))
	t.Count("accounts", len(b.accs))
	t.Count("prices", len(b.prices))
	again := false
	var run func(db string, args ...string) Res
	run = func(db string, args ...string) Res {
		if db != "" {
			os.MkdirAll(db, 0o755)
		}
		var res Res
		if r.IntN(2) == 0 {
			res = t.Exec(db, "gc2coin", append([]string{"-gnucashdb", gz}, args...)...)
		} else {
			env := []string{"GNUCASHDB=" + gz}
			res = t.ExecIn(db, "", env, "gc2coin", args...)
		}
		if res.Code != 0 {
			t.Fail("refused", "gc2coin failed on a valid book\n%s", res)
		}
		if db != "" && !again && r.IntN(4) == 0 {
			// once more over files which are there already, and longer
			again = true
			for n, s := range t.files(filepath.Base(db)) {
				t.Write(filepath.Base(db)+"/"+n, s+strings.Repeat("stale\n", 1+r.IntN(300)))
			}
			t.Count("again", 1)
			res = run(db, args...)
			again = false
		}
		return res
	}
	res := run("")
	whole := res.Out
	t.Write("all/commodities.coin", "")
	t.Write("all/accounts.coin", "")
	t.Write("all/all.coin", whole)
	// one file per kind
	run(t.Path("split"))
	files := t.files("split")
	for n := range files {
		if n != "commodities.coin" && n != "prices.coin" && n != "accounts.coin" && n != "transactions.coin" {
			t.Fail("file", "unexpected file %s", n)
		}
	}
	if got := files["commodities.coin"] + files["prices.coin"] + files["accounts.coin"] + files["transactions.coin"]; bagOfLines(got) != bagOfLines(whole) {
		t.Fail("split", "the files differ from what is printed without COINDB\n--- printed\n%s\n--- files\n%s", whole, got)
	}
	// by year
	run(t.Path("years"), "-y")
	years := t.files("years")
	got := ""
	yre := regexp.MustCompile(`^(\d{4})\.(coin|prices)$`)
	for n, s := range years {
		got += s
		if n == "commodities.coin" || n == "accounts.coin" {
			continue
		}
		m := yre.FindStringSubmatch(n)
		if m == nil {
			if s != "" {
				t.Fail("file", "unexpected file %s", n)
			}
			continue
		}
		for _, ln := range strings.Split(s, "\n") {
			ln = strings.TrimPrefix(ln, "P ")
			if ln != "" && ln[0] >= '0' && ln[0] <= '9' && !strings.HasPrefix(ln, m[1]+"/") {
				t.Fail("year", "%s holds %q", n, ln)
			}
			if m[2] == "prices" && ln != "" && !strings.HasPrefix(ln, m[1]+"/") || m[2] == "coin" && strings.HasPrefix(s, "P ") {
				t.Fail("year", "%s holds %q", n, ln)
			}
		}
	}
	if bagOfLines(got) != bagOfLines(whole) {
		t.Fail("years", "the files by year differ from what is printed without COINDB\n--- printed\n%s\n--- files\n%s", whole, got)
	}
	// for ledger: quotes, and coin's own directives left out
	if r.IntN(3) == 0 {
		lres := run("", "-l")
		a := strings.ReplaceAll(lres.Out, `"`, "")
		var keep []string
		for _, ln := range strings.Split(strings.ReplaceAll(whole, `"`, ""), "\n") {
			if !strings.HasPrefix(ln, "  ofx_") {
				keep = append(keep, ln)
			}
		}
		if bagOfLines(unpad(a)) != bagOfLines(unpad(strings.Join(keep, "\n"))) {
			t.Fail("ledger", "-l changes more than quotes\n%s\n%s", lres, res)
		}
		for _, ln := range strings.Split(lres.Out, "\n") {
			f := strings.Fields(ln)
			if len(f) > 1 && (f[0] == "commodity" || f[0] == "P") {
				id := f[len(f)-1]
				if strings.ContainsAny(id, "0123456789_") && !strings.HasPrefix(id, `"`) {
					t.Fail("ledger-quotes", "%q is not quoted: %s\n%s", id, ln, lres)
				}
			}
		}
	}
	// what it says
	raw := map[any][2]amt{}
	sf := strictParse(asciify(whole), raw)
	if sf.bad != "" {
		t.Fail("output", "invalid output: %s\n%s", sf.bad, res)
	}
	if sf.unsure != "" {
		t.Fail("output", "output not understood: %s\n%s", sf.unsure, res)
	}
	// commodities
	l := &Ledger{Coms: map[string]*Com{}, Accs: map[string]*Acc{}}
	for _, c := range sf.coms {
		if l.Coms[c.Id] != nil {
			t.Fail("commodity", "%s appears twice\n%s", c.Id, res)
		}
		l.Coms[c.Id] = c
		l.ComIds = append(l.ComIds, c.Id)
	}
	if len(sf.coms) != len(b.coms) {
		t.Fail("commodity", "%d commodities, expected %d\n%s", len(sf.coms), len(b.coms), res)
	}
	for _, c := range b.coms {
		if !c.plain {
			for _, x := range sf.coms {
				if x.Name == c.name {
					c.out = x.Id
				}
			}
		}
		x := l.Coms[c.out]
		if x == nil {
			t.Fail("commodity", "%s:%s %q is missing\n%s", c.space, c.id, c.name, res)
		}
		if x.Dec != c.dec || x.Name != oneLine(c.name) {
			t.Fail("commodity", "%s has %d decimals and name %q, expected %d and %q\n%s", c.id, x.Dec, x.Name, c.dec, c.name, res)
		}
	}
	l.Default = sf.def
	if l.Default == "" {
		l.Default = "CAD"
	}
	// prices
	var wp, gp []string
	sameDay := false // which price counts is not specified
	for _, p := range b.prices {
		v := quo(new(big.Int).Mul(p.num, pow10(p.cur.dec)), p.den)
		wp = append(wp, fmt.Sprintf("%s %s %s %s", p.d, p.com.out, dec(v, p.cur.dec), p.cur.out))
		for _, o := range l.Prices {
			sameDay = sameDay || o.D == p.d && o.Com == p.com.out && o.Cur == p.cur.out
		}
		l.Prices = append(l.Prices, &Price{D: p.d, Com: p.com.out, Cur: p.cur.out, V: v})
	}
	for _, p := range sf.prices {
		gp = append(gp, fmt.Sprintf("%s %s %s %s", p.D, p.Com, raw[p][0].n, p.Cur))
	}
	t.sameBag("price", wp, gp, res)
	// accounts
	byName := map[string]*Acc{}
	for _, a := range sf.accs {
		if byName[a.Full] != nil {
			t.Fail("account", "%s appears twice\n%s", a.Full, res)
		}
		byName[a.Full] = a
	}
	if n := len(b.accs); len(sf.accs) != n && !(len(sf.accs) == n-1 && byName["Root"] == nil) {
		t.Fail("account", "%d accounts, expected %d\n%s", len(sf.accs), n, res)
	}
	for _, a := range b.accs[1:] { // parents come first
		var x *Acc
		pre := ""
		if a.parent != b.root() {
			pre = a.parent.out + ":"
		}
		if a.plain {
			a.out = pre + strings.ReplaceAll(a.name, " ", "")
			x = byName[a.out]
		} else {
			for _, y := range sf.accs {
				if y.Desc == a.desc {
					x = y
				}
			}
			if x != nil {
				a.out = x.Full
				if strings.HasPrefix(pre, x.Full) || !strings.HasPrefix(x.Full, pre) || strings.Contains(x.Full[len(pre):], ":") {
					t.Fail("account", "%s is not where %q is\n%s", x.Full, a.name, res)
				}
				if x.Full == "Root" || x.Full == "Unbalanced" && a.name != "Unbalanced" {
					t.Fail("account", "%q became %s\n%s", a.name, x.Full, res)
				}
			}
		}
		if x == nil {
			t.Fail("account", "%q (%s) is missing\n%s", a.name, a.out, res)
		}
		com := l.Default
		if a.com != nil {
			com = a.com.out
		}
		if x.Com == "" && com != l.Default || x.Com != "" && x.Com != com || x.Desc != asciify(oneLine(a.desc)) || x.BankId != a.bank || x.OfxId != a.acct || x.Closed != nil {
			t.Fail("account", "account %s is %+v, expected %s %q bank %q account %q\n%s", a.out, *x, com, a.desc, a.bank, a.acct, res)
		}
		x.Com = com
		l.Accs[a.out] = x
		l.Names = append(l.Names, a.out)
	}
	if x := byName["Root"]; x != nil {
		l.Accs["Root"] = x
	}
	// transactions
	var wt, gt []string
	strictGot := map[string]int{}
	for _, x := range sf.txns {
		var ps []string
		l.Txns = append(l.Txns, x)
		x.Seq = len(l.Txns)
		for _, p := range x.Posts {
			a := raw[p][0]
			if p.Elided || raw[p][1].n != "" || l.Coms[a.c] == nil {
				t.Fail("posting", "posting %+v\n%s", *p, res)
			}
			p.Acc, p.C = p.Expr, a.c
			p.Expr = ""
			p.Q = unitsOf(a.n, l.Coms[a.c].Dec)
			ps = append(ps, fmt.Sprintf("%s %s %s {%s}", p.Acc, a.n, a.c, folded("", "", p.Notes)))
		}
		post := strings.Join(ps, "|")
		gt = append(gt, x.D.String()+" "+folded(x.Code, x.Desc, x.Notes)+" |"+post)
		strictGot[fmt.Sprintf("%s (%s) %s ; %s|%s", x.D, x.Code, x.Desc, strings.Join(x.Notes, " ; "), post)]++
	}
	strictWant := map[string]int{}
	for _, x := range b.txns {
		var ps []string
		for _, s := range x.splits {
			c := base
			if s.acc.com != nil {
				c = s.acc.com
			}
			v := quo(new(big.Int).Mul(s.num, pow10(c.dec)), s.den)
			ps = append(ps, fmt.Sprintf("%s %s %s {%s}", s.acc.out, dec(v, c.dec), c.out, asciify(folded("", "", []string{s.memo}))))
		}
		post := strings.Join(ps, "|")
		d, n, has := strings.Cut(x.desc, " - ")
		var notes []string
		if has {
			notes = []string{n}
		}
		wt = append(wt, x.d.String()+" "+asciify(folded(x.num, d, notes))+" |"+post)
		if strings.ContainsAny(x.desc, ";()\n\t") || x.num != "" && !isWord(x.num) || strings.TrimSpace(d) != d || strings.TrimSpace(n) != n {
			continue
		}
		strictWant[asciify(fmt.Sprintf("%s (%s) %s ; %s|%s", x.d, x.num, d, n, post))]++
	}
	t.sameBag("transaction", wt, gt, res)
	for k, n := range strictWant {
		if strictGot[k] < n {
			t.Fail("transaction", "not in the output (%d times): %s\n%s", n, k, res)
		}
	}
	t.Sample(map[string]any{"output": clip(whole)})
	// coin loads it and agrees
	for _, x := range l.Txns {
		for i, p := range x.Posts {
			p.T, p.I = x, i
		}
	}
	want, err := l.expectBalance("Root", func(*Post) bool { return true }, true, 0)
	for _, db := range []string{"all", "split", "years"} {
		st := t.Exec(t.Path(db), "coin", "stats")
		if st.Code != 0 {
			t.Fail("does-not-load", "coin does not load the output (%s)\n%s\n%s", db, st, res)
		}
		if !strings.Contains(st.Out, fmt.Sprintf("Transactions: %d\n", len(b.txns))) || !strings.Contains(st.Out, fmt.Sprintf("Commodities: %d\n", len(b.coms))) || !strings.Contains(st.Out, fmt.Sprintf("Prices: %d\n", len(b.prices))) {
			t.Fail("stats", "coin reads other numbers (%s)\n%s", db, st)
		}
		if err == nil && !sameDay {
			t.checkBalance(l, t.MustOK(t.Path(db), "coin", "balance", "-z"), want, "balance")
			t.Count("balances", 1)
		}
	}
}

// files returns the contents of a directory of the case by name.
func (t *T) files(dir string) map[string]string {
	out := map[string]string{}
	es, err := os.ReadDir(t.Path(dir))
	if err != nil {
		t.Inconclusive("%v", err)
	}
	for _, e := range es {
		out[e.Name()] = t.Read(filepath.Join(t.Path(dir), e.Name()))
	}
	return out
}

func bagOfLines(s string) string {
	var ls []string
	for _, x := range strings.Split(s, "\n") {
		if strings.TrimSpace(x) != "" {
			ls = append(ls, x)
		}
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

func unpad(s string) string {
	ls := strings.Split(s, "\n")
	for i, x := range ls {
		ls[i] = oneLine(x)
	}
	return strings.Join(ls, "\n")
}

// sameBag compares two collections.
func (t *T) sameBag(sig string, want, got []string, res Res) {
	n := map[string]int{}
	for _, x := range want {
		n[x]++
	}
	for _, x := range got {
		n[x]--
	}
	var miss, extra []string
	for k, v := range n {
		if v > 0 {
			miss = append(miss, fmt.Sprintf("%dx %s", v, k))
		} else if v < 0 {
			extra = append(extra, fmt.Sprintf("%dx %s", -v, k))
		}
	}
	sort.Strings(miss)
	sort.Strings(extra)
	if len(miss)+len(extra) > 0 {
		t.Fail(sig, "missing:\n%s\nunexpected:\n%s\n%s", strings.Join(miss, "\n"), strings.Join(extra, "\n"), res)
	}
}
