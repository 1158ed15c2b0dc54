package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"regexp"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C16", Quick: 900, Thor: 30000, Case: c16,
		Rule: "random account trees with per-commodity sub-accounts, csv.rules (several sources whose values are encoded as plain columns, templates over capture groups, compositions, conditions and first-non-empty chains; account rules with sets, drops and notes) or -fields lists, and CSV files (quoted cells, CRLF, blank lines, ragged headers, several files); every record is made from known values, so the transaction it must become is known without interpreting the source rules; some cases carry one record that cannot be converted and must be refused; distinct by output, non-trivial if a transaction went to a rule's target or a sub-account"})
}

// csvRec is what one record means.
type csvRec struct {
	acct, desc, date, amount, currency, symbol, quantity, note string
	d                                                          Day
	amt, qty                                                   *big.Int
	amtC, qtyC                                                 string // commodities, amtC empty if not given
	descOut                                                    string
}

var csvLabels = []string{"account", "description", "date", "amount", "currency", "symbol", "quantity", "note"}

func (c *csvRec) field(n string) *string {
	switch n {
	case "account":
		return &c.acct
	case "description":
		return &c.desc
	case "date":
		return &c.date
	case "amount":
		return &c.amount
	case "currency":
		return &c.currency
	case "symbol":
		return &c.symbol
	case "quantity":
		return &c.quantity
	}
	return &c.note
}

// csvTable collects the columns of a source as it is encoded.
type csvTable struct {
	r     *rand.Rand
	n     int // records
	cols  [][]string
	rules []string
	aux   int
	// what the labels encoded so far stand for
	std      map[string][]string
	stdNames []string
}

func (c *csvTable) col(vals []string) int {
	c.cols = append(c.cols, vals)
	return len(c.cols) - 1
}

func (c *csvTable) rule(format string, args ...any) {
	c.rules = append(c.rules, fmt.Sprintf(format, args...))
}

func (c *csvTable) junk() string {
	return pick(c.r, []string{"", "junk", "2020/01/01", "-12.5", "CAD", "K=|", "n/a", "~", "Buy", "kind"})
}

// ws is blank space at the end of a line.
func (c *csvTable) ws() string { return pick(c.r, []string{"", "", "", "", "", " ", "  ", "\t"}) }

func (c *csvTable) auxName() string {
	c.aux++
	return pick(c.r, []string{"x_", "raw", "activity", "v"}) + fmt.Sprint(c.aux)
}

// encode makes rules and columns which give the values. The values may be changed when the encoding adds constant text.
func (c *csvTable) encode(name string, vals []string, free bool, depth int) {
	r := c.r
	all := true
	for _, v := range vals {
		all = all && v == vals[0]
	}
	trimmed := true // no surrounding space, no line breaks, not empty where that matters
	for _, v := range vals {
		if v != strings.TrimSpace(v) || strings.ContainsAny(v, "\n|~") {
			trimmed = false
		}
	}
	switch k := r.IntN(10); {
	case k == 0 && all && vals[0] != "" && !strings.ContainsAny(vals[0], "\n\"") && !strings.Contains(vals[0], "${"):
		c.rule("%s \"%s\"", name, vals[0])
	case k == 1 && trimmed: // one capture group
		cells := make([]string, len(vals))
		for i, v := range vals {
			cells[i] = pick(r, []string{"", "pre ", "[x] ", "VALUE "}) + "K=" + v + "|" + pick(r, []string{"", "post", " K=9|"})
			if v == "" {
				cells[i] = c.junk()
				if cells[i] == "K=|" && r.IntN(2) == 0 {
					cells[i] = ""
				}
			}
		}
		pre, post := "", ""
		if free && r.IntN(3) == 0 && !containsStr(vals, "") { // dollar signs that refer to nothing
			pre, post = pick(r, []string{"", "$", "US$ ", "$x "}), pick(r, []string{"$", " $", "$$", " ${x}", ""})
		}
		c.rule("%s %d \"%s$1%s\" %s", name, c.col(cells), pre, post, pick(r, []string{`K=([^|]*)\|`, `K=([^|]+)`, `K=([^|]*)(\|.*)?$`, `^(?:[^K]*)K=(.*?)\|`})+c.ws())
		for i := range vals {
			vals[i] = pre + vals[i] + post
		}
	case k == 2 && trimmed: // two groups, out of order
		cells := make([]string, len(vals))
		for i, v := range vals {
			cut := 0
			if len(v) > 1 {
				cut = r.IntN(len(v))
				for cut > 0 && v[cut]&0xC0 == 0x80 {
					cut--
				}
			}
			cells[i] = v[cut:] + "~" + v[:cut] + "~"
			if v == "" {
				cells[i] = pick(r, []string{"", "nothing", "~"})
			}
		}
		c.rule("%s %d \"$2$1\" %s", name, c.col(cells), `^([^~]*)~([^~]*)~`+c.ws())
	case k == 3 && trimmed: // the whole match
		cells := make([]string, len(vals))
		for i, v := range vals {
			cells[i] = "<< " + v + "|"
			if v == "" {
				cells[i] = pick(r, []string{"", "none"})
			} else {
				cells[i] = v
				if v == "none" {
					cells[i] = "none"
				}
			}
		}
		rex := `^.+$`
		for i, v := range vals {
			if v == "" {
				cells[i] = ""
			}
		}
		c.rule("%s %d \"$0\" %s", name, c.col(cells), rex+c.ws())
	case k == 4: // composed of another value
		a := c.auxName()
		c.rule("%s \"${%s}\"", name, a)
		c.sub(a, vals, depth)
	case k == 5 && free: // constant text around
		a, b := c.auxName(), c.auxName()
		pre, mid := pick(r, []string{"", "POS ", "to: ", "US$ ", "$5 ", "$"}), pick(r, []string{" ", " - ", "", " 5 ", "$", " $$", " $1 "})
		p, q := make([]string, len(vals)), make([]string, len(vals))
		for i, v := range vals {
			p[i], q[i] = v, pick(r, []string{"A1", "b c", "NO.7", "", "COSTCO"})
			vals[i] = pre + p[i] + mid + q[i]
		}
		c.rule("%s \"%s${%s}%s${%s}\"", name, pre, a, mid, b)
		if r.IntN(2) == 0 {
			c.sub(a, p, depth)
			c.sub(b, q, depth)
		} else {
			c.sub(b, q, depth)
			c.sub(a, p, depth)
		}
	case k == 6 || k == 7: // the first that is not empty
		a, b := make([]string, len(vals)), make([]string, len(vals))
		for i, v := range vals {
			if r.IntN(2) == 0 && v != "" {
				a[i], b[i] = v, c.junk()
			} else {
				b[i] = v
			}
		}
		c.rule("%s %d", name, c.col(a))
		if r.IntN(4) == 0 {
			c.rule("%s %d", name, c.col(make([]string, len(vals))))
		}
		if depth < 3 && r.IntN(2) == 0 {
			c.encode(name, b, false, depth+1)
		} else {
			c.rule("%s %d", name, c.col(b))
		}
	case k == 8 && len(c.std) > 0 && r.IntN(2) == 0: // a condition on the value of a label
		x := pick(r, c.stdNames)
		cond := pick(r, []string{`.`, `\d`, `^[A-M]`, `[02468]`, `[a-e]`, `^$`, `(x|o|s)`})
		a, b := c.auxName(), c.auxName()
		av, bv := make([]string, len(vals)), make([]string, len(vals))
		re := regexp.MustCompile(cond)
		for i, v := range vals {
			if re.MatchString(c.std[x][i]) {
				av[i], bv[i] = v, v
				if v != "" && r.IntN(2) == 0 {
					bv[i] = c.junk()
				}
			} else {
				av[i], bv[i] = c.junk(), v
			}
		}
		c.rule("%s \"${%s}\" %s %s", name, a, x, cond+c.ws())
		c.rule("%s \"${%s}\"", name, b)
		c.sub(a, av, depth)
		c.sub(b, bv, depth)
	case k == 8: // a condition on another value
		x, a, b := c.auxName(), c.auxName(), c.auxName()
		kinds, av, bv := make([]string, len(vals)), make([]string, len(vals)), make([]string, len(vals))
		for i, v := range vals {
			if r.IntN(2) == 0 {
				kinds[i], av[i], bv[i] = pick(r, []string{"Buy", "Sell", "Buy it", "reBuy"}), v, v
				if v != "" && r.IntN(2) == 0 {
					bv[i] = c.junk()
				}
			} else {
				kinds[i], av[i], bv[i] = pick(r, []string{"", "buy", "Interest", "Bu y"}), c.junk(), v
			}
		}
		c.rule("%s \"${%s}\" %s %s", name, a, x, pick(r, []string{"Buy|Sell", "(Buy|Sell)", "B(u)y|S(e)ll", "^(re)?(Buy|Sell)"})+c.ws())
		c.rule("%s \"${%s}\"", name, b)
		c.sub(x, kinds, depth)
		c.sub(a, av, depth)
		c.sub(b, bv, depth)
	default:
		c.rule("%s %d", name, c.col(vals))
	}
}

func (c *csvTable) sub(name string, vals []string, depth int) {
	if depth < 3 && c.r.IntN(3) == 0 {
		c.encode(name, vals, false, depth+1)
		return
	}
	c.rule("%s %d", name, c.col(vals))
}

// subAccount is the account of the commodity in the tree of root: the first found, children before their parents.
func (l *Ledger) subAccount(com, root string) string {
	var find func(a string) string
	find = func(a string) string {
		for _, k := range l.children(a) {
			if x := find(k); x != "" {
				return x
			}
		}
		if l.com(a) == com {
			return a
		}
		return ""
	}
	if x := find(root); x != "" {
		return x
	}
	return "Unbalanced"
}

// genImportBase makes a ledger without transactions, with accounts for imports to use.
func (t *T) genImportBase() *Ledger {
	o := defOpt(t)
	o.Txns = 0
	o.Closed = .05
	l := t.genBase(&o)
	// an investment account with a sub-account per commodity
	if len(l.ComIds) > 1 && t.N(3) > 0 {
		base := pick(t.R, []string{"Assets:Inv", "Assets:Investments:XXX", "Holdings/1"})
		add := func(n, c string) {
			if l.Accs[n] == nil {
				l.Accs[n] = &Acc{Full: n, Com: c}
				l.Names = append(l.Names, n)
			}
		}
		add(base, l.Default)
		for _, c := range l.ComIds {
			if t.N(4) > 0 {
				add(base+":"+strings.ToUpper(c[:1])+c[1:], c)
				if t.N(5) == 0 {
					add(base+":Cash:"+strings.ToUpper(c[:1])+c[1:], c)
				}
			}
		}
	}
	return l
}

func c16(t *T) {
	r := t.R
	l := t.genImportBase()
	if r.IntN(3) == 0 { // the id of one commodity may be the quote symbol of another
		for _, c := range l.ComIds {
			if d := pick(r, l.ComIds); d != c && r.IntN(2) == 0 {
				l.Coms[c].Symbol = d
				break
			}
		}
	}
	// ids
	type acct struct {
		id, acc string
		group   bool // has rules
	}
	var accts []acct
	groups := map[string]string{}
	used := map[string]bool{}
	for i := 1 + r.IntN(3); i > 0; i-- {
		id := pick(r, []string{"XXX", "BBB", "389249328477983", "acct_7", "0042", "A1", "77"})
		if used[id] {
			continue
		}
		used[id] = true
		a := pick(r, l.Names)
		for k := 0; k < 4 && len(l.children(a)) == 0; k++ {
			a = pick(r, l.Names)
		}
		x := acct{id: id, acc: a}
		switch k := r.IntN(5); {
		case k == 0 && l.Accs[a].CsvId == "":
			l.Accs[a].CsvId = id
		case k == 1 && l.Accs[a].OfxId == "" && regexp.MustCompile(`^\d+$`).MatchString(id):
			l.Accs[a].OfxId = id
		default:
			x.group = true
			groups[id] = a
			if r.IntN(2) == 0 && l.Accs[a].CsvId == "" {
				l.Accs[a].CsvId = id
			}
		}
		accts = append(accts, x)
	}
	if r.IntN(4) == 0 { // someone else's ids
		a := pick(r, l.Names)
		if l.Accs[a].CsvId == "" {
			l.Accs[a].CsvId = t.nearId(used, "other", regexp.MustCompile(`^\w+$`))
		}
		if l.Accs[a].OfxId == "" {
			l.Accs[a].OfxId = t.nearId(used, "4711", regexp.MustCompile(`^\d+$`))
		}
	}
	rf := t.genRules(l, groups)
	useFields := r.IntN(4) == 0
	noRules := false
	if useFields && r.IntN(3) == 0 {
		noRules = true
		for i := 0; i < len(accts); i++ {
			if accts[i].group {
				a := accts[i].acc
				if l.Accs[a].CsvId != accts[i].id {
					accts = append(accts[:i], accts[i+1:]...)
					i--
				}
			}
		}
		rf = &ruleFile{}
		if len(accts) == 0 {
			a := pick(r, l.Names)
			l.Accs[a].CsvId = "XXX"
			accts = []acct{{id: "XXX", acc: a}}
		}
	}
	byId := map[string]acct{}
	for _, a := range accts {
		byId[a.id] = a
	}

	// what the records mean
	target := func(c *csvRec) (from, to string, rule *ruleLine) {
		from = byId[c.acct].acc
		rule = rf.byId(c.acct).decide(c.descOut)
		to = "Unbalanced"
		if rule != nil {
			to = rule.acc
		}
		return from, to, rule
	}
	nf := 1 + r.IntN(3)
	files := make([][]*csvRec, nf)
	var recs []*csvRec
	single := r.IntN(3) == 0 // all records of one account
	start := mkDay(2015, 1, 1) + Day(r.IntN(2000))
	span := 1 + r.IntN(60)
	many := 10
	if r.IntN(8) == 0 {
		many, span = 60, 1+r.IntN(4)
	}
	for f := range files {
		for i := r.IntN(many); i >= 0; i-- {
			c := &csvRec{acct: pick(r, accts).id, d: start + Day(r.IntN(span))}
			if single {
				c.acct = accts[0].id
			}
			c.desc = pick(r, rulePayees)
			if r.IntN(6) == 0 {
				c.desc += pick(r, []string{"  ", "\t", "\n", " , "}) + pick(r, rulePayees)
			}
			if r.IntN(10) == 0 {
				c.desc = " " + c.desc + "  "
			}
			if r.IntN(10) == 0 {
				c.desc += ` "quoted"`
			}
			c.date = c.d.String()
			if r.IntN(3) == 0 {
				c.note = pick(r, []string{"a note", "with, comma", "two  spaces", " padded ", `say "hi"`, "#tag: x", "line\nbreak", "ref; 12"})
			}
			files[f] = append(files[f], c)
			recs = append(recs, c)
		}
	}
	var args []string
	var srcText strings.Builder
	tab := &csvTable{r: r, n: len(recs)}
	vals := func(n string) []string {
		var out []string
		for _, c := range recs {
			out = append(out, *c.field(n))
		}
		return out
	}
	nfields := len(csvLabels)
	if useFields {
		nfields = 4 + r.IntN(5)
	}
	has := map[string]bool{}
	for i, n := range csvLabels {
		has[n] = i < nfields && (useFields || i < 4 || r.IntN(4) > 0)
	}
	put := func(n string, v []string) {
		for i, c := range recs {
			*c.field(n) = v[i]
		}
	}
	colOf := map[string]int{}
	enc := func(n string, free bool) {
		v := vals(n)
		if useFields {
			colOf[n] = tab.col(v)
			return
		}
		at := len(tab.rules)
		tab.encode(n, v, free, 0)
		// the lines of one value keep their order, but values may come in any order
		lines := append([]string(nil), tab.rules[at:]...)
		tab.rules = tab.rules[:at]
		sort.SliceStable(lines, func(i, j int) bool { return false })
		if r.IntN(2) == 0 {
			tab.rules = append(lines, tab.rules...)
		} else {
			tab.rules = append(tab.rules, lines...)
		}
		put(n, v)
		if tab.std == nil {
			tab.std = map[string][]string{}
		}
		tab.std[n] = v
		tab.stdNames = append(tab.stdNames, n)
	}
	order := append([]string(nil), csvLabels...)
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	// the description and the account decide the target, which the amount's commodity depends on
	enc("account", false)
	enc("description", true)
	for _, c := range recs {
		c.descOut = strings.Join(strings.Fields(c.desc), " ")
		c.amtC = ""
		_, to, _ := target(c)
		toCom := ""
		if to != "--" {
			toCom = l.com(to)
		} else {
			toCom = l.Default
		}
		amtC := toCom
		if has["currency"] && r.IntN(3) > 0 {
			c.amtC = pick(r, l.ComIds)
			c.currency = c.amtC
			if s := l.Coms[c.amtC].Symbol; s != "" && l.Coms[s] == nil && r.IntN(2) == 0 {
				c.currency = s
			}
			amtC = c.amtC
		}
		c.amt = genAmt(r, &GenOpt{Big: .03})
		if c.amt.Sign() == 0 && r.IntN(3) > 0 {
			c.amt.SetInt64(1)
		}
		c.amount = l.amtForm(r, Style{Fancy: true}, c.amt, amtC)
		c.amtC = amtC
		if has["symbol"] && r.IntN(2) == 0 {
			q := pick(r, l.ComIds)
			if q != amtC {
				c.qtyC = q
				c.symbol = q
				if s := l.Coms[q].Symbol; s != "" && l.Coms[s] == nil && r.IntN(2) == 0 {
					c.symbol = s
				}
			}
		}
		if has["quantity"] && r.IntN(5) > 0 && c.qtyC != "" {
			c.qty = genAmt(r, &GenOpt{})
			c.quantity = l.amtForm(r, Style{Fancy: true}, c.qty, c.qtyC)
		} else if has["quantity"] && c.qtyC == "" && r.IntN(3) == 0 {
			c.quantity = pick(r, []string{"0.00", "12", "5.5"})
		}
	}
	for _, n := range order {
		if n != "account" && n != "description" && has[n] {
			enc(n, n == "note")
		} else if !has[n] && n != "account" && n != "description" {
			for _, c := range recs {
				*c.field(n) = ""
			}
		}
	}
	skip := 0
	if useFields {
		var idx []string
		// move the columns around
		perm := r.Perm(len(tab.cols))
		cols := make([][]string, len(tab.cols))
		for i, p := range perm {
			cols[p] = tab.cols[i]
		}
		tab.cols = cols
		for i := 0; i < nfields; i++ {
			idx = append(idx, fmt.Sprint(perm[colOf[csvLabels[i]]]))
		}
		args = append(args, "-fields="+strings.Join(idx, ","))
		if r.IntN(3) == 0 { // unused column
			tab.col(make([]string, len(recs)))
		}
	} else {
		skip = r.IntN(4)
		if r.IntN(12) == 0 {
			skip = 9 + r.IntN(14)
		}
		name := pick(r, []string{"bank", "src1", "My_Bank", "x"})
		decoy := func(n string) {
			fmt.Fprintf(&srcText, "%s 1\n  account \"nobody\"\n  description 0\n  date 0\n  amount 0\n", n)
		}
		if r.IntN(3) == 0 {
			decoy("other")
		}
		if skip == 0 && r.IntN(2) == 0 {
			fmt.Fprintf(&srcText, "%s\n", name)
		} else {
			fmt.Fprintf(&srcText, "%s %d\n", name, skip)
		}
		for _, x := range tab.rules {
			fmt.Fprintf(&srcText, "%s%s\n", pick(r, []string{"  ", " ", "\t", "    "}), x)
		}
		if r.IntN(3) == 0 {
			decoy("bank2")
		}
		args = append(args, "-source="+name)
	}
	t.writeDB(l, "db", Style{})
	rulesText := srcText.String()
	if len(rf.groups) > 0 || r.IntN(2) == 0 {
		rulesText += "---\n" + rf.render(r, true)
	}
	if !noRules || r.IntN(2) == 0 {
		t.Write("db/csv.rules", rulesText)
	} else if !useFields {
		t.Write("db/csv.rules", rulesText)
	}
	// one record that cannot be converted
	bad := ""
	if r.IntN(12) == 0 && useFields {
		i := r.IntN(len(recs))
		if _, _, rule := target(recs[i]); rule == nil || rule.acc != "--" {
			type brk struct {
				n string
				v []string
			}
			bs := []brk{{"account", []string{"nobody", "", "0"}}, {"date", []string{"2019/13/01", "2019-01-01", "", "20190101", "2019/02/30"}}, {"amount", []string{"abc", "", "-", "12a", "CAD 5"}}}
			if nfields > 4 {
				bs = append(bs, brk{"currency", []string{"ZZZ", "cad$", "US Dollar"}})
			}
			if nfields > 5 {
				bs = append(bs, brk{"symbol", []string{"ZZZ", "n/a"}})
			}
			b := pick(r, bs)
			v := pick(r, b.v)
			for ci := range tab.cols {
				if ci < len(tab.cols) {
					if fmt.Sprint(ci) == strings.Split(strings.TrimPrefix(args[0], "-fields="), ",")[indexOf(csvLabels, b.n)] {
						tab.cols[ci][i] = v
					}
				}
			}
			bad = b.n + " " + v
		}
	}
	at := 0
	for f, rs := range files {
		var b strings.Builder
		eol := pick(r, []string{"\n", "\n", "\r\n"})
		for i := 0; i < skip; i++ {
			b.WriteString(pick(r, []string{"Date,Amount,Description", "Exported 2020", "a,b,c,d,e,f,g,h,i,j,k,l,m", "-----,---,--", "x,\"y, z\"", "2020/01/01,5"}) + eol)
		}
		for i := range rs {
			for k := range tab.cols {
				if k > 0 {
					b.WriteByte(',')
				}
				b.WriteString(csvCell(r, tab.cols[k][at+i], k == 0 && len(tab.cols) == 1))
			}
			if f == nf-1 && i == len(rs)-1 && r.IntN(3) == 0 {
				break
			}
			b.WriteString(eol)
			if r.IntN(10) == 0 {
				b.WriteString(eol)
			}
		}
		at += len(rs)
		fn := t.Write(fmt.Sprintf("in%d.csv", f), b.String())
		args = append(args, fn)
	}
	t.Logf("columns %d rules:\n%s", len(tab.cols), rulesText)
	res := t.Exec(t.Path("db"), "csv2coin", args...)
	if bad != "" {
		if res.Code == 0 {
			t.Fail("bad-record-accepted", "a record with %s was converted\n%s", bad, res)
		}
		t.Count("refused", 1)
		t.Nontrivial("bad " + bad)
		return
	}
	if res.Code != 0 {
		t.Fail("refused", "csv2coin failed on valid input\n%s", res)
	}
	got, err := l.parseFormatted(res.Out)
	if err != nil {
		t.Fail("unreadable-output", "%v\n%s", err, res)
	}
	for i := 1; i < len(got); i++ {
		if got[i].D < got[i-1].D {
			t.Fail("order", "%s comes after %s\n%s", got[i], got[i-1], res)
		}
	}
	var want []*importTxn
	drops, refined, ruled := 0, 0, 0
	for _, c := range recs {
		from, to, rule := target(c)
		if to == "--" {
			drops++
			continue
		}
		if rule != nil {
			ruled++
		}
		to2 := l.subAccount(c.amtC, to)
		x := &importTxn{d: c.d, desc: c.descOut}
		if rule != nil {
			x.notes = rule.notes
		}
		if n := strings.Join(strings.Fields(c.note), " "); n != "" {
			x.note = n
		}
		neg := new(big.Int).Neg(c.amt)
		from2 := ""
		if c.qty == nil {
			from2 = l.subAccount(c.amtC, from)
			x.add(from2, c.amt, c.amtC)
			x.add(to2, neg, c.amtC)
		} else {
			q := c.qty
			if q.Sign()*c.amt.Sign() > 0 {
				q = new(big.Int).Neg(q)
			}
			from2 = l.subAccount(c.qtyC, from)
			x.add(from2, q, c.qtyC)
			x.add(to2, c.amt, c.amtC)
		}
		if to2 != to || from2 != from {
			refined++
		}
		want = append(want, x)
	}
	t.compareImport(l, got, want, res)
	// in the order of the records
	sort.SliceStable(want, func(i, j int) bool { return want[i].d < want[j].d })
	for i, g := range got {
		if k := want[i].key(); k != fmt.Sprintf("%s|(%s)%s|%s", g.D, g.Code, g.Desc, strings.Join(txnPosts(g), "|")) {
			t.Fail("order-in-day", "%s comes where the records have %s\n%s", g, k, res)
		}
		if i > 0 && got[i-1].D == g.D && want[i-1].key() != want[i].key() {
			t.Count("order within a day", 1)
		}
	}
	t.Count("transactions", len(want))
	t.Count("dropped", drops)
	t.Count("ruled", ruled)
	t.Count("refined", refined)
	if ruled > 0 || refined > 0 {
		t.Nontrivial(res.Out)
	}
	// the output is a ledger, if amounts ended up in accounts of their commodity
	proper := len(want) > 0
	for _, g := range got {
		for _, p := range g.Posts {
			proper = proper && l.com(p.Acc) == p.C
		}
	}
	if proper {
		t.Count("reloaded", 1)
		t.Write("db/imported.coin", res.Out)
		st := t.Exec(t.Path("db"), "coin", "stats")
		if st.Code != 0 || strings.Contains(st.Err, "balance is") {
			t.Fail("unloadable", "the imported transactions do not load\n%s\n%s", res, st)
		}
		t.Sample(map[string]any{"rules": clip(rulesText), "output": clip(res.Out)})
	}
	// so is the dump of the rules a rules file
	if !noRules && r.IntN(3) == 0 {
		d := t.Exec(t.Path("db"), "csv2coin", "-rules")
		if d.Code != 0 {
			t.Fail("dump", "csv2coin -rules failed\n%s", d)
		}
		t.Write("db/csv.rules", d.Out)
		if len(want) > 0 {
			// the imported transactions are not read by csv2coin
			res2 := t.Exec(t.Path("db"), "csv2coin", args...)
			if res2.Code != 0 || res2.Out != res.Out {
				t.Fail("dump-differs", "with the dumped rules the result differs\n%s\ndump:\n%s\nnow:\n%s", res, d.Out, res2)
			}
		}
		t.Count("dumps", 1)
	}
}

func indexOf(xs []string, s string) int {
	for i, x := range xs {
		if x == s {
			return i
		}
	}
	return -1
}

func csvCell(r *rand.Rand, v string, only bool) string {
	if strings.ContainsAny(v, ",\"\n\r") || v != strings.TrimSpace(v) && (only || r.IntN(2) == 0) || r.IntN(8) == 0 || only && v == "" {
		return `"` + strings.ReplaceAll(v, `"`, `""`) + `"`
	}
	return v
}

// importTxn is an expected imported transaction.
type importTxn struct {
	d     Day
	desc  string
	notes []string // of the rule
	note  string   // of the record
	posts []string
}

// readPayee says what a payee is in a transaction of a ledger: what looks like a code is the code, what follows a semicolon is a note.
func readPayee(p string) (code, desc, note string) {
	p, note, _ = strings.Cut(p, ";")
	if strings.HasPrefix(p, "(") {
		if k := strings.IndexByte(p, ')'); k > 1 && isWord(p[1:k]) && (k+1 == len(p) || p[k+1] == ' ') {
			code, p = p[1:k], p[k+1:]
		}
	}
	return code, strings.TrimSpace(p), strings.TrimSpace(note)
}

func (x *importTxn) head() string {
	code, desc, _ := readPayee(x.desc)
	return "(" + code + ")" + desc
}

func (x *importTxn) add(acc string, q *big.Int, c string) {
	x.posts = append(x.posts, fmt.Sprintf("%s %s %s", acc, q, c))
}

func (x *importTxn) key() string {
	ps := append([]string(nil), x.posts...)
	sort.Strings(ps)
	return fmt.Sprintf("%s|%s|%s", x.d, x.head(), strings.Join(ps, "|"))
}

func txnPosts(g *Txn) (ps []string) {
	for _, p := range g.Posts {
		s := fmt.Sprintf("%s %s %s", p.Acc, p.Q, p.C)
		if p.Assert != nil {
			s += fmt.Sprintf(" = %s %s", p.Assert, p.AssertC)
		}
		ps = append(ps, s)
	}
	sort.Strings(ps)
	return ps
}

// compareImport requires that the printed transactions are exactly the expected ones, in any order within a day.
func (t *T) compareImport(l *Ledger, got []*Txn, want []*importTxn, res Res) {
	left := map[string][]*importTxn{}
	for _, w := range want {
		left[w.key()] = append(left[w.key()], w)
	}
	for _, g := range got {
		k := fmt.Sprintf("%s|(%s)%s|%s", g.D, g.Code, g.Desc, strings.Join(txnPosts(g), "|"))
		ws := left[k]
		if len(ws) == 0 {
			t.Fail("unexpected", "transaction not expected:\n%s\nexpected (left):\n%s\n%s", g, left2(left), res)
		}
		ok := -1
		for i, w := range ws {
			if notesOK(g, w) {
				ok = i
				break
			}
		}
		if ok < 0 {
			t.Fail("notes", "transaction has notes %q, expected %q %q:\n%s\n%s", g.Notes, ws[0].notes, ws[0].note, g, res)
		}
		left[k] = append(append([]*importTxn(nil), ws[:ok]...), ws[ok+1:]...)
	}
	for _, ws := range left {
		for _, w := range ws {
			t.Fail("missing", "no transaction for %s\n%s", w.key(), res)
		}
	}
}

func left2(m map[string][]*importTxn) string {
	var ks []string
	for k, v := range m {
		for range v {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

// notesOK: the notes are the rule's; with a note of the record that is there, alone or with the rule's; what follows a semicolon in the payee comes first.
func notesOK(g *Txn, w *importTxn) bool {
	notes := g.Notes
	if _, _, rest := readPayee(w.desc); rest != "" {
		if len(notes) == 0 {
			return false
		}
		tail, ok := strings.CutPrefix(strings.TrimSpace(notes[0]), rest)
		if notes = notes[1:]; !ok {
			return false
		}
		if tail = strings.TrimSpace(tail); tail != "" {
			if tail[0] != ';' {
				return false
			}
			notes = append([]string{tail[1:]}, notes...)
		}
	}
	norm := func(xs []string) (out []string) {
		for _, x := range xs {
			out = append(out, strings.TrimSpace(x))
		}
		return
	}
	gn := strings.Join(norm(notes), "\x00")
	rn := strings.Join(norm(w.notes), "\x00")
	if w.note == "" {
		return gn == rn
	}
	return gn == w.note || gn == w.note+"\x00"+rn || gn == rn+"\x00"+w.note
}
