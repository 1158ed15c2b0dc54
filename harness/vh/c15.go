package main

import (
	"fmt"
	"math/big"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C15", Quick: 1100, Thor: 40000, Case: c15,
		Rule: "half of the cases put one malformed line or entry of 90 kinds at a random place of a random laid out ledger (also in included files, loops, unreadable files) and run every command that reads it: non-zero exit, a message, nothing printed, files untouched; the other half mutates characters and lines of one file of a ledger and asks an independent hand written reader what it says: refused exactly if invalid, otherwise the transactions, accounts, commodities or prices printed are the ones it read; an evaluation is one ledger, distinct by the text, non-trivial if refused, or accepted with another meaning than before"})
}

// lines that no entry can contain or be, with the kind of file they go in: top level
var badTop = []string{
	"foo", "acount A:B", "transaction 2020/01/01", "p 2020/01/01 CAD 1 CAD", "D 1000.00 CAD", "~ Monthly", "= /x/", "-foo", "@x",
	"  Assets  10 CAD", " ; indented comment", "\tAssets", "includes x.inc", "include", "include ", "end test", "comment", "C 1 CAD = 2 USD",
	"P", "Price 2020/01/01 CAD 1 CAD", "A B", "Assets  10 CAD", "é", "(123) x", "/x", "!include x", "commodities", "test", "\"x\"", "2", "20", "202", "year 2020", "apply tag x",
	"account", "account ", "account 1abc", "account A b", "accounts A:B", "account A:", "account A::B", "account :A", "account A:B extra ; c", "account A:B=", "account A.B",
	"commodity", "commodity ", "commodity 1x", "commodity A b", "commodity $", "commodity \"X Y\"", "commodity A-B",
	"P 2020/01/01 CAD 1", "P 2020/01/01 CAD CAD", "P 2020/13/01 CAD 1 CAD", "P CAD 1 CAD", "P 2020/01/01 CAD 1 CAD extra", "P 2020/01/01 12:00:00 CAD 1 CAD",
	"P 2020/01/01 CAD $1", "P 2020/01/01 CAD 1,000 CAD", "P 2020/01/01 CAD 1.5.5 CAD", "P 2020/01/01 CAD 1. CAD", "P 2020/01/01 CAD .5 CAD", "P 2020/02/30 CAD 1 CAD",
	"P 2020/01/01 1 CAD", "P 2020/01/01 CAD - 1 CAD", "P 2020/01/01 CAD CAD 1", "P 2020/01/01 CAD 1 CAD CAD", "P  CAD 1 CAD",
}

// transaction headers that are none
var badHead = []string{
	"2020/13/01 x", "2020/02/30 x", "20200101 x", "2020/01/01x", "2020-01-01 x", "2020/1/1/1 x", "2021/02/29 x", "2020/0/1 x", "2020/1/0 x", "2020/01/32 x",
	"2020.01.01 x", "2020/01/ x", "2020// x", "2020/01/01(1) x", "2020/01/01+1 x", "2020/01/01+1x x", "2020/01/01+d x", "1 x", "2020/01/01,x", "2020/01/01: x", "12345/01/01 x",
}

// posting lines that are none, %s is an account, CAD a commodity
var badPost = []string{
	"  %s 10", "  %s  10 CAD =", "  %s  10 CAD = 5", "  %s  10 CAD 20 CAD", "  %s  10.5.5 CAD", "  %s  1,000 CAD", "  %s  10 CAD @ 2 CAD", "  %s  CAD 10", "  %s  $10",
	"  %s  = 10 CAD", "  1%s  10 CAD", "  %s: 10 CAD", "  %s x 10 CAD", "  %s  --5 CAD", "  %s  5 - CAD", "  %s  5 CAD garbage", "  %s  5CAD", "  %s  .5 CAD", "  %s  5. CAD",
	"  %s  +5 CAD", "  %s  5 CAD=5 CAD", "  %s  5 CAD = CAD", "  %s  5 CAD = x CAD", "  %s  5 CAD == 5 CAD", "  %s  5 CAD {10 CAD}", "  (%s)  5 CAD", "  [%s]  5 CAD", "  %s  (5 CAD)",
	"  %s  5e3 CAD", "  %s  5 1CAD", "  %s  5 CAD = 5 CAD = 5 CAD", "  %s  - 5 CAD", "  %s  5 CAD # x", "  %s  5 \"CAD\"", "  * %s  5 CAD", "  ! %s", "  %s  5 CAD = 5", "  %s  1/2 CAD", "  %s:::x  5 CAD",
	"  %s  5 CAD =5 CAD", "  %s  0x10 CAD", "  %s  10 CAD = 5 CAD 3", "  %s  ten CAD", "  \xff", "  %s  5 C$D", "  %s,  5 CAD", "%s  5 CAD",
}

var badAccLine = []string{"  foo bar", "  note", "  closed yesterday", "  closed 2020/02/30", "  closed", "  closed ", "  closed 2020/01/01 x", "  closed  ; x", "  commodity", "  commodity 1x", "  commodity A B",
	"  ofx_acctid abc", "  ofx_acctid", "  csv_acctid a-b", "  check true", "  default", "  alias x", "  note; x", "  commodityCAD", "  payee ^x$", "  Assets 10 CAD"}
var badComLine = []string{"  foo", "  format", "  format 1.00", "  format CAD 1.00", "  format 1.000,00 CAD", "  nomarkets", "  default CAD", "  symbol", "  symbol a b", "  symbol $", "  closed 2020/01/01", "  note", "  format $1.00",
	"  format 1.00 CAD x", "  no market", "  commodity CAD", "  format 1,00 CAD"}

func c15(t *T) {
	if t.N(2) == 0 {
		c15bad(t)
	} else {
		c15mutate(t)
	}
}

// refused checks a command's answer to a malformed ledger.
func (t *T) refused(r Res, kind, what string) {
	if r.Code == 0 {
		t.Fail("accepted-"+kind, "accepted: %s\n%s", what, r)
	}
	if strings.TrimSpace(r.Err) == "" {
		t.Fail("silent-"+kind, "refused without a message: %s\n%s", what, r)
	}
	if r.Out != "" {
		t.Fail("printed-"+kind, "a report is printed in spite of: %s\n%s", what, r)
	}
}

func c15bad(t *T) {
	o := defOpt(t)
	o.Txns = 1 + t.N(12)
	o.Accounts = 3 + t.N(6)
	o.Foreign = 0
	l := t.gen(&o)
	y := t.newLayout("db", Style{Fancy: true, Comments: true, Tight: t.N(2) == 0})
	coms, accs, prices, txns := y.entries(l)
	ins := func(es []entry, e entry) []entry {
		k := t.N(len(es) + 1)
		return append(es[:k:k], append([]entry{e}, es[k:]...)...)
	}
	verb := func(s string) entry { return entry{render: func(w *writer) int { return w.ln("%s", s) }} }
	where := t.N(4) // commodities, accounts, prices, transactions
	var bad, what string
	kind := pick(t.R, []string{"top", "top", "head", "post", "post", "detail", "undefined", "include", "test", "raw"})
	accName := pick(t.R, l.Names)
	switch kind {
	case "top":
		bad = pick(t.R, badTop)
		if strings.HasPrefix(bad, " ") || strings.HasPrefix(bad, "\t") { // must not continue an entry
			bad = "\n" + bad
		}
	case "head":
		bad = pick(t.R, badHead)
	case "post":
		where = 3
		p := pick(t.R, badPost)
		if strings.Contains(p, "%s") {
			p = fmt.Sprintf(p, accName)
		}
		good := fmt.Sprintf("  %s  5 CAD", accName)
		switch t.N(4) {
		case 0:
			bad = "2020/01/01 x\n" + p
		case 1:
			bad = "2020/01/01 x\n" + good + "\n" + p
		case 2:
			bad = "2020/01/01 x\n" + p + "\n" + good
		case 3:
			bad = "2020/01/01 (1) x ; note\n  ; note\n" + good + "\n  ; note\n" + p + "\n" + good + "\n"
		}
	case "detail":
		if t.N(2) == 0 {
			where = t.N(2)
			bad = "account Zq:Z\n" + pick(t.R, []string{"", "  note x\n", "  commodity CAD\n"}) + pick(t.R, badAccLine)
		} else {
			where = 0
			bad = "commodity ZQ\n" + pick(t.R, []string{"", "  note x\n", "  format 1.00 ZQ\n"}) + strings.ReplaceAll(pick(t.R, badComLine), "CAD", "ZQ")
		}
	case "undefined":
		switch t.N(6) {
		case 0:
			where, bad = 2, fmt.Sprintf("P 2020/01/01 NOPE 1 %s", l.Default)
		case 1:
			where, bad = 2, fmt.Sprintf("P 2020/01/01 %s 1 NOPE", l.Default)
		case 2:
			where, bad = 1, "account Zq\n  commodity NOPE\n"
		case 3:
			where, bad = 3, fmt.Sprintf("2020/01/01 x\n  %s  5 NOPE\n  %s  -5 NOPE", accName, accName)
		case 4:
			where, bad = 3, fmt.Sprintf("2020/01/01 x\n  %s  5 %s = 5 NOPE\n  %s", accName, l.com(accName), accName)
		case 5:
			where, bad = 3, fmt.Sprintf("2020/01/01 x\n  Nosuch:Account  5 %s\n  %s", l.com(accName), accName)
		}
	case "include":
		switch t.N(6) {
		case 0:
			bad = "include nosuch.inc"
		case 1: // itself
			f := fmt.Sprintf("loop%d.inc", t.N(10))
			t.Write("db/"+f, "; x\n\ninclude "+f+"\n")
			bad = "include " + f
		case 2: // a longer loop, in other spellings
			n := 2 + t.N(3)
			for i := 0; i < n; i++ {
				p := fmt.Sprintf("l%d.inc", (i+1)%n)
				t.Write(fmt.Sprintf("db/lp/l%d.inc", i), "; x\ninclude "+pick(t.R, []string{p, "./" + p, "../lp/" + p, "*" + p[1:], "[l]" + p[1:]})+"\n\n")
			}
			bad = "include lp/l0.inc"
		case 3: // a directory
			t.Write("db/dir/x", "")
			bad = "include dir"
		case 4:
			bad = "include [x.inc"
		case 5:
			bad = "include $NOSUCHVARIABLE/nosuch.inc"
		}
		bad += "\n"
	case "test":
		where = 3
		bad = pick(t.R, []string{"test accounts\nAssets", "test balance", "test balance\nend tests\nend\n", "test \nend test"})
		if strings.Contains(bad, "test \n") {
			bad = "test \nend test\n"
		}
	case "raw":
		bad = pick(t.R, []string{"\x00", "\x00\x01binary", "2020/01/01 x\n  " + accName + "  5\x00 CAD", "\xef\xbb\xbfaccount A", strings.Repeat("x", 70000+t.N(70000)), "account " + strings.Repeat("A", 70000) + ":", "{}", "<html>", "\x1b[0m"})
	}
	what = fmt.Sprintf("%s: %.200q", kind, bad)
	e := verb(bad)
	// an include is relative to its file: keep it in the database's directory
	depth := 2
	if kind == "include" || kind == "test" {
		depth = 0
	}
	if kind == "test" && !strings.HasPrefix(bad, "test \n") { // it swallows what follows
		txns = append(txns, e)
	} else {
		switch where {
		case 0:
			coms = ins(coms, e)
		case 1:
			accs = ins(accs, e)
		case 2:
			prices = ins(prices, e)
		case 3:
			txns = ins(txns, e)
		}
	}
	y.put("db/commodities.coin", coms, depth)
	y.put("db/accounts.coin", accs, depth)
	y.put("db/"+pick(t.R, []string{"prices.coin", "x.prices"}), prices, depth)
	tf := pick(t.R, []string{"transactions.coin", "t.coin"})
	y.put("db/"+tf, txns, depth)
	db := t.Path("db")
	before := t.snapshot(db)
	fn := filepath.Join(db, tf)
	any := [][]string{{"balance"}, {"balance", "-z", accName}, {"register", accName}, {"stats"}, {"stats", "-d"}, {"tags"}, {"register", "-r", "-m", "Root"}}
	cmds := [][]string{pick(t.R, any), pick(t.R, any)}
	switch where {
	case 0, 1:
		cmds = append(cmds, []string{"accounts"}, []string{"format", fn}, []string{"modify", "-tt:=#x", fn})
		if where == 0 {
			cmds = append(cmds, []string{"commodities"}, []string{"commodities", "-p"})
		}
	case 2:
		cmds = append(cmds, []string{"commodities", "-p"}, []string{"commodities", l.Default})
	case 3:
		cmds = append(cmds, []string{"format", fn}, []string{"format", "-i", fn}, []string{"modify", "-tt:=#x", fn}, []string{"format", "-i", "-t", fn})
	}
	for _, c := range cmds {
		r := t.ExecIn(db, "", y.envList(), "coin", c...)
		if kind == "undefined" && where == 1 && c[0] == "commodities" {
			continue
		}
		t.refused(r, kind, what)
		t.onlyChanged(db, before, nil, r)
		t.Count("refused_"+kind, 1)
	}
	t.Nontrivial(what + fmt.Sprint(where))
	if t.I < 6 {
		t.Sample(what)
	}
}

// mutateText changes a few characters or lines.
func (t *T) mutateText(s string) string {
	const alphabet = " \t;:=()/-+.0129ABCabcxyCADUSD_#,P"
	for k := 1 + t.N(3)*t.N(2); k > 0; k-- {
		ls := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
		i := t.N(len(ls))
		switch t.N(14) {
		case 0: // a line twice
			ls = append(ls[:i+1], append([]string{ls[i]}, ls[i+1:]...)...)
		case 1: // a line less
			ls = append(ls[:i], ls[i+1:]...)
		case 2: // two lines swapped
			j := t.N(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
		case 3: // two lines joined
			if i+1 < len(ls) {
				ls[i] += pick(t.R, []string{"", " "}) + ls[i+1]
				ls = append(ls[:i+1], ls[i+2:]...)
			}
		case 4: // a line broken
			if ls[i] != "" {
				j := t.N(len(ls[i]) + 1)
				ls = append(ls[:i+1], append([]string{ls[i][j:]}, ls[i+1:]...)...)
				ls[i] = ls[i][:j]
			}
		case 5: // words swapped
			w := strings.SplitAfter(ls[i], " ")
			if len(w) > 1 {
				a, b := t.N(len(w)), t.N(len(w))
				w[a], w[b] = w[b], w[a]
				ls[i] = strings.Join(w, "")
			}
		case 6: // indented or not
			if strings.HasPrefix(ls[i], " ") {
				ls[i] = strings.TrimLeft(ls[i], " \t")
			} else {
				ls[i] = "  " + ls[i]
			}
		case 7: // a word less or twice
			w := strings.Fields(ls[i])
			if len(w) > 0 {
				j := t.N(len(w))
				pre := ls[i][:len(ls[i])-len(strings.TrimLeft(ls[i], " \t"))]
				if t.N(2) == 0 {
					w = append(w[:j], w[j+1:]...)
				} else {
					w = append(w[:j+1], append([]string{w[j]}, w[j+1:]...)...)
				}
				ls[i] = pre + strings.Join(w, " ")
			}
		default: // a character
			j := t.N(len(ls[i]) + 1)
			c := string(alphabet[t.N(len(alphabet))])
			switch t.N(3) {
			case 0:
				ls[i] = ls[i][:j] + c + ls[i][j:]
			case 1:
				if j < len(ls[i]) {
					ls[i] = ls[i][:j] + c + ls[i][j+1:]
				}
			case 2:
				if j < len(ls[i]) {
					ls[i] = ls[i][:j] + ls[i][j+1:]
				}
			}
		}
		if len(ls) == 0 {
			ls = []string{""}
		}
		s = strings.Join(ls, "\n") + "\n"
	}
	return s
}

func c15mutate(t *T) {
	o := defOpt(t)
	o.Txns = 1 + t.N(5)
	o.Accounts = 2 + t.N(5)
	o.Foreign = 0
	o.Assert = .3
	o.Odd = true
	o.Big = 0
	o.Files = 1
	l := t.gen(&o)
	plain := Style{}
	text := map[string]string{}
	w := newWriter()
	sep := func() {
		if t.N(4) > 0 {
			w.ln("")
		}
		if t.N(8) == 0 {
			w.ln("; comment")
		}
	}
	for _, id := range l.ComIds {
		l.renderCom(w, l.Coms[id])
		sep()
	}
	text["commodities.coin"] = w.String()
	w = newWriter()
	for _, n := range l.Names {
		a := l.Accs[n]
		if t.N(6) == 0 {
			a.OfxId, a.CsvId = "12345", "x_1"
		}
		l.renderAcc(w, t.R, a)
		sep()
	}
	text["accounts.coin"] = w.String()
	w = newWriter()
	for _, p := range l.Prices {
		l.renderPrice(w, t.R, plain, p)
	}
	text["prices.coin"] = w.String()
	w = newWriter()
	for _, tx := range l.loaded() {
		l.renderTxn(w, t.R, plain, tx)
		sep()
	}
	text["transactions.coin"] = w.String()
	which := pick(t.R, []string{"commodities.coin", "accounts.coin", "prices.coin", "transactions.coin", "transactions.coin", "transactions.coin"})
	for fn, s := range text {
		t.Write("db/"+fn, s)
	}
	db := t.Path("db")
	for k := 0; k < 12; k++ {
		mut := t.mutateText(text[which])
		t.Write("db/"+which, mut)
		t.evals.Add(1)
		t.judge(db, which, text, mut)
	}
}

// judge compares what coin makes of the database, one of whose files was changed, with the strict reader.
func (t *T) judge(db, which string, text map[string]string, mut string) {
	raw := map[any][2]amt{}
	m := &Ledger{Coms: map[string]*Com{}, Accs: map[string]*Acc{}, Default: "CAD"}
	bad := ""
	read := func(fn string) bool {
		s := text[fn]
		if fn == which {
			s = mut
		}
		f := strictParse(s, raw)
		if f.unsure != "" {
			t.Count("not_judged", 1)
			return false
		}
		if f.bad != "" {
			bad = f.bad
			return true
		}
		if which == fn && (fn == "prices.coin" && len(f.coms)+len(f.accs)+len(f.txns) > 0 || fn == "commodities.coin" && len(f.accs)+len(f.txns)+len(f.prices) > 0 ||
			fn == "accounts.coin" && len(f.coms)+len(f.prices)+len(f.txns) > 0 || fn == "transactions.coin" && len(f.coms)+len(f.accs)+len(f.prices) > 0) {
			t.Count("not_judged", 1)
			return false // entries of another kind: the commands compared below do not read all files
		}
		for _, c := range f.coms {
			if m.Coms[c.Id] != nil {
				t.Count("not_judged", 1)
				return false // declared twice: unspecified
			}
			m.Coms[c.Id] = c
			m.ComIds = append(m.ComIds, c.Id)
		}
		if f.def != "" {
			m.Default = f.def
		}
		for _, a := range f.accs {
			if m.Accs[a.Full] != nil {
				t.Count("not_judged", 1)
				return false
			}
			if a.Com == "" {
				a.Com = m.Default
			}
			if m.Coms[a.Com] == nil {
				bad = "commodity of " + a.Full
			}
			m.Accs[a.Full] = a
			m.Names = append(m.Names, a.Full)
		}
		seen := map[string]bool{}
		for _, p := range f.prices {
			if m.Coms[p.Cur] == nil || m.Coms[p.Com] == nil {
				bad = "price commodity"
				return true
			}
			p.V = unitsOf(raw[p][0].n, m.Coms[p.Cur].Dec)
			k := fmt.Sprint(p.D, p.Com, p.Cur)
			if seen[k] {
				t.Count("not_judged", 1)
				return false // two prices on a day
			}
			seen[k] = true
			m.Prices = append(m.Prices, p)
		}
		for i, tx := range f.txns {
			tx.Seq = i
			m.Txns = append(m.Txns, tx)
		}
		return true
	}
	if !read("commodities.coin") {
		return
	}
	sort.Strings(m.ComIds)
	if bad == "" && m.Coms[m.Default] == nil {
		bad = "no default commodity" // Root has it
	}
	for _, fn := range []string{"prices.coin", "accounts.coin"} {
		if bad == "" && !read(fn) {
			return
		}
	}
	badTxn := ""
	if bad == "" {
		if !read("transactions.coin") {
			return
		}
		if bad != "" {
			badTxn, bad = bad, ""
		}
		for _, tx := range m.Txns {
			if badTxn != "" {
				break
			}
			badTxn = m.complete(tx, raw)
		}
		if badTxn == foreignAmount {
			t.Count("not_judged", 1)
			return
		}
	}
	fn := filepath.Join(db, "transactions.coin")
	what := fmt.Sprintf("%s after mutation: %s%s", which, bad, badTxn)
	if bad != "" || badTxn != "" {
		cmds := [][]string{{"balance"}, {"stats", "-u"}}
		switch {
		case which == "commodities.coin" && strings.Contains(bad, "commodity "): // malformed itself
			cmds = append(cmds, []string{"commodities"}, []string{"accounts"})
		case which == "prices.coin":
			cmds = append(cmds, []string{"commodities", "-p"})
		case which == "accounts.coin" && bad != "":
			cmds = append(cmds, []string{"accounts"}, []string{"format", fn})
		case which == "transactions.coin":
			cmds = append(cmds, []string{"format", fn})
		}
		for _, c := range cmds {
			r := t.Exec(db, "coin", c...)
			t.refused(r, "mutated", what)
		}
		t.Count("mutants_refused", 1)
		t.Nontrivial(mut)
		return
	}
	// accepted: it must mean what was read
	ok := func(args ...string) Res {
		r := t.Exec(db, "coin", args...)
		if r.Code != 0 {
			t.Fail("mutant-refused", "%s is valid but refused\n%s", which, r)
		}
		return r
	}
	m.order2()
	r := ok("format", fn)
	t.checkTxns(m, r.Out, m.sorted(), false, "mutant", r)
	r = ok("accounts", "-c")
	var want, got []string
	for _, n := range m.allAccs() {
		d := ""
		if a := m.Accs[n]; a != nil {
			d = a.Desc
		}
		want = append(want, n+"|"+m.com(n)+"|"+d)
	}
	for _, ln := range lines(r.Out) {
		f := strings.SplitN(ln, " | ", 3)
		got = append(got, strings.TrimSpace(f[0])+"|"+strings.TrimSpace(f[1])+"|"+strings.TrimRight(f[2], " \t"))
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		t.Fail("mutant-accounts", "expected\n%s\n\n%s", strings.Join(want, "\n"), r)
	}
	r = ok("commodities")
	want, got = nil, nil
	for _, id := range m.ComIds {
		c := m.Coms[id]
		q := ""
		if c.Symbol != "" && !c.NoMarket {
			q = "Q"
		}
		want = append(want, id+"|"+c.Symbol+"|"+q+"|"+c.Name)
	}
	for _, ln := range lines(r.Out) {
		f := strings.SplitN(ln, " | ", 4)
		got = append(got, strings.TrimSpace(f[0])+"|"+strings.TrimSpace(f[1])+"|"+strings.TrimSpace(f[2])+"|"+strings.TrimRight(f[3], " \t"))
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		t.Fail("mutant-commodities", "expected\n%s\n\n%s", strings.Join(want, "\n"), r)
	}
	if which == "prices.coin" || which == "commodities.coin" {
		for _, id := range m.ComIds {
			r = ok("commodities", id)
			want, got = nil, lines(r.Out)
			for _, p := range m.Prices {
				if p.Com == id {
					want = append(want, fmt.Sprintf("%s %s %s", p.D, m.amt(p.V, p.Cur), p.Cur))
				}
			}
			sort.Strings(want)
			sort.Strings(got)
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				t.Fail("mutant-prices", "expected\n%s\n\n%s", strings.Join(want, "\n"), r)
			}
		}
	}
	// closed accounts
	r = ok("accounts")
	n := 0
	for _, a := range m.allAccs() {
		if !m.closed(a) {
			n++
		}
	}
	if len(lines(r.Out)) != n {
		t.Fail("mutant-closed", "%d open accounts, expected %d\n%s", len(lines(r.Out)), n, r)
	}
	t.Count("mutants_accepted", 1)
	if mut != text[which] {
		t.Nontrivial(mut)
	}
}

func (l *Ledger) order2() {
	for i, t := range l.Txns {
		t.Seq = i
		for k, p := range t.Posts {
			p.T, p.I = t, k
		}
	}
}

// commands that read prices may know what it is worth
const foreignAmount = "foreign amount"

// complete fills a transaction read by the strict reader with amounts; it says why it must be refused, if so.
func (l *Ledger) complete(tx *Txn, raw map[any][2]amt) string {
	coms := map[string]bool{}
	var last string
	foreign := false
	for _, p := range tx.Posts {
		r := raw[p]
		for k, a := range r {
			if a.n == "" {
				continue
			}
			c := l.Coms[a.c]
			if c == nil {
				return "unknown commodity " + a.c
			}
			v := unitsOf(a.n, c.Dec)
			if k == 0 {
				p.Q, p.C = v, a.c
			} else {
				p.Assert, p.AssertC = v, a.c
			}
		}
		acc, ok := l.resolve(p.Expr)
		if !ok {
			return "account " + p.Expr
		}
		p.Acc = acc
		last = l.com(acc)
		coms[last] = true
		foreign = foreign || !p.Elided && p.C != last
	}
	var empty *Post
	sum := new(big.Int)
	for _, p := range tx.Posts {
		if p.Elided {
			if len(coms) > 1 {
				return "missing amount in a mixed transaction"
			}
			if empty != nil {
				return "two missing amounts"
			}
			empty = p
			continue
		}
		if len(coms) == 1 {
			if p.C != last {
				return foreignAmount
			}
			sum.Add(sum, p.Q)
		}
	}
	if len(coms) <= 1 {
		if empty != nil {
			empty.Q, empty.C, empty.Elided = sum.Neg(sum), last, false
		} else if sum.Sign() != 0 {
			return "not balanced"
		}
	}
	return ""
}
