package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"regexp"
	"sort"
	"strings"
)

// OFX statements.

type ofxTxn struct {
	d          Day
	name, memo string
	amt        *big.Int
}

type ofxStmt struct {
	cc     bool
	id     string
	txns   []*ofxTxn
	bal    *big.Int
	noList bool // no transaction list at all
}

type ofxStyle struct {
	crlf, closed, xml bool // line ends, elements with end tags, OFX 2 header
	noEnd             bool // no line end at the end
	bmo               bool // malformed the way of BMO
	zone              string
	clock             string // time of day, random if "r"
}

func genOfxStyle(r *rand.Rand) ofxStyle {
	s := ofxStyle{crlf: r.IntN(4) == 0, closed: r.IntN(3) == 0, noEnd: r.IntN(6) == 0}
	if r.IntN(6) == 0 {
		s.xml, s.closed = true, true
	}
	s.zone = pick(r, []string{"", "[-5:EST]", "[-5:EDT]", "[0:GMT]", "[+10:AEST]", "[-3.50:NST]", "[-8]", "r", "r"})
	s.clock = pick(r, []string{"", "000000", "000000.000", "120000", "235959", "r", "r"})
	return s
}

func (s ofxStyle) date(r *rand.Rand, d Day) string {
	y, m, dd := d.ymd()
	x := fmt.Sprintf("%04d%02d%02d", y, m, dd)
	clock, zone := s.clock, s.zone
	if clock == "r" {
		clock = pick(r, []string{"", "000000", "000000.000", "235959.999", "120000", "061512", "190000"})
	}
	if zone == "r" {
		zone = pick(r, []string{"", "[-5:EST]", "[+10:AEST]", "[0:GMT]", "[-11:SST]", "[+5.50:IST]"})
	}
	return x + clock + zone
}

func ofxEscape(s string) string {
	s = strings.ReplaceAll(s, "&", "&amp;")
	s = strings.ReplaceAll(s, "<", "&lt;")
	return strings.ReplaceAll(s, ">", "&gt;")
}

// amount spells units at the decimals.
func ofxAmount(r *rand.Rand, v *big.Int, decs int) string {
	x := dec(v, decs)
	if strings.Contains(x, ".") && r.IntN(3) == 0 {
		x = strings.TrimSuffix(strings.TrimRight(x, "0"), ".")
	}
	if strings.Contains(x, ".") && r.IntN(6) == 0 {
		x += "0"
	}
	if strings.Contains(x, ".") && r.IntN(8) == 0 {
		x = strings.Replace(x, ".", ",", 1)
	}
	if v.Sign() >= 0 && r.IntN(8) == 0 {
		x = "+" + x
	}
	return x
}

// render writes the file. With s.bmo the file carries BMO's flaws.
func renderOfx(r *rand.Rand, l *Ledger, comOf map[string]string, stmts []*ofxStmt, s ofxStyle) string {
	var b strings.Builder
	ln := func(x string) { b.WriteString(x + "\n") }
	el := func(n, v string) {
		if s.closed {
			ln("<" + n + ">" + v + "</" + n + ">")
		} else {
			if r.IntN(4) == 0 {
				v += strings.Repeat(" ", r.IntN(40))
			}
			ln("<" + n + ">" + v)
		}
		if r.IntN(8) == 0 {
			ln("")
		}
	}
	if s.bmo {
		for i := r.IntN(3); i > 0; i-- {
			ln("")
		}
	}
	if s.xml {
		ln(`<?xml version="1.0" encoding="UTF-8" standalone="no"?>`)
		ln(`<?OFX OFXHEADER="200" VERSION="211" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>`)
	} else {
		for _, h := range []string{"OFXHEADER:100", "DATA:OFXSGML", "VERSION:102", "SECURITY:NONE", "ENCODING:USASCII", "CHARSET:1252", "COMPRESSION:NONE", "OLDFILEUID:NONE", "NEWFILEUID:NONE"} {
			ln(h)
		}
		if !s.bmo || r.IntN(2) == 0 {
			ln("")
		}
	}
	ln("<OFX>")
	flaw := func() {
		if s.bmo {
			ln(pick(r, []string{"<BANKMSGSET><BANKMSGSETV1>", "<BANKMSGSETV1><BANKMSGSET>"}))
		}
	}
	ln("<SIGNONMSGSRSV1>")
	ln("<SONRS>")
	status := func() {
		ln("<STATUS>")
		el("CODE", "0")
		el("SEVERITY", "INFO")
		ln("</STATUS>")
	}
	status()
	el("DTSERVER", "20190127181602.926[-5:EDT]")
	el("LANGUAGE", "ENG")
	ln("</SONRS>")
	ln("</SIGNONMSGSRSV1>")
	list := func(x *ofxStmt) {
		if x.noList {
			return
		}
		ln("<BANKTRANLIST>")
		el("DTSTART", "20190101")
		el("DTEND", "20191231")
		for i, t := range x.txns {
			ln("<STMTTRN>")
			el("TRNTYPE", pick(r, []string{"DEBIT", "CREDIT", "OTHER", "POS", "CHECK"}))
			el("DTPOSTED", s.date(r, t.d))
			el("TRNAMT", ofxAmount(r, t.amt, l.Coms[comOf[x.id]].Dec))
			el("FITID", fmt.Sprintf("%d%d", 20190101, i))
			if r.IntN(4) == 0 {
				el("CHECKNUM", "272")
			}
			if t.name != "" {
				el("NAME", ofxEscape(t.name))
			}
			if t.memo != "" {
				el("MEMO", ofxEscape(t.memo))
			}
			ln("</STMTTRN>")
		}
		ln("</BANKTRANLIST>")
	}
	bal := func(x *ofxStmt) {
		ln("<LEDGERBAL>")
		el("BALAMT", ofxAmount(r, x.bal, l.Coms[comOf[x.id]].Dec))
		el("DTASOF", "20190127181602.926[-5:EDT]")
		ln("</LEDGERBAL>")
		if r.IntN(2) == 0 {
			ln("<AVAILBAL>")
			el("BALAMT", "999.99")
			el("DTASOF", "20190127")
			ln("</AVAILBAL>")
		}
	}
	var bank, cc []*ofxStmt
	for _, x := range stmts {
		if x.cc {
			cc = append(cc, x)
		} else {
			bank = append(bank, x)
		}
	}
	if len(bank) > 0 || s.bmo {
		if len(bank) > 0 {
			flaw()
			ln("<BANKMSGSRSV1>")
		}
		for _, x := range bank {
			ln("<STMTTRNRS>")
			el("TRNUID", "0")
			status()
			ln("<STMTRS>")
			el("CURDEF", "CAD")
			ln("<BANKACCTFROM>")
			el("BANKID", "200000100")
			el("ACCTID", x.id)
			el("ACCTTYPE", pick(r, []string{"CHECKING", "SAVINGS"}))
			ln("</BANKACCTFROM>")
			list(x)
			bal(x)
			ln("</STMTRS>")
			ln("</STMTTRNRS>")
		}
		if len(bank) > 0 {
			ln("</BANKMSGSRSV1>")
			flaw()
		}
	}
	if len(cc) > 0 {
		ln("<CREDITCARDMSGSRSV1>")
		for _, x := range cc {
			ln("<CCSTMTTRNRS>")
			el("TRNUID", "0")
			status()
			ln("<CCSTMTRS>")
			el("CURDEF", "CAD")
			ln("<CCACCTFROM>")
			el("ACCTID", x.id)
			ln("</CCACCTFROM>")
			list(x)
			bal(x)
			ln("</CCSTMTRS>")
			ln("</CCSTMTTRNRS>")
		}
		ln("</CREDITCARDMSGSRSV1>")
	}
	ln("</OFX>")
	out := b.String()
	if s.noEnd {
		out = strings.TrimRight(out, "\n")
	}
	if s.crlf {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	return out
}

// ofxBase is a ledger with accounts that have ofx ids, and rules for some of them.
type ofxBase struct {
	l     *Ledger
	ids   []string
	accOf map[string]string
	comOf map[string]string
	rf    *ruleFile
	none  bool // no rules file
}

// nearId is an id that resembles one in use.
func (t *T) nearId(used map[string]bool, otherwise string, valid *regexp.Regexp) string {
	r := t.R
	var ids []string
	for id := range used {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for k := 0; k < 6 && len(ids) > 0; k++ {
		id := pick(r, ids)
		switch r.IntN(6) {
		case 0:
			id = strings.ToLower(id)
		case 1:
			id = strings.ToUpper(id)
		case 2:
			id = "0" + id
		case 3:
			id = id[1:]
		case 4:
			id += "0"
		case 5:
			id = id[:len(id)-1]
		}
		if !used[id] && valid.MatchString(id) {
			return id
		}
	}
	if used[otherwise] {
		return ""
	}
	return otherwise
}

func (t *T) genOfxBase() *ofxBase {
	r := t.R
	l := t.genImportBase()
	b := &ofxBase{l: l, accOf: map[string]string{}, comOf: map[string]string{}}
	groups := map[string]string{}
	for i := 1 + r.IntN(4); i > 0; i-- {
		id := pick(r, []string{"389249328477983", "392843029797099", "0042", "77", "479347938749398", "1"})
		if b.accOf[id] != "" {
			continue
		}
		a := pick(r, l.Names)
		switch k := r.IntN(4); {
		case k == 0 && l.Accs[a].OfxId == "":
			l.Accs[a].OfxId = id
		default:
			groups[id] = a
			if k > 1 && l.Accs[a].OfxId == "" {
				l.Accs[a].OfxId = id
			}
		}
		b.ids = append(b.ids, id)
		b.accOf[id], b.comOf[id] = a, l.com(a)
	}
	if r.IntN(3) == 0 { // accounts of others, with ids almost the same
		used := map[string]bool{}
		for _, id := range b.ids {
			used[id] = true
		}
		for i := 1 + r.IntN(2); i > 0; i-- {
			if a := l.Accs[pick(r, l.Names)]; a.OfxId == "" {
				a.OfxId = t.nearId(used, "4711", regexp.MustCompile(`^\d+$`))
				used[a.OfxId] = true
			}
		}
	}
	b.rf = t.genRules(l, groups)
	return b
}

func (b *ofxBase) dropRules() {
	b.none = true
	for i := 0; i < len(b.ids); i++ {
		id := b.ids[i]
		a := b.l.Accs[b.accOf[id]]
		if a.OfxId == "" {
			a.OfxId = id
		}
		if a.OfxId != id {
			b.ids = append(b.ids[:i:i], b.ids[i+1:]...)
			i--
		}
	}
	b.rf = &ruleFile{}
}

func (b *ofxBase) genStmt(r *rand.Rand, start Day, span int, few bool) *ofxStmt {
	x := &ofxStmt{id: pick(r, b.ids), cc: r.IntN(3) == 0, bal: genAmt(r, &GenOpt{Big: .03})}
	n := r.IntN(9)
	if r.IntN(12) == 0 {
		n, x.noList = 0, r.IntN(2) == 0
	}
	for ; n > 0; n-- {
		t := &ofxTxn{d: start + Day(r.IntN(span)), name: pick(r, rulePayees)}
		if few {
			t.amt = big.NewInt(int64(pick(r, []int{100, -100, 250, 100, -5, 7, 0})))
		} else {
			t.amt = genAmt(r, &GenOpt{Big: .03})
		}
		if r.IntN(12) == 0 {
			t.name += pick(r, []string{" & SONS", " <b>", "&co"})
		}
		if r.IntN(12) == 0 {
			t.name = ""
		}
		if r.IntN(4) == 0 {
			t.memo = pick(r, []string{"memo", "GAS", "COSTCO", "ref 12", "/INTERNET"})
		}
		if !x.cc && r.IntN(8) == 0 {
			t.name += "   " + pick(r, rulePayees)
		}
		x.txns = append(x.txns, t)
	}
	return x
}

func (x *ofxStmt) payee(t *ofxTxn) string {
	p := t.name
	if !x.cc {
		p = strings.TrimSpace(t.name) + t.memo
	}
	return strings.Join(strings.Fields(p), " ")
}

// imported is a transaction as it should be imported.
type imported struct {
	importTxn
	ordered []string // postings in order, without assertions
	asserts map[string]string
}

// convert says what the transactions of the statement become.
func (b *ofxBase) convert(x *ofxStmt) (out []*imported, drops, ruled int) {
	for i, t := range x.txns {
		p := x.payee(t)
		to := "Unbalanced"
		rule := b.rf.byId(x.id).decide(p)
		if rule != nil {
			to = rule.acc
			ruled++
		}
		if to == "--" {
			drops++
			continue
		}
		c, from := b.comOf[x.id], b.accOf[x.id]
		m := &imported{importTxn: importTxn{d: t.d, desc: p}, asserts: map[string]string{}}
		if rule != nil {
			m.notes = rule.notes
		}
		neg := new(big.Int).Neg(t.amt)
		fp, tp := fmt.Sprintf("%s %s %s", from, t.amt, c), fmt.Sprintf("%s %s %s", to, neg, c)
		m.ordered = []string{fp, tp}
		if t.amt.Sign() < 0 {
			m.ordered = []string{tp, fp}
		}
		if !x.cc && i == len(x.txns)-1 {
			a := fmt.Sprintf(" = %s %s", x.bal, c)
			m.posts = []string{fp + a, tp}
			m.asserts[fp] = a
		} else {
			m.posts = []string{fp, tp}
		}
		out = append(out, m)
	}
	return out, drops, ruled
}
