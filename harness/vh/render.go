package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"path/filepath"
	"sort"
	"strings"
)

// Rendering of a model ledger as coin files, in one of many equivalent spellings.

type Style struct {
	Fancy    bool // vary spacing, date forms, note placement, amount digits
	Comments bool // comment lines between entries
	Tight    bool // entries may follow each other without blank lines
}

type writer struct {
	strings.Builder
	line int // number of the next line
}

func newWriter() *writer { return &writer{line: 1} }

func (w *writer) ln(format string, args ...any) int {
	s := fmt.Sprintf(format, args...)
	at := w.line
	w.WriteString(s)
	w.WriteByte('\n')
	w.line += strings.Count(s, "\n") + 1
	return at
}

func sp(r *rand.Rand, s Style, min int) string {
	if !s.Fancy {
		return strings.Repeat(" ", min)
	}
	n := min + r.IntN(4)
	if r.IntN(12) == 0 {
		return strings.Repeat(" ", min-1) + "\t"
	}
	return strings.Repeat(" ", n)
}

func dateForm(r *rand.Rand, s Style, d Day) string {
	y, m, dd := d.ymd()
	if !s.Fancy {
		return d.String()
	}
	switch r.IntN(10) {
	case 0, 1:
		return fmt.Sprintf("%04d/%d/%d", y, m, dd)
	case 2:
		if dd == 1 {
			return fmt.Sprintf("%04d/%02d", y, m)
		}
	case 3:
		if dd == 1 && m == 1 {
			return fmt.Sprintf("%04d", y)
		}
	case 4:
		k := Day(r.IntN(60))
		return fmt.Sprintf("%s+%dd", d-k, k)
	case 5:
		k := Day(r.IntN(9))
		return fmt.Sprintf("%s-%dw", d+7*k, k)
	}
	return d.String()
}

// amtForm spells an amount: with all digits, or fewer or more zeros.
func (l *Ledger) amtForm(r *rand.Rand, s Style, v *big.Int, c string) string {
	n := l.Coms[c].Dec
	x := dec(v, n)
	if !s.Fancy {
		return x
	}
	switch r.IntN(6) {
	case 0:
		if strings.Contains(x, ".") {
			x = strings.TrimRight(x, "0")
			x = strings.TrimSuffix(x, ".")
		}
	case 1:
		if n > 0 {
			x += strings.Repeat("0", 1+r.IntN(4))
		} else {
			x += "." + strings.Repeat("0", 1+r.IntN(3))
		}
	case 2:
		if x[0] == '-' {
			x = "-0" + x[1:]
		} else {
			x = "00" + x
		}
	}
	return x
}

// renderTxn writes a transaction and returns its line.
func (l *Ledger) renderTxn(w *writer, r *rand.Rand, s Style, t *Txn) {
	h := dateForm(r, s, t.D)
	if t.Code != "" {
		h += sp(r, s, 1) + "(" + t.Code + ")"
	}
	if t.Desc != "" {
		h += sp(r, s, 1) + t.Desc
	}
	notes := t.Notes
	if len(notes) > 0 && r.IntN(2) == 0 {
		h += pick(r, []string{" ; ", ";", " ;", "  ; "}) + notes[0]
		notes = notes[1:]
	} else if s.Fancy && r.IntN(6) == 0 {
		h += strings.Repeat(" ", 1+r.IntN(3))
	}
	t.Line = w.ln("%s", h)
	for _, n := range notes {
		w.ln("%s", sp(r, s, 2)+pick(r, []string{"; ", ";"})+n)
	}
	for _, p := range t.Posts {
		x := sp(r, s, 2)
		if p.Expr != "" {
			x += p.Expr
		} else {
			x += p.Acc
		}
		if !p.Elided {
			x += sp(r, s, 2) + l.amtForm(r, s, p.Q, p.C) + sp(r, s, 1) + p.C
			if p.Assert != nil {
				x += sp(r, s, 1) + "=" + sp(r, s, 1) + l.amtForm(r, s, p.Assert, p.AssertC) + sp(r, s, 1) + p.AssertC
			}
		}
		notes := p.Notes
		if len(notes) > 0 && r.IntN(2) == 0 {
			x += pick(r, []string{" ; ", " ;", ";", "   ; "}) + notes[0]
			notes = notes[1:]
		} else if s.Fancy && r.IntN(8) == 0 {
			x += strings.Repeat(" ", 1+r.IntN(3))
		}
		w.ln("%s", x)
		for _, n := range notes {
			w.ln("%s", sp(r, s, 2)+pick(r, []string{"; ", ";"})+n)
		}
	}
}

func (l *Ledger) renderCom(w *writer, c *Com) {
	c.Line = w.ln("commodity %s", c.Id)
	if c.Name != "" {
		w.ln("  note %s", c.Name)
	}
	w.ln("  format %s %s", dec(pow10(c.Dec), c.Dec), c.Id)
	if c.Symbol != "" {
		w.ln("  symbol %s", c.Symbol)
	}
	if c.NoMarket {
		w.ln("  nomarket")
	}
	if c.Id == l.Default && c.Id != "CAD" {
		w.ln("  default")
	}
}

func (l *Ledger) renderAcc(w *writer, r *rand.Rand, a *Acc) {
	a.Line = w.ln("account %s", a.Full)
	if a.Desc != "" {
		w.ln("  note %s", a.Desc)
	}
	if a.Com != l.Default || r.IntN(2) == 0 {
		w.ln("  commodity %s", a.Com)
	}
	if a.Closed != nil {
		w.ln("  closed %s", *a.Closed)
	}
	if a.BankId != "" {
		w.ln("  ofx_bankid %s", a.BankId)
	}
	if a.OfxId != "" {
		w.ln("  ofx_acctid %s", a.OfxId)
	}
	if a.CsvId != "" {
		w.ln("  csv_acctid %s", a.CsvId)
	}
}

func (l *Ledger) renderPrice(w *writer, r *rand.Rand, s Style, p *Price) {
	p.Line = w.ln("P %s%s%s%s%s %s", dateForm(r, s, p.D), sp(r, s, 1), p.Com, sp(r, s, 1), l.amtForm(r, s, p.V, p.Cur), p.Cur)
}

func (w *writer) sep(r *rand.Rand, s Style) {
	if !(s.Tight && r.IntN(2) == 0) {
		w.ln("")
		if s.Fancy && r.IntN(8) == 0 {
			w.ln("%s", strings.Repeat(" ", r.IntN(3)))
		}
	}
	if s.Comments && r.IntN(4) == 0 {
		w.ln("%s", pick(r, []string{"; a comment", "# comment 2020/01/01 Foo", "* account X", "|P 2020/01/01 A 1 B", "% nothing", ";  Assets  10 CAD"}))
		if r.IntN(2) == 0 {
			w.ln("")
		}
	}
}

func txnFile(i int) string { return fmt.Sprintf("t%02d.coin", i) }

// writeDB renders the ledger into dir (relative to the case directory): commodities.coin, accounts.coin, prices, t*.coin.
func (t *T) writeDB(l *Ledger, dir string, s Style) string {
	r := t.R
	w := newWriter()
	ids := append([]string(nil), l.ComIds...)
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	cf := filepath.Join(t.dir, dir, "commodities.coin")
	for _, id := range ids {
		l.Coms[id].File = cf
		l.renderCom(w, l.Coms[id])
		w.sep(r, s)
	}
	t.Write(filepath.Join(dir, "commodities.coin"), w.String())
	w = newWriter()
	af := filepath.Join(t.dir, dir, "accounts.coin")
	names := append([]string(nil), l.Names...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, n := range names {
		l.Accs[n].File = af
		l.renderAcc(w, r, l.Accs[n])
		w.sep(r, s)
	}
	t.Write(filepath.Join(dir, "accounts.coin"), w.String())
	if len(l.Prices) > 0 {
		fn := pick(r, []string{"prices.coin", "p.prices"})
		w = newWriter()
		for _, p := range l.Prices {
			p.File = filepath.Join(t.dir, dir, fn)
			l.renderPrice(w, r, s, p)
			if r.IntN(4) == 0 {
				w.sep(r, s)
			}
		}
		t.Write(filepath.Join(dir, fn), w.String())
	}
	t.writeTxns(l, dir, s)
	return filepath.Join(t.dir, dir)
}

func (t *T) writeTxns(l *Ledger, dir string, s Style) {
	byFile := map[int][]*Txn{}
	for _, tx := range l.loaded() {
		byFile[tx.Home] = append(byFile[tx.Home], tx)
	}
	var homes []int
	for h := range byFile {
		homes = append(homes, h)
	}
	sort.Ints(homes)
	for _, h := range homes {
		w := newWriter()
		if s.Comments && t.N(3) == 0 {
			w.ln("; file %d", h)
			w.ln("")
		}
		fn := txnFile(h)
		for _, tx := range byFile[h] {
			tx.File = filepath.Join(t.dir, dir, fn)
			l.renderTxn(w, t.R, s, tx)
			w.sep(t.R, s)
		}
		t.Write(filepath.Join(dir, fn), w.String())
	}
}
