package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/mkobetic/coin"
)

func init() {
	register(&Check{ID: "C09", Quick: 60000, Thor: 3000000, Case: c09,
		Rule: "random commodity precisions 0..12 (sometimes up to 60) and amounts of 1 to 70 digits with any number of written decimals, through the exported amount functions against exact rationals, and every 100th case through coin format/balance/register; distinct by operands, non-trivial if the amount is not zero"})
}

func ten(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// units of a rational at a precision, dropping the rest toward zero
func units(r *big.Rat, dec int) *big.Int {
	n := new(big.Int).Mul(r.Num(), ten(dec))
	return n.Quo(n, r.Denom())
}

func ratText(u *big.Int, dec int) string {
	s := new(big.Int).Abs(u).String()
	for len(s) <= dec {
		s = "0" + s
	}
	if dec > 0 {
		s = s[:len(s)-dec] + "." + s[len(s)-dec:]
	}
	if u.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func (t *T) digits(max int) string {
	n := 1 + t.N(6)
	if t.N(4) == 0 {
		n = 1 + t.N(max)
	}
	var b strings.Builder
	mode := t.N(5)
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			b.WriteByte('9')
		case 1:
			b.WriteByte('0')
		case 2:
			b.WriteByte(pick(t.R, []byte("05")))
		default:
			b.WriteByte(byte('0' + t.N(10)))
		}
	}
	return b.String()
}

func (t *T) amountText() string {
	s := t.digits(70)
	if t.N(3) > 0 {
		s += "." + t.digits(30)
	}
	if t.N(2) == 0 {
		s = "-" + s
	}
	return s
}

func c09(t *T) {
	dec := t.N(13)
	if t.N(20) == 0 {
		dec = t.N(60)
	}
	c := &coin.Commodity{Id: "X" + fmt.Sprint(dec), Decimals: dec}
	txt := t.amountText()
	want, _ := new(big.Rat).SetString(txt)
	u := units(want, dec)
	a := coin.MustParseAmount(txt, c)
	eq := func(sig string, got *coin.Amount, want *big.Int, what string) {
		if got.Int.Cmp(want) != 0 {
			t.Fail(sig, "%s at %d decimals is %s units, expected %s", what, dec, got.Int, want)
		}
	}
	eq("parse", a, u, "parsing "+txt)
	// text
	s := ratText(u, dec)
	if u.Sign() == 0 {
		s = ratText(new(big.Int), dec)
	}
	printed := map[string]string{"String": a.String(), "%a": fmt.Sprintf("%a", a), "%.*f": fmt.Sprintf("%.*f", dec, a)}
	for k, g := range printed {
		if g != s {
			t.Fail("print", "%s (%d decimals) printed by %s as %q, expected %q", txt, dec, k, g, s)
		}
		eq("reparse", coin.MustParseAmount(g, c), u, "parsing the printed "+g)
	}
	var b strings.Builder
	if err := a.Write(&b, false); err != nil || b.String() != s+" "+c.Id {
		t.Fail("print", "%s written as %q, expected %q", txt, b.String(), s+" "+c.Id)
	}
	if w := a.Width(dec); w != len(s) {
		t.Fail("width", "width of %s is computed as %d", s, w)
	}
	for _, d := range []int{dec + 1, dec + 5} {
		if w := a.Width(d); w != len(ratText(new(big.Int).Mul(u, ten(d-dec)), d)) {
			t.Fail("width", "width of %s with %d decimals is computed as %d", s, d, w)
		}
	}
	wd := t.N(80)
	if g := fmt.Sprintf("%*a", wd, a); strings.TrimLeft(g, " ") != s || len(g) != max(wd, len(s)) {
		t.Fail("print", "%%%da of %s is %q", wd, s, g)
	}
	if g := fmt.Sprintf("%-*a", wd, a); strings.TrimRight(g, " ") != s || len(g) != max(wd, len(s)) {
		t.Fail("print", "%%-%da of %s is %q", wd, s, g)
	}
	js, err := json.Marshal(a)
	if err != nil || string(js) != fmt.Sprintf("%q", s+" "+c.Id) {
		t.Fail("json", "%s as json is %s (%v)", s, js, err)
	}
	// arithmetic
	txt2 := t.amountText()
	want2, _ := new(big.Rat).SetString(txt2)
	u2 := units(want2, dec)
	if t.N(8) == 0 {
		txt2, u2 = s, u
	}
	a2 := coin.MustParseAmount(txt2, c)
	unchanged := func(op string) {
		eq("aliasing", a, u, op+": operand "+txt)
		eq("aliasing", a2, u2, op+": operand "+txt2)
	}
	cp := a.Copy()
	if err := cp.AddIn(a2); err != nil {
		t.Fail("add", "adding %s to %s: %v", a2, a, err)
	}
	eq("add", cp, new(big.Int).Add(u, u2), s+" + "+txt2)
	unchanged("AddIn")
	neg := a.Negated()
	eq("negate", neg, new(big.Int).Neg(u), "negated "+s)
	unchanged("Negated")
	if err := neg.AddIn(a); err != nil || !neg.IsZero() {
		t.Fail("negate", "%s plus its negation is %s (%v)", s, neg, err)
	}
	unchanged("Negated+AddIn")
	dec2 := t.N(9)
	c2 := &coin.Commodity{Id: "Y", Decimals: dec2}
	w3, _ := new(big.Rat).SetString(txt2)
	u3 := units(w3, dec2)
	a3 := coin.MustParseAmount(txt2, c2)
	eq("parse", a3, u3, "parsing "+txt2)
	prod := new(big.Int).Mul(u, u3)
	prod.Quo(prod, ten(dec2))
	m := a.Times(a3)
	eq("times", m, prod, fmt.Sprintf("%s * %s", s, a3))
	if m.Commodity != c {
		t.Fail("times", "product is in %s", m.Commodity.Id)
	}
	unchanged("Times")
	cmp := u.Cmp(u2)
	if g := a.Cmp(a2); g != cmp || a.IsEqual(a2) != (cmp == 0) || a.IsLessThan(a2) != (cmp < 0) || a.IsMoreThan(a2) != (cmp > 0) {
		t.Fail("cmp", "comparing %s with %s: %d", a, a2, g)
	}
	cm := u.CmpAbs(u2)
	if a.IsBigger(a2) != (cm > 0) || a.IsSmaller(a2) != (cm < 0) || a.CmpMagnitude(a2) != cm {
		t.Fail("cmp", "comparing magnitudes of %s with %s", a, a2)
	}
	unchanged("comparison")
	if mg := a.Magnitude(); mg.CmpAbs(u) != 0 || mg.Sign() < 0 {
		t.Fail("cmp", "magnitude of %s is %s", a, mg)
	}
	unchanged("Magnitude")
	if a.IsZero() != (u.Sign() == 0) {
		t.Fail("zero", "IsZero of %s", a)
	}
	// comparison with another precision
	x, y := new(big.Int).Mul(u, ten(dec2)), new(big.Int).Mul(u3, ten(dec))
	if g := a.Cmp(a3); g != x.Cmp(y) || a.IsEqual(a3) != (x.Cmp(y) == 0) || a3.Cmp(a) != -g {
		t.Fail("cmp", "comparing %s (%d decimals) with %s (%d decimals): %d", a, dec, a3, dec2, g)
	}
	if g := a.CmpMagnitude(a3); g != x.CmpAbs(y) || a.IsBigger(a3) != (g > 0) || a.IsSmaller(a3) != (g < 0) {
		t.Fail("cmp", "comparing magnitudes of %s (%d decimals) and %s (%d decimals): %d", a, dec, a3, dec2, g)
	}
	unchanged("comparison")
	// fractions
	num, _ := new(big.Int).SetString(t.digits(40), 10)
	if t.N(2) == 0 {
		num.Neg(num)
	}
	den := new(big.Int).SetInt64(int64(1 + t.N(1000)))
	if t.N(2) == 0 {
		den = ten(t.N(20))
	}
	fr := coin.NewAmountFrac(num, den, c)
	eq("fraction", fr, units(new(big.Rat).SetFrac(num, den), dec), fmt.Sprintf("%s/%s", num, den))
	if u.Sign() != 0 {
		t.Nontrivial(fmt.Sprint(dec, txt, txt2))
	}
	t.Count("operations", 30)
	if t.I < 3 {
		t.Sample(map[string]any{"decimals": dec, "text": txt, "printed": s, "times": txt2, "product": m.String()})
	}
	if t.I%100 == 0 {
		c09cli(t)
	}
}

// the same through the commands
func c09cli(t *T) {
	dec := t.N(10)
	if t.N(6) == 0 {
		dec = t.N(25)
	}
	format := "1"
	if dec > 0 {
		format += "." + strings.Repeat("0", dec)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "commodity CAD\n  format %s CAD\n\naccount A\naccount B\naccount C\n\n", format)
	sum := new(big.Int)
	type row struct{ a, b *big.Int }
	var rows []row
	n := 1 + t.N(6)
	for i := 0; i < n; i++ {
		x, y := t.amountText(), t.amountText()
		rx, _ := new(big.Rat).SetString(x)
		ry, _ := new(big.Rat).SetString(y)
		ux, uy := units(rx, dec), units(ry, dec)
		fmt.Fprintf(&b, "2020/01/%02d t%d\n  A  %s CAD\n  B  %s CAD\n  C\n\n", i+1, i, x, y)
		rows = append(rows, row{ux, uy})
		sum.Add(sum, ux)
	}
	db := t.Path("db")
	t.Write("db/commodities.coin", b.String()[:strings.Index(b.String(), "account A")])
	t.Write("db/accounts.coin", "account A\naccount B\naccount C\n")
	t.Write("db/x.coin", b.String()[strings.Index(b.String(), "2020/"):])
	r := t.Exec(db, "coin", "format", t.Path("db/x.coin"))
	var got []string
	for _, ln := range lines(r.Out) {
		f := strings.Fields(ln)
		if len(f) == 3 && f[2] == "CAD" {
			got = append(got, f[0]+" "+f[1])
		}
	}
	var want []string
	for _, x := range rows {
		s := new(big.Int).Add(x.a, x.b)
		want = append(want, "A "+ratText(x.a, dec), "B "+ratText(x.b, dec), "C "+ratText(s.Neg(s), dec))
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		t.Fail("cli-format", "postings\n%s\nexpected\n%s\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"), r)
	}
	r = t.Exec(db, "coin", "balance", "-z", "A")
	f := strings.Fields(strings.ReplaceAll(r.Out, "|", " "))
	if len(f) < 2 || f[0] != ratText(sum, dec) || f[1] != f[0] {
		t.Fail("cli-balance", "expected %s\n%s", ratText(sum, dec), r)
	}
	r = t.Exec(db, "coin", "register", "A")
	ls := lines(r.Out)
	run := new(big.Int)
	if len(ls) != n+1 {
		t.Fail("cli-register", "%d lines\n%s", len(ls), r)
	}
	for i, x := range rows {
		run.Add(run, x.a)
		c := strings.Split(ls[i+1], "|")
		if len(c) != 5 || strings.TrimSpace(c[3]) != ratText(x.a, dec) || strings.Fields(c[4])[0] != ratText(run, dec) {
			t.Fail("cli-register", "row %d: expected %s and %s\n%s", i, ratText(x.a, dec), ratText(run, dec), r)
		}
	}
	t.Count("ledgers", 1)
}
