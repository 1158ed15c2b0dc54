package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/mkobetic/coin"
)

func init() {
	register(&Check{ID: "C10", Quick: 40000, Thor: 2000000, Case: c10,
		Rule: "random date entries of every documented form, with offsets, leap days, month ends and dates that do not exist, read with a random current date (the library's cached one) through MustParseDate and the option type, and every 40th case on the command line (-b, -e) and in a ledger file with the real current date; distinct by text and current date, non-trivial always"})
}

var todayMu sync.Mutex // the current date is a global of the library

type ymdT struct{ y, m, d int }

func civil(t time.Time) ymdT { y, m, d := t.Date(); return ymdT{y, int(m), d} }

func dim(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// days since an epoch, by counting
func (a ymdT) days() int {
	n := a.d
	for m := 1; m < a.m; m++ {
		n += dim(a.y, m)
	}
	y := a.y - 1
	return n + y*365 + y/4 - y/100 + y/400
}

func (a ymdT) addDays(n int) ymdT {
	for ; n > 0; n-- {
		if a.d++; a.d > dim(a.y, a.m) {
			a.d = 1
			if a.m++; a.m > 12 {
				a.m, a.y = 1, a.y+1
			}
		}
	}
	for ; n < 0; n++ {
		if a.d--; a.d == 0 {
			if a.m--; a.m == 0 {
				a.m, a.y = 12, a.y-1
			}
			a.d = dim(a.y, a.m)
		}
	}
	return a
}

func (a ymdT) valid() bool { return a.m >= 1 && a.m <= 12 && a.d >= 1 && a.d <= dim(a.y, a.m) }

func (a ymdT) String() string { return fmt.Sprintf("%04d/%02d/%02d", a.y, a.m, a.d) }

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// meaning of an entry: the days it may denote (several if the text is ambiguous), none if it must be refused
func dateEntry(t *T, today ymdT) (text string, may []ymdT) {
	m, d := 1+t.N(12), 1+t.N(28)
	switch t.N(8) {
	case 0:
		d = 29 + t.N(3)
	case 1:
		m, d = 2, 28+t.N(3)
	case 2:
		if t.N(6) == 0 {
			m, d = t.N(15), t.N(40)
		}
	case 3: // close to the half year
		x := today.addDays(pick(t.R, []int{-184, -183, -182, 181, 182, 183, 184}))
		m, d = x.m, x.d
	}
	num := func(n int) string {
		if t.N(2) == 0 {
			return fmt.Sprintf("%02d", n)
		}
		return fmt.Sprint(n)
	}
	var base []ymdT
	form := t.N(7)
	switch form {
	case 0, 1:
		y := pick(t.R, []int{1900, 1970, 1999, 2000, 2004, 2019, 2020, 2024, 2100, today.y})
		if t.N(2) == 0 {
			y = 1900 + t.N(250)
		}
		text = fmt.Sprintf("%04d/%s/%s", y, num(m), num(d))
		base = []ymdT{{y, m, d}}
	case 2: // two digits
		yy := t.N(100)
		text = fmt.Sprintf("%02d/%s/%s", yy, num(m), num(d))
		best := -1
		for y := today.y - 150; y <= today.y+150; y++ {
			if y < 0 || y%100 != yy {
				continue
			}
			switch x := abs(y - today.y); {
			case best < 0 || x < best:
				best = x
				base = []ymdT{{y, m, d}}
			case x == best:
				base = append(base, ymdT{y, m, d})
			}
		}
	case 3, 4: // no year
		text = num(m) + "/" + num(d)
		best := -1
		for y := today.y - 1; y <= today.y+1; y++ {
			x := ymdT{y, m, d}
			if !x.valid() {
				continue
			}
			switch n := abs(x.days() - today.days()); {
			case best < 0 || n < best:
				best = n
				base = []ymdT{x}
			case n == best:
				base = append(base, x)
			}
		}
		if base == nil {
			if m == 2 && d == 29 { // no leap day within a year
				return dateEntry(t, today) // the closest such day is more than a year away: not specified
			}
		}
	case 5:
		y := 1900 + t.N(250)
		if t.N(2) == 0 {
			text = fmt.Sprintf("%04d", y)
			base = []ymdT{{y, 1, 1}}
		} else {
			text = fmt.Sprintf("%04d/%s", y, num(m))
			base = []ymdT{{y, m, 1}}
		}
	case 6:
		base = []ymdT{today}
	}
	for _, b := range base {
		if b.valid() {
			may = append(may, b)
		}
	}
	if len(may) != len(base) {
		may = nil // at best ambiguous
	}
	if form == 6 || t.N(3) == 0 {
		n := t.N(40)
		if t.N(4) == 0 {
			n = t.N(800)
		}
		neg := t.N(2) == 0
		unit := pick(t.R, []string{"d", "w", "m", "y"})
		if unit == "y" {
			n %= 90
		}
		sign := "+"
		k := n
		if neg {
			sign, k = "-", -n
		}
		text += fmt.Sprintf("%s%d%s", sign, n, unit)
		var out []ymdT
		for _, b := range may {
			switch unit {
			case "d":
				out = append(out, b.addDays(k))
			case "w":
				out = append(out, b.addDays(7*k))
			default:
				if unit == "y" {
					k *= 12
				}
				mm := b.y*12 + b.m - 1 + k
				x := ymdT{mm / 12, mm%12 + 1, b.d}
				if x.valid() {
					out = append(out, x)
				} else { // no such day in that month: its last day, or as many days into the next month
					last := dim(x.y, x.m)
					out = append(out, ymdT{x.y, x.m, last}, ymdT{x.y, x.m, last}.addDays(b.d-last))
				}
				if unit == "y" {
					k /= 12
				}
			}
		}
		may = out
	}
	return
}

func in(x ymdT, xs []ymdT) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func c10(t *T) {
	if t.I%40 == 0 {
		c10cli(t)
		return
	}
	today := ymdT{1950 + t.N(200), 1 + t.N(12), 1 + t.N(28)}
	switch t.N(6) {
	case 0:
		today = ymdT{today.y, 12, 28 + t.N(4)}
	case 1:
		today = ymdT{today.y, 1, 1 + t.N(4)}
	case 2:
		today = ymdT{2000 + 4*t.N(24), 2, 29}
	case 3:
		today.y = 2020 + t.N(12)
	}
	if !today.valid() {
		today.d = 28
	}
	text, may := dateEntry(t, today)
	var got, viaSet time.Time
	var panicked any
	var setErr error
	todayMu.Lock()
	oy, om, od := coin.Year, coin.Month, coin.Day
	coin.Year, coin.Month, coin.Day = today.y, time.Month(today.m), today.d
	func() {
		defer func() { panicked = recover() }()
		got = coin.MustParseDate(text)
	}()
	var dd coin.Date
	func() {
		defer func() {
			if e := recover(); e != nil {
				setErr = fmt.Errorf("panic %v", e)
			}
		}()
		setErr = dd.Set(text)
	}()
	coin.Year, coin.Month, coin.Day = oy, om, od
	todayMu.Unlock()
	viaSet = dd.Time
	if len(may) == 0 {
		if setErr == nil {
			t.Fail("accepted", "%q (today %v) is not a date but is read as %s", text, today, viaSet.Format("2006/01/02"))
		}
		t.Count("refused", 1)
		t.Nontrivial(text + today.String())
		return
	}
	if panicked != nil || setErr != nil {
		t.Fail("refused", "%q (today %v) denotes %v but is refused: %v %v", text, today, may, panicked, setErr)
	}
	if !in(civil(got), may) || civil(viaSet) != civil(got) {
		t.Fail("date", "%q (today %v) denotes %v, read as %s and as an option %s", text, today, may, got.Format("2006/01/02"), viaSet.Format("2006/01/02"))
	}
	// the printed date reads back as itself, whatever today is
	if s := dd.String(); civil(coin.MustParseDate(s)) != civil(viaSet) {
		t.Fail("print", "%q printed as %q does not read back", text, s)
	}
	t.Count("dates", 1)
	t.Nontrivial(text + today.String())
	if t.I < 3 {
		t.Sample(map[string]any{"today": today.String(), "text": text, "read": got.Format("2006/01/02")})
	}
}

func c10cli(t *T) {
	today := civil(time.Now().UTC())
	var b strings.Builder
	var want [][]ymdT
	var texts []string
	for i := 0; i < 12; i++ {
		text, may := dateEntry(t, today)
		if len(may) == 0 {
			continue
		}
		if text[0] == '+' || text[0] == '-' {
			continue
		}
		fmt.Fprintf(&b, "%s p%d\n  A  1 CAD\n  B  -1 CAD\n\n", text, len(want))
		want = append(want, may)
		texts = append(texts, text)
	}
	if len(want) == 0 {
		return
	}
	db := t.Path("db")
	t.Write("db/accounts.coin", "account A\naccount B\n")
	t.Write("db/commodities.coin", "commodity CAD\n  format 1.00 CAD\n")
	fn := t.Write("db/x.coin", b.String())
	r := t.Exec(db, "coin", "format", fn)
	if civil(time.Now().UTC()) != today {
		return // midnight
	}
	seen := 0
	var dates []ymdT
	byN := map[int]ymdT{}
	for _, ln := range lines(r.Out) {
		var y ymdT
		var n int
		if k, _ := fmt.Sscanf(ln, "%d/%d/%d p%d", &y.y, &y.m, &y.d, &n); k == 4 {
			seen++
			if n >= len(want) || !in(y, want[n]) {
				t.Fail("file", "%q denotes %v, format prints %s\n%s", texts[n], want[n], ln, r)
			}
			dates = append(dates, y)
			byN[n] = y
		}
	}
	if seen != len(want) || r.Code != 0 {
		t.Fail("file", "%d of %d transactions printed\n%s", seen, len(want), r)
	}
	// dates of options mean the same: -b TEXT -e TEXT+1d selects exactly the transactions of that day
	for n, text := range texts {
		if strings.ContainsAny(text, "+-") || t.N(3) > 0 {
			continue
		}
		r := t.Exec(db, "coin", "register", "-b", text, "-e", text+"+1d", "A")
		if civil(time.Now().UTC()) != today {
			return
		}
		k := 0
		for _, d := range dates {
			if d == byN[n] {
				k++
			}
		}
		rows := 0
		for _, ln := range lines(r.Out) {
			if strings.HasPrefix(ln, byN[n].String()+" ") {
				rows++
			} else if strings.Contains(ln, "|") {
				t.Fail("option", "-b %s -e %s+1d shows another day than %v\n%s", text, text, byN[n], r)
			}
		}
		if rows != k || r.Code != 0 {
			t.Fail("option", "-b %s -e %s+1d shows %d transactions, expected the %d of %v\n%s", text, text, rows, k, byN[n], r)
		}
		t.Count("options", 1)
	}
	// an offset alone is from today
	text, k := "", t.N(2000)-1000
	text = fmt.Sprintf("%+dd", k)
	x := today.addDays(k)
	rr := t.Exec(db, "coin", "register", "-b", text, "A")
	if civil(time.Now().UTC()) != today {
		return
	}
	cnt, exp := 0, 0
	for _, ln := range lines(rr.Out) {
		if strings.Contains(ln, "|") {
			cnt++
		}
	}
	for _, d := range dates {
		if d.days() >= x.days() {
			exp++
		}
	}
	if cnt != exp {
		t.Fail("option", "-b %s (%v) shows %d transactions, expected %d\n%s", text, x, cnt, exp, rr)
	}
	t.Nontrivial(b.String())
}
