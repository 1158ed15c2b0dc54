package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

func init() {
	register(&Check{ID: "C05", Quick: 2000, Thor: 50000, Case: c05,
		Rule: "random ledgers whose accounts share one commodity (postings in others allowed), random aggregation (-w -m -q -y, -bp -bt, -r -g -c, filters) shown as text, csv and json; distinct by output, non-trivial if the table has at least two data rows"})
}

func (d Day) period(k byte) Day {
	y, m, _ := d.ymd()
	switch k {
	case 'w':
		return d - Day(time.Unix(int64(d)*86400, 0).UTC().Weekday())
	case 'm':
		return mkDay(y, m, 1)
	case 'q':
		return mkDay(y, (m-1)/3*3+1, 1)
	case 'y':
		return mkDay(y, 1, 1)
	}
	return 0
}

func periodLabel(d Day, k byte) string {
	y, m, _ := d.ymd()
	switch k {
	case 'w':
		return d.String()
	case 'm', 'q':
		return fmt.Sprintf("%04d/%02d", y, m)
	}
	return fmt.Sprintf("%04d", y)
}

func tagCategory(p *Post) string {
	m := tagsOf(p.T.Notes)
	for k, v := range tagsOf(p.Notes) {
		m[k] = v
	}
	if len(m) == 0 {
		return "<no-tags>"
	}
	var s []string
	for k, v := range m {
		if v != "" {
			k += ":" + v
		}
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

type aggKey struct {
	d   Day
	cat string
}

type aggTable struct {
	keys  []aggKey
	accs  []string // candidate columns by decreasing |total|
	tot   map[string]*big.Int
	cells map[string]map[aggKey]*big.Int
}

func (l *Ledger) aggregate(acc string, rec bool, period, cat byte, sel func(*Post) bool) *aggTable {
	a := &aggTable{tot: map[string]*big.Int{}, cells: map[string]map[aggKey]*big.Int{}}
	seen := map[aggKey]bool{}
	c := l.com(acc)
	for _, n := range l.subtree(acc) {
		for _, p := range l.postings(n) {
			if !sel(p) {
				continue
			}
			k := aggKey{d: p.T.D.period(period)}
			switch cat {
			case 'p':
				k.cat = p.T.Desc
			case 't':
				k.cat = tagCategory(p)
			}
			if !seen[k] {
				seen[k] = true
				a.keys = append(a.keys, k)
			}
			for m := n; ; {
				if a.cells[m] == nil {
					a.cells[m] = map[aggKey]*big.Int{}
					a.tot[m] = new(big.Int)
					a.accs = append(a.accs, m)
				}
				if m == n || rec {
					if a.cells[m][k] == nil {
						a.cells[m][k] = new(big.Int)
					}
					v := l.addIn(new(big.Int), c, p.Q, p.C)
					a.cells[m][k].Add(a.cells[m][k], v)
					a.tot[m].Add(a.tot[m], v)
				}
				if m == acc {
					break
				}
				if q := parentOf(m); q == "" {
					m = "Root"
				} else {
					m = q
				}
			}
		}
	}
	sort.Slice(a.keys, func(i, j int) bool {
		x, y := a.keys[i], a.keys[j]
		return x.d < y.d || x.d == y.d && x.cat < y.cat
	})
	sort.SliceStable(a.accs, func(i, j int) bool { return a.tot[a.accs[i]].CmpAbs(a.tot[a.accs[j]]) > 0 })
	return a
}

func c05(t *T) {
	o := defOpt(t)
	o.Uniform = t.N(4) > 0
	o.PerTree = true
	if t.N(25) == 0 {
		o.Accounts = 45 + t.N(20)
	}
	o.Foreign = 0.15 * float64(t.N(2))
	o.Odd = t.Chance(.4)
	o.Tags = .6
	o.Notes = .4
	o.SameDay = .4
	o.FewPay = t.Chance(.7)
	if t.N(3) == 0 {
		o.Days = 40
	}
	l := t.gen(&o)
	db := t.writeDB(l, "db", Style{Fancy: t.Chance(.5)})
	shared := func(acc string) bool {
		for _, n := range l.subtree(acc) {
			if l.com(n) != l.com(acc) {
				return false
			}
		}
		return true
	}
	for k := 0; k < 5; k++ {
		f := &Filter{}
		if k > 0 {
			f = t.genFilter(l, true)
		}
		acc := pick(t.R, l.allAccs())
		if t.N(3) == 0 {
			acc = pick(t.R, l.Names)
			if i := strings.IndexByte(acc, ':'); i >= 0 {
				acc = acc[:i]
			}
		}
		if !shared(acc) {
			continue
		}
		if l.com(acc) != l.Default {
			t.Count("in another commodity", 1)
		}
		rec := t.N(2) == 0
		var period, cat byte
		args := append([]string{"register"}, f.args()...)
		if t.N(5) > 0 {
			period = pick(t.R, []byte("wmqy"))
			args = append(args, "-"+string(period))
		}
		if period == 0 || t.N(3) == 0 {
			cat = pick(t.R, []byte("pt"))
			args = append(args, "-b"+string(cat))
		}
		cum := cat == 0 && t.N(3) == 0
		if cum {
			args = append(args, "-c")
		}
		if rec {
			args = append(args, "-r")
		}
		top := 5
		if t.N(2) == 0 {
			top = t.N(6)
			if t.N(5) == 0 {
				top = 6 + t.N(60)
			}
			args = append(args, "-g", strconv.Itoa(top))
		}
		max := 12
		if t.N(4) == 0 {
			max = 1 + t.N(40)
			args = append(args, "-l", strconv.Itoa(max))
		}
		tab := l.aggregate(acc, rec, period, cat, f.match)
		format := pick(t.R, []string{"text", "csv", "json"})
		var out []Res
		for _, fm := range []string{"text", "csv", "json"} {
			if fm != format && t.N(3) > 0 {
				continue
			}
			a := append(append([]string(nil), args...), "-o", fm, acc)
			if fm == "text" && t.N(2) == 0 {
				a = append(append([]string(nil), args...), acc)
			}
			r := t.Exec(db, "coin", a...)
			if r.Code != 0 {
				t.Fail("failed", "register failed on a valid ledger\n%s", r)
			}
			rows := t.readTable(r, fm, acc, l, len(tab.keys) == 0)
			t.checkTable(l, r, rows, tab, acc, period, cat, cum, top, max, fm)
			out = append(out, r)
			t.Count("cells", len(tab.keys)*mini(len(tab.accs), top+1))
			if len(tab.accs) > top {
				t.Count("tables_with_Other", 1)
			}
		}
		if len(tab.keys) > 1 {
			t.Nontrivial(out[0].Out)
			if t.I < 3 {
				t.Sample(map[string]any{"args": args, "account": acc, "rows": len(tab.keys), "columns": len(tab.accs), "output_head": clip1(out[0].Out, 400)})
			}
		}
	}
}

// readTable returns header and rows as trimmed strings.
func (t *T) readTable(r Res, format, acc string, l *Ledger, empty bool) (rows [][]string) {
	trim := func(x []string) []string {
		for i := range x {
			x[i] = strings.TrimSpace(x[i])
		}
		return x
	}
	switch format {
	case "csv":
		rd := csv.NewReader(strings.NewReader(r.Out))
		rd.FieldsPerRecord = -1
		all, err := rd.ReadAll()
		if err != nil {
			t.Fail("csv", "bad csv: %v\n%s", err, r)
		}
		for _, x := range all {
			rows = append(rows, trim(x))
		}
	case "json":
		d := json.NewDecoder(strings.NewReader(r.Out))
		for d.More() {
			var x []string
			if err := d.Decode(&x); err != nil {
				t.Fail("json", "bad json: %v\n%s", err, r)
			}
			rows = append(rows, trim(x))
		}
	default:
		ls := lines(r.Out)
		if len(ls) == 0 || ls[0] != acc+" "+l.com(acc) {
			t.Fail("header", "expected header %q\n%s", acc+" "+l.com(acc), r)
		}
		for _, x := range ls[1:] {
			rows = append(rows, fields(x))
		}
	}
	return rows
}

func (t *T) checkTable(l *Ledger, r Res, rows [][]string, tab *aggTable, acc string, period, cat byte, cum bool, top, max int, format string) {
	if len(tab.keys) == 0 {
		if len(rows) > 1 {
			t.Fail("empty", "nothing is selected but rows are shown\n%s", r)
		}
		return
	}
	lead := 0
	if period != 0 {
		lead++
	}
	if cat != 0 {
		lead++
	}
	n := len(tab.accs)
	cols := n
	if n > top {
		cols = top + 1
	}
	if len(rows) != len(tab.keys)+1 {
		var ks []string
		for _, k := range tab.keys {
			ks = append(ks, periodLabel(k.d, period)+" "+k.cat)
		}
		t.Fail("rows", "%d rows, expected a header and %d: %q\n%s", len(rows), len(tab.keys), ks, r)
	}
	for _, row := range rows {
		if len(row) != lead+cols {
			t.Fail("columns", "row %q has %d columns, expected %d (%d accounts, top %d)\n%s", row, len(row)-lead, cols, n, top, r)
		}
	}
	// observed columns, as signed series
	c := l.com(acc)
	obs := make([][]*big.Int, cols)
	for i, k := range tab.keys {
		row := rows[i+1]
		x := 0
		if period != 0 {
			if row[x] != periodLabel(k.d, period) {
				t.Fail("period", "row %d has period %q, expected %q\n%s", i, row[x], periodLabel(k.d, period), r)
			}
			x++
		}
		if cat != 0 && row[x] != strings.TrimSpace(k.cat) {
			t.Fail("category", "row %d has category %q, expected %q\n%s", i, row[x], k.cat, r)
		}
		for j := 0; j < cols; j++ {
			s := row[lead+j]
			if s == "" || s == "<nil>" {
				s = l.amt(new(big.Int), c)
			}
			s, _, _ = strings.Cut(s, " ")
			v, ok := parseDec(s, l.Coms[c].Dec)
			if !ok {
				t.Fail("amount", "row %d column %d: %q is not an amount of %s\n%s", i, j, row[lead+j], c, r)
			}
			obs[j] = append(obs[j], v)
		}
	}
	series := func(get func(k aggKey) *big.Int) (out []*big.Int) {
		sum := new(big.Int)
		for _, k := range tab.keys {
			v := get(k)
			if v == nil {
				v = new(big.Int)
			}
			if cum {
				sum = new(big.Int).Add(sum, v)
				v = sum
			}
			out = append(out, v)
		}
		return
	}
	eq := func(a, b []*big.Int) bool {
		for i := range a {
			if a[i].Cmp(b[i]) != 0 {
				return false
			}
		}
		return true
	}
	used := map[string]bool{}
	named := cols
	if n > top {
		named = top
	}
	deepest := -1
	var assign func(j int) bool
	assign = func(j int) bool {
		if j == named {
			return true
		}
		if j > deepest {
			deepest = j
		}
		want := tab.tot[tab.accs[j]]
		for _, a := range tab.accs {
			if used[a] || tab.tot[a].CmpAbs(want) != 0 || !t.colLabel(rows[0][lead+j], a, acc, max, format) {
				continue
			}
			if eq(obs[j], series(func(k aggKey) *big.Int { return tab.cells[a][k] })) {
				used[a] = true
				if assign(j + 1) {
					return true
				}
				delete(used, a)
			}
		}
		return false
	}
	if !assign(0) {
		j := deepest
		a := tab.accs[j]
		t.Fail("column", "column %d %q: expected e.g. account %s with %v, got %v\n%s", j, rows[0][lead+j], a, series(func(k aggKey) *big.Int { return tab.cells[a][k] }), obs[j], r)
	}
	if n > top {
		want := series(func(k aggKey) *big.Int {
			s := new(big.Int)
			for _, a := range tab.accs {
				if v := tab.cells[a][k]; v != nil && !used[a] {
					s.Add(s, v)
				}
			}
			return s
		})
		if rows[0][lead+top] != "Other" {
			t.Fail("other-label", "last column is %q, expected Other\n%s", rows[0][lead+top], r)
		}
		if !eq(obs[top], want) {
			t.Fail("other", "column Other is %v, expected %v\n%s", obs[top], want, r)
		}
	}
}

func (t *T) colLabel(got, a, acc string, max int, format string) bool {
	if a == acc {
		return got == baseName(a) || otherOK(got, a, acc, max) || labelOK(got, baseName(a), max)
	}
	return otherOK(got, a, acc, max)
}
