package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C04", Quick: 2500, Thor: 60000, Case: c04,
		Rule: "random ledgers with several postings a day, split transactions, foreign amounts, assertions and notes; random register invocations (-r -b -e -p -t with and without !, -n, -f, -l); distinct by output, non-trivial if at least two rows are listed"})
}

// labelOK tells if got is an acceptable shortened spelling of name in at most max characters.
func labelOK(got, name string, max int) bool {
	if len(name) <= max {
		return got == name
	}
	if len(got) > len(name) {
		return false
	}
	g, n := strings.Split(got, ":"), strings.Split(name, ":")
	if len(g) != len(n) {
		return false
	}
	for i := range g {
		if !strings.HasPrefix(n[i], g[i]) || g[i] == "" && n[i] != "" {
			return false
		}
	}
	return true
}

// otherOK tells if got is an acceptable label for account full, relative to prefix.
func otherOK(got, full, prefix string, max int) bool {
	if labelOK(got, full, max) {
		return true
	}
	if rel, ok := strings.CutPrefix(full, prefix); ok {
		return labelOK(got, rel, max) || labelOK(got, strings.TrimPrefix(rel, ":"), max)
	}
	return false
}

// descOK: descriptions are cut by no rule we rely on: full or a prefix of at least 50 bytes.
func descOK(got, want string) bool { return got == strings.TrimSpace(want) }

// split4 splits a register row into n trimmed fields.
func (t *T) regRow(r Res, line string, n int) []string {
	f := fields(line)
	if len(f) != n {
		t.Fail("format", "row %q: expected %d fields\n%s", line, n, r)
	}
	return f
}

// selected lists the postings of a register, in the order of the report.
func (l *Ledger) selected(acc string, rec bool, sel func(*Post) bool) []*Post {
	accs := []string{acc}
	if rec {
		accs = l.subtree(acc)
	}
	var ps []*Post
	for _, a := range accs {
		for _, p := range l.postings(a) {
			if sel(p) {
				ps = append(ps, p)
			}
		}
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].T.D < ps[j].T.D })
	return ps
}

func c04(t *T) {
	o := defOpt(t)
	o.Foreign = 0.15 * float64(t.N(2))
	o.Odd = t.Chance(.4)
	o.Assert = .15 * float64(t.N(2))
	o.Wrong = .1
	o.SameDay = .5
	o.Dups = .1
	l := t.gen(&o)
	db := t.writeDB(l, "db", Style{Fancy: t.Chance(.5), Comments: t.Chance(.3)})
	for k := 0; k < 5; k++ {
		var f *Filter = &Filter{}
		if k > 0 {
			f = t.genFilter(l, true)
		}
		acc := pick(t.R, l.allAccs())
		rec := t.N(2) == 0
		max := 12
		args := append([]string{pick(t.R, []string{"register", "reg", "r"})}, f.args()...)
		if rec {
			args = append(args, "-r")
		}
		if t.N(4) == 0 {
			max = t.N(40)
			args = append(args, "-l", strconv.Itoa(max))
			if max == 0 {
				max = 15 // documented default of the listing
			}
		}
		notes, loc := t.N(4) == 0, t.N(4) == 0
		if notes {
			args = append(args, "-n")
		}
		if loc {
			args = append(args, "-f")
		}
		args = append(args, acc)
		ps := l.selected(acc, rec, f.match)
		r := t.Exec(db, "coin", args...)
		if r.Code != 0 {
			t.Fail("failed", "register failed on a valid ledger\n%s", r)
		}
		t.checkRegister(l, r, acc, rec, ps, max, notes, loc)
		t.Count("rows", len(ps))
		if len(ps) > 1 {
			t.Nontrivial(r.Out)
			if t.I < 3 {
				t.Sample(map[string]any{"args": args, "rows": len(ps), "output_head": clip1(r.Out, 400)})
			}
		}
	}
}

// isNoteLine recognizes the note lines of -n: indented and starting with a semicolon.
func isNoteLine(s string) bool {
	return strings.HasPrefix(s, " ") && strings.HasPrefix(strings.TrimLeft(s, " "), ";")
}

func (t *T) checkRegister(l *Ledger, r Res, acc string, rec bool, ps []*Post, max int, notes, loc bool) {
	got := lines(r.Out)
	if len(got) == 0 || got[0] != acc+" "+l.com(acc) {
		t.Fail("header", "expected header %q\n%s", acc+" "+l.com(acc), r)
	}
	got = got[1:]
	n := 5
	if rec {
		n++
	}
	if loc {
		n++
	}
	var rows []string
	var noteLines [][]string
	for _, g := range got {
		if notes && isNoteLine(g) {
			if len(rows) == 0 {
				t.Fail("notes", "note before the first row\n%s", r)
			}
			noteLines[len(rows)-1] = append(noteLines[len(rows)-1], strings.TrimLeft(strings.TrimLeft(g, " ")[1:], " "))
			continue
		}
		rows = append(rows, g)
		noteLines = append(noteLines, nil)
	}
	if len(rows) != len(ps) {
		t.Fail("rows", "register lists %d postings, expected %d\n%s", len(rows), len(ps), r)
	}
	c := l.com(acc)
	total := new(big.Int)
	// same-day rows of different accounts may come in any order; those of an account are in load order
	for i := 0; i < len(rows); {
		j := i
		for j < len(ps) && ps[j].T.D == ps[i].T.D {
			j++
		}
		cand := append([]*Post(nil), ps[i:j]...)
		for ; i < j; i++ {
			f := t.regRow(r, rows[i], n)
			if f[0] != ps[i].T.D.String() {
				t.Fail("order", "row %d has date %s, expected %s\n%s", i, f[0], ps[i].T.D, r)
			}
			found := -1
			var why string
			ahead := map[string]bool{} // accounts with an earlier posting of the day
			for k, p := range cand {
				if ahead[p.Acc] {
					continue
				}
				ahead[p.Acc] = true
				why = t.rowMismatch(l, f, p, acc, rec, max, loc, total)
				if why == "" && notes {
					var want []string
					for _, x := range append(append([]string(nil), p.Notes...), p.T.Notes...) {
						want = append(want, strings.TrimSpace(x))
					}
					var have []string
					for _, x := range noteLines[i] {
						have = append(have, strings.TrimSpace(x))
					}
					sort.Strings(want)
					sort.Strings(have)
					if strings.Join(want, "\n") != strings.Join(have, "\n") {
						why = fmt.Sprintf("notes %q, expected %q", have, want)
					}
				}
				if why == "" {
					found = k
					break
				}
			}
			if found < 0 {
				t.Fail("row", "row %d %q: %s (last of %d candidates that day)\n%s", i, rows[i], why, len(cand), r)
			}
			total = l.addIn(total, c, cand[found].Q, cand[found].C)
			cand = append(cand[:found], cand[found+1:]...)
		}
	}
}

func (t *T) rowMismatch(l *Ledger, f []string, p *Post, acc string, rec bool, max int, loc bool, total *big.Int) string {
	c := l.com(acc)
	if !descOK(f[1], p.T.Desc) {
		return fmt.Sprintf("payee %q, expected %q", f[1], p.T.Desc)
	}
	k := 2
	if rec {
		if !otherOK(f[k], p.Acc, acc, max) {
			return fmt.Sprintf("account %q, expected %q", f[k], p.Acc)
		}
		k++
	}
	if q := p.other(); q == nil {
		if f[k] != "" {
			return fmt.Sprintf("counter account %q of a single posting", f[k])
		}
	} else if !otherOK(f[k], q.Acc, acc, max) {
		return fmt.Sprintf("counter account %q, expected %q", f[k], q.Acc)
	}
	k++
	if want := l.amt(p.Q, p.C); f[k] != want {
		return fmt.Sprintf("quantity %q, expected %q", f[k], want)
	}
	k++
	tf := strings.Fields(f[k])
	tot := l.addIn(total, c, p.Q, p.C)
	if len(tf) != 2 || tf[0] != l.amt(tot, c) {
		return fmt.Sprintf("total %q, expected %q", f[k], l.amt(tot, c))
	}
	com, star := strings.CutSuffix(tf[1], "*")
	if star != (p.Assert != nil) {
		return fmt.Sprintf("assertion mark %v, expected %v", star, p.Assert != nil)
	}
	if !rec && com != c {
		return fmt.Sprintf("commodity %q, expected %q", com, c)
	}
	if loc {
		if want := fmt.Sprintf("%s:%d", p.T.File, p.T.Line); f[k+1] != want && f[k+1] != "."+strings.TrimPrefix(want, t.dir) {
			return fmt.Sprintf("location %q, expected %q", f[k+1], want)
		}
	}
	return ""
}
