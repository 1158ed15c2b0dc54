package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C13", Quick: 220, Thor: 5000, Case: c13,
		Rule: "each random ledger is written once plainly (four files) and once laid out at random over *.coin and *.prices files or transactions.coin/prices.coin with nested includes (relative, ../, glob, environment variables, from the working directory), comments, blank lines, CRLF, decoy files that must not be read; about 14 reports are compared byte for byte between the two (as multisets of rows where the order of one day's postings of different accounts may differ), and some repeated 3 times on each; an evaluation is one ledger with its layout, distinct by laid out content, non-trivial if at least one include was resolved or more than one file read"})
}

func sortedLines(s string) string {
	ls := strings.Split(s, "\n")
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

func c13(t *T) {
	o := defOpt(t)
	o.Foreign = pick(t.R, []float64{0, .1})
	o.Dups = .1
	o.Odd = true
	keep := t.N(2) == 0
	mixed := t.N(3) == 0
	o.Shorten = pick(t.R, []float64{0, .3})
	if t.N(3) == 0 {
		o.Accounts += 40
	}
	l := t.gen(&o)
	if !keep { // one transaction a day, so that the order of files does not matter
		used := map[Day]bool{}
		for _, tx := range l.Txns {
			for used[tx.D] {
				tx.D++
			}
			used[tx.D] = true
		}
		l.order()
	}
	for _, tx := range l.Txns { // reference: one file
		tx.Home = 0
	}
	// seq stays: the order of the plain file is the one of l.loaded()
	st := Style{Fancy: true}
	w := newWriter()
	for _, id := range l.ComIds {
		l.renderCom(w, l.Coms[id])
		w.ln("")
	}
	t.Write("ref/commodities.coin", w.String())
	w = newWriter()
	for _, n := range l.Names {
		l.renderAcc(w, t.R, l.Accs[n])
		w.ln("")
	}
	t.Write("ref/accounts.coin", w.String())
	w = newWriter()
	for _, p := range l.Prices {
		l.renderPrice(w, t.R, st, p)
		w.ln("")
	}
	t.Write("ref/prices.coin", w.String())
	w = newWriter()
	for _, tx := range l.loaded() {
		l.renderTxn(w, t.R, st, tx)
		w.ln("")
	}
	t.Write("ref/transactions.coin", w.String())

	name := "db"
	if t.N(3) == 0 {
		name = pick(t.R, []string{"d[b]", "d*", "d?b", "d$b", "d b", `d\b`, "d[b", "ref[a-z]", "re*", "re?", "été", ".db", "$HOME", "-d", "db.coin"})
	}
	y := t.newLayout(name, Style{Fancy: true, Comments: true, Tight: true})
	y.write(l, keep, mixed)
	db := t.Path(name)
	switch t.N(4) {
	case 0:
		db = name
	case 1:
		db += "/"
	case 2:
		db = t.Path("ref") + "/../" + name
	}
	run := func(db string, args ...string) Res {
		return t.ExecIn(db, t.dir, y.envList(), "coin", args...)
	}
	top := func() string { // a top level account
		a := pick(t.R, l.Names)
		return strings.SplitN(a, ":", 2)[0]
	}
	cmds := [][]string{
		{"balance"}, {"balance", "-z"}, {"stats"}, {"stats", "-b", "2017", "-e", "2018/6"}, {"tags", "-a", "-v"},
		{"register", top()}, {"register", "-r", "-m", "-o", "csv", top()}, {"register", "-r", "-y", "-bp", top()},
		{"register", "-r", "-bt", "-q", top()}, {"register", "-r", "-c", "-m", "-o", "json", top()},
		{"register", "-r", top()}, {"register", "-n", pick(t.R, l.Names)},
	}
	if !mixed {
		cmds = append(cmds, []string{"accounts"}, []string{"accounts", "-c"}, []string{"commodities", "-p"}, []string{"commodities", pick(t.R, l.ComIds)})
	}
	cmds = append(cmds, []string{"commodities"})
	t.R.Shuffle(len(cmds), func(i, j int) { cmds[i], cmds[j] = cmds[j], cmds[i] })
	for k, args := range cmds {
		if t.N(3) == 0 {
			continue
		}
		a := run(t.Path("ref"), args...)
		b := run(db, args...)
		rowwise := args[0] == "register" && !hasAny(args, "-m", "-y", "-q")
		ao, bo := a.Out, b.Out
		if rowwise && keep && hasAny(args, "-r") {
			// postings of one day in different accounts: compared without the running total
			ao, bo = noTotals(ao), noTotals(bo)
		}
		if ao != bo || a.Err != b.Err && a.Code == 0 || a.Code != b.Code {
			t.Fail("layout-"+args[0], "the same entries give another result when laid out over other files: %v\nplain: %s\nlaid out: %s", args, a, b)
		}
		if a.Code != 0 && !strings.Contains(a.Err, "cannot convert") {
			t.Fail("exit", "command failed on a valid ledger: %s", a)
		}
		t.Count("reports_compared", 1)
		if k%4 == 0 {
			for i := 0; i < 2; i++ {
				c := run(db, args...)
				if c.Out != b.Out || c.Code != b.Code || c.Err != b.Err && c.Code != 2 {
					t.Fail("repeat-"+args[0], "two runs on the same files print different output: %v\nfirst: %s\nlater: %s", args, b, c)
				}
			}
			t.Count("runs_repeated", 2)
		}
	}
	// assertions, right and wrong, must be reported the same way every time
	if t.N(2) == 0 {
		o.Assert, o.Wrong = .5, .5
		l2 := t.gen(&o)
		d2 := t.writeDB(l2, "db2", st)
		args := pick(t.R, [][]string{{"balance"}, {"stats"}, {"register", "-r", strings.SplitN(l2.Names[0], ":", 2)[0]}})
		first := t.Exec(d2, "coin", args...)
		for i := 0; i < 4; i++ {
			c := t.Exec(d2, "coin", args...)
			if c.Out != first.Out || c.Err != first.Err || c.Code != first.Code {
				t.Fail("repeat-warnings", "two runs on the same files print different output: %v\nfirst: %s\nlater: %s", args, first, c)
			}
		}
		t.Count("runs_repeated", 4)
	}
	t.Count("includes", y.incs)
	t.Count("variables", len(y.env))
	if y.incs > 0 || mixed {
		var b strings.Builder
		for _, f := range listDir(t.Path(name)) {
			b.WriteString(f + "\n" + t.Read(filepath.Join(t.Path(name), f)))
		}
		t.Nontrivial(b.String())
	}
	t.Sample(fmt.Sprintf("%d transactions, %d prices, keep=%v mixed=%v: %d includes over %d files", len(l.Txns), len(l.Prices), keep, mixed, y.incs, len(listDir(t.Path(name)))))
}

func hasAny(args []string, xs ...string) bool {
	for _, a := range args {
		if containsStr(xs, a) {
			return true
		}
	}
	return false
}

// noTotals drops the running total of register rows and sorts them.
func noTotals(s string) string {
	var out []string
	for _, ln := range strings.Split(s, "\n") {
		f := fields(ln)
		if len(f) >= 5 {
			f = f[:len(f)-1]
		}
		out = append(out, strings.Join(f, "|"))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}
