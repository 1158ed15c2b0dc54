package main

import (
	"fmt"
	"path/filepath"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C23", Quick: 1500, Thor: 30000, Case: c23,
		Rule: "random ledgers written as test files (inline or through includes, clauses spread over files), clauses recording the right output, a changed one, or none; the expected output comes from running the command by itself on the same ledger; distinct by file, non-trivial if at least two clauses"})
}

type clause struct {
	cmd      string
	out      string // what the command prints
	recorded string
	line     int
	file     string // relative to the case directory
	sep      string // text after the clause
	broken   bool   // no such command
}

func (c *clause) kind() string {
	switch {
	case c.broken:
		return "BROKEN"
	case c.recorded == "":
		return "UPDATE"
	case c.recorded == c.out:
		return "OK"
	}
	return "FAIL"
}

func (t *T) clauseCmd(l *Ledger) string {
	acc := pick(t.R, l.allAccs())
	switch t.N(10) {
	case 0:
		return "accounts"
	case 1:
		return "commodities"
	case 2:
		return pick(t.R, []string{"tags", "tags -v", "tags -a -v"})
	case 3:
		return pick(t.R, []string{"stats", "format", "fmt -ledger"})
	case 4, 5:
		c := pick(t.R, []string{"balance", "bal", "b"})
		if t.N(2) == 0 {
			c += " -z"
		}
		if t.N(3) == 0 {
			c += " -l " + strconv.Itoa(1+t.N(3))
		}
		if t.N(2) == 0 {
			c += " " + acc
		}
		return c
	case 6:
		return "register " + pick(t.R, []string{"-m", "-y", "-q -r", "-w -r", "-bp", "-m -bt -o csv", "-y -r -o json", "-bt -r"}) + " " + acc
	case 7: // arguments of unusual characters are taken as they are
		c := pick(t.R, []string{"balance -z -p ", "register -p ", "register -m -r -p ", "balance -t ", "register -t "})
		return c + pick(t.R, []string{"O'", "'", "'N", "\"", "\"a\"", "A&", "100%", "[a-f]$", "\\d", "\\.", "^.{4}$", "(a|e)", "~", "$HOME", ".*", "é", "a:b", "--", "!a", "x=y", "#", "{", ";", "`"}) + " " + acc
	default:
		c := "register "
		if t.N(2) == 0 {
			c += "-r "
		}
		if t.N(3) == 0 {
			c += "-b " + t.dateArg(pick(t.R, l.Txns).D) + " "
		}
		if t.N(4) == 0 {
			c += "-n "
		}
		return c + acc
	}
}

// mutate changes the recorded text.
func (t *T) mutate(s string) string {
	ls := strings.SplitAfter(s, "\n")
	ls = ls[:len(ls)-1]
	if len(ls) == 0 {
		return "x\n"
	}
	i := t.N(len(ls))
	switch t.N(7) {
	case 0:
		ls = append(ls[:i], ls[i+1:]...)
	case 1:
		ls = append(ls[:i], append([]string{ls[i]}, ls[i:]...)...)
	case 2:
		ls[i] = strings.TrimSuffix(ls[i], "\n") + " \n"
	case 3:
		ls = append(ls, "\n")
	case 4:
		if j := strings.IndexAny(ls[i], "0123456789"); j >= 0 {
			d := (ls[i][j]-'0'+1)%10 + '0'
			ls[i] = ls[i][:j] + string(d) + ls[i][j+1:]
		} else {
			ls[i] = "z" + ls[i]
		}
	case 5:
		if len(ls) > 1 {
			j := (i + 1) % len(ls)
			ls[i], ls[j] = ls[j], ls[i]
		} else {
			ls[i] = " " + ls[i]
		}
	default:
		if j := strings.Index(ls[i], "  "); j >= 0 {
			ls[i] = ls[i][:j] + ls[i][j+1:]
		} else {
			ls[i] = strings.ToLower(ls[i])
		}
	}
	return strings.Join(ls, "")
}

type testSuite struct {
	clauses []*clause
	files   []string // relative to the case directory, those with clauses
	text    map[string]string
	updated map[string]string // text after the update
	main    string
}

// makeSuite builds a test suite under dir.
func (t *T) makeSuite(dir, name string, mode int, withWrong bool) *testSuite {
	o := defOpt(t)
	o.Txns = 2 + t.N(12)
	o.Accounts = 3 + t.N(6)
	l := t.gen(&o)
	for _, tx := range l.Txns {
		if t.N(12) == 0 {
			tx.Desc = pick(t.R, []string{"end tests", "end test", "end test of it", "test balance"})
		}
	}
	src := t.writeDB(l, "src", Style{Fancy: t.Chance(.3)})
	s := &testSuite{text: map[string]string{}, updated: map[string]string{}, main: filepath.Join(dir, name)}
	n := 1 + t.N(6)
	for i := 0; i < n; i++ {
		c := &clause{cmd: t.clauseCmd(l)}
		a := strings.Fields(c.cmd)
		if a[0] == "format" || a[0] == "fmt" {
			// the command by itself formats given files, the clause everything
			all := ""
			for _, f := range listDir(src) {
				if strings.HasPrefix(f, "t") {
					all += t.Read(filepath.Join(src, f)) + "\n"
				}
			}
			a = append(a, t.Write("all.txns", all))
		}
		r := t.Exec(src, "coin", a...)
		if r.Code != 0 {
			t.Fail("command", "command failed on a valid ledger\n%s", r)
		}
		c.out = r.Out
		c.recorded = c.out
		switch t.N(4) {
		case 0:
			c.recorded = ""
		case 1:
			if withWrong {
				c.recorded = t.mutate(c.out)
			}
		}
		if !withWrong && (mode == 1 || t.N(2) == 0) {
			c.recorded = ""
		}
		if withWrong && t.N(12) == 0 { // cannot be run
			c.broken, c.cmd = true, pick(t.R, []string{"balnce", "nothing -z", "-b", "bala", "Balance", "test1 x", " ", "\t "})
			c.recorded = pick(t.R, []string{"", c.recorded})
		}
		c.sep = pick(t.R, []string{"", "\n", "\n", "\n\n", "\n; comment\n\n", "\n# end test\r\n"})
		s.clauses = append(s.clauses, c)
	}
	// parts of the ledger, in load order
	order := []string{"commodities.coin"}
	for _, f := range listDir(src) {
		if f == "prices.coin" || f == "p.prices" {
			order = append(order, f)
		}
	}
	order = append(order, "accounts.coin")
	for _, f := range listDir(src) {
		if strings.HasPrefix(f, "t") {
			order = append(order, f)
		}
	}
	perFile := map[string]*strings.Builder{}
	upd := map[string]*strings.Builder{}
	lines := map[string]int{}
	add := func(f, text, after string) {
		if perFile[f] == nil {
			perFile[f], upd[f] = &strings.Builder{}, &strings.Builder{}
			s.files = append(s.files, f)
		}
		perFile[f].WriteString(text)
		upd[f].WriteString(after)
		lines[f] += strings.Count(text, "\n")
	}
	k := 0
	clauseTo := func(f string) {
		c := s.clauses[k]
		k++
		c.file, c.line = f, lines[f]+1
		add(f, "test "+c.cmd+"\n"+c.recorded+"end test\n"+c.sep, "test "+c.cmd+"\n"+pick1(c.kind() == "UPDATE", c.out, c.recorded)+"end test\n"+c.sep)
	}
	for i, f := range order {
		body := t.Read(filepath.Join(src, f))
		inc := mode == 2 && t.N(2) == 0
		if inc {
			rel, _ := filepath.Rel(filepath.Join(t.dir, dir), filepath.Join(src, f))
			add(s.main, "include "+rel+"\n", "include "+rel+"\n")
		} else {
			add(s.main, body+"\n", body+"\n")
		}
		if k < len(s.clauses) && i > 0 && t.N(3) == 0 {
			clauseTo(s.main)
			if k < len(s.clauses) && mode == 2 && t.N(2) == 0 {
				// a file of clauses of its own, included in the middle
				sub := filepath.Join(dir, fmt.Sprintf("sub%d.inc", k))
				add(s.main, "include "+filepath.Base(sub)+"\n", "include "+filepath.Base(sub)+"\n")
				clauseTo(sub)
				for k < len(s.clauses) && t.N(2) == 0 {
					clauseTo(sub)
				}
			}
		}
	}
	for k < len(s.clauses) {
		clauseTo(s.main)
	}
	cut := t.N(4) == 0
	for _, f := range s.files {
		a, b := perFile[f].String(), upd[f].String()
		if cut {
			a, b = strings.TrimRight(a, "\n"), strings.TrimRight(b, "\n")
		}
		s.text[f], s.updated[f] = a, b
		t.Write(f, a)
	}
	return s
}

func pick1[E any](c bool, a, b E) E {
	if c {
		return a
	}
	return b
}

// writeTestFile writes a self-contained test file and returns its name relative to its directory.
func (t *T) writeTestFile(rel string, empty bool) string {
	s := t.makeSuite(filepath.Dir(rel), filepath.Base(rel), 1, !empty)
	_ = s
	return filepath.Base(rel)
}

func c23(t *T) {
	mode := t.N(3)
	s := t.makeSuite(pick(t.R, []string{"suite", "suite", "suite", "su:12:ite", "s:1 x"}), pick(t.R, []string{"a.test", "a.test", "a.test", "b:7.test"}), mode, true)
	main := t.Path(s.main)
	verbose := t.N(3) > 0
	args := []string{pick(t.R, []string{"test", "t"})}
	if verbose {
		args = append(args, "-v")
	}
	args = append(args, main)
	before := t.snapshot(t.dir)
	r := t.Exec("", "coin", args...)
	if r.Code != 0 {
		t.Fail("failed", "coin test failed\n%s", r)
	}
	loc := func(c *clause) string { return fmt.Sprintf("%s:%d %s", t.Path(c.file), c.line, c.cmd) }
	// split the output
	isFile := map[string]bool{}
	for _, f := range s.files {
		isFile[t.Path(f)] = true
	}
	got := map[string]string{}
	diff := map[string][]string{}
	cur := ""
	var summary []string
	for _, ln := range lines(r.Out) {
		switch {
		case strings.HasPrefix(ln, "OK ") || strings.HasPrefix(ln, "FAIL "):
			k, rest, _ := strings.Cut(ln, " ")
			if isFile[rest] {
				summary = append(summary, ln)
				cur = ""
				continue
			}
			cur = rest
			if got[cur] != "" {
				t.Fail("twice", "%q reported twice\n%s", rest, r)
			}
			got[cur] = k
		case cur != "" && got[cur] == "FAIL":
			diff[cur] = append(diff[cur], ln)
		default:
			t.Fail("output", "unexpected line %q\n%s", ln, r)
		}
	}
	anyFail := map[string]bool{}
	for _, c := range s.clauses {
		g := got[loc(c)]
		delete(got, loc(c))
		want := c.kind()
		switch want {
		case "OK":
			if verbose && g != "OK" || g == "FAIL" {
				t.Fail("not-ok", "clause %s recorded the right output but is reported %q\n%s", loc(c), g, r)
			}
		case "FAIL":
			anyFail[t.Path(c.file)] = true
			if g != "FAIL" {
				t.Fail("not-fail", "clause %s recorded\n%s\nthe output is\n%s\nbut it is reported %q\n%s", loc(c), c.recorded, c.out, g, r)
			}
			t.checkDiff(c, diff[loc(c)], r)
		case "BROKEN":
			anyFail[t.Path(c.file)] = true
			if g != "" {
				t.Fail("no-command", "clause %s names no command but is reported %q\n%s", loc(c), g, r)
			}
			if !strings.Contains(r.Err, fmt.Sprintf("%s:%d", t.Path(c.file), c.line)) {
				t.Fail("no-command", "clause %s names no command, which is not reported\n%s", loc(c), r)
			}
		case "UPDATE":
			if g != "" {
				t.Fail("empty-reported", "clause %s without a recorded result is reported %s\n%s", loc(c), g, r)
			}
		}
		t.Count("clauses_"+want, 1)
	}
	for k := range got {
		t.Fail("unknown", "unknown clause %q reported\n%s", k, r)
	}
	if !verbose {
		failed := map[string]bool{}
		for _, x := range summary {
			k, f, _ := strings.Cut(x, " ")
			failed[f] = failed[f] || k == "FAIL"
			if mode != 2 || !anyFail[f] {
				if (k == "FAIL") != anyFail[f] {
					t.Fail("summary", "summary %q, expected failures: %v\n%s", x, anyFail[f], r)
				}
			}
		}
		for f := range anyFail {
			if !failed[f] {
				t.Fail("summary", "%s has failures but is reported OK\n%s", f, r)
			}
		}
		if len(summary) == 0 {
			t.Fail("summary", "no summary\n%s", r)
		}
	}
	// files: empty clauses filled in, nothing else changed
	for _, f := range s.files {
		if got := t.Read(t.Path(f)); got != s.updated[f] {
			t.Fail("update", "%s is\n%s\nexpected\n%s\n%s", f, clip(got), clip(s.updated[f]), r)
		}
	}
	except := map[string]bool{}
	for _, f := range s.files {
		except[f] = true
	}
	t.onlyChanged(t.dir, before, except, r)
	// after the update those clauses pass
	r2 := t.Exec("", "coin", "test", "-v", main)
	ok := 0
	for _, ln := range lines(r2.Out) {
		if strings.HasPrefix(ln, "OK ") {
			ok++
		}
	}
	want := 0
	for _, c := range s.clauses {
		if c.kind() != "FAIL" && !c.broken && c.out != "" {
			want++
		}
	}
	if ok != want || r2.Code != 0 {
		t.Fail("after-update", "%d clauses pass after the update, expected %d\n%s", ok, want, r2)
	}
	for _, f := range s.files {
		if got := t.Read(t.Path(f)); got != s.updated[f] {
			t.Fail("second-update", "%s changed again\n%s", f, r2)
		}
	}
	if len(s.clauses) > 1 {
		t.Nontrivial(s.text[s.main])
		if t.I < 3 {
			t.Sample(map[string]any{"cmd": r.Cmd, "clauses": len(s.clauses), "output": clip1(r.Out, 300)})
		}
	}
}

// checkDiff requires that the diff shows every line that is only on one side.
func (t *T) checkDiff(c *clause, d []string, r Res) {
	count := func(s string) map[string]int {
		m := map[string]int{}
		for _, x := range lines(s) {
			m[x]++
		}
		return m
	}
	minus, plus := map[string]int{}, map[string]int{}
	for _, x := range d {
		if strings.HasPrefix(x, "---") || strings.HasPrefix(x, "+++") || x == "" {
			continue
		}
		switch x[0] {
		case '-':
			minus[x[1:]]++
		case '+':
			plus[x[1:]]++
		}
	}
	rec, act := count(c.recorded), count(c.out)
	for x, n := range rec {
		if n > act[x] && minus[x] < n-act[x] && !strings.HasPrefix(x, "--") {
			t.Fail("diff", "clause %s: line %q of the recorded text is not shown in the diff\n%s", c.cmd, x, r)
		}
	}
	for x, n := range act {
		if n > rec[x] && plus[x] < n-rec[x] && !strings.HasPrefix(x, "++") {
			t.Fail("diff", "clause %s: line %q of the output is not shown in the diff\n%s", c.cmd, x, r)
		}
	}
	if len(minus) == 0 && len(plus) == 0 {
		t.Fail("diff", "clause %s fails without a diff\n%s", c.cmd, r)
	}
}
