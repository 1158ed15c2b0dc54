package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C06", Quick: 2000, Thor: 50000, Case: c06,
		Rule: "random transaction files in many spellings (short and long notes, tags, codes, shortened accounts, elided amounts, assertions, date forms, comments, includes) put through format, format -t, -ledger and -i, formatted again and loaded again; distinct by output, non-trivial if at least two transactions are printed"})
	register(&Check{ID: "C07", Quick: 2500, Thor: 60000, Case: c07,
		Rule: "random transaction files and random modify invocations (-p -tt -pt -a selections, -a: -pt: -tt: changes, several files); distinct by resulting files, non-trivial if at least one posting or transaction changed and at least one did not"})
}

// mixCommodities gives some postings of transactions over accounts of several commodities a commodity of their own.
func (t *T) mixCommodities(l *Ledger) {
	for _, tx := range l.Txns {
		cs := map[string]bool{}
		for _, p := range tx.Posts {
			cs[l.com(p.Acc)] = true
		}
		if len(cs) < 2 {
			continue
		}
		for _, p := range tx.Posts {
			if t.N(6) == 0 {
				p.C = pick(t.R, l.ComIds)
			}
		}
	}
}

// sameTxn compares a printed transaction with the model; ws compares modulo runs of whitespace.
func sameTxn(want, got *Txn, ws bool) string {
	norm := func(s string) string {
		s = strings.TrimRight(s, " \t")
		if ws {
			s = strings.Join(strings.Fields(s), " ")
		}
		return s
	}
	if want.D != got.D {
		return fmt.Sprintf("date %s, expected %s", got.D, want.D)
	}
	if want.Code != got.Code {
		return fmt.Sprintf("code %q, expected %q", got.Code, want.Code)
	}
	if norm(want.Desc) != norm(got.Desc) {
		return fmt.Sprintf("payee %q, expected %q", got.Desc, want.Desc)
	}
	notes := func(a []string) []string {
		var o []string
		for _, x := range a {
			o = append(o, norm(x))
		}
		return o
	}
	if a, b := notes(want.Notes), notes(got.Notes); strings.Join(a, "\n") != strings.Join(b, "\n") {
		return fmt.Sprintf("notes %q, expected %q", b, a)
	}
	if len(want.Posts) != len(got.Posts) {
		return fmt.Sprintf("%d postings, expected %d", len(got.Posts), len(want.Posts))
	}
	for i, p := range want.Posts {
		g := got.Posts[i]
		if g.Acc != p.Acc {
			return fmt.Sprintf("posting %d account %q, expected %q", i, g.Acc, p.Acc)
		}
		if g.Elided || g.Q.Cmp(p.Q) != 0 || g.C != p.C {
			return fmt.Sprintf("posting %d amount %v %s, expected %v %s", i, g.Q, g.C, p.Q, p.C)
		}
		if (g.Assert == nil) != (p.Assert == nil) || g.Assert != nil && (g.Assert.Cmp(p.Assert) != 0 || g.AssertC != p.AssertC) {
			return fmt.Sprintf("posting %d assertion %v %s, expected %v %s", i, g.Assert, g.AssertC, p.Assert, p.AssertC)
		}
		if a, b := notes(p.Notes), notes(g.Notes); strings.Join(a, "\n") != strings.Join(b, "\n") {
			return fmt.Sprintf("posting %d notes %q, expected %q", i, b, a)
		}
	}
	return ""
}

func (t *T) checkTxns(l *Ledger, text string, want []*Txn, ws bool, sig string, r Res) {
	got, err := l.parseFormatted(text)
	if err != nil {
		t.Fail(sig+"-syntax", "cannot read the transactions: %v\n%s\n%s", err, clip(text), r)
	}
	for i, w := range want {
		if i >= len(got) {
			break
		}
		if why := sameTxn(w, got[i], ws); why != "" {
			t.Fail(sig+"-transaction", "transaction %d: %s\nexpected %sgot %s\n%s", i, why, w, got[i], r)
		}
	}
	if len(got) != len(want) {
		t.Fail(sig+"-count", "%d transactions, expected %d\n%s", len(got), len(want), r)
	}
}

func listDir(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(dir, p)
			out = append(out, rel)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

func (t *T) snapshot(dir string) map[string]string {
	m := map[string]string{}
	for _, f := range listDir(dir) {
		m[f] = t.Read(filepath.Join(dir, f))
	}
	return m
}

// onlyChanged requires that files other than those in except are as before.
func (t *T) onlyChanged(dir string, before map[string]string, except map[string]bool, r Res) {
	after := t.snapshot(dir)
	for f, x := range after {
		if b, ok := before[f]; !ok {
			t.Fail("left-over-file", "new file %s\n%s", f, r)
		} else if b != x && !except[f] {
			t.Fail("other-file", "file %s changed\n%s", f, r)
		}
	}
	for f := range before {
		if _, ok := after[f]; !ok {
			t.Fail("file-lost", "file %s is gone\n%s", f, r)
		}
	}
}

func (l *Ledger) inFile(h int) (ts []*Txn) {
	for _, tx := range l.sorted() {
		if tx.Home == h {
			ts = append(ts, tx)
		}
	}
	return
}

func needsQuotes(c string) bool {
	return strings.ContainsAny(c, " \t0123456789.,;:?!-+*^/&|=<>[](){}@")
}

var amountTok = regexp.MustCompile(`^-?\d+(\.\d+)?$`)

func (t *T) formatLedger() *Ledger {
	o := defOpt(t)
	o.Txns = 2 + t.N(25)
	o.Foreign = 0
	o.Shorten = .3
	o.Assert = .15
	o.Wrong = .3
	o.Notes = .4
	o.Tags = .4
	o.SameDay = .5
	o.Dups = .1
	o.Odd = t.Chance(.3)
	l := t.gen(&o)
	t.mixCommodities(l)
	return l
}

func c06(t *T) {
	l := t.formatLedger()
	st := Style{Fancy: t.Chance(.8), Comments: t.Chance(.4), Tight: t.Chance(.3)}
	db := t.writeDB(l, "db", st)
	homes := map[int]bool{}
	for _, tx := range l.Txns {
		homes[tx.Home] = true
	}
	var hs []int
	for h := range homes {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	t.R.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	hs = hs[:1+t.N(len(hs))]
	var files []string
	var want []*Txn
	for _, h := range hs {
		files = append(files, filepath.Join(db, txnFile(h)))
		want = append(want, l.inFile(h)...)
	}
	cmd := pick(t.R, []string{"format", "fmt", "f"})
	before := t.snapshot(db)
	r := t.Exec(db, "coin", append([]string{cmd}, files...)...)
	if r.Code != 0 {
		t.Fail("failed", "format failed on a valid file\n%s", r)
	}
	t.checkTxns(l, r.Out, want, false, "format", r)
	t.onlyChanged(db, before, nil, r)
	if len(want) > 1 {
		t.Nontrivial(r.Out)
		if t.I < 3 {
			t.Sample(map[string]any{"cmd": r.Cmd, "transactions": len(want), "output_head": clip1(r.Out, 400)})
		}
	}
	t.Count("transactions", len(want))

	// again: one file holding the output of one file
	f1 := t.Exec(db, "coin", cmd, files[0])
	out1 := t.Write("again.txt", f1.Out)
	r2 := t.Exec(db, "coin", cmd, out1)
	if r2.Code != 0 || r2.Out != f1.Out {
		t.Fail("idempotence", "formatting the output again gives something else\n%s\n%s", f1, r2)
	}
	// -t
	rt := t.Exec(db, "coin", cmd, "-t", files[0])
	w0 := l.inFile(hs[0])
	if rt.Code != 0 {
		t.Fail("trim-failed", "format -t failed\n%s", rt)
	}
	t.checkTxns(l, rt.Out, w0, true, "trim", rt)
	got, _ := l.parseFormatted(rt.Out)
	for _, g := range got {
		if g.Desc != strings.Join(strings.Fields(g.Desc), " ") {
			t.Fail("trim", "whitespace left in %q\n%s", g.Desc, rt)
		}
	}
	// -ledger
	if t.N(2) == 0 {
		rl := t.Exec(db, "coin", cmd, "-ledger", files[0])
		if rl.Code != 0 {
			t.Fail("ledger-failed", "format -ledger failed\n%s", rl)
		}
		t.checkTxns(l, rl.Out, w0, false, "ledger", rl)
		for _, ln := range lines(rl.Out) {
			ln, _, _ = strings.Cut(ln, ";")
			f := strings.Fields(ln)
			if len(ln) == 0 || ln[0] != ' ' || len(f) < 3 {
				continue
			}
			for k := 2; k < len(f); k++ {
				if !amountTok.MatchString(f[k-1]) {
					continue
				}
				c := strings.Trim(f[k], `"`)
				if q := strings.HasPrefix(f[k], `"`) && strings.HasSuffix(f[k], `"`); q != needsQuotes(c) {
					t.Fail("ledger-quotes", "commodity %s in %q\n%s", f[k], ln, rl)
				}
			}
		}
	}
	// output through an including file
	if t.N(4) == 0 {
		var b strings.Builder
		for i, f := range files {
			rel, _ := filepath.Rel(t.dir, f)
			fmt.Fprintf(&b, "include %s\n", rel)
			if i%2 == 0 {
				b.WriteString("\n")
			}
		}
		main := t.Write("main.txt", b.String())
		ri := t.Exec(db, "coin", cmd, main)
		if ri.Code != 0 {
			t.Fail("include-failed", "format failed on an including file\n%s", ri)
		}
		var all []*Txn
		for _, h := range hs {
			for _, tx := range l.loaded() {
				if tx.Home == h {
					all = append(all, tx)
				}
			}
		}
		sort.SliceStable(all, func(i, j int) bool {
			a, b := all[i], all[j]
			return a.D < b.D
		})
		t.checkTxns(l, ri.Out, all, false, "include", ri)
		t.Count("including_files", 1)
	}
	// -i
	args := []string{cmd, "-i"}
	exp := map[string]string{}
	flag := ""
	if t.N(3) == 0 {
		flag = pick(t.R, []string{"-t", "-ledger"})
		args = append(args, flag)
	}
	except := map[string]bool{}
	for i, f := range files {
		a := []string{cmd, f}
		if flag != "" {
			a = []string{cmd, flag, f}
		}
		exp[f] = t.Exec(db, "coin", a...).Out
		except[txnFile(hs[i])] = true
	}
	warned := assertionWarnings(t.Exec(db, "coin", "balance", "-z").Err)
	ri := t.Exec(db, "coin", append(args, files...)...)
	if ri.Code != 0 {
		t.Fail("inplace-failed", "format -i failed\n%s", ri)
	}
	for f, x := range exp {
		if got := t.Read(f); got != x {
			t.Fail("inplace", "format -i left other text in %s than is printed:\n%s\nprinted:\n%s\n%s", f, clip(got), clip(x), ri)
		}
	}
	if strings.TrimSpace(ri.Out) != "" {
		t.Fail("inplace-output", "format -i also prints\n%s", ri)
	}
	t.onlyChanged(db, before, except, ri)
	// the ledger loads to the same balances
	if flag != "-ledger" {
		l.balances()
		rb := t.Exec(db, "coin", "balance", "-z")
		if rb.Code != 0 {
			t.Fail("reload", "formatted ledger does not load\n%s", rb)
		}
		wb, err := l.expectBalance("Root", func(*Post) bool { return true }, true, 0)
		if err != nil {
			t.Inconclusive("%v", err)
		}
		t.checkBalance(l, rb, wb, "reload")
		if w := assertionWarnings(rb.Err); !slices.Equal(w, warned) {
			t.Fail("reload-assertions", "balance assertions say something else after format -i\nbefore: %q\nafter:  %q\n%s", warned, w, ri)
		}
		t.Count("warnings_compared", len(warned))
	}
}

// assertionWarnings are the warnings without their locations, sorted.
func assertionWarnings(s string) []string {
	var ws []string
	for _, ln := range lines(s) {
		if strings.Contains(ln, " balance is ") {
			if i := strings.LastIndex(ln, ": "); i >= 0 {
				ln = ln[:i]
			}
			ws = append(ws, ln)
		}
	}
	sort.Strings(ws)
	return ws
}

func c07(t *T) {
	l := t.formatLedger()
	db := t.writeDB(l, "db", Style{Fancy: t.Chance(.6), Comments: t.Chance(.2)})
	homes := map[int]bool{}
	for _, tx := range l.Txns {
		homes[tx.Home] = true
	}
	var hs []int
	for h := range homes {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	t.R.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	hs = hs[:1+t.N(len(hs))]
	args := []string{pick(t.R, []string{"modify", "mod", "m"})}
	flag := func(f, v string) {
		if t.N(2) == 0 {
			args = append(args, f+"="+v)
		} else {
			args = append(args, f, v)
		}
	}
	accArg := func(a string) string {
		if t.N(3) == 0 {
			if e := l.shorten(t.R, a); e != "" {
				return e
			}
		}
		return a
	}
	someTx := pick(t.R, l.inFile(hs[0]))
	var payee *Pat
	var from, to string
	var ttag, ptag *Filter
	if t.N(3) == 0 {
		p := t.genPat(someTx.Desc + "x")
		payee = &p
		flag("-p", p.String())
	}
	genTagExp := func() *Filter {
		f := &Filter{hasTag: true}
		k := t.genPat(pick(t.R, tagKeys))
		for strings.Contains(k.String(), ":") {
			k = t.genPat(pick(t.R, tagKeys))
		}
		f.TagK = &k
		s := k.String()
		if t.N(3) == 0 {
			v := t.genPat(pick(t.R, tagVals))
			f.TagV = &v
			s += ":" + v.String()
		}
		if t.N(4) == 0 {
			f.Neg = true
			s = "!" + s
		}
		f.argForm = []string{s}
		return f
	}
	if t.N(3) == 0 {
		ttag = genTagExp()
		flag("-tt", ttag.argForm[0])
	}
	switch t.N(4) {
	case 0:
		ptag = genTagExp()
		flag("-pt", ptag.argForm[0])
	case 1, 2:
		from = pick(t.R, l.Names)
		if len(someTx.Posts) > 0 && t.N(2) == 0 {
			from = pick(t.R, someTx.Posts).Acc
		}
		flag("-a", accArg(from))
		if t.N(6) == 0 {
			ptag = genTagExp()
			flag("-pt", ptag.argForm[0])
		}
	}
	newTag := func() (string, map[string]string) {
		m := map[string]string{"reviewed": ""}
		s := "#reviewed"
		switch t.N(4) {
		case 0:
			m = map[string]string{"batch-7": "B 12"}
			s = "#batch-7: B 12"
		case 1:
			m = map[string]string{"zz": "1", "checked": ""}
			s = "#checked, #zz:1"
		case 2: // others begin like it
			m = map[string]string{"fo": ""}
			s = "#fo"
		}
		return s, m
	}
	var setP, setT map[string]string
	if t.N(2) == 0 {
		to = pick(t.R, l.Names)
		flag("-a:", accArg(to))
	}
	if t.N(3) == 0 {
		var s string
		s, setP = newTag()
		flag("-pt:", s)
	}
	if t.N(3) == 0 {
		var s string
		s, setT = newTag()
		flag("-tt:", s)
	}
	except := map[string]bool{}
	var files []string
	for _, h := range hs {
		except[txnFile(h)] = true
		files = append(files, filepath.Join(db, txnFile(h)))
	}
	before := t.snapshot(db)
	r := t.Exec(db, "coin", append(args, files...)...)
	if r.Code != 0 {
		t.Fail("failed", "modify failed\n%s", r)
	}
	t.onlyChanged(db, before, except, r)
	changed, kept := 0, 0
	var key strings.Builder
	for i, h := range hs {
		text := t.Read(files[i])
		key.WriteString(text)
		want := l.inFile(h)
		got, err := l.parseFormatted(text)
		if err != nil {
			t.Fail("syntax", "cannot read %s afterwards: %v\n%s\n%s", files[i], err, clip(text), r)
		}
		if len(got) != len(want) {
			t.Fail("count", "%d transactions in %s, expected %d\n%s", len(got), files[i], len(want), r)
		}
		for k, w := range want {
			e := cloneTxn(w)
			e.File, e.Line = w.File, w.Line
			sel := (payee == nil || payee.match(w.Desc)) && (ttag == nil || ttag.tagMatch(tagsOf(w.Notes)))
			selP := map[int]bool{}
			hasFrom := false
			if sel {
				for n, p := range e.Posts {
					isFrom := from != "" && p.Acc == from
					hasFrom = hasFrom || isFrom
					if isFrom || ptag != nil && ptag.tagMatch(tagsOf(p.Notes)) {
						selP[n] = true
						if to != "" {
							p.Acc = to
						}
					}
				}
			}
			selT := sel && (from == "" || hasFrom)
			g := got[k]
			if len(g.Posts) != len(e.Posts) {
				t.Fail("postings", "expected %sgot %s\n%s", e, g, r)
			}
			// take added tags off the notes
			if selT && setT != nil {
				g.Notes = t.untag(e.Notes, g.Notes, setT, w, g, r)
				changed++
			}
			for n := range e.Posts {
				if !selP[n] {
					kept++
					continue
				}
				if setP != nil {
					g.Posts[n].Notes = t.untag(e.Posts[n].Notes, g.Posts[n].Notes, setP, w, g, r)
				}
				if setP != nil || to != "" {
					changed++
				}
			}
			if why := sameTxn(e, g, false); why != "" {
				t.Fail("transaction", "%s\nbefore %safter %sexpected %s%s", why, w, g, e, r)
			}
		}
	}
	t.Count("changed", changed)
	t.Count("unchanged_postings", kept)
	if changed > 0 && kept > 0 {
		t.Nontrivial(key.String())
		if t.I < 20 {
			t.Sample(map[string]any{"cmd": strings.ReplaceAll(r.Cmd, t.dir, ""), "changed": changed, "unchanged_postings": kept})
		}
	}
}

// untag checks that got is old with the added tags, and returns old.
func (t *T) untag(old, got []string, add map[string]string, w, g *Txn, r Res) []string {
	want := tagsOf(old)
	for k, v := range add {
		want[k] = v
	}
	have := tagsOf(got)
	same := len(want) == len(have)
	for k, v := range want {
		if x, ok := have[k]; !ok || x != v {
			same = false
		}
	}
	if !same {
		t.Fail("tags", "tags are %v, expected %v\nbefore %safter %s%s", have, want, w, g, r)
	}
	// every old line is still there, in order, possibly with text added
	i := 0
	rest := ""
	for _, o := range old {
		for i < len(got) && !strings.HasPrefix(got[i], o) {
			rest += got[i]
			i++
		}
		if i == len(got) {
			t.Fail("note-lost", "note %q is gone\nbefore %safter %s%s", o, w, g, r)
		}
		rest += got[i][len(o):]
		i++
	}
	for ; i < len(got); i++ {
		rest += " " + got[i]
	}
	for k, v := range add {
		rest = strings.Replace(rest, "#"+k, "", 1)
		if v != "" {
			rest = strings.Replace(rest, v, "", 1)
		}
	}
	if strings.Trim(rest, " ,:") != "" {
		t.Fail("note-text", "unexpected text %q in the notes\nbefore %safter %s%s", rest, w, g, r)
	}
	return old
}
