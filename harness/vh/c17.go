package main

import (
	"fmt"
	"math/big"
	"strings"
)

func init() {
	register(&Check{ID: "C17", Quick: 900, Thor: 30000, Case: c17,
		Rule: "random accounts with ids, rules and ledgers, and OFX files of several bank and credit card statements (SGML and XML, line ends, end tags, time zones, amount spellings, missing lists), imported with -keep-dupes; the transactions they must become are computed from the statements; every file is also imported with BMO's flaws through -bmo; distinct by output, non-trivial if a rule decided a target"})
	register(&Check{ID: "C18", Quick: 500, Thor: 15000, Case: c18,
		Rule: "histories of imports of overlapping statements whose output is added to the ledger (sometimes edited in between: code, description, note, target), with few days and amounts so that equal transactions are frequent; the transactions that must stay are computed by a model of the ledger; distinct by output, non-trivial if duplicates were dropped"})
	register(&Check{ID: "C19", Quick: 700, Thor: 20000, Case: c19,
		Rule: "random rule files (sets referenced from sets and accounts, overlapping patterns, drops, notes, odd spacing, comments) deciding random payees of several accounts in an import; the first matching rule is found by an own interpreter; the -rules dump replaces the file and the import is repeated; damaged rule files must be refused; distinct by rules, non-trivial if at least two rules decided"})
}

func c17(t *T) {
	r := t.R
	b := t.genOfxBase()
	if r.IntN(8) == 0 {
		b.dropRules()
	}
	if len(b.ids) == 0 {
		return
	}
	l := b.l
	if r.IntN(3) == 0 { // something is there already
		o := defOpt(t)
		for i := 0; i < 5; i++ {
			l.Txns = append(l.Txns, t.genTxn(l, &o, mkDay(2019, 1, 1)+Day(i)))
		}
		l.order()
	}
	t.writeDB(l, "db", Style{})
	if !b.none {
		t.Write("db/ofx.rules", b.rf.render(r, true))
	}
	start := mkDay(2019, 1, 1) + Day(r.IntN(700))
	span := 1 + r.IntN(40)
	var want []*importTxn
	drops, ruled := 0, 0
	var good, flawed []string
	for f := 1 + r.IntN(3); f > 0; f-- {
		var stmts []*ofxStmt
		k := 1 + r.IntN(3)
		if r.IntN(8) == 0 {
			k += 4
		}
		for ; k > 0; k-- {
			stmts = append(stmts, b.genStmt(r, start, span, false))
		}
		st := genOfxStyle(r)
		good = append(good, t.Write(fmt.Sprintf("good%d.qfx", f), renderOfx(r, l, b.comOf, stmts, st)))
		st = genOfxStyle(r)
		st.xml, st.closed, st.bmo = false, false, r.IntN(6) > 0
		flawed = append(flawed, t.Write(fmt.Sprintf("bmo%d.qfx", f), renderOfx(r, l, b.comOf, stmts, st)))
		for _, x := range stmts {
			ms, d, n := b.convert(x)
			drops += d
			ruled += n
			for _, m := range ms {
				want = append(want, &m.importTxn)
			}
		}
	}
	check := func(args ...string) Res {
		res := t.Exec(t.Path("db"), "ofx2coin", args...)
		if res.Code != 0 {
			t.Fail("refused", "ofx2coin failed on valid input\n%s", res)
		}
		got, err := l.parseFormatted(res.Out)
		if err != nil {
			t.Fail("unreadable-output", "%v\n%s", err, res)
		}
		for i := 1; i < len(got); i++ {
			if got[i].D < got[i-1].D {
				t.Fail("order", "%s comes after %s\n%s", got[i], got[i-1], res)
			}
		}
		t.compareImport(l, got, want, res)
		return res
	}
	res := check(append([]string{"-keep-dupes"}, good...)...)
	check(append([]string{"-keep-dupes", "-bmo"}, flawed...)...)
	t.Count("transactions", len(want))
	t.Count("dropped", drops)
	t.Count("ruled", ruled)
	if ruled > 0 {
		t.Nontrivial(res.Out)
	}
	if len(want) > 0 {
		t.Sample(map[string]any{"output": clip(res.Out)})
	}
	// unknown account
	if r.IntN(10) == 0 {
		x := b.genStmt(r, start, span, false)
		b.comOf["555"] = l.Default
		x.id, x.noList = "555", false
		x.txns = append(x.txns, &ofxTxn{d: start, name: "x", amt: big.NewInt(5)})
		fn := t.Write("unknown.qfx", renderOfx(r, l, b.comOf, []*ofxStmt{x}, genOfxStyle(r)))
		if u := t.Exec(t.Path("db"), "ofx2coin", fn); u.Code == 0 {
			t.Fail("unknown-account", "a statement of an unknown account was accepted\n%s", u)
		}
	}
}

func c18(t *T) {
	r := t.R
	b := t.genOfxBase()
	if r.IntN(8) == 0 {
		b.dropRules()
	}
	if len(b.ids) == 0 {
		return
	}
	// imports into accounts which have the commodity of the statement only
	l := b.l
	for _, g := range b.rf.groups {
		for _, x := range g.lines {
			if x.ref == nil && x.acc != "--" && r.IntN(3) > 0 { // few targets
				x.acc, x.expr = b.accOf[pick(r, b.ids)], ""
				x.expr = x.acc
			}
		}
	}
	t.writeDB(l, "db", Style{})
	if !b.none {
		t.Write("db/ofx.rules", b.rf.render(r, true))
	}
	start := mkDay(2019, 1, 1) + Day(r.IntN(700))
	span := 1 + r.IntN(6)
	// the statements
	pool := map[string][]*ofxTxn{}
	type entry struct {
		key  string // day, postings and code
		file string
		line int
	}
	inLedger := map[string][]entry{}
	lost, stayed, codes := 0, 0, 0
	outs := ""
	for step := 0; step < 2+r.IntN(4); step++ {
		var files []string
		type item struct {
			m   *imported
			key string
		}
		var items []item
		for f := 1 + r.IntN(2); f > 0; f-- {
			var stmts []*ofxStmt
			for k := 1 + r.IntN(2); k > 0; k-- {
				x := b.genStmt(r, start, span, true)
				// again what was there before
				old := pool[x.id]
				for i := range x.txns {
					if len(old) > 0 && r.IntN(2) == 0 {
						x.txns[i] = pick(r, old)
						if x.cc { // the spaces inside the name of a card's transaction are nobody's promise
							y := *x.txns[i]
							y.name = strings.Join(strings.Fields(y.name), " ")
							x.txns[i] = &y
						}
					}
				}
				pool[x.id] = append(pool[x.id], x.txns...)
				stmts = append(stmts, x)
				ms, _, _ := b.convert(x)
				for _, m := range ms {
					k := m.d.String() + "|" + strings.Join(m.ordered, "|")
					if code, _, _ := readPayee(m.desc); code != "" {
						k += "|(" + code + ")"
						codes++
					}
					items = append(items, item{m, k})
				}
			}
			files = append(files, t.Write(fmt.Sprintf("s%df%d.qfx", step, f), renderOfx(r, l, b.comOf, stmts, genOfxStyle(r))))
		}
		// what stays
		groups := map[string][]*imported{}
		var keys []string
		ledgerDups, importDups := 0, 0
		for _, it := range items {
			if len(inLedger[it.key]) > 0 {
				ledgerDups++
				continue
			}
			if len(groups[it.key]) == 0 {
				keys = append(keys, it.key)
			} else {
				importDups++
			}
			groups[it.key] = append(groups[it.key], it.m)
		}
		args := append([]string(nil), files...)
		r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
		res := t.Exec(t.Path("db"), "ofx2coin", args...)
		if res.Code != 0 {
			t.Fail("refused", "ofx2coin failed on valid input\n%s", res)
		}
		got, err := l.parseFormatted(res.Out)
		if err != nil {
			t.Fail("unreadable-output", "%v\n%s", err, res)
		}
		seen := map[string]bool{}
		for i, g := range got {
			if i > 0 && g.D < got[i-1].D {
				t.Fail("order", "%s comes after %s\n%s", g, got[i-1], res)
			}
			k := txnKey(g)
			ms := groups[k]
			if len(ms) == 0 {
				if len(inLedger[k]) > 0 {
					t.Fail("ledger-duplicate", "already in the ledger (%v):\n%s\n%s", inLedger[k], g, res)
				}
				t.Fail("unexpected", "not in the statements:\n%s\n%s", g, res)
			}
			if seen[k] {
				t.Fail("import-duplicate", "twice in the output:\n%s\n%s", g, res)
			}
			seen[k] = true
			okDesc := false
			for _, m := range ms {
				okDesc = okDesc || m.head() == "("+g.Code+")"+g.Desc && notesOK(g, &m.importTxn)
			}
			if !okDesc {
				t.Fail("description", "description or notes of no statement transaction:\n%s\n%s", g, res)
			}
			// assertions
			for i, p := range g.Posts {
				ps := fmt.Sprintf("%s %s %s", p.Acc, p.Q, p.C)
				as := ""
				if p.Assert != nil {
					as = fmt.Sprintf(" = %s %s", p.Assert, p.AssertC)
				}
				ok, any := false, false
				for _, m := range ms {
					if x := m.asserts[ps]; x != "" && m.ordered[i] == ps {
						any = true
						ok = ok || x == as
					}
				}
				twice := len(g.Posts) == 2 && g.Posts[0].Acc == g.Posts[1].Acc && g.Posts[0].Q.Cmp(g.Posts[1].Q) == 0
				if !twice && (any && !ok || !any && as != "") {
					t.Fail("assertion", "posting %q has assertion %q which is not that of the statement transactions:\n%s\n%s", ps, as, g, res)
				}
			}
		}
		for _, k := range keys {
			if !seen[k] {
				t.Fail("lost", "no transaction %s in the output, nor in the ledger\n%s", k, res)
			}
		}
		// the reports
		if n := strings.Count(res.Err, "DROPPING DUPLICATE TRANSACTION"); n != ledgerDups+importDups {
			t.Fail("report", "%d duplicates reported, %d were dropped\n%s", n, ledgerDups+importDups, res)
		}
		lines := strings.Split(res.Err, "\n")
		locs := 0
		for i, ln := range lines {
			if !strings.HasPrefix(ln, "DROPPING") || i+1 >= len(lines) {
				continue
			}
			at := lines[i+1]
			if !strings.Contains(at, ".coin:") {
				continue
			}
			locs++
			end := i + 2
			for end < len(lines) && lines[end] != "" {
				end++
			}
			ts, err := l.parseFormatted(strings.Join(lines[i+2:end], "\n"))
			if err != nil || len(ts) != 1 {
				t.Fail("report", "dropped transaction not shown\n%s", res)
			}
			ok := false
			for _, e := range inLedger[txnKey(ts[0])] {
				ok = ok || strings.HasSuffix(at, fmt.Sprintf("/%s:%d", e.file, e.line)) || at == fmt.Sprintf("%s:%d", e.file, e.line)
			}
			if !ok {
				t.Fail("location", "no equal transaction at %s\n%s", at, res)
			}
		}
		if locs != ledgerDups {
			t.Fail("report", "%d duplicates of the ledger reported, expected %d\n%s", locs, ledgerDups, res)
		}
		lost += ledgerDups + importDups
		stayed += len(keys)
		if ledgerDups+importDups > 0 {
			outs += res.Out + res.Err
		}
		// into the ledger, some edited
		var out []string
		for _, blk := range strings.Split(strings.TrimSpace(res.Out), "\n\n") {
			if blk == "" {
				continue
			}
			if r.IntN(6) == 0 {
				ls := strings.Split(blk, "\n")
				switch r.IntN(4) {
				case 0:
					ls[0] = ls[0][:10] + " (272)" + ls[0][10:]
				case 1:
					ls[0] = ls[0][:10] + " Something else ; edited"
				case 2:
					ls = append(ls, "  ; #edited")
				case 3:
					if n := pick(r, l.Names); l.com(n) == l.Default {
						blk2 := strings.Replace(strings.Join(ls, "\n"), "  Unbalanced ", "  "+n+" ", 1)
						ls = strings.Split(blk2, "\n")
					}
				}
				blk = strings.Join(ls, "\n")
			}
			out = append(out, blk)
		}
		fn := fmt.Sprintf("imp%d.coin", step)
		text := strings.Join(out, "\n\n") + "\n"
		t.Write("db/"+fn, text)
		now, err := l.parseFormatted(text)
		if err != nil {
			t.Inconclusive("%v", err)
		}
		for _, g := range now {
			inLedger[txnKey(g)] = append(inLedger[txnKey(g)], entry{txnKey(g), fn, g.Line})
		}
		// does the ledger load at all? amounts in accounts of another commodity may not add up
		if st := t.Exec(t.Path("db"), "coin", "accounts"); st.Code != 0 {
			t.Inconclusive("%s", st)
		}
		if st := t.Exec(t.Path("db"), "coin", "stats"); st.Code != 0 {
			break
		}
	}
	if outs != "" {
		t.Nontrivial(outs)
	}
	t.Count("dropped", lost)
	t.Count("kept", stayed)
	t.Count("payees with a code", codes)
}

func txnKey(g *Txn) string {
	var ps []string
	for _, p := range g.Posts {
		ps = append(ps, fmt.Sprintf("%s %s %s", p.Acc, p.Q, p.C))
	}
	k := g.D.String() + "|" + strings.Join(ps, "|")
	if g.Code != "" {
		k += "|(" + g.Code + ")"
	}
	return k
}

func c19(t *T) {
	r := t.R
	b := t.genOfxBase()
	if len(b.ids) == 0 {
		return
	}
	l := b.l
	t.writeDB(l, "db", Style{})
	text := b.rf.render(r, true)
	t.Write("db/ofx.rules", text)
	var stmts []*ofxStmt
	var want []*importTxn
	day := mkDay(2019, 1, 1)
	decided := map[string]bool{}
	for _, id := range b.ids {
		x := &ofxStmt{id: id, cc: r.IntN(2) == 0, bal: big.NewInt(5)}
		for n := 5 + r.IntN(20); n > 0; n-- {
			p := pick(r, rulePayees)
			if r.IntN(4) == 0 {
				p += " " + pick(r, rulePayees)
			}
			x.txns = append(x.txns, &ofxTxn{d: day, name: p, amt: big.NewInt(int64(1 + n))})
			if rule := b.rf.byId(id).decide(x.payee(x.txns[len(x.txns)-1])); rule != nil {
				decided[fmt.Sprintf("%p", rule)] = true
			}
		}
		stmts = append(stmts, x)
		ms, _, _ := b.convert(x)
		for _, m := range ms {
			want = append(want, &m.importTxn)
		}
	}
	fn := t.Write("in.qfx", renderOfx(r, l, b.comOf, stmts, ofxStyle{}))
	run := func() Res {
		res := t.Exec(t.Path("db"), "ofx2coin", "-keep-dupes", fn)
		if res.Code != 0 {
			t.Fail("refused", "ofx2coin failed on valid input\n%s", res)
		}
		got, err := l.parseFormatted(res.Out)
		if err != nil {
			t.Fail("unreadable-output", "%v\n%s", err, res)
		}
		t.compareImport(l, got, want, res)
		return res
	}
	run()
	t.Count("payees", len(want))
	t.Count("rules_deciding", len(decided))
	if len(decided) > 1 {
		t.Nontrivial(text)
		t.Sample(map[string]any{"rules": text})
	}
	dump := t.Exec(t.Path("db"), "ofx2coin", "-rules")
	if dump.Code != 0 {
		t.Fail("dump", "ofx2coin -rules failed\n%s", dump)
	}
	t.Write("db/ofx.rules", dump.Out)
	run()
	again := t.Exec(t.Path("db"), "ofx2coin", "-rules")
	if again.Code != 0 || again.Out != dump.Out {
		t.Fail("dump-again", "the dump of the dumped rules differs\n%s\n%s", dump, again)
	}
	// damage
	if r.IntN(3) == 0 && len(b.rf.groups) > 0 {
		ls := strings.Split(text, "\n")
		i := r.IntN(len(ls))
		if !strings.HasPrefix(strings.TrimSpace(ls[i]), ";") && strings.TrimSpace(ls[i]) != "" {
			bad := pick(r, []string{"  @nosuchset", "  NoSuchAccount_x SHOP", "  ?? x", "  = 5", "12 NoSuchAccount_y", "(x)", "a b c", "  @", "  Assets;Bank x", "[Expenses]"})
			if r.IntN(3) == 0 { // something that exists, written wrong
				set, acc := "nosuchset", pick(r, l.Names)
				for _, g := range b.rf.groups {
					if g.name != "" {
						set = g.name
					}
				}
				bad = pick(r, []string{"@" + set, "  @" + set + " x", "  @ " + set, "@" + set + " ;", "  " + acc + "|x", "  " + acc + ".* y", "  \"" + acc + "\" y", "99 " + acc + " z", "99 " + acc + ".", "(" + set + ")", "  +" + acc + " x"})
			}
			ls = append(ls[:i:i], append([]string{bad}, ls[i:]...)...)
			t.Write("db/ofx.rules", strings.Join(ls, "\n"))
			if res := t.Exec(t.Path("db"), "ofx2coin", "-keep-dupes", fn); res.Code == 0 {
				t.Fail("bad-rules-accepted", "the line %q of the rules was ignored\n%s", bad, res)
			}
			t.Count("damaged", 1)
		}
	}
}
