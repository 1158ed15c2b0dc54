package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

// A ledger laid out over files in one of many equivalent ways: split, nested includes of every form, comments and blank lines.

type entry struct {
	render func(w *writer) int // writes the entry, returns its first line
	at     func(file string, line int)
}

type layout struct {
	t    *T
	db   string // relative to the case directory
	s    Style
	env  map[string]string
	n    int
	cwd  string // absolute
	incs int
	// every *.coin (or *.prices) of the database directory may be loaded by itself
	reserved map[string]bool
}

func (t *T) newLayout(db string, s Style) *layout {
	return &layout{t: t, db: db, s: s, env: map[string]string{}, cwd: t.dir, reserved: map[string]bool{}}
}

// fresh returns an unused file name: not loaded unless included.
func (y *layout) fresh(dir string) string {
	y.n++
	ext := pick(y.t.R, []string{".inc", ".txt", ".ledger", ""})
	if dir != y.db && y.t.N(2) == 0 {
		ext = pick(y.t.R, []string{".coin", ".prices"})
	}
	return filepath.Join(dir, fmt.Sprintf("f%02d%s", y.n, ext))
}

// baseName returns a file name without extension that is not used otherwise.
func (y *layout) baseName() string {
	r := y.t.R
	switch r.IntN(8) {
	case 7:
		return fmt.Sprintf("%d%s", y.n, pick(r, []string{"accounts", "commodities", "prices", "-transactions"}))
	case 0:
		return fmt.Sprintf("20%02d-%02d", y.n, 1+r.IntN(12))
	case 1:
		return fmt.Sprintf("%d", 1990+y.n)
	case 2:
		return pick(r, []string{"A b", "_x", "Z.y", "Été", "accounts-", "commodities_", "x.coin", "transactions_"}) + fmt.Sprint(y.n)
	}
	return fmt.Sprintf("%c%d", 'a'+r.IntN(26), y.n)
}

func (y *layout) subdir(base string) string {
	y.n++
	switch y.t.N(4) {
	case 0:
		return base
	case 1:
		return filepath.Join(base, fmt.Sprintf("sub%d", y.n))
	case 2:
		return filepath.Join(base, fmt.Sprintf("a%d", y.n), "b.c")
	}
	for { // outside of the database, not where another one left files
		d := fmt.Sprintf("out%d", y.n)
		if _, err := os.Stat(y.t.Path(d)); err != nil {
			return d
		}
		y.n++
	}
}

// literal spells a path so that no character in it is special in an include.
func (y *layout) literal(p string) string {
	p = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`).Replace(p)
	if strings.Contains(p, "$") {
		y.env["VDOLLAR"] = "$"
		p = strings.ReplaceAll(p, "$", "${VDOLLAR}")
	}
	return p
}

// incPath spells the path of target (relative to the case directory) as seen from a file in dir.
func (y *layout) incPath(dir, target string, wild ...string) string {
	rel, err := filepath.Rel(dir, target)
	if err != nil {
		panic(err)
	}
	abs := y.literal(filepath.Join(y.t.dir, target))
	rel = y.literal(rel)
	if len(wild) > 0 {
		abs, rel = filepath.Join(abs, wild[0]), filepath.Join(rel, wild[0])
	}
	plain := func(s string) string { return strings.ReplaceAll(s, "${VDOLLAR}", "$") }
	switch y.t.N(8) {
	case 5: // several variables
		v, v2 := fmt.Sprintf("VA%d", len(y.env)), fmt.Sprintf("VB%d", len(y.env))
		y.env[v2] = plain(filepath.Base(rel))
		if y.t.N(2) == 0 {
			y.env[v] = plain(filepath.Dir(abs))
			return "$" + v + "/$" + v2
		}
		y.env[v] = plain(filepath.Dir(rel))
		return "./${" + v + "}/${" + v2 + "}"
	case 0: // a variable at the start, absolute value
		v := fmt.Sprintf("VDIR%d", len(y.env))
		y.env[v] = plain(filepath.Dir(abs))
		return pick(y.t.R, []string{"$" + v, "${" + v + "}"}) + "/" + filepath.Base(abs)
	case 1: // a variable in the middle or end of a relative path
		v := fmt.Sprintf("VNAME%d", len(y.env))
		b := filepath.Base(rel)
		k := y.t.N(len(b) + 1)
		y.env[v] = b[k:]
		x := b[:k] + "${" + v + "}"
		if x[0] == '$' && filepath.Dir(rel) == "." {
			x = "./" + x
		}
		return path.Join(filepath.Dir(rel), ".") + "/" + x
	case 2: // from the directory the command runs in
		cr, err := filepath.Rel(y.cwd, filepath.Join(y.t.dir, target))
		if err == nil && !strings.HasPrefix(cr, "..") {
			return "/" + filepath.Join(append([]string{y.literal(cr)}, wild...)...)
		}
	case 3:
		if !strings.HasPrefix(rel, "..") {
			return "./" + rel
		}
	case 4: // in and out again
		return "../" + y.literal(filepath.Base(filepath.Join(y.t.dir, dir))) + "/" + rel
	}
	return rel
}

// put writes the entries into file (relative to the case directory), some of them through included files.
func (y *layout) put(file string, es []entry, depth int) {
	r := y.t.R
	w := newWriter()
	dir := filepath.Dir(file)
	var filler string
	for y.s.Comments && y.t.N(3) == 0 {
		w.ln("%s", pick(r, []string{"", "; head", "# x", "   ", "* stars", "%"}))
	}
	for i := 0; i < len(es); {
		if depth > 0 && y.t.N(4) == 0 {
			n := 1 + y.t.N(len(es)-i)
			switch y.t.N(6) {
			case 0, 1, 2: // one file
				d := y.subdir(dir)
				f := y.fresh(d)
				if d != dir && y.t.N(4) == 0 {
					f = filepath.Join(d, filepath.Base(file)) // the name of the including file
				}
				y.put(f, es[i:i+n], depth-1)
				w.ln("include%s%s%s", pick(r, []string{" ", " ", " ", "\t", "   ", " \t "}), y.incPath(dir, f), pick(r, []string{"", "", "  "}))
			case 3, 4: // several files through a glob
				y.n++
				d := filepath.Join(dir, fmt.Sprintf("glob%d", y.n))
				k := 1 + y.t.N(3)
				var names []string
				for len(names) < k {
					nm := fmt.Sprintf("%c%02d%s.x", 'a'+y.t.N(4), y.t.N(100), pick(r, []string{"", "q", "-1"}))
					if !containsStr(names, nm) {
						names = append(names, nm)
					}
				}
				sort.Strings(names)
				lo := i
				for j, nm := range names {
					hi := lo + y.t.N(i+n-lo+1)
					if j == k-1 {
						hi = i + n
					}
					y.put(filepath.Join(d, nm), es[lo:hi], depth-1)
					lo = hi
				}
				// files the pattern does not match are not read
				y.t.Write(filepath.Join(d, "z.y"), "this is not a ledger\n")
				w.ln("include %s", y.incPath(dir, d, pick(r, []string{"*.x", "[a-d]*.x", "?[0-9]*.x"})))
			case 5: // nothing matches, or a file without entries that is included again and again
				if filler == "" && y.t.N(2) == 0 {
					filler = y.fresh(y.subdir(dir))
					y.t.Write(filler, "; no entries\n\n# here\n")
				}
				if filler != "" {
					w.ln("include %s", y.incPath(dir, filler))
				} else {
					w.ln("include %s", pick(r, []string{"none*.x", "nodir/*", "sub/[x]?"}))
				}
				n = 0
			}
			y.incs++
			i += n
		} else {
			line := es[i].render(w)
			if es[i].at != nil {
				es[i].at(filepath.Join(y.t.dir, file), line)
			}
			i++
		}
		w.sep(r, y.s)
	}
	s := w.String()
	if len(es) > 0 && y.t.N(6) == 0 {
		s = strings.TrimRight(s, "\n") // no newline at the end of the file
	}
	if y.t.N(10) == 0 {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	y.t.Write(file, s)
}

func containsStr(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func (y *layout) envList() (out []string) {
	for k, v := range y.env {
		out = append(out, k+"="+v)
	}
	return
}

func (y *layout) entries(l *Ledger) (coms, accs, prices, txns []entry) {
	r := y.t.R
	for _, id := range l.ComIds {
		c := l.Coms[id]
		coms = append(coms, entry{func(w *writer) int { l.renderCom(w, c); return c.Line }, func(f string, n int) { c.File, c.Line = f, n }})
	}
	for _, n := range l.Names {
		a := l.Accs[n]
		accs = append(accs, entry{func(w *writer) int { l.renderAcc(w, r, a); return a.Line }, func(f string, n int) { a.File, a.Line = f, n }})
	}
	for _, p := range l.Prices {
		prices = append(prices, entry{func(w *writer) int { l.renderPrice(w, r, y.s, p); return p.Line }, func(f string, n int) { p.File, p.Line = f, n }})
	}
	for _, tx := range l.loaded() {
		txns = append(txns, entry{func(w *writer) int { l.renderTxn(w, r, y.s, tx); return tx.Line }, func(f string, n int) { tx.File, tx.Line = f, n }})
	}
	return
}

// split distributes the entries over several files of the database that are loaded by themselves, in order.
func (y *layout) split(es []entry, names []string, depth int) {
	sort.Strings(names)
	lo := 0
	for i, n := range names {
		hi := lo + y.t.N(len(es)-lo+1)
		if i == len(names)-1 {
			hi = len(es)
		}
		y.put(filepath.Join(y.db, n), es[lo:hi], depth)
		lo = hi
	}
}

// write lays the ledger out. If keep is set, the order in which transactions are read is the one of the model; otherwise it is
// shuffled. If mixed is set, accounts, prices and transactions may be in the same files.
func (y *layout) write(l *Ledger, keep, mixed bool) {
	r := y.t.R
	coms, accs, prices, txns := y.entries(l)
	shuffle := func(es []entry) { r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] }) }
	shuffle(coms)
	shuffle(accs)
	shuffle(prices)
	if !keep {
		shuffle(txns)
	}
	y.put(filepath.Join(y.db, "commodities.coin"), coms, 2)
	if mixed {
		// merge all entries, keeping the order of the transactions
		others := append(append([]entry(nil), accs...), prices...)
		shuffle(others)
		k := r.IntN(len(others) + 1)
		y.put(filepath.Join(y.db, "accounts.coin"), others[:k], 2)
		others = others[k:]
		var all []entry
		for len(txns)+len(others) > 0 {
			if r.IntN(len(txns)+len(others)) < len(txns) {
				all = append(all, txns[0])
				txns = txns[1:]
			} else {
				all = append(all, others[0])
				others = others[1:]
			}
		}
		txns = all
	} else {
		y.put(filepath.Join(y.db, "accounts.coin"), accs, 2)
		if r.IntN(2) == 0 {
			y.put(filepath.Join(y.db, "prices.coin"), prices, 2)
			if r.IntN(2) == 0 { // not read then
				y.t.Write(filepath.Join(y.db, "old.prices"), "P nonsense\n")
			}
		} else {
			var names []string
			for k := 1 + r.IntN(4); k > 0; k-- {
				y.n++
				names = append(names, y.baseName()+".prices")
			}
			y.split(prices, names, 1)
		}
	}
	if r.IntN(2) == 0 {
		y.put(filepath.Join(y.db, "transactions.coin"), txns, 3)
		if r.IntN(2) == 0 { // not read then
			y.t.Write(filepath.Join(y.db, pick(r, []string{"zz.coin", "2019.coin"})), "nonsense\n")
		}
	} else {
		var names []string
		for k := 1 + r.IntN(5); k > 0; k-- {
			y.n++
			names = append(names, y.baseName()+".coin")
		}
		y.split(txns, names, 2)
	}
}
