package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C14", Quick: 1500, Thor: 30000, Case: c14,
		Rule: "random ledgers whose notes (of transactions and postings, beside or below) hold tags in every position and spelling, with near misses (lone #, text after a colon and comma, values holding colons, hashes, blanks, non-ASCII text); coin tags with every flag and -t filters on register and balance compared with an independent scanner of the notes; an evaluation is one command, distinct by its output, non-trivial if a tag with a value was involved"})
}

var c14keys = []string{"food", "Food", "FOOD2", "a", "x-y", "tax/2020", "K_9", "0", "-", "foo", "food-late"}
var c14vals = []string{"Paris", "paris", "x", "New York", "a:b", "#1 fan", "12.5%", "été", "yes; no", "2020/01/01", "'q'", "(p)", "a  b", "=x"}

func (t *T) tagNote() string {
	r := t.R
	var b strings.Builder
	used := map[string]bool{}
	n := 1 + r.IntN(4)
	for i := 0; i < n; i++ {
		if b.Len() > 0 {
			b.WriteString(pick(r, []string{" ", "  ", "\t", ""}))
		}
		switch r.IntN(6) {
		case 0:
			b.WriteString(pick(r, []string{"lunch", "#", "# x", "##", "no.#", "é", "a,b", ",", ":", "#:v", "(", "C#", "# food: x"}))
		default:
			k := pick(r, c14keys)
			if used[k] {
				continue
			}
			used[k] = true
			b.WriteString("#" + k)
			switch r.IntN(7) {
			case 0, 1, 2:
				b.WriteString(":" + pick(r, []string{" ", "", "  ", "\t"}) + pick(r, c14vals) + pick(r, []string{"", "", " "}))
				if i < n-1 {
					b.WriteString(pick(r, []string{",", ", ", " ,"}))
				}
			case 3:
				b.WriteString(pick(r, []string{":", ": ", ":,", ": ,", " : x", " :", ".", "!", ")", "é"}))
			}
		}
	}
	return b.String()
}

// spreadTags gives the notes of an item so that no key is given twice with different values (which one counts is unspecified).
func (t *T) spreadTags(max int) (notes []string) {
	for k := t.N(max + 1); k > 0; k-- {
		notes = append(notes, t.tagNote())
	}
	return
}

// multi tells if a key is given more than once in the notes of one item.
func multi(notes []string) bool {
	seen := map[string]bool{}
	for _, n := range notes {
		for k := range tagsOf([]string{n}) {
			if seen[k] {
				return true
			}
			seen[k] = true
		}
		// within one note
		cnt := map[string]int{}
		rest := n
		for {
			i := strings.IndexByte(rest, '#')
			if i < 0 {
				break
			}
			rest = rest[i+1:]
			j := 0
			for j < len(rest) && isKeyChar(rest[j]) {
				j++
			}
			if j > 0 {
				cnt[rest[:j]]++
				if cnt[rest[:j]] > 1 {
					return true
				}
			}
		}
	}
	return false
}

func c14(t *T) {
	o := defOpt(t)
	o.Notes = 0
	o.Uniform = true
	o.Accounts = 3 + t.N(6)
	o.Txns = 3 + t.N(20)
	l := t.gen(&o)
	for i, tx := range l.Txns {
		tx.Desc = fmt.Sprintf("T%d", i)
		for tx.Notes = t.spreadTags(2); multi(tx.Notes); {
			tx.Notes = t.spreadTags(2)
		}
		for _, p := range tx.Posts {
			if t.N(3) == 0 {
				for p.Notes = t.spreadTags(3); multi(p.Notes); {
					p.Notes = t.spreadTags(3)
				}
			}
		}
	}
	// a note may not be blank, and what follows the first ; of a line is the note
	db := t.writeDB(l, "db", Style{Fancy: true, Comments: true})

	vals := map[string]map[string]bool{}
	accs := map[string]map[string]bool{}
	add := func(tags map[string]string, as ...string) {
		for k, v := range tags {
			if vals[k] == nil {
				vals[k], accs[k] = map[string]bool{}, map[string]bool{}
			}
			if v != "" {
				vals[k][v] = true
			}
			for _, a := range as {
				accs[k][a] = true
			}
		}
	}
	ntags := 0
	for _, tx := range l.Txns {
		var as []string
		for _, p := range tx.Posts {
			as = append(as, p.Acc)
			add(tagsOf(p.Notes), p.Acc)
			ntags += len(tagsOf(p.Notes))
		}
		add(tagsOf(tx.Notes), as...)
		ntags += len(tagsOf(tx.Notes))
	}
	var keys []string
	for k := range vals {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	keysOf := func(m map[string]bool) (out []string) {
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		return
	}
	for _, fl := range [][]string{nil, {"-v"}, {"-a"}, {"-v", "-a"}} {
		args := append([]string{"tags"}, fl...)
		var pat *Pat
		if t.N(2) == 0 {
			p := t.genPat(pick(t.R, c14keys))
			pat = &p
			args = append(args, "--", p.String())
		}
		r := t.MustOK(db, "coin", args...)
		var want []string
		for _, k := range keys {
			if pat != nil && !pat.match(k) {
				continue
			}
			vs := keysOf(vals[k])
			s := k
			if len(vs) > 0 {
				s += ":"
				if hasAny(fl, "-v") {
					s += ` "` + strings.Join(vs, `", "`) + `"`
				}
			}
			want = append(want, s)
			if hasAny(fl, "-a") {
				for _, a := range keysOf(accs[k]) {
					want = append(want, "\t"+a)
				}
			}
		}
		// accounts may come in any order
		var got, run []string
		flush := func() { sort.Strings(run); got = append(got, run...); run = nil }
		for _, ln := range lines(r.Out) {
			if strings.HasPrefix(ln, "\t") {
				run = append(run, ln)
				continue
			}
			flush()
			got = append(got, ln)
		}
		flush()
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			t.Fail("tags", "expected\n%s\n\n%s", strings.Join(want, "\n"), r)
		}
		t.Count("tag_rows", len(got))
		if ntags > 0 {
			t.Nontrivial(r.Out + strings.Join(args, " "))
		}
	}
	// filters
	for k := 0; k < 4; k++ {
		f := &Filter{hasTag: true, Neg: t.N(3) == 0}
		kp := t.genPat(pick(t.R, c14keys))
		for strings.Contains(kp.String(), ":") {
			kp = t.genPat(pick(t.R, c14keys))
		}
		f.TagK = &kp
		s := kp.String()
		if t.N(2) == 0 {
			vp := t.genPat(pick(t.R, c14vals))
			f.TagV = &vp
			s += ":" + vp.String()
		}
		if f.Neg {
			s = "!" + s
		}
		acc := pick(t.R, l.Names)
		want := 0
		var descs []string
		for _, p := range l.postings(acc) {
			if f.match(p) {
				want++
				descs = append(descs, p.T.Desc)
			}
		}
		r := t.MustOK(db, "coin", "register", "-t", s, acc)
		var got []string
		for _, ln := range lines(r.Out) {
			if f := fields(ln); len(f) == 5 {
				got = append(got, f[1])
			}
		}
		if strings.Join(got, " ") != strings.Join(descs, " ") {
			t.Fail("filter", "-t %s selects %v, expected %v\n%s", s, got, descs, r)
		}
		rows, err := l.expectBalance("Root", f.match, false, 0)
		if err == nil {
			r = t.MustOK(db, "coin", "balance", "-t", s)
			t.checkBalance(l, r, rows, "filter")
		}
		t.Count("filtered_postings", want)
		if want > 0 {
			t.Nontrivial(s + r.Out)
		}
	}
	t.Count("tags_in_notes", ntags)
	if t.I < 3 && len(l.Txns) > 0 {
		t.Sample(fmt.Sprintf("notes %q: tags %v", l.Txns[0].Notes, tagsOf(l.Txns[0].Notes)))
	}
}
