package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"
)

func init() {
	register(&Check{ID: "C22", Quick: 3000, Thor: 90000, Case: c22,
		Rule: "random ledgers (several commodities, foreign postings, assertions right and wrong, notes, tags, codes, closed and implied accounts, several prices a day) with hostile names, payees and notes (ends of script elements and comments, quotes, backslashes, entities, control characters, any Unicode), in one directory or laid out over included files; the document is read by an HTML tokenizer and a strict JSON reader of our own and compared entry by entry with the model; an evaluation is one document, distinct by its blocks, non-trivial if it has transactions and at least one hostile text"})
}

var hostile = []string{"</script>", "</SCRIPT >", "<script>alert(1)", "<!--", "-->", "<!-- <script>", "</script", `"`, `\`, `\"`, `\u003c/script\u003e`, `\n`, "&lt;/script&gt;", "&amp;", "&", "'",
	"`", "${x}", "{{x}}", "]]>", "<![CDATA[", "null", "[]", "{", "}", `",`, `"}]`, "\u2028", "\u2029", "\u00a0x", "\ufeff", "é", "日本", "😀", "\U0010ffff", "a\tb", "\x01", "\x1f\x7f", "\x00", "//", "/*", "<", ">", "=", "100%", "%s%d", "%!", "\u0085x", "\ufffd"}

func (t *T) hostileText(note bool) string {
	var b strings.Builder
	for n := 1 + t.N(4); n > 0; n-- {
		switch t.N(4) {
		case 0:
			b.WriteString(pick(t.R, noteWords))
		case 1:
			var c rune
			for c == 0 || c == ';' || c == '\n' || c == '\r' || !utf8.ValidRune(c) {
				c = rune(pick(t.R, []int{0x80, 0x100, 0x3000, 0x10000, 0x110000})) - 1 - rune(t.N(0x80))
			}
			b.WriteRune(c)
		default:
			b.WriteString(pick(t.R, hostile))
		}
		if n > 1 && t.N(2) == 0 {
			b.WriteByte(' ')
		}
	}
	s := b.String()
	if !note {
		s = strings.ReplaceAll(s, ";", ",")
	}
	// what begins or ends with something like a blank, and what could be read as a tag twice, is left out
	return "x" + s + "x"
}

// scriptBlocks reads a document the way a browser does as far as script elements are concerned, and returns the content of those
// with type application/json by their id.
func scriptBlocks(doc string) (map[string]string, error) {
	out := map[string]string{}
	low := asciiLower(doc)
	for i := 0; ; {
		j := strings.Index(low[i:], "<")
		if j < 0 {
			return out, nil
		}
		i += j
		if strings.HasPrefix(low[i:], "<!--") {
			k := strings.Index(low[i:], "-->")
			if k < 0 {
				return out, fmt.Errorf("comment without an end")
			}
			i += k + 3
			continue
		}
		if !strings.HasPrefix(low[i:], "<script") || i+7 < len(low) && !strings.ContainsRune(" \t\n\r\f/>", rune(low[i+7])) {
			i++
			continue
		}
		k := strings.IndexByte(low[i:], '>')
		if k < 0 {
			return out, fmt.Errorf("script start tag without an end")
		}
		tag := doc[i : i+k+1]
		i += k + 1
		// script data: ends at </script, but not within <!-- <script ... </script>
		start, escaped, double := i, false, false
		for {
			if i >= len(low) {
				return out, fmt.Errorf("script element without an end: %s", tag)
			}
			rest := low[i:]
			switch {
			case strings.HasPrefix(rest, "<!--"):
				escaped = true
			case strings.HasPrefix(rest, "-->"):
				escaped, double = false, false
			case escaped && strings.HasPrefix(rest, "<script"):
				double = true
			case strings.HasPrefix(rest, "</script") && double:
				double = false
			case strings.HasPrefix(rest, "</script"):
				goto end
			}
			i++
		}
	end:
		if strings.Contains(tag, `application/json`) {
			id := ""
			if a := strings.Index(tag, `id="`); a >= 0 {
				id, _, _ = strings.Cut(tag[a+4:], `"`)
			}
			if _, dup := out[id]; dup {
				return out, fmt.Errorf("two blocks %q", id)
			}
			out[id] = doc[start:i]
		}
	}
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// readJSON reads one JSON value without duplicate keys: objects as map[string]any, numbers as json.Number.
func readJSON(text string) (any, error) {
	if !utf8.ValidString(text) {
		return nil, fmt.Errorf("not UTF-8")
	}
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	v, err := jsonValue(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("text after the value")
	}
	return v, nil
}

func jsonValue(d *json.Decoder) (any, error) {
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch tok {
	case json.Delim('{'):
		m := map[string]any{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			if _, dup := m[k.(string)]; dup {
				return nil, fmt.Errorf("key %q twice", k)
			}
			if m[k.(string)], err = jsonValue(d); err != nil {
				return nil, err
			}
		}
		_, err = d.Token()
		return m, err
	case json.Delim('['):
		a := []any{}
		for d.More() {
			v, err := jsonValue(d)
			if err != nil {
				return nil, err
			}
			a = append(a, v)
		}
		_, err = d.Token()
		return a, err
	}
	return tok, nil
}

type jobj struct {
	t    *T
	what string
	m    map[string]any
	seen map[string]bool
}

func (t *T) obj(what string, v any) *jobj {
	m, ok := v.(map[string]any)
	if !ok {
		t.Fail("json-shape", "%s is no object: %v", what, v)
	}
	return &jobj{t, what, m, map[string]bool{}}
}

// str checks a text; an empty one may be left out.
func (o *jobj) str(key, want string) {
	o.seen[key] = true
	got, ok := o.m[key].(string)
	if !ok && o.m[key] != nil {
		o.t.Fail("json-"+key, "%s: %s is no text: %v", o.what, key, o.m[key])
	}
	if got != want {
		o.t.Fail("json-"+key, "%s: %s is %q, expected %q", o.what, key, got, want)
	}
}

func (o *jobj) text(key string) string {
	o.seen[key] = true
	s, _ := o.m[key].(string)
	return s
}

func (o *jobj) list(key string) []any {
	o.seen[key] = true
	if o.m[key] == nil {
		return nil
	}
	a, ok := o.m[key].([]any)
	if !ok {
		o.t.Fail("json-"+key, "%s: %s is no list: %v", o.what, key, o.m[key])
	}
	return a
}

func (o *jobj) notes(want []string) {
	var got []string
	for _, n := range o.list("notes") {
		s, _ := n.(string)
		got = append(got, strings.Trim(s, " \t"))
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		o.t.Fail("json-notes", "%s: notes %q, expected %q", o.what, got, want)
	}
}

func (o *jobj) tags(want map[string]string, unsure bool) {
	o.seen["tags"] = true
	got := map[string]string{}
	if o.m["tags"] != nil {
		m, ok := o.m["tags"].(map[string]any)
		if !ok {
			o.t.Fail("json-tags", "%s: tags are no object: %v", o.what, o.m["tags"])
		}
		for k, v := range m {
			got[k], _ = v.(string)
		}
	}
	if unsure {
		return
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		o.t.Fail("json-tags", "%s: tags %q, expected %q", o.what, got, want)
	}
}

// amount checks an amount printed at exactly the precision of its commodity.
func (l *Ledger) jsonAmount(v *big.Int, c string) string { return l.amt(v, c) + " " + c }

func c22(t *T) {
	r := t.R
	o := defOpt(t)
	o.Assert, o.Wrong = .2, .2
	o.Odd = true
	o.Foreign = pick(r, []float64{0, 0, .15})
	if o.Foreign > 0 {
		o.Elide, o.Explicit = 1, 0
	}
	o.Dups = .1
	o.Txns = t.N(25)
	o.Shorten = pick(r, []float64{0, .3})
	l := t.gen(&o)
	hostiles := 0
	if t.N(8) > 0 {
		for _, c := range l.Coms {
			if t.N(3) == 0 {
				c.Name = t.hostileText(true)
			}
		}
		for _, tx := range l.Txns {
			if t.N(3) == 0 {
				tx.Desc = t.hostileText(false)
				hostiles++
			}
			if t.N(3) == 0 {
				tx.Notes = append(tx.Notes, t.hostileText(true))
				hostiles++
			}
			for _, p := range tx.Posts {
				if t.N(4) == 0 {
					p.Notes = append(p.Notes, t.hostileText(true))
					hostiles++
				}
			}
		}
	}
	// several prices of one day and repeated ones
	for k := t.N(4); k > 0 && len(l.Prices) > 0 && o.Foreign == 0; k-- {
		p := *pick(r, l.Prices)
		if t.N(2) == 0 {
			p.V = bigRand(r, 1+t.N(5))
		}
		l.Prices = append(l.Prices, &p)
	}
	dir := pick(r, []string{"db", "db", "d<!--", "a&b", `q"q`, "x<script>", "é"})
	cwd, env := t.dir, []string(nil)
	db := filepath.Join(t.dir, dir)
	if t.N(4) == 0 {
		cwd = db
		if t.N(2) == 0 {
			db = "."
		}
	}
	if t.N(3) == 0 {
		y := t.newLayout(dir, Style{Fancy: true, Comments: true, Tight: true})
		y.cwd = cwd
		os.MkdirAll(cwd, 0o755)
		y.write(l, true, t.N(3) == 0)
		env = y.envList()
	} else {
		t.writeDB(l, dir, Style{Fancy: true, Comments: true})
	}
	res := t.ExecIn(db, cwd, env, "coin2html")
	if res.Code != 0 {
		t.Fail("exit", "coin2html failed on a valid ledger: %s", res)
	}
	blocks, err := scriptBlocks(res.Out)
	if err != nil {
		t.Fail("html", "the document is broken: %v\n%s", err, res)
	}
	if len(blocks) != 4 {
		t.Fail("html", "%d JSON blocks, expected 4\n%s", len(blocks), res)
	}
	val := map[string]any{}
	for id, b := range blocks {
		v, err := readJSON(b)
		if err != nil {
			t.Fail("json", "block %s is not readable: %v\n%s", id, err, clip(b))
		}
		val[id] = v
	}
	loc := func(o *jobj, file string, line int) {
		s := o.text("location")
		f, n, ok := t.whereis(cwd, s)
		if file == "" && s == "" {
			return
		}
		if !ok || f != filepath.Clean(file) || n != line {
			t.Fail("json-location", "%s: location %q, expected %s:%d", o.what, s, file, line)
		}
	}

	coms := t.obj("importedCommodities", val["importedCommodities"]).m
	if len(coms) != len(l.ComIds) {
		t.Fail("commodities", "%d commodities, expected %d: %v", len(coms), len(l.ComIds), coms)
	}
	for _, id := range l.ComIds {
		c := l.Coms[id]
		o := t.obj("commodity "+id, coms[id])
		o.str("id", id)
		o.str("name", c.Name)
		if s := o.text("code"); s != "" && s != c.Symbol {
			t.Fail("json-code", "commodity %s: code %q, expected %q", id, s, c.Symbol)
		}
		if fmt.Sprint(o.m["decimals"]) != fmt.Sprint(c.Dec) {
			t.Fail("json-decimals", "commodity %s has %v decimals, expected %d", id, o.m["decimals"], c.Dec)
		}
		loc(o, c.File, c.Line)
	}

	accs := t.obj("importedAccounts", val["importedAccounts"]).m
	all := l.allAccs()
	if len(accs) != len(all) {
		t.Fail("accounts", "%d accounts, expected %d: %v\n%v", len(accs), len(all), accs, all)
	}
	for _, n := range all {
		o := t.obj("account "+n, accs[n])
		o.str("fullName", n)
		o.str("name", baseName(n))
		o.str("commodity", l.com(n))
		o.str("code", "")
		par := parentOf(n)
		if par == "" && n != "Root" && o.m["parent"] != nil {
			par = "Root"
		}
		o.str("parent", par)
		closed, file, line := "", "", 0
		if a := l.Accs[n]; a != nil {
			file, line = a.File, a.Line
			if a.Closed != nil {
				closed = a.Closed.String()
			}
		}
		o.str("closed", closed)
		loc(o, file, line)
	}

	// prices: the same multiset, by date
	plist := func(v any, id string) []any {
		if v == nil {
			return nil
		}
		a, ok := v.([]any)
		if !ok {
			t.Fail("json-shape", "%s is no list", id)
		}
		return a
	}
	var want, got []string
	for _, p := range l.Prices {
		want = append(want, fmt.Sprintf("%s %s %s %s %s:%d", p.D, p.Com, p.Cur, l.jsonAmount(p.V, p.Cur), filepath.Clean(p.File), p.Line))
	}
	prev := ""
	for _, v := range plist(val["importedPrices"], "importedPrices") {
		o := t.obj("price", v)
		d := o.text("time")
		if d < prev {
			t.Fail("prices-order", "prices not in the order of their dates: %s after %s", d, prev)
		}
		prev = d
		f, n, _ := t.whereis(cwd, o.text("location"))
		got = append(got, fmt.Sprintf("%s %s %s %s %s:%d", d, o.text("commodity"), o.text("currency"), o.text("value"), f, n))
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		t.Fail("prices", "prices\n%s\nexpected\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}

	// transactions: by location, which is unique
	byLoc := map[string]*Txn{}
	for _, tx := range l.Txns {
		byLoc[fmt.Sprintf("%s:%d", filepath.Clean(tx.File), tx.Line)] = tx
	}
	list := plist(val["importedTransactions"], "importedTransactions")
	if len(list) != len(l.Txns) {
		t.Fail("transactions", "%d transactions, expected %d", len(list), len(l.Txns))
	}
	prev = ""
	posts := 0
	order := l.sorted()
	for i, v := range list {
		o := t.obj(fmt.Sprintf("transaction %d", i), v)
		f, n, _ := t.whereis(cwd, o.text("location"))
		at := fmt.Sprintf("%s:%d", f, n)
		tx := byLoc[at]
		if tx == nil {
			t.Fail("transaction-location", "transaction %d: no (other) transaction at %q", i, o.m["location"])
		}
		delete(byLoc, at)
		o.str("description", tx.Desc)
		o.str("posted", tx.D.String())
		o.str("code", tx.Code)
		o.notes(tx.Notes)
		o.tags(tagsOf(tx.Notes), multi(tx.Notes))
		if s := o.text("posted"); s < prev {
			t.Fail("transactions-order", "transactions not in the order of their dates: %s after %s", s, prev)
		} else {
			prev = s
		}
		if tx != order[i] {
			t.Fail("transactions-order", "transaction %d is %s, but in the order of days, files and lines it is %s", i, at, order[i].Desc)
		}
		ps := o.list("postings")
		if len(ps) != len(tx.Posts) {
			t.Fail("postings", "transaction %d: %d postings, expected %d", i, len(ps), len(tx.Posts))
		}
		for k, v := range ps {
			p := tx.Posts[k]
			posts++
			o := t.obj(fmt.Sprintf("transaction %d posting %d (%s)", i, k, p.Acc), v)
			o.str("account", p.Acc)
			o.str("quantity", l.jsonAmount(p.Q, p.C))
			if a, _ := o.m["balance_asserted"].(bool); a != (p.Assert != nil) {
				t.Fail("json-asserted", "%s: balance_asserted is %v", o.what, o.m["balance_asserted"])
			}
			run := l.jsonAmount(p.Bal, l.com(p.Acc))
			if b := o.text("balance"); b != run && !(p.Assert != nil && b == l.jsonAmount(p.Assert, p.AssertC)) {
				t.Fail("json-balance", "%s: balance %q, expected %s", o.what, b, run)
			}
			o.notes(p.Notes)
			o.tags(tagsOf(p.Notes), multi(p.Notes))
		}
	}
	t.Count("transactions_compared", len(list))
	t.Count("postings_compared", posts)
	t.Count("prices_compared", len(got))
	t.Count("accounts_compared", len(all))
	t.Count("hostile_texts", hostiles)
	if len(list) > 0 && hostiles > 0 {
		var b bytes.Buffer
		for _, id := range []string{"importedPrices", "importedTransactions"} {
			b.WriteString(blocks[id])
		}
		t.Nontrivial(b.String())
	}
	if t.I < 3 && len(l.Txns) > 0 {
		t.Sample(fmt.Sprintf("%d transactions, %d accounts, e.g. payee %q notes %q", len(list), len(all), l.Txns[0].Desc, l.Txns[0].Notes))
	}
}
