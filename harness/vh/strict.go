package main

import (
	"math/big"
	"strings"
)

// A strict reader of ledger files, written by hand from the documented syntax. It tells whether a text is valid, and what it
// says if it is. Where the documentation leaves room it answers that it does not know.

type strictFile struct {
	coms   []*Com
	accs   []*Acc
	prices []*Price
	txns   []*Txn
	def    string // commodity declared the default one
	bad    string // why the text must be refused
	unsure string // why nothing can be said
}

type scan struct {
	s string
}

func isSp(c byte) bool    { return c == ' ' || c == '\t' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isAlpha(c byte) bool { return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' }

// spaces eats blanks and tells how many.
func (x *scan) spaces() int {
	n := 0
	for n < len(x.s) && isSp(x.s[n]) {
		n++
	}
	x.s = x.s[n:]
	return n
}

func (x *scan) while(f func(byte) bool) string {
	n := 0
	for n < len(x.s) && f(x.s[n]) {
		n++
	}
	r := x.s[:n]
	x.s = x.s[n:]
	return r
}

// end tells if only blanks and maybe a comment remain.
func (x *scan) end() bool {
	x.spaces()
	return x.s == "" || x.s[0] == ';'
}

// note returns the text behind the ; of the rest.
func (x *scan) note() string {
	x.spaces()
	if x.s == "" {
		return ""
	}
	return strings.TrimPrefix(x.s[1:], " ")
}

func (x *scan) commodity() string {
	if x.s == "" || !isAlpha(x.s[0]) {
		return ""
	}
	return x.while(func(c byte) bool { return isAlpha(c) || isDigit(c) || c == '_' })
}

// number reads -?d+(.d+)?
func (x *scan) number() string {
	y := *x
	n := ""
	if strings.HasPrefix(y.s, "-") {
		n, y.s = "-", y.s[1:]
	}
	i := y.while(isDigit)
	if i == "" {
		return ""
	}
	n += i
	if strings.HasPrefix(y.s, ".") {
		y.s = y.s[1:]
		f := y.while(isDigit)
		if f == "" {
			return ""
		}
		n += "." + f
	}
	*x = y
	return n
}

// amount reads a number, blanks and a commodity.
func (x *scan) amount() (n, c string, ok bool) {
	if n = x.number(); n == "" || x.spaces() == 0 {
		return "", "", false
	}
	c = x.commodity()
	return n, c, c != ""
}

// account reads an account name; with expr also a shortened one (:: allowed).
func (x *scan) account(expr bool) string {
	y := *x
	elem := func() bool {
		if y.s == "" || !isAlpha(y.s[0]) {
			return false
		}
		y.while(isElemChar)
		return true
	}
	if !elem() {
		return ""
	}
	for strings.HasPrefix(y.s, ":") {
		z := y
		y.s = y.s[1:]
		if expr && strings.HasPrefix(y.s, ":") {
			y.s = y.s[1:]
		}
		if !elem() {
			y = z
			break
		}
	}
	r := x.s[:len(x.s)-len(y.s)]
	*x = y
	return r
}

const (
	dayOK = iota
	dayBad
	dayUnsure
)

// day reads a date written as YYYY/M/D. Other spellings are not judged.
func (x *scan) day() (Day, int) {
	tok := x.while(func(c byte) bool {
		return isDigit(c) || c == '/' || c == '+' || c == '-' || c == '.' || isAlpha(c)
	})
	p := strings.Split(tok, "/")
	num := func(s string, min, max int) (int, bool) {
		if len(s) < min || len(s) > max {
			return 0, false
		}
		n := 0
		for i := 0; i < len(s); i++ {
			if !isDigit(s[i]) {
				return 0, false
			}
			n = n*10 + int(s[i]-'0')
		}
		return n, true
	}
	if len(p) == 3 {
		y, ok1 := num(p[0], 4, 4)
		m, ok2 := num(p[1], 1, 2)
		d, ok3 := num(p[2], 1, 2)
		if ok1 && ok2 && ok3 {
			if m < 1 || m > 12 || d < 1 {
				return 0, dayBad
			}
			r := mkDay(y, m, d)
			if yy, mm, dd := r.ymd(); yy != y || mm != m || dd != d {
				return 0, dayBad
			}
			if y < 1 {
				return 0, dayUnsure
			}
			return r, dayOK
		}
	}
	if tok == "" {
		return 0, dayBad
	}
	for i := 0; i < len(tok); i++ {
		if isAlpha(tok[i]) && !strings.ContainsRune("dwmy", rune(tok[i])) || tok[i] == '.' {
			return 0, dayBad
		}
	}
	if strings.Count(tok, "/") > 2 || strings.Contains(tok, "//") || strings.HasSuffix(tok, "/") {
		return 0, dayBad
	}
	return 0, dayUnsure
}

// unitsOf gives the units of a written number at n decimals, cutting what is beyond.
func unitsOf(s string, n int) *big.Int {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	i, f, _ := strings.Cut(s, ".")
	for len(f) < n {
		f += "0"
	}
	v, _ := new(big.Int).SetString(i+f[:n], 10)
	if neg {
		v.Neg(v)
	}
	return v
}

// amt is an amount as written.
type amt struct{ n, c string }

// strictParse reads a whole file. Amounts of transactions and prices stay as written in raw, keyed by posting or price.
func strictParse(text string, raw map[any][2]amt) *strictFile {
	f := &strictFile{}
	for i := 0; i < len(text); i++ {
		if c := text[i]; c < 32 && c != '\n' && c != '\t' || c >= 127 {
			f.unsure = "unusual characters"
			return f
		}
	}
	ls := strings.Split(text, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	blank := func(s string) bool { return strings.Trim(s, " \t") == "" }
	fail := func(why, ln string) *strictFile { f.bad = why + ": " + ln; return f }
	doubt := func(why string) *strictFile { f.unsure = why; return f }
	for i := 0; i < len(ls); {
		ln := ls[i]
		switch {
		case blank(ln):
			i++
		case strings.IndexByte(";#%|*", ln[0]) >= 0:
			i++
		case strings.HasPrefix(ln, "include"), strings.HasPrefix(ln, "test "):
			return doubt("include or test")
		case strings.HasPrefix(ln, "account"):
			x := &scan{ln[len("account"):]}
			if x.spaces() == 0 {
				return fail("account line", ln)
			}
			a := &Acc{Full: x.account(false), Line: i + 1}
			if a.Full == "" || !x.end() {
				return fail("account line", ln)
			}
			for i++; i < len(ls) && !blank(ls[i]) && isSp(ls[i][0]); i++ {
				x := &scan{ls[i]}
				x.spaces()
				w := x.while(func(c byte) bool { return !isSp(c) })
				if x.spaces() == 0 {
					return fail("account detail", ls[i])
				}
				switch w {
				case "note":
					if x.s == "" {
						return fail("account note", ls[i])
					}
					a.Desc = strings.TrimRight(x.s, " \t")
					if strings.Contains(x.s, ";") {
						return doubt("; in a note")
					}
				case "commodity":
					if a.Com = x.commodity(); a.Com == "" || !x.end() {
						return fail("account commodity", ls[i])
					}
				case "closed":
					d, st := x.day()
					if st == dayBad {
						return fail("account closed", ls[i])
					} else if st == dayUnsure {
						return doubt("date")
					}
					if !x.end() {
						return fail("account closed", ls[i])
					}
					a.Closed = &d
				case "ofx_bankid", "ofx_acctid":
					id := x.while(isDigit)
					if id == "" || !x.end() {
						return fail("account id", ls[i])
					}
					if w == "ofx_bankid" {
						a.BankId = id
					} else {
						a.OfxId = id
					}
				case "csv_acctid":
					if x.while(func(c byte) bool { return isAlpha(c) || isDigit(c) || c == '_' }) == "" || !x.end() {
						return fail("account id", ls[i])
					}
				default:
					return fail("account detail", ls[i])
				}
			}
			f.accs = append(f.accs, a)
		case strings.HasPrefix(ln, "commodity "):
			x := &scan{ln[len("commodity"):]}
			x.spaces()
			c := &Com{Id: x.commodity(), Dec: 2, Line: i + 1}
			if c.Id == "" || !x.end() {
				return fail("commodity line", ln)
			}
			for i++; i < len(ls) && !blank(ls[i]) && isSp(ls[i][0]); i++ {
				x := &scan{ls[i]}
				x.spaces()
				w := x.while(func(c byte) bool { return !isSp(c) && c != ';' })
				n := x.spaces()
				switch w {
				case "note":
					if n == 0 {
						return fail("commodity note", ls[i])
					}
					if x.s == "" || strings.Contains(x.s, ";") {
						return doubt("commodity note")
					}
					c.Name = strings.TrimRight(x.s, " \t")
				case "format":
					num, id, ok := x.amount()
					if n == 0 || !ok || !x.end() {
						return fail("commodity format", ls[i])
					}
					if id != c.Id {
						return doubt("format of another commodity")
					}
					_, fr, _ := strings.Cut(num, ".")
					c.Dec = len(fr)
				case "symbol":
					c.Symbol = x.while(func(b byte) bool { return isAlpha(b) || isDigit(b) || b == '_' || b == '.' })
					if n == 0 || c.Symbol == "" || !x.end() {
						return fail("commodity symbol", ls[i])
					}
				case "nomarket":
					if !x.end() {
						return fail("commodity detail", ls[i])
					}
					c.NoMarket = true
				case "default":
					if !x.end() {
						return fail("commodity detail", ls[i])
					}
					f.def = c.Id
				default:
					return fail("commodity detail", ls[i])
				}
			}
			f.coms = append(f.coms, c)
		case strings.HasPrefix(ln, "P "):
			x := &scan{ln[2:]}
			if x.s != "" && isSp(x.s[0]) {
				return doubt("blanks before a price's date")
			}
			d, st := x.day()
			if st == dayBad {
				return fail("price", ln)
			} else if st == dayUnsure {
				return doubt("date")
			}
			p := &Price{D: d, Line: i + 1}
			if x.spaces() == 0 {
				return fail("price", ln)
			}
			if p.Com = x.commodity(); p.Com == "" || x.spaces() == 0 {
				return fail("price", ln)
			}
			n, c, ok := x.amount()
			if !ok || !x.end() {
				return fail("price", ln)
			}
			p.Cur = c
			raw[p] = [2]amt{{n, c}}
			f.prices = append(f.prices, p)
			i++
		case isDigit(ln[0]):
			x := &scan{ln}
			d, st := x.day()
			if st == dayUnsure {
				return doubt("date")
			} else if st == dayBad {
				return fail("date", ln)
			}
			tx := &Txn{D: d, Line: i + 1}
			n := x.spaces()
			if n == 0 && x.s != "" && x.s[0] != ';' {
				return fail("transaction", ln)
			}
			if strings.HasPrefix(x.s, "(") && n > 0 {
				k := strings.IndexByte(x.s, ')')
				if k > 1 && isWord(x.s[1:k]) && (k+1 == len(x.s) || isSp(x.s[k+1]) || x.s[k+1] == ';') {
					tx.Code = x.s[1:k]
					x.s = x.s[k+1:]
					x.spaces()
				}
			}
			k := strings.IndexByte(x.s, ';')
			if k < 0 {
				k = len(x.s)
			}
			tx.Desc = strings.TrimRight(x.s[:k], " \t")
			x.s = x.s[k:]
			if nt := x.note(); !blank(nt) {
				tx.Notes = append(tx.Notes, nt)
			}
			var p *Post
			for i++; i < len(ls) && !blank(ls[i]) && isSp(ls[i][0]); i++ {
				x := &scan{ls[i]}
				x.spaces()
				if x.s[0] == ';' {
					if nt := x.note(); !blank(nt) {
						if p == nil {
							tx.Notes = append(tx.Notes, nt)
						} else {
							p.Notes = append(p.Notes, nt)
						}
					}
					continue
				}
				p = &Post{T: tx, I: len(tx.Posts), Elided: true}
				if p.Expr = x.account(true); p.Expr == "" {
					return fail("posting", ls[i])
				}
				n := x.spaces()
				var r [2]amt
				if x.s != "" && x.s[0] != ';' {
					var ok bool
					if n == 0 {
						return fail("posting", ls[i])
					}
					if r[0].n, r[0].c, ok = x.amount(); !ok {
						return fail("posting", ls[i])
					}
					p.Elided = false
					y := *x
					if n := y.spaces(); strings.HasPrefix(y.s, "=") {
						y.s = y.s[1:]
						if n == 0 || y.spaces() == 0 {
							return fail("posting", ls[i])
						}
						if r[1].n, r[1].c, ok = y.amount(); !ok {
							return fail("posting", ls[i])
						}
						*x = y
					}
				}
				if !x.end() {
					return fail("posting", ls[i])
				}
				if nt := x.note(); !blank(nt) {
					p.Notes = append(p.Notes, nt)
				}
				raw[p] = r
				tx.Posts = append(tx.Posts, p)
			}
			f.txns = append(f.txns, tx)
		default:
			return fail("unknown entry", ln)
		}
	}
	return f
}
