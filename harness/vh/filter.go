package main

import (
	"fmt"
	"sort"
	"strings"
)

func isKeyChar(c byte) bool {
	return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '/'
}

// tagsOf reads the tags of a list of notes, as documented: #key, or #key: value up to a comma or the end of the line.
func tagsOf(notes []string) map[string]string {
	tags := map[string]string{}
	for _, n := range notes {
		for i := 0; i < len(n); {
			if n[i] != '#' {
				i++
				continue
			}
			j := i + 1
			for j < len(n) && isKeyChar(n[j]) {
				j++
			}
			if j == i+1 {
				i++
				continue
			}
			key, val := n[i+1:j], ""
			i = j
			if j < len(n) && n[j] == ':' {
				k := strings.IndexByte(n[j:], ',')
				end := len(n)
				if k >= 0 {
					end = j + k
				}
				val = strings.TrimSpace(n[j+1 : end])
				if val != "" {
					i = end
				}
			}
			tags[key] = val
		}
	}
	return tags
}

// A Pat is a regular expression we can match ourselves: alternatives, each a literal that may be anchored. (Case-insensitive.)
type Pat struct {
	Neg  bool
	Alts []string
}

func (p Pat) String() string {
	s := strings.Join(p.Alts, "|")
	if p.Neg {
		s = "!" + s
	}
	return s
}

func (p Pat) match(s string) bool {
	s = strings.ToLower(s)
	for _, a := range p.Alts {
		a = strings.ToLower(a)
		pre, post := strings.HasPrefix(a, "^"), strings.HasSuffix(a, "$")
		a = strings.TrimSuffix(strings.TrimPrefix(a, "^"), "$")
		switch {
		case pre && post:
			if s == a {
				return true
			}
		case pre:
			if strings.HasPrefix(s, a) {
				return true
			}
		case post:
			if strings.HasSuffix(s, a) {
				return true
			}
		default:
			if strings.Contains(s, a) {
				return true
			}
		}
	}
	return false
}

func plainPat(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i]; !(isKeyChar(c) || c == ' ' || c == ':' || c == '\'') {
			return false
		}
	}
	return s != ""
}

// genPat derives a pattern from a sample string.
func (t *T) genPat(sample string) Pat {
	var p Pat
	alt := func(s string) {
		for k := 0; k < 10; k++ {
			i := t.N(len(s) + 1)
			j := i + t.N(len(s)-i+1)
			if t.N(3) == 0 {
				i = 0
			}
			x := s[i:j]
			if !plainPat(x) {
				continue
			}
			if t.N(2) == 0 {
				x = flipCase(x)
			}
			if i == 0 && t.N(3) == 0 {
				x = "^" + x
			}
			if j == len(s) && t.N(3) == 0 {
				x += "$"
			}
			p.Alts = append(p.Alts, x)
			return
		}
		p.Alts = append(p.Alts, "qqq")
	}
	alt(sample)
	if t.N(4) == 0 {
		alt(pick(t.R, payees))
	}
	return p
}

func flipCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		} else if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// Filter is a selection of postings as made by -b -e -p -t.
type Filter struct {
	B, E    *Day
	Payee   *Pat
	TagK    *Pat
	TagV    *Pat
	Neg     bool // tag
	hasTag  bool
	argForm []string
}

func (f *Filter) args() []string { return f.argForm }

func (f *Filter) match(p *Post) bool {
	if f.B != nil && p.T.D < *f.B || f.E != nil && p.T.D >= *f.E {
		return false
	}
	if f.Payee != nil && f.Payee.match(p.T.Desc) == f.Payee.Neg {
		return false
	}
	if f.hasTag && !(f.tagMatch(tagsOf(p.Notes)) || f.tagMatch(tagsOf(p.T.Notes))) {
		return false
	}
	return true
}

func (f *Filter) tagMatch(tags map[string]string) bool {
	for k, v := range tags {
		m := f.TagK.match(k) && (f.TagV == nil || f.TagV.match(v))
		if m != f.Neg {
			return true
		}
	}
	return false
}

func (f *Filter) String() string { return strings.Join(f.argForm, " ") }

// dateArg spells a date for the command line, absolutely.
func (t *T) dateArg(d Day) string { return dateForm(t.R, Style{Fancy: true}, d) }

// genFilter makes a selection that is likely to select something and not everything.
func (t *T) genFilter(l *Ledger, neg bool) *Filter {
	f := &Filter{}
	add := func(fl, v string) {
		if t.N(2) == 0 {
			f.argForm = append(f.argForm, fl+"="+v)
		} else {
			f.argForm = append(f.argForm, fl, v)
		}
	}
	someDay := func() Day {
		if len(l.Txns) == 0 {
			return mkDay(2016, 1, 1)
		}
		d := pick(t.R, l.Txns).D
		switch t.N(4) {
		case 0:
			d++
		case 1:
			y, m, _ := d.ymd()
			d = mkDay(y, m, 1)
		}
		return d
	}
	if t.N(3) == 0 {
		d := someDay()
		f.B = &d
		add("-b", t.dateArg(d))
	}
	if t.N(3) == 0 {
		d := someDay()
		f.E = &d
		add("-e", t.dateArg(d))
	}
	if t.N(3) == 0 {
		s := pick(t.R, payees)
		if len(l.Txns) > 0 {
			s = pick(t.R, l.Txns).Desc
		}
		p := t.genPat(s)
		if neg && t.N(3) == 0 {
			p.Neg = true
		}
		f.Payee = &p
		add("-p", p.String())
	}
	if t.N(3) == 0 {
		f.hasTag = true
		k := t.genPat(pick(t.R, tagKeys))
		for strings.Contains(k.String(), ":") {
			k = t.genPat(pick(t.R, tagKeys))
		}
		var both [][2]string // tags that a posting has with another value
		for _, tx := range l.Txns {
			for k, v := range tagsOf(tx.Notes) {
				for _, p := range tx.Posts {
					if x, ok := tagsOf(p.Notes)[k]; ok && x != v && v != "" && plainPat(v) && plainPat(k) {
						both = append(both, [2]string{k, v})
					}
				}
			}
		}
		sort.Slice(both, func(i, j int) bool { return both[i][0]+both[i][1] < both[j][0]+both[j][1] })
		var v Pat
		if t.N(2) == 0 && len(both) > 0 {
			b := pick(t.R, both)
			k, v = Pat{Alts: []string{"^" + b[0] + "$"}}, Pat{Alts: []string{"^" + b[1] + "$"}}
		}
		f.TagK = &k
		s := k.String()
		if v.Alts != nil || t.N(2) == 0 {
			if v.Alts == nil {
				v = t.genPat(pick(t.R, tagVals))
			}
			f.TagV = &v
			s += ":" + v.String()
		}
		if t.N(3) == 0 {
			f.Neg = true
			s = "!" + s
		}
		add("-t", s)
	}
	return f
}

// fields splits a report line at | and trims the parts.
func fields(line string) []string {
	parts := strings.Split(line, "|")
	for i := range parts {
		parts[i] = strings.TrimSpace(parts[i])
	}
	return parts
}

func lines(s string) []string {
	if s == "" {
		return nil
	}
	s = strings.TrimSuffix(s, "\n")
	return strings.Split(s, "\n")
}

var _ = fmt.Sprint
