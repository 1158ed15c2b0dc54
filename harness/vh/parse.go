package main

import (
	"fmt"
	"strings"
	"time"
)

// parseFormatted reads transactions as printed by coin (format, ofx2coin, csv2coin ...) in the documented syntax. It does not
// depend on column positions.
func (l *Ledger) parseFormatted(text string) ([]*Txn, error) {
	var out []*Txn
	var cur *Txn
	for i, ln := range strings.Split(text, "\n") {
		if strings.TrimSpace(ln) == "" {
			cur = nil
			continue
		}
		if ln[0] >= '0' && ln[0] <= '9' {
			cur = &Txn{Line: i + 1}
			rest := ln
			note := ""
			hasNote := false
			if k := strings.IndexByte(rest, ';'); k >= 0 {
				note, rest, hasNote = strings.TrimPrefix(rest[k+1:], " "), rest[:k], true
			}
			rest = strings.TrimRight(rest, " \t")
			d, rest2, _ := strings.Cut(rest, " ")
			tm, err := time.Parse("2006/01/02", d)
			if err != nil {
				return nil, fmt.Errorf("line %d: date %q", i+1, d)
			}
			cur.D = Day(tm.Unix() / 86400)
			rest2 = strings.TrimLeft(rest2, " \t")
			if strings.HasPrefix(rest2, "(") {
				if k := strings.IndexByte(rest2, ')'); k > 1 && isWord(rest2[1:k]) && (k+1 == len(rest2) || rest2[k+1] == ' ') {
					cur.Code = rest2[1:k]
					rest2 = strings.TrimLeft(rest2[k+1:], " \t")
				}
			}
			cur.Desc = rest2
			if hasNote && strings.TrimSpace(note) != "" {
				cur.Notes = append(cur.Notes, note)
			}
			out = append(out, cur)
			continue
		}
		if cur == nil {
			return nil, fmt.Errorf("line %d: %q outside of a transaction", i+1, ln)
		}
		s := strings.TrimLeft(ln, " \t")
		if len(s) == len(ln) {
			return nil, fmt.Errorf("line %d: %q", i+1, ln)
		}
		if s[0] == ';' {
			n := strings.TrimPrefix(s[1:], " ")
			if strings.TrimSpace(n) == "" {
				continue
			}
			if len(cur.Posts) == 0 {
				cur.Notes = append(cur.Notes, n)
			} else {
				p := cur.Posts[len(cur.Posts)-1]
				p.Notes = append(p.Notes, n)
			}
			continue
		}
		p := &Post{T: cur, I: len(cur.Posts)}
		if k := strings.IndexByte(s, ';'); k >= 0 {
			n := strings.TrimPrefix(s[k+1:], " ")
			if strings.TrimSpace(n) != "" {
				p.Notes = append(p.Notes, n)
			}
			s = s[:k]
		}
		f := strings.Fields(s)
		if len(f) != 3 && len(f) != 6 && len(f) != 1 {
			return nil, fmt.Errorf("line %d: posting %q", i+1, ln)
		}
		p.Acc = f[0]
		if len(f) == 1 {
			p.Elided = true
			cur.Posts = append(cur.Posts, p)
			continue
		}
		unq := func(c string) string { return strings.Trim(c, `"`) }
		c := l.Coms[unq(f[2])]
		if c == nil {
			return nil, fmt.Errorf("line %d: commodity %q", i+1, f[2])
		}
		v, ok := parseDec(f[1], c.Dec)
		if !ok {
			return nil, fmt.Errorf("line %d: amount %q of %s", i+1, f[1], c.Id)
		}
		p.Q, p.C = v, c.Id
		if len(f) == 6 {
			c := l.Coms[unq(f[5])]
			if f[3] != "=" || c == nil {
				return nil, fmt.Errorf("line %d: posting %q", i+1, ln)
			}
			if p.Assert, ok = parseDec(f[4], c.Dec); !ok {
				return nil, fmt.Errorf("line %d: amount %q of %s", i+1, f[4], c.Id)
			}
			p.AssertC = c.Id
		}
		cur.Posts = append(cur.Posts, p)
	}
	return out, nil
}

func isWord(s string) bool {
	for _, c := range s {
		if !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_') {
			return false
		}
	}
	return s != ""
}
