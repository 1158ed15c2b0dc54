From b7cfda92ca7f31b803cf887f349a05349249d340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 01/68] fix: convert amounts at the precision of the target
 commodity, along a path that does not vary between runs

---
 cmd/coin/commodities.go |  4 ++--
 commodity.go            | 22 ++++++++++++++--------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/cmd/coin/commodities.go b/cmd/coin/commodities.go
index dbd4c54..66760b9 100644
--- a/cmd/coin/commodities.go
+++ b/cmd/coin/commodities.go
@@ -54,8 +54,8 @@ func (cmd *cmdCommodities) execute(f io.Writer) {
 			fmt.Fprintf(os.Stderr, "%s: unknown commodity\n", cmd.Arg(0))
 			return
 		}
-		for _, ps := range commodity.Prices {
-			for _, p := range ps {
+		for _, cur := range commodity.Currencies() {
+			for _, p := range commodity.Prices[cur] {
 				if cmd.location {
 					fmt.Fprintf(f, "%s %s %s %s\n", p.Time.Format(coin.DateFormat), p.Value.String(), p.Value.SafeId(false), p.Location())
 				} else {
diff --git a/commodity.go b/commodity.go
index 4bfa017..f64a097 100644
--- a/commodity.go
+++ b/commodity.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode"
@@ -44,10 +45,14 @@ func (c *Commodity) AddPrice(p *Price) {
 	c.Prices[p.Currency] = append(c.Prices[p.Currency], p)
 }
 
+// Currencies lists the commodities that c has prices in, ordered by their ids.
 func (c *Commodity) Currencies() (currencies []*Commodity) {
 	for cur := range c.Prices {
 		currencies = append(currencies, cur)
 	}
+	sort.Slice(currencies, func(i, j int) bool {
+		return currencies[i].Id < currencies[j].Id
+	})
 	return currencies
 }
 
@@ -80,16 +85,17 @@ func (c *Commodity) String() string {
 		return c.Id
 	}
 	var prices []string
-	for c, p := range c.Prices {
+	for _, cur := range c.Currencies() {
+		p := c.Prices[cur]
 		format := "%s %a %s [%d]"
-		if c.Decimals > 0 {
-			format = "%s %." + strconv.Itoa(c.Decimals) + "a %s [%d]"
+		if cur.Decimals > 0 {
+			format = "%s %." + strconv.Itoa(cur.Decimals) + "a %s [%d]"
 		}
 		prices = append(prices,
 			fmt.Sprintf(format,
 				p[0].Time.Format(DateFormat),
 				p[0].Value,
-				c.Id,
+				cur.Id,
 				len(p)))
 	}
 	return fmt.Sprintf("%s: %s",
@@ -203,17 +209,17 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 	prices := c2.Prices[c]
 	if prices != nil {
 		p := prices[0]
-		val := amount.Times(p.Value)
+		val := p.Value.Times(amount)
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
-	for c3, prices := range c2.Prices {
+	for _, c3 := range c2.Currencies() {
 		// Check if we tried this currency before to avoid cycles
 		if c3.includedIn(previous) {
 			continue
 		}
-		p := prices[0]
-		val2 := amount.Times(p.Value)
+		p := c2.Prices[c3][0]
+		val2 := p.Value.Times(amount)
 		val3, err := c.convert(val2, c3, append(previous, c2))
 		if err == nil {
 			return val3, nil
-- 
2.43.0


From b5c6a0bbc92c0a94ce5bcaf7faf838fdb6aa0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 02/68] fix: read amounts of any magnitude, dropping excess
 decimals of negative amounts toward zero

---
 amount.go | 20 ++++++++------------
 pow10.go  |  5 ++++-
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/amount.go b/amount.go
index d07feb6..3f70956 100644
--- a/amount.go
+++ b/amount.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"io"
 	"math/big"
-	"strconv"
 	"strings"
 
 	"github.com/mkobetic/coin/rex"
@@ -23,7 +22,7 @@ func NewAmountFrac(num, den *big.Int, c *Commodity) *Amount {
 	if c.Decimals > 0 {
 		b.Mul(b, bigPow10(c.Decimals))
 	}
-	b.Div(b, den)
+	b.Quo(b, den)
 	return NewAmount(b, c)
 }
 
@@ -75,11 +74,10 @@ func (a *Amount) Format(f fmt.State, c rune) {
 func parseAmount(s string, c *Commodity) (*Amount, error) {
 	ss := strings.Split(s, ".")
 	if len(ss) == 1 {
-		i, err := strconv.ParseInt(ss[0], 10, 64)
-		if err != nil {
-			return nil, err
+		bi, ok := new(big.Int).SetString(ss[0], 10)
+		if !ok {
+			return nil, fmt.Errorf("malformed value %s", s)
 		}
-		bi := big.NewInt(i)
 		if c.Decimals > 0 {
 			bi.Mul(bi, bigPow10(c.Decimals))
 		}
@@ -88,16 +86,14 @@ func parseAmount(s string, c *Commodity) (*Amount, error) {
 	if len(ss) != 2 {
 		return nil, fmt.Errorf("malformed value %s", s)
 	}
-	s = strings.Join(ss, "")
-	i, err := strconv.ParseInt(s, 10, 64)
-	if err != nil {
-		return nil, err
+	bi, ok := new(big.Int).SetString(strings.Join(ss, ""), 10)
+	if !ok {
+		return nil, fmt.Errorf("malformed value %s", s)
 	}
-	bi := big.NewInt(i)
 	decimals := len(ss[1])
 	if c.Decimals != decimals {
 		bi.Mul(bi, bigPow10(c.Decimals))
-		bi.Div(bi, bigPow10(decimals))
+		bi.Quo(bi, bigPow10(decimals))
 	}
 	return NewAmount(bi, c), nil
 }
diff --git a/pow10.go b/pow10.go
index 155aada..0e19e08 100644
--- a/pow10.go
+++ b/pow10.go
@@ -62,12 +62,15 @@ func bigLog10(bi *big.Int) int {
 			return i
 		}
 	}
-	panic("number too big")
+	return len(new(big.Int).Abs(bi).String()) - 1
 }
 
 func bigPow10(i int) *big.Int {
 	if i < 1 {
 		return big1
 	}
+	if i > len(bigPow10s) {
+		return new(big.Int).Exp(big10, big.NewInt(int64(i)), nil)
+	}
 	return bigPow10s[i-1]
 }
-- 
2.43.0


From 61b2a8a2de800bf0b023a73b8db54a9807dbb21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 03/68] fix: match transaction and posting lines as a whole

A line was accepted if any part of it looked like a posting or header, so the line
after a transaction (another transaction, a price, a comment) was swallowed as a posting,
A::B was read as A, unrecognized amounts were silently elided, and a header
without a description took its note for one. Notes keep their leading white space, so that
formatting is idempotent, and empty ones are skipped.
---
 account.go     |  3 +++
 transaction.go | 24 +++++++++++++++---------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/account.go b/account.go
index 738ae1f..edf6505 100644
--- a/account.go
+++ b/account.go
@@ -81,6 +81,9 @@ func (a *Account) Write(w io.Writer, ledger bool) error {
 
 var accountNameREX = rex.MustCompile(`([A-Za-z][\w/_\-]*)`)
 var AccountREX = rex.MustCompile(`(?P<account>%s(:%s)*)`, accountNameREX, accountNameREX)
+
+// accountExpREX matches an account expression, i.e. a possibly shortened account name
+var accountExpREX = rex.MustCompile(`(?P<account>%s(::?%s)*)`, accountNameREX, accountNameREX)
 var accountHeadREX = rex.MustCompile(`account\s+%s`, AccountREX)
 var accountBodyREX = rex.MustCompile(``+
 	`(\s+note\s+(?P<note>\S.+))|`+
diff --git a/transaction.go b/transaction.go
index c9d187b..2f5061d 100644
--- a/transaction.go
+++ b/transaction.go
@@ -117,11 +117,11 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 	return nil
 }
 
-var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>\S[^;]*))?(; ?(?P<shortNote>.*))?`, DateREX)
+var transactionREX = rex.MustCompile(`^%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>[^;\s][^;]*))?\s*(; ?(?P<shortNote>.*))?$`, DateREX)
 var postingREX = rex.MustCompile(``+
-	`\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
-	`\s+; ?(?P<note>.*)`,
-	AccountREX, AmountREX, AmountREX)
+	`^\s+%s(\s+%s(\s+=\s+%s)?)?\s*(; ?(?P<shortNote>.*))?$|`+
+	`^\s+; ?(?P<note>.*)$`,
+	accountExpREX, AmountREX, AmountREX)
 
 func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 	match := transactionREX.Match(p.Bytes())
@@ -135,7 +135,7 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		line:        p.lineNr,
 		file:        fn,
 	}
-	if n := strings.TrimLeft(match["shortNote"], " \t"); len(n) > 0 {
+	if n := match["shortNote"]; len(strings.TrimSpace(n)) > 0 {
 		t.Notes = []string{n}
 	}
 	var notes []string
@@ -145,8 +145,10 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		if match == nil {
 			break
 		}
-		if note := match["note"]; len(note) > 0 {
-			notes = append(notes, string(note))
+		if match["account"] == "" {
+			if note := match["note"]; len(strings.TrimSpace(note)) > 0 {
+				notes = append(notes, note)
+			}
 			continue
 		}
 		var quantity *Amount
@@ -171,7 +173,7 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 			accountName: match["account"],
 			Quantity:    quantity,
 		}
-		if n := strings.TrimLeft(match["shortNote"], " \t"); len(n) > 0 {
+		if n := match["shortNote"]; len(strings.TrimSpace(n)) > 0 {
 			s.Notes = []string{n}
 		}
 		if balance := match["amount2"]; len(balance) > 0 {
@@ -185,7 +187,11 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		t.Postings = append(t.Postings, s)
 	}
 	if len(notes) > 0 {
-		s.Notes = append(s.Notes, notes...)
+		if s == nil {
+			t.Notes = append(t.Notes, notes...)
+		} else {
+			s.Notes = append(s.Notes, notes...)
+		}
 	}
 	t.Tags = ParseTags(t.Notes...)
 	for _, p := range t.Postings {
-- 
2.43.0


From 2f4ece4870b941b0ee9107c149efa127cccf2bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 04/68] fix: reject account, commodity, price and test entries
 that do not match as a whole

---
 account.go   | 12 ++++++++----
 commodity.go | 10 +++++++---
 price.go     |  4 ++--
 test.go      |  5 ++++-
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/account.go b/account.go
index edf6505..b9b4f16 100644
--- a/account.go
+++ b/account.go
@@ -84,14 +84,15 @@ var AccountREX = rex.MustCompile(`(?P<account>%s(:%s)*)`, accountNameREX, accoun
 
 // accountExpREX matches an account expression, i.e. a possibly shortened account name
 var accountExpREX = rex.MustCompile(`(?P<account>%s(::?%s)*)`, accountNameREX, accountNameREX)
-var accountHeadREX = rex.MustCompile(`account\s+%s`, AccountREX)
-var accountBodyREX = rex.MustCompile(``+
-	`(\s+note\s+(?P<note>\S.+))|`+
+var accountHeadREX = rex.MustCompile(`^account\s+%s\s*(;.*)?$`, AccountREX)
+var accountBodyREX = rex.MustCompile(`^(`+
+	`(\s+note\s+(?P<note>\S.*))|`+
 	`(\s+commodity\s+%s)|`+
 	`(\s+closed\s+%s)|`+
 	`(\s+ofx_bankid\s+(?P<ofx_bankid>\d+))|`+
 	`(\s+ofx_acctid\s+(?P<ofx_acctid>\d+))|`+
-	`(\s+csv_acctid\s+(?P<csv_acctid>\w+))`,
+	`(\s+csv_acctid\s+(?P<csv_acctid>\w+))`+
+	`)\s*(;.*)?$`,
 	CommodityREX, DateREX)
 
 func accountFromName(fullName string) *Account {
@@ -118,6 +119,9 @@ func (a *Account) ParentName() string {
 
 func (p *Parser) parseAccount(fn string) (*Account, error) {
 	match := accountHeadREX.Match(p.Bytes())
+	if match == nil {
+		return nil, fmt.Errorf("invalid account line: %s", p.Text())
+	}
 	a := accountFromName(match["account"])
 	a.line = p.lineNr
 	a.file = fn
diff --git a/commodity.go b/commodity.go
index f64a097..12fb835 100644
--- a/commodity.go
+++ b/commodity.go
@@ -141,18 +141,22 @@ func (c *Commodity) Write(w io.Writer, ledger bool) error {
 }
 
 var CommodityREX = rex.MustCompile(`(?P<commodity>[A-Za-z][\w]*)`)
-var commodityHeadREX = rex.MustCompile(`commodity\s+%s`, CommodityREX)
-var commodityBodyREX = rex.MustCompile(``+
+var commodityHeadREX = rex.MustCompile(`^commodity\s+%s\s*(;.*)?$`, CommodityREX)
+var commodityBodyREX = rex.MustCompile(`^(`+
 	`(\s+note\s+(?P<note>.+))|`+
 	`(\s+format\s+(?P<format>%s))|`+
 	`(\s+(?P<nomarket>nomarket)\s*)|`+
 	`(\s+symbol\s+(?P<symbol>[\w\.]+))|`+
-	`(\s+(?P<default>default)\s*)`,
+	`(\s+(?P<default>default)\s*)`+
+	`)\s*(;.*)?$`,
 	AmountREX)
 
 func (p *Parser) parseCommodity(fn string) (*Commodity, error) {
 	c := &Commodity{Decimals: 2, line: p.lineNr, file: fn}
 	match := commodityHeadREX.Match(p.Bytes())
+	if match == nil {
+		return nil, fmt.Errorf("invalid commodity line: %s", p.Text())
+	}
 	c.Id = match["commodity"]
 	for p.Scan() {
 		line := p.Bytes()
diff --git a/price.go b/price.go
index ee41dd0..77e57fd 100644
--- a/price.go
+++ b/price.go
@@ -38,12 +38,12 @@ func (p *Price) Write(w io.Writer, ledger bool) error {
 	return err
 }
 
-var priceREX = rex.MustCompile(`P %s\s+%s\s+%s`, DateREX, CommodityREX, AmountREX)
+var priceREX = rex.MustCompile(`^P %s\s+%s\s+%s\s*(;.*)?$`, DateREX, CommodityREX, AmountREX)
 
 func (p *Parser) parsePrice(fn string) (*Price, error) {
 	match := priceREX.Match(p.Bytes())
 	if match == nil {
-		return nil, fmt.Errorf("invalid price line")
+		return nil, fmt.Errorf("invalid price line: %s", p.Text())
 	}
 	date := mustParseDate(match, 0)
 	currencyId := string(match["commodity2"])
diff --git a/test.go b/test.go
index 2a5d88e..7da55cc 100644
--- a/test.go
+++ b/test.go
@@ -29,7 +29,10 @@ func (p *Parser) parseTest(fn string) (*Test, error) {
 		b.Write(p.Bytes())
 		fmt.Fprintln(&b)
 	}
-	return t, p.Err()
+	if err := p.Err(); err != nil {
+		return nil, err
+	}
+	return nil, fmt.Errorf("missing end test: %s", t.Location())
 }
 
 func (t *Test) Location() string {
-- 
2.43.0


From 0c344ca1c3df7c569a0ba7cc5525b2945af842bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 05/68] fix: reject dates that do not exist or do not match as
 a whole

---
 date.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/date.go b/date.go
index 98af69f..955aa36 100644
--- a/date.go
+++ b/date.go
@@ -40,7 +40,7 @@ func (d *Date) String() string {
 
 func (d *Date) Set(s string) (err error) {
 	match := DateREX.Match([]byte(s))
-	if match == nil {
+	if match == nil || match["date"] != s {
 		return fmt.Errorf("invalid date: %s", s)
 	}
 	d.Time, err = parseDate(match, 0)
@@ -54,7 +54,7 @@ var YearFormat = "2006"
 var ymd = rex.MustCompile(`` +
 	`((?P<ymd>((?P<ymdy>\d\d(\d\d)?)/)?(?P<ymdm>\d{1,2})/(?P<ymdd>\d{1,2}))|` +
 	`(?P<ym>(?P<ymy>\d{4})(/(?P<ymm>\d{1,2}))?))`)
-var offset = rex.MustCompile(`(?P<offset>[+-]\d+[d|w|m|y])`)
+var offset = rex.MustCompile(`(?P<offset>[+-]\d+[dwmy])`)
 var DateREX = rex.MustCompile(`(?P<date>%s?%s?)`, ymd, offset)
 
 func mustParseDate(match map[string]string, idx int) time.Time {
@@ -112,6 +112,9 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 	}
 
 	t = time.Date(y, time.Month(m), d, 12, 0, 0, 0, time.UTC)
+	if t.Month() != time.Month(m) || t.Day() != d {
+		return t, fmt.Errorf("no such date: %s", match["date"])
+	}
 	if offset != "" {
 		e := len(offset) - 1
 		o, _ := strconv.Atoi(offset[:e])
-- 
2.43.0


From 878b65c66c1adfdfc62c4fe44dc311c00bebb328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 06/68] fix: a date without a year is the one closest to today

It was decided by the distance of the months alone, e.g. on 2019/10/22 4/10 was
2019/04/10 (195 days back) rather than 2020/04/10 (171 days ahead).
---
 date.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/date.go b/date.go
index 955aa36..b5cbc7e 100644
--- a/date.go
+++ b/date.go
@@ -70,6 +70,22 @@ func MustParseDate(s string) time.Time {
 	return mustParseDate(match, 0)
 }
 
+// closestYear returns the year in which given month and day is closest to today.
+func closestYear(month, day int) int {
+	today := time.Date(Year, Month, Day, 12, 0, 0, 0, time.UTC)
+	closest, distance := Year, time.Duration(-1)
+	for y := Year - 1; y <= Year+1; y++ {
+		t := time.Date(y, time.Month(month), day, 12, 0, 0, 0, time.UTC)
+		if t.Day() != day {
+			continue // February 29th
+		}
+		if d := t.Sub(today).Abs(); distance < 0 || d < distance {
+			closest, distance = y, d
+		}
+	}
+	return closest
+}
+
 func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 	if idx > 0 {
 		return t, fmt.Errorf("multiple date fields not implemented!")
@@ -94,11 +110,7 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 				y = yyy
 			}
 		} else {
-			if mm < m && m-mm > 6 {
-				y += 1
-			} else if m < mm && mm-m > 6 {
-				y -= 1
-			}
+			y = closestYear(mm, d)
 		}
 		m = mm
 	} else if match["ym"] != "" {
-- 
2.43.0


From 66dc2a0a00af665dce7084d0985779c14391dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 07/68] fix: register of an account with a transaction that has
 a single posting

---
 cmd/coin/postings.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/postings.go b/cmd/coin/postings.go
index f3d2483..782a801 100644
--- a/cmd/coin/postings.go
+++ b/cmd/coin/postings.go
@@ -26,12 +26,21 @@ func trimLocation(loc string) string {
 
 type postings []*coin.Posting
 
+// otherName returns the name of the account on the other side of the posting,
+// empty if the transaction doesn't have any other postings.
+func otherName(p *coin.Posting) string {
+	if other := p.Transaction.Other(p); other != nil {
+		return other.Account.FullName
+	}
+	return ""
+}
+
 func (ps postings) widths(acctPrefix string) (widths [4]int) {
 	for _, p := range ps {
 		widths[0] = max(widths[0], len(p.Transaction.Description))
 		widths[1] = max(widths[1], len(strings.TrimPrefix(p.Account.FullName, acctPrefix)))
 		widths[2] = max(widths[2], p.Quantity.Width(p.Account.Commodity.Decimals))
-		widths[3] = max(widths[3], len(p.Transaction.Other(p).Account.FullName))
+		widths[3] = max(widths[3], len(otherName(p)))
 	}
 	return widths
 }
@@ -71,7 +80,7 @@ func (ps postings) print(f io.Writer, opts *options) {
 		args := []interface{}{
 			s.Transaction.Posted.Format(coin.DateFormat),
 			widths[0], s.Transaction.Description,
-			widths[3], coin.ShortenAccountName(strings.TrimPrefix(s.Transaction.Other(s).Account.FullName, opts.Prefix()), opts.MaxAcct()),
+			widths[3], coin.ShortenAccountName(strings.TrimPrefix(otherName(s), opts.Prefix()), opts.MaxAcct()),
 			widths[2], s.Quantity,
 			tWidth, totals[i],
 			s.Account.CommodityId,
@@ -114,7 +123,7 @@ func (ps postings) printLong(f io.Writer, opts *options) {
 			s.Transaction.Posted.Format(coin.DateFormat),
 			widths[0], s.Transaction.Description,
 			widths[1], coin.ShortenAccountName(strings.TrimPrefix(s.Account.FullName, opts.Prefix()), opts.MaxAcct()),
-			widths[3], coin.ShortenAccountName(strings.TrimPrefix(s.Transaction.Other(s).Account.FullName, opts.Prefix()), opts.MaxAcct()),
+			widths[3], coin.ShortenAccountName(strings.TrimPrefix(otherName(s), opts.Prefix()), opts.MaxAcct()),
 			widths[2], s.Quantity,
 			tWidth, totals[i],
 			s.Account.CommodityId,
-- 
2.43.0


From 4eee0a0df1d30ed90973678c5e8730ee658b699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 08/68] fix: keep the payee filter inverted for all accounts of
 a register

---
 cmd/coin/register.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 7823fc7..2dbfd67 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -179,13 +179,9 @@ func (cmd *cmdRegister) period() *timeReducer {
 func (cmd *cmdRegister) trim(ps []*coin.Posting) postings {
 	ps = trim(ps, cmd.begin, cmd.end)
 	if len(cmd.payee) > 0 {
-		inverted := false
-		if cmd.payee[0] == '!' {
-			inverted = true
-			cmd.payee = cmd.payee[1:]
-		}
+		payee, inverted := strings.CutPrefix(cmd.payee, "!")
 		var pps []*coin.Posting
-		r := regexp.MustCompile("(?i)" + cmd.payee)
+		r := regexp.MustCompile("(?i)" + payee)
 		for _, p := range ps {
 			if match := r.MatchString(p.Transaction.Description); match && !inverted || !match && inverted {
 				pps = append(pps, p)
-- 
2.43.0


From 11fd61f252ad33bb0191c4cf30d4b9a81e99cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 09/68] fix: aggregated register loses nothing when accounts
 are reduced to the top n

A single account beyond the top n was dropped, the register failed when the account
itself was not among the top n or had no postings, and accounts of equal magnitude were
in random order.
---
 cmd/coin/register.go | 6 +++++-
 cmd/coin/totals.go   | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 2dbfd67..6a80af2 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -126,9 +126,13 @@ func (cmd *cmdRegister) aggregatedRegister(f io.Writer, acc *coin.Account) {
 		}
 	})
 	totals.sanitize()
+	timeline := totals[acc]
+	if timeline == nil { // nothing to show
+		return
+	}
 	var accounts []*coin.Account
 	totals, accounts = totals.top(cmd.top)
-	totals.mergeTime(totals[acc])
+	totals.mergeTime(timeline)
 
 	if cmd.cumulative {
 		totals.makeCumulative()
diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 5df5868..fab41af 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -423,7 +423,10 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 
 	sort.Slice(accounts, func(i int, j int) bool {
-		return magnitudes[accounts[i]].IsBigger(magnitudes[accounts[j]])
+		if c := magnitudes[accounts[i]].CmpMagnitude(magnitudes[accounts[j]]); c != 0 {
+			return c > 0
+		}
+		return accounts[i].FullName < accounts[j].FullName
 	})
 	if len(accounts) <= n {
 		return ats, accounts
@@ -433,7 +436,7 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 	rest := accounts[n:]
 	accounts = accounts[:n]
-	if len(rest) > 1 {
+	if len(rest) > 0 {
 		others := ats[rest[0]]
 		for _, acc := range rest[1:] {
 			others.merge(ats[acc])
-- 
2.43.0


From d934b47360bcdca6df78bebffe0a499f84912c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 10/68] fix: aggregated register by payee with transactions
 that have no description

---
 cmd/coin/totals.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index fab41af..c91fa6c 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -505,7 +505,8 @@ func (ats accountTotals) print(f io.Writer,
 	format := []string{"%*s "}
 	periodWidth := firstCol.maxPeriodWidth()
 	categoryWidth := firstCol.maxCategoryWidth()
-	if periodWidth > 0 && categoryWidth > 0 {
+	hasCategory := firstCol.categoryReducer != nil
+	if periodWidth > 0 && hasCategory {
 		format = append(format, " %*s ")
 	}
 	widths := ats.widths(order)
@@ -525,7 +526,7 @@ func (ats accountTotals) print(f io.Writer,
 		if periodWidth > 0 {
 			args = append(args, periodWidth, "")
 		}
-		if categoryWidth > 0 {
+		if hasCategory {
 			args = append(args, categoryWidth, "")
 		}
 		for i := range widths {
@@ -552,7 +553,7 @@ func (ats accountTotals) print(f io.Writer,
 				tm := period.Time.Format(firstCol.format)
 				args = append(args, periodWidth, tm)
 			}
-			if categoryWidth > 0 {
+			if hasCategory {
 				args = append(args, categoryWidth, category)
 			}
 			for ii, acc := range order {
@@ -566,7 +567,7 @@ func (ats accountTotals) print(f io.Writer,
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if firstCol.categoryReducer != nil {
 					amt = t.totals[category]
 				}
 				args = append(args, widths[ii], amt)
@@ -626,7 +627,7 @@ func (ats accountTotals) rows(
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if firstCol.categoryReducer != nil {
 					amt = t.totals[category]
 				}
 				row = append(row, amt.String())
-- 
2.43.0


From 956ef046a0e2e119b2adf61cc73829cbae7c0c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 11/68] fix: aggregated register converts postings in a foreign
 commodity and does not ignore amounts it cannot convert

---
 cmd/coin/totals.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index c91fa6c..36fd530 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -33,14 +33,14 @@ func (t *timeTotal) Categories() (keys []string) {
 func (t *timeTotal) AddIn(t2 *timeTotal, keysOnly bool) {
 	check.If(t.Time.Equal(t2.Time), "%v is not equal to %v", t.Time, t2.Time)
 	if t.total != nil && !keysOnly {
-		t.total.AddIn(t2.total)
+		check.NoError(t.total.AddIn(t2.total), "cannot add %a to totals", t2.total)
 		return
 	}
 	for k, v := range t2.totals {
 		amt := t.totals[k]
 		if amt != nil {
 			if !keysOnly {
-				amt.AddIn(v)
+				check.NoError(amt.AddIn(v), "cannot add %a to totals", v)
 			}
 		} else {
 			if keysOnly {
@@ -121,6 +121,13 @@ func (ts *timeTotals) Commodity() *coin.Commodity {
 	return nil
 }
 
+// amountFor returns the posting quantity in the commodity of the posting account.
+func amountFor(p *coin.Posting) *coin.Amount {
+	amt := coin.NewZeroAmount(p.Account.Commodity)
+	check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
+	return amt
+}
+
 // add posting to the totals
 // Assumes postings are added in time order,
 // which should be true since account postings are sorted by time.
@@ -136,14 +143,14 @@ func (ts *timeTotals) add(p *coin.Posting) {
 			if amt != nil {
 				check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
 			} else {
-				ts.current.totals[category] = p.Quantity.Copy()
+				ts.current.totals[category] = amountFor(p)
 			}
 		} else {
 			check.NoError(ts.current.total.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
 		}
 		return
 	}
-	amt := p.Quantity.Copy()
+	amt := amountFor(p)
 	if ts.categoryReducer != nil {
 		category := ts.categoryReducer.reduce(p)
 		ts.current = &timeTotal{Time: period, totals: map[string]*coin.Amount{category: amt}}
-- 
2.43.0


From e9e77ea9eb968cc717014f7a41afe9156d017666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 12/68] fix: read tag values of a single character, and stop
 values at the comma

---
 tags.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tags.go b/tags.go
index 00f9d90..351cae9 100644
--- a/tags.go
+++ b/tags.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,]+\S)\s*(,|$))?`)
+var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,\s]([^,]*[^,\s])?)\s*(,|$))?`)
 var tagREXKey = tagREX.SubexpIndex("key")
 var tagREXValue = tagREX.SubexpIndex("value")
 
-- 
2.43.0


From 9a538cc26dda80486acd4a765a7427eb544d6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 13/68] fix: an account expression matching unrelated accounts
 is ambiguous

---
 coin.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/coin.go b/coin.go
index fba2d21..2eb425b 100644
--- a/coin.go
+++ b/coin.go
@@ -293,12 +293,10 @@ func MustFindAccount(pattern string) *Account {
 	if len(as) == 1 {
 		return as[0]
 	}
-	parent := as[0].FullName
+	parent := as[0].FullName + ":"
 	all := true
 	for _, a := range as[1:] {
-		if all = all && strings.HasPrefix(a.FullName, parent); all {
-			break
-		}
+		all = all && strings.HasPrefix(a.FullName, parent)
 	}
 	if all {
 		return as[0]
-- 
2.43.0


From 23b18fa0997e9e6fd75c214758bc4cde4e286aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 14/68] fix: read prices.coin only once

---
 coin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coin.go b/coin.go
index 2eb425b..a000d97 100644
--- a/coin.go
+++ b/coin.go
@@ -76,7 +76,7 @@ func LoadAll() {
 	if _, err := os.Stat(TransactionsFile); os.IsNotExist(err) {
 		files, _ := filepath.Glob(filepath.Join(DB, "*.coin"))
 		for _, f := range files {
-			if f != CommoditiesFile && f != AccountsFile {
+			if f != CommoditiesFile && f != AccountsFile && f != PricesFile {
 				LoadFile(f)
 			}
 		}
-- 
2.43.0


From b2b6d5a6e3ae78806bfa64f6389569f3de43f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 15/68] fix: print balance warnings in the same order every
 time

---
 coin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index a000d97..0225e65 100644
--- a/coin.go
+++ b/coin.go
@@ -269,12 +269,12 @@ func ResolveTransactions(checkPostings bool) {
 		}
 	}
 
-	for _, a := range AccountsByName {
+	AccountsDo(func(a *Account) {
 		a.sortPostings()
 		if checkPostings {
 			a.CheckPostings()
 		}
-	}
+	})
 	sort.Stable(Transactions)
 }
 
-- 
2.43.0


From 3617adf51fbb32f68df37bfee590320efcd8635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 16/68] fix: FindEqual returns the equal transaction of the
 list

---
 transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index 2f5061d..4215160 100644
--- a/transaction.go
+++ b/transaction.go
@@ -53,7 +53,7 @@ func (transactions TransactionsByTime) Less(i, j int) bool {
 func (transactions TransactionsByTime) FindEqual(t *Transaction) *Transaction {
 	for _, t2 := range transactions {
 		if t2.IsEqual(t) {
-			return t
+			return t2
 		}
 	}
 	return nil
-- 
2.43.0


From fd0f78a1ecda0b0c7acf3710d0eb2667414bc612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 17/68] fix: postings in different commodities are not equal

---
 posting.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posting.go b/posting.go
index 76aa24f..d9d0d5f 100644
--- a/posting.go
+++ b/posting.go
@@ -56,6 +56,7 @@ func (s *Posting) String() string {
 
 func (s *Posting) IsEqual(s2 *Posting) bool {
 	return s.Account == s2.Account &&
+		s.Quantity.Commodity == s2.Quantity.Commodity &&
 		s.Quantity.IsEqual(s2.Quantity)
 }
 
-- 
2.43.0


From 839ec21684d24995a23ced2cd2cf915255e1cbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 18/68] fix: modify every selected posting of a transaction,
 and count transactions it tags

---
 cmd/coin/modify.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 9b726c7..69513c3 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -117,12 +117,13 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	}
 	var hasPostingsMatchingAccount bool
 	for _, p := range t.Postings {
+		selected := cmd.ptag != nil && cmd.ptag.Match(p.Tags)
 		if p.Account == cmd.from {
 			hasPostingsMatchingAccount = true
-			modified = modified || cmd.modifyPosting(p)
+			selected = true
 		}
-		if cmd.ptag != nil && cmd.ptag.Match(p.Tags) {
-			modified = modified || cmd.modifyPosting(p)
+		if selected && cmd.modifyPosting(p) {
+			modified = true
 		}
 	}
 
@@ -131,6 +132,7 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	}
 	if len(cmd.setTTag) > 0 {
 		t.Notes = addTagLine(t.Notes, cmd.setTTag)
+		modified = true
 	}
 	return modified
 }
-- 
2.43.0


From c42b5becfe1265a74f15782c780b657881ceef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 19/68] fix: keep the tags of a note when modify adds a tag to
 it

---
 cmd/coin/modify.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 69513c3..70a1c65 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -168,7 +168,11 @@ func addTagLine(notes []string, tagLine string) []string {
 		return append(notes, tagLine)
 	}
 	if len(notes[0])+len(tagLine) < coin.TRANSACTION_LINE_MAX {
-		notes[0] += " " + tagLine
+		sep := " "
+		if len(coin.ParseTags(notes[0])) > 0 { // a tag value ends with a comma
+			sep = ", "
+		}
+		notes[0] += sep + tagLine
 		return notes
 	}
 	return append(notes, tagLine)
-- 
2.43.0


From c87654228bedf722fac11c6b90b0c87ed7a24d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 20/68] fix: replace rewritten files only when complete, and
 report failed writes

---
 cmd/coin/format.go | 30 ++++++++++++------------------
 cmd/coin/modify.go | 27 ++++++++++++++-------------
 cmd/coin/utils.go  | 38 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 64 insertions(+), 31 deletions(-)

diff --git a/cmd/coin/format.go b/cmd/coin/format.go
index a917fbf..95a108d 100644
--- a/cmd/coin/format.go
+++ b/cmd/coin/format.go
@@ -3,8 +3,6 @@ package main
 import (
 	"fmt"
 	"io"
-	"os"
-	"path"
 
 	"github.com/mkobetic/coin"
 	"github.com/mkobetic/coin/check"
@@ -41,37 +39,33 @@ func (cmd *cmdFormat) init() {
 
 func (cmd *cmdFormat) execute(f io.Writer) {
 	if len(cmd.Args()) == 0 { // for testing
-		cmd.writeTransactions(f)
+		check.NoError(cmd.writeTransactions(f), "writing transactions")
 		return
 	}
 	for _, fn := range cmd.Args() {
-		var err error
-		var tf *os.File
 		coin.LoadFile(fn)
 		coin.ResolveTransactions(false)
 		if cmd.replace {
-			tf, err = os.CreateTemp(path.Dir(fn), path.Base(fn))
-			check.NoError(err, "creating temp file")
-			f = tf
-		}
-		cmd.writeTransactions(f)
-		if cmd.replace {
-			err = os.Remove(fn)
-			check.NoError(err, "deleting old file")
-			err = os.Rename(tf.Name(), fn)
-			check.NoError(err, "renaming temp file")
+			check.NoError(rewriteFile(fn, cmd.writeTransactions), "rewriting %s", fn)
+		} else {
+			check.NoError(cmd.writeTransactions(f), "writing transactions of %s", fn)
 		}
 		coin.DropTransactions()
 	}
 }
 
-func (cmd *cmdFormat) writeTransactions(f io.Writer) {
+func (cmd *cmdFormat) writeTransactions(f io.Writer) error {
 	for _, t := range coin.Transactions {
 		if cmd.trimWS {
 			t.Description = trimWS(t.Description)[0]
 			t.Notes = trimWS(t.Notes...)
 		}
-		t.Write(f, cmd.ledger)
-		fmt.Fprintln(f)
+		if err := t.Write(f, cmd.ledger); err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintln(f); err != nil {
+			return err
+		}
 	}
+	return nil
 }
diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 70a1c65..2f618ac 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"path"
 	"regexp"
 	"strings"
 
@@ -89,20 +88,22 @@ func (cmd *cmdModify) execute(f io.Writer) {
 	for _, fn := range cmd.Args() {
 		coin.LoadFile(fn)
 		coin.ResolveTransactions(false)
-		tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
-		check.NoError(err, "creating temp file")
 		var count int
-		for _, t := range coin.Transactions {
-			if cmd.modify(t) {
-				count++
+		err := rewriteFile(fn, func(w io.Writer) error {
+			for _, t := range coin.Transactions {
+				if cmd.modify(t) {
+					count++
+				}
+				if err := t.Write(w, false); err != nil {
+					return err
+				}
+				if _, err := fmt.Fprintln(w); err != nil {
+					return err
+				}
 			}
-			t.Write(tf, false)
-			fmt.Fprintln(tf)
-		}
-		err = os.Remove(fn)
-		check.NoError(err, "deleting old file")
-		err = os.Rename(tf.Name(), fn)
-		check.NoError(err, "renaming temp file")
+			return nil
+		})
+		check.NoError(err, "rewriting %s", fn)
 		fmt.Fprintf(os.Stderr, "Updated %d transactions in %s\n", count, fn)
 		coin.DropTransactions()
 	}
diff --git a/cmd/coin/utils.go b/cmd/coin/utils.go
index 5261af9..4cbc133 100644
--- a/cmd/coin/utils.go
+++ b/cmd/coin/utils.go
@@ -5,6 +5,8 @@ import (
 	"compress/gzip"
 	"encoding/base64"
 	"io"
+	"os"
+	"path/filepath"
 	"sort"
 	"strings"
 
@@ -45,6 +47,42 @@ func trim(ps []*coin.Posting, begin, end coin.Date) []*coin.Posting {
 	return ps
 }
 
+// rewriteFile replaces the contents of the file with whatever gets written.
+// The file is replaced at once when everything was written successfully, otherwise it is left as it is.
+func rewriteFile(fn string, write func(w io.Writer) error) (err error) {
+	info, err := os.Stat(fn)
+	if err != nil {
+		return err
+	}
+	tf, err := os.CreateTemp(filepath.Dir(fn), filepath.Base(fn))
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			tf.Close()
+			os.Remove(tf.Name())
+		}
+	}()
+	w := bufio.NewWriter(tf)
+	if err = write(w); err != nil {
+		return err
+	}
+	if err = w.Flush(); err != nil {
+		return err
+	}
+	if err = tf.Chmod(info.Mode().Perm()); err != nil {
+		return err
+	}
+	if err = tf.Sync(); err != nil {
+		return err
+	}
+	if err = tf.Close(); err != nil {
+		return err
+	}
+	return os.Rename(tf.Name(), fn)
+}
+
 func trimWS(in ...string) (out []string) {
 	for _, line := range in {
 		var w strings.Builder
-- 
2.43.0


From b82b13fbbf46235ddc80a620ed2d618b449a44c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 21/68] fix: coin test updates only the empty clauses of each
 file and reports each file's result

---
 cmd/coin/test.go | 115 ++++++++++++++++++++++-------------------------
 1 file changed, 53 insertions(+), 62 deletions(-)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 3ce5ecc..5f81363 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"path"
 	"strconv"
 	"strings"
 
@@ -45,21 +44,25 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		return
 	}
 	lastTestFile := file(coin.Tests[0])
-	var toUpdate []*coin.Test
+	var filesToUpdate []string
+	toUpdate := map[string][]*coin.Test{} // by file
 	success := true
+	reportFile := func() {
+		if cmd.verbose {
+			return
+		}
+		result := "OK"
+		if !success {
+			result = "FAIL"
+		}
+		fmt.Fprintf(f, "%s %s\n", result, lastTestFile)
+	}
 	for _, t := range coin.Tests {
-		// assume the tests are sorted file by file
-		// and in the order they are in the file
 		testFile := file(t)
-		startingNewFile := testFile != lastTestFile
-		var oldTestFile string // this is set only when moving to new file
-		if startingNewFile {
-			oldTestFile = lastTestFile
-		}
-		lastTestFile = testFile
-		if startingNewFile && len(toUpdate) > 0 {
-			updateTestFile(toUpdate)
-			toUpdate = nil
+		if testFile != lastTestFile {
+			reportFile()
+			lastTestFile = testFile
+			success = true
 		}
 		var args []string
 		scanner := bufio.NewScanner(strings.NewReader(t.Cmd))
@@ -69,14 +72,16 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		}
 		if len(args) == 0 {
 			fmt.Fprintf(os.Stderr, "FAIL: test item is missing command %s\n", t.Location())
-			return
+			success = false
+			continue
 		}
 		// fmt.Println(args)
 		// continue
 		command, found := aliases[args[0]]
 		if !found {
 			fmt.Fprintf(os.Stderr, "FAIL: command unknown: %s %s\n", args[0], t.Location())
-			return
+			success = false
+			continue
 		}
 		command = command.newCommand(command.Name())
 		if len(args) > 1 {
@@ -90,14 +95,15 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		// once we collect all the tests to be updated
 		if len(t.Result) == 0 {
 			t.Result = b.Bytes()
-			toUpdate = append(toUpdate, t)
+			if toUpdate[testFile] == nil {
+				filesToUpdate = append(filesToUpdate, testFile)
+			}
+			toUpdate[testFile] = append(toUpdate[testFile], t)
 			continue
 		}
 		if bytes.Equal(b.Bytes(), t.Result) {
 			if cmd.verbose {
 				fmt.Fprintf(f, "OK %s %s\n", t.Location(), t.Cmd)
-			} else if oldTestFile != "" {
-				fmt.Fprintf(f, "OK %s\n", oldTestFile)
 			}
 			continue
 		}
@@ -112,20 +118,22 @@ func (cmd *cmdTest) execute(f io.Writer) {
 				Context:  3,
 			})
 	}
-	if len(toUpdate) > 0 {
-		updateTestFile(toUpdate)
-	}
-	if !cmd.verbose {
-		result := "OK"
-		if !success {
-			result = "FAIL"
-		}
-		fmt.Fprintf(f, "%s %s\n", result, lastTestFile)
+	for _, fn := range filesToUpdate {
+		updateTestFile(toUpdate[fn])
 	}
+	reportFile()
+}
+
+// location splits the location of the test into file name and line
+func location(t *coin.Test) (file string, line int) {
+	loc := t.Location()
+	i := strings.LastIndexByte(loc, ':')
+	line, _ = strconv.Atoi(loc[i+1:])
+	return loc[:i], line
 }
 
 func file(t *coin.Test) string {
-	file, _, _ := strings.Cut(t.Location(), ":")
+	file, _ := location(t)
 	return file
 }
 
@@ -134,41 +142,24 @@ func file(t *coin.Test) string {
 // then write the results from the test commands into the file.
 func updateTestFile(ts []*coin.Test) {
 	fn := file(ts[0])
-	tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
-	check.NoError(err, "creating temp file")
-	// read file fn by lines up to line
-	// write the lines into tf
-	of, err := os.Open(fn)
-	check.NoError(err, "opening old file")
-	defer of.Close()
-
-	scanner := bufio.NewScanner(of)
-	writer := bufio.NewWriter(tf)
-	line := 0
-	for i, t := range ts {
-		_, ln, _ := strings.Cut(t.Location(), ":")
-		tLine, _ := strconv.Atoi(ln)
-
-		for ; line < tLine && scanner.Scan(); line++ {
-			_, err := writer.Write(scanner.Bytes())
-			check.NoError(err, "writing prefix %d", i)
-			check.NoError(writer.WriteByte('\n'), "writing prefix %d", i)
+	old, err := os.ReadFile(fn)
+	check.NoError(err, "reading old file")
+	lines := bytes.SplitAfter(old, []byte("\n"))
+	err = rewriteFile(fn, func(w io.Writer) error {
+		written := 0
+		for _, t := range ts {
+			_, line := location(t)
+			prefix := append(bytes.Join(lines[written:line], nil), t.Result...)
+			if _, err := w.Write(prefix); err != nil {
+				return err
+			}
+			written = line
 		}
-		check.NoError(scanner.Err(), "writing prefix %d", i)
-		_, err = writer.Write(t.Result)
-		check.NoError(err, "writing result %d", i)
+		_, err := w.Write(bytes.Join(lines[written:], nil))
+		return err
+	})
+	check.NoError(err, "rewriting %s", fn)
+	for _, t := range ts {
 		fmt.Fprintf(os.Stderr, "UPDATED %s %s\n", t.Location(), t.Cmd)
 	}
-	// finish writing rest of the old file
-	for scanner.Scan() {
-		_, err := writer.Write(scanner.Bytes())
-		check.NoError(err, "writing trailer")
-		check.NoError(writer.WriteByte('\n'), "writing trailer")
-	}
-	check.NoError(scanner.Err(), "writing trailer")
-	check.NoError(of.Close(), "closing old file")
-	check.NoError(writer.Flush(), "flushing writer")
-	check.NoError(tf.Close(), "closing temp file")
-	check.NoError(os.Remove(fn), "deleting old file")
-	check.NoError(os.Rename(tf.Name(), fn), "renaming temp file %s to %s", tf.Name(), fn)
 }
-- 
2.43.0


From c788338d028f60effa2d9c56c815469a6eda1417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 22/68] fix: including a file that does not exist is an error

---
 include.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include.go b/include.go
index 054b376..9f07ada 100644
--- a/include.go
+++ b/include.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"strings"
 )
 
 // Include takes a path pattern that will be expanded into a list of files to include
@@ -52,5 +53,9 @@ func (i *Include) Files() ([]string, error) {
 		resolved = filepath.Join(filepath.Dir(i.file), i.Path)
 	}
 	resolved = os.ExpandEnv(resolved)
-	return filepath.Glob(resolved)
+	files, err := filepath.Glob(resolved)
+	if err == nil && len(files) == 0 && !strings.ContainsAny(resolved, `*?[\`) {
+		return nil, fmt.Errorf("%s: %w", resolved, os.ErrNotExist)
+	}
+	return files, err
 }
-- 
2.43.0


From 7f1059e7d2dcd01667478b2b6af224ca49ececd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 23/68] fix: reject include entries that do not match as a
 whole

---
 include.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include.go b/include.go
index 9f07ada..52350f8 100644
--- a/include.go
+++ b/include.go
@@ -22,10 +22,13 @@ type Include struct {
 	file string
 }
 
-var includeHead = regexp.MustCompile(`include\s+(.+)`)
+var includeHead = regexp.MustCompile(`^include\s+(\S.*?)\s*$`)
 
 func (p *Parser) parseInclude(fn string) (*Include, error) {
 	matches := includeHead.FindSubmatch(p.Bytes())
+	if matches == nil {
+		return nil, fmt.Errorf("invalid include line: %s", p.Text())
+	}
 	i := &Include{Path: string(matches[1]), line: p.lineNr, file: fn}
 	p.Scan()
 	return i, nil
-- 
2.43.0


From f3fd07cc55e76d32e91779d89408f892988c7c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 24/68] fix: detect include loops across several files

---
 coin.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index 0225e65..bd498be 100644
--- a/coin.go
+++ b/coin.go
@@ -86,7 +86,14 @@ func LoadAll() {
 	ResolveAll()
 }
 
+var loading = map[string]bool{} // files being loaded, to detect include loops
+
 func LoadFile(filename string) {
+	path, err := filepath.Abs(filename)
+	check.NoError(err, "Failed to resolve %s", filename)
+	check.If(!loading[path], "Include loop detected %s", filename)
+	loading[path] = true
+	defer delete(loading, path)
 	file, err := os.Open(filename)
 	check.NoError(err, "Failed to open %s", filename)
 	defer file.Close()
@@ -122,8 +129,6 @@ func Load(r io.Reader, fn string) {
 			files, err := i.Files()
 			check.NoError(err, "Failed to resolve include %s", i.Path)
 			for _, f := range files {
-				// This won't catch nested loops, but should catch the easier to make errors.
-				check.If(f != fn, "Include loop detected %s", f)
 				LoadFile(f)
 			}
 		default:
-- 
2.43.0


From 1b802d9d40ee4fc57a7aa3f1699211d57a16abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 25/68] fix: aggregated register keeps every column in the
 commodity of its account

---
 cmd/coin/totals.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 36fd530..6869447 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -30,25 +30,24 @@ func (t *timeTotal) Categories() (keys []string) {
 	return keys
 }
 
-func (t *timeTotal) AddIn(t2 *timeTotal, keysOnly bool) {
+// AddIn adds amounts from t2 to t. Categories missing in t are added in commodity c,
+// or the commodity of the added amount if c is nil.
+func (t *timeTotal) AddIn(t2 *timeTotal, c *coin.Commodity, keysOnly bool) {
 	check.If(t.Time.Equal(t2.Time), "%v is not equal to %v", t.Time, t2.Time)
 	if t.total != nil && !keysOnly {
 		check.NoError(t.total.AddIn(t2.total), "cannot add %a to totals", t2.total)
 		return
 	}
 	for k, v := range t2.totals {
-		amt := t.totals[k]
-		if amt != nil {
-			if !keysOnly {
-				check.NoError(amt.AddIn(v), "cannot add %a to totals", v)
-			}
-		} else {
-			if keysOnly {
-				t.totals[k] = coin.NewZeroAmount(v.Commodity)
-			} else {
-				t.totals[k] = v.Copy()
+		if t.totals[k] == nil {
+			t.totals[k] = coin.NewZeroAmount(v.Commodity)
+			if c != nil {
+				t.totals[k] = coin.NewZeroAmount(c)
 			}
 		}
+		if !keysOnly {
+			check.NoError(t.totals[k].AddIn(v), "cannot add %a to totals", v)
+		}
 	}
 }
 
@@ -102,12 +101,16 @@ type timeTotals struct {
 	// at least one of these must be set before using
 	*timeReducer
 	*categoryReducer
+	commodity *coin.Commodity // of the account, all totals should be in it
 	// these are internal
 	all     []*timeTotal // ordered totals by time if we are reducing by time
 	current *timeTotal   // latest total, if not reducing by time then the only total
 }
 
 func (ts *timeTotals) Commodity() *coin.Commodity {
+	if ts.commodity != nil {
+		return ts.commodity
+	}
 	if ts.current != nil {
 		if c := ts.current.Commodity(); c != nil {
 			return c
@@ -180,9 +183,10 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 			return
 		}
 		if ts.current == nil {
-			ts.current = ts2.current.Copy(keysOnly)
+			ts.current = ts.newTotal(ts2.current.Time, ts2.Commodity())
+			ts.current.AddIn(ts2.current, ts.commodity, keysOnly)
 		} else {
-			ts.current.AddIn(ts2.current, keysOnly)
+			ts.current.AddIn(ts2.current, ts.commodity, keysOnly)
 		}
 		return
 	}
@@ -199,7 +203,7 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 		remaining = remaining[i:]
 		j += i
 		if len(remaining) > 0 && remaining[0].Time.Equal(t.Time) {
-			remaining[0].AddIn(t, keysOnly)
+			remaining[0].AddIn(t, ts.commodity, keysOnly)
 		} else {
 			offsets = append(offsets, j)
 			j = 0
@@ -221,7 +225,7 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 			com = extra.Commodity()
 		}
 		newExtra := ts.newTotal(extra.Time, com)
-		newExtra.AddIn(extra, keysOnly)
+		newExtra.AddIn(extra, ts.commodity, keysOnly)
 		ts.all = append(ts.all, remaining[:mark]...)
 		ts.all = append(ts.all, newExtra)
 		remaining = remaining[mark:]
@@ -384,7 +388,7 @@ func (ats accountTotals) String() string {
 }
 
 func (ats accountTotals) newTotals(acc *coin.Account, period *timeReducer, category *categoryReducer) *timeTotals {
-	ts := &timeTotals{timeReducer: period, categoryReducer: category}
+	ts := &timeTotals{timeReducer: period, categoryReducer: category, commodity: acc.Commodity}
 	ats[acc] = ts
 
 	return ts
-- 
2.43.0


From e400b52d6865b73aeae88c2c8b3d3e927cdfb927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 26/68] fix: two digit years are the closest in any century,
 and only two digits are taken for one

---
 date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/date.go b/date.go
index b5cbc7e..80fff4f 100644
--- a/date.go
+++ b/date.go
@@ -98,8 +98,8 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 		mm, _ := strconv.Atoi(match["ymdm"])
 		if yy := match["ymdy"]; yy != "" {
 			yyy, _ := strconv.Atoi(yy)
-			if yyy < 100 {
-				yyy = y/1000*1000 + yyy
+			if len(yy) == 2 {
+				yyy = y/100*100 + yyy
 				if yyy < y && y-yyy > 50 {
 					yyy += 100
 				} else if yyy > y && yyy-y > 50 {
-- 
2.43.0


From 60f63766c4d3133c24c906300ef3d6f269405acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 27/68] fix: shorten locations only of files inside the working
 directory

---
 cmd/coin/postings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/coin/postings.go b/cmd/coin/postings.go
index 782a801..75d6b08 100644
--- a/cmd/coin/postings.go
+++ b/cmd/coin/postings.go
@@ -17,9 +17,9 @@ func init() {
 }
 
 func trimLocation(loc string) string {
-	l := strings.TrimPrefix(loc, cwd)
+	l := strings.TrimPrefix(loc, cwd+"/")
 	if len(l) < len(loc) {
-		return "." + l
+		return "./" + l
 	}
 	return loc
 }
-- 
2.43.0


From ed134b43155fc38e52d71e5ced78b6b2f375fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 28/68] fix: compare amounts of different precision by their
 value

---
 amount.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amount.go b/amount.go
index 3f70956..1e541e6 100644
--- a/amount.go
+++ b/amount.go
@@ -140,6 +140,9 @@ func (a *Amount) IsEqual(b *Amount) bool    { return a.Cmp(b) == 0 }
 func (a *Amount) IsLessThan(b *Amount) bool { return a.Cmp(b) < 0 }
 func (a *Amount) IsMoreThan(b *Amount) bool { return a.Cmp(b) > 0 }
 func (a *Amount) Cmp(b *Amount) int {
+	if a.Decimals < b.Decimals {
+		return a.adjustedTo(b).Cmp(b.Int)
+	}
 	return a.Int.Cmp(b.adjustedTo(a))
 }
 
@@ -150,7 +153,7 @@ func (a *Amount) Magnitude() *big.Int {
 func (a *Amount) IsBigger(b *Amount) bool  { return a.CmpMagnitude(b) > 0 }
 func (a *Amount) IsSmaller(b *Amount) bool { return a.CmpMagnitude(b) < 0 }
 func (a *Amount) CmpMagnitude(b *Amount) int {
-	return a.Magnitude().Cmp(b.Magnitude())
+	return NewAmount(a.Magnitude(), a.Commodity).Cmp(NewAmount(b.Magnitude(), b.Commodity))
 }
 
 // func (a *Amount) DivBy(b *Amount) *Amount {
-- 
2.43.0


From da0dcd4f0a326763b5a818bc4dcbbc4631167969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 29/68] fix: keep the declaration of the Unbalanced account

---
 coin.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index bd498be..1f6586d 100644
--- a/coin.go
+++ b/coin.go
@@ -173,8 +173,11 @@ func ResolveAccounts() {
 		}
 	}
 	if Unbalanced == nil {
-		Unbalanced = accountFromName("Unbalanced")
-		AccountsByName["Unbalanced"] = Unbalanced
+		Unbalanced = AccountsByName["Unbalanced"]
+		if Unbalanced == nil {
+			Unbalanced = accountFromName("Unbalanced")
+			AccountsByName["Unbalanced"] = Unbalanced
+		}
 	}
 
 	// create parents if missing
-- 
2.43.0


From c122fdadd3d084dbb89d2d7b42e9498b12c21cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 30/68] fix: reject a closed line of an account without a date

---
 account.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/account.go b/account.go
index b9b4f16..bcac7a9 100644
--- a/account.go
+++ b/account.go
@@ -146,6 +146,8 @@ func (p *Parser) parseAccount(fn string) (*Account, error) {
 			a.OFXAcctId = i
 		} else if i := match["csv_acctid"]; i != "" {
 			a.CSVAcctId = i
+		} else {
+			return a, fmt.Errorf("unrecognized account line: %s", p.Text())
 		}
 	}
 	return a, p.Err()
-- 
2.43.0


From fa9ead18d737e00663324c1c863161cba7a8b35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 31/68] fix: lines of a rules file are matched as a whole, and
 malformed ones are errors

---
 rules.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/rules.go b/rules.go
index 8e15eb6..14878d6 100644
--- a/rules.go
+++ b/rules.go
@@ -146,11 +146,16 @@ func (r *Rule) RuleFor(payee string) *Rule {
 	return nil
 }
 
-var patternRE = `([\w:$^\\-]+)`
-var headerRE = regexp.MustCompile(`^(\w+)\s+` + patternRE + `|^(\w+)`)
-var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S.*\S))?|` +
-	`^\s+@(\w+)|` +
-	`^\s+;\s+(.*)`)
+var patternRE = `([\w:$^\\/-]+)`
+var headerRE = regexp.MustCompile(`^(?:(\w+)\s+` + patternRE + `|(\w+))\s*(?:;.*)?$`)
+var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S.*?))?\s*$|` +
+	`^\s+@(\w+)\s*$|` +
+	`^\s+;\s*(.*)$`)
+
+// isIgnoredLine tells whether the line of a rules file is blank or a comment.
+func isIgnoredLine(line []byte) bool {
+	return len(bytes.TrimSpace(line)) == 0 || line[0] == ';'
+}
 
 func ReadRules(r io.Reader) (*RuleIndex, error) {
 	s := bufio.NewScanner(r)
@@ -187,6 +192,9 @@ func ScanRules(line []byte, s *bufio.Scanner) (*RuleIndex, error) {
 					return ri, s.Err()
 				}
 				line = s.Bytes()
+				if isIgnoredLine(line) {
+					continue
+				}
 				match = bodyRE.FindSubmatch(line)
 				if match == nil {
 					break
@@ -213,10 +221,13 @@ func ScanRules(line []byte, s *bufio.Scanner) (*RuleIndex, error) {
 			}
 			setRules(rules)
 		} else {
+			if !isIgnoredLine(line) {
+				return nil, fmt.Errorf("invalid rules line: %s", line)
+			}
 			if !s.Scan() {
 				return ri, s.Err()
 			}
-			line = bytes.TrimSpace(s.Bytes())
+			line = s.Bytes()
 		}
 	}
 }
-- 
2.43.0


From 1c61f7e62ec90f01c4d92ac553531d110cbfdc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 32/68] fix: dumping rules keeps notes and drop rules

---
 rules.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/rules.go b/rules.go
index 14878d6..506aa32 100644
--- a/rules.go
+++ b/rules.go
@@ -55,7 +55,11 @@ func (rs *RuleIndex) Write(w io.Writer) error {
 		}
 	}
 	sort.Slice(accounts, func(i, j int) bool {
-		return accounts[i].Account.FullName < accounts[j].Account.FullName
+		a, b := accounts[i], accounts[j]
+		if a.Account.FullName != b.Account.FullName {
+			return a.Account.FullName < b.Account.FullName
+		}
+		return ids[a] < ids[b]
 	})
 	for _, ars := range accounts {
 		id := ids[ars]
@@ -131,12 +135,22 @@ type Rule struct {
 }
 
 func (r *Rule) Name() string {
+	if r.Account == nil {
+		return "--"
+	}
 	return r.Account.FullName
 }
 
 func (r *Rule) Write(w io.Writer, max int) error {
-	_, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String())
-	return err
+	if _, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String()); err != nil {
+		return err
+	}
+	for _, n := range r.Notes {
+		if _, err := fmt.Fprintf(w, "  ; %s\n", n); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func (r *Rule) RuleFor(payee string) *Rule {
-- 
2.43.0


From 6d5ceacc143890b1754b968c4ad925fc1485bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 33/68] fix: importing works without a rules file

---
 coin.go  |  3 +++
 rules.go | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/coin.go b/coin.go
index 1f6586d..f4e5eff 100644
--- a/coin.go
+++ b/coin.go
@@ -317,6 +317,9 @@ func MustFindAccount(pattern string) *Account {
 }
 
 func FindAccountOfxId(acctId string) *Account {
+	if acctId == "" {
+		return nil
+	}
 	for _, a := range AccountsByName {
 		if a.OFXAcctId == acctId {
 			return a
diff --git a/rules.go b/rules.go
index 506aa32..0b91f85 100644
--- a/rules.go
+++ b/rules.go
@@ -26,9 +26,10 @@ type RuleIndex struct {
 }
 
 func (rs *RuleIndex) AccountRulesFor(acctId string) *AccountRules {
-	ars := rs.Accounts[acctId]
-	if ars != nil {
-		return ars
+	if rs != nil {
+		if ars := rs.Accounts[acctId]; ars != nil {
+			return ars
+		}
 	}
 	account := FindAccountOfxId(acctId)
 	check.If(account != nil, "could not find account for Acct ID %s", acctId)
@@ -36,6 +37,9 @@ func (rs *RuleIndex) AccountRulesFor(acctId string) *AccountRules {
 }
 
 func (rs *RuleIndex) Write(w io.Writer) error {
+	if rs == nil {
+		return nil
+	}
 	for _, r := range rs.Sets {
 		if _, err := fmt.Fprintf(w, "%s\n", r.Name()); err != nil {
 			return err
-- 
2.43.0


From a3138ddf3c51678532ca41dbcff99d7dfb8be870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 34/68] fix: csv2coin finds accounts by their csv_acctid

---
 cmd/csv2coin/rules.go | 11 +++++++++++
 coin.go               | 12 ++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 1526c45..0be7b66 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -165,6 +165,17 @@ type Rules struct {
 	*coin.RuleIndex
 }
 
+// AccountRulesFor returns the rules of the account with given ID,
+// the account is the one the rules are for or the one tagged with the ID by csv_acctid or ofx_acctid.
+func (rules *Rules) AccountRulesFor(acctId string) *coin.AccountRules {
+	if rules.RuleIndex == nil || rules.Accounts[acctId] == nil {
+		if account := coin.FindAccountCSVId(acctId); account != nil {
+			return &coin.AccountRules{Account: account}
+		}
+	}
+	return rules.RuleIndex.AccountRulesFor(acctId)
+}
+
 func (rules *Rules) Write(w io.Writer) {
 	for _, src := range rules.sources {
 		src.Write(w)
diff --git a/coin.go b/coin.go
index f4e5eff..182551b 100644
--- a/coin.go
+++ b/coin.go
@@ -328,6 +328,18 @@ func FindAccountOfxId(acctId string) *Account {
 	return nil
 }
 
+func FindAccountCSVId(acctId string) *Account {
+	if acctId == "" {
+		return nil
+	}
+	for _, a := range AccountsByName {
+		if a.CSVAcctId == acctId {
+			return a
+		}
+	}
+	return nil
+}
+
 func ToRegex(pattern string) *regexp.Regexp {
 	multiple := `[\w/_:-]*`
 	single := `[\w/_-]*:[\w/_-]*`
-- 
2.43.0


From d94bdf12e09254f259b46f6808c7fb9bdf2358b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 35/68] fix: csv2coin -fields without the optional values

---
 cmd/csv2coin/main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 66bb839..d483a08 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -220,14 +220,17 @@ var labels = []string{
 	"note",        // optional note associated with the transaction
 }
 
+// number of labels that are not optional
+const requiredLabels = 4
+
 func parseFields(list string) map[string]Fields {
 	idxs := strings.Split(list, ",")
-	check.If(len(idxs) == len(labels),
-		"%d fields must be specified:\n%v\n", len(labels), labels)
+	check.If(requiredLabels <= len(idxs) && len(idxs) <= len(labels),
+		"%d to %d fields must be specified:\n%v\n", requiredLabels, len(labels), labels)
 	fields := make(map[string]Fields)
 	for i, s := range idxs {
 		c, err := strconv.Atoi(s)
-		check.NoError(err, "%s is not a valid column index", i)
+		check.NoError(err, "%s is not a valid column index", s)
 		fields[labels[i]] = Fields{&Field{&c, "", "", nil}}
 	}
 	return fields
-- 
2.43.0


From 89ae3ccdb5d1620674745ca20171dcf159447fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 36/68] fix: csv2coin without csv.rules or without the account
 rules section

---
 cmd/csv2coin/main.go  |  2 +-
 cmd/csv2coin/rules.go | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index d483a08..9a5000c 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -43,7 +43,7 @@ func main() {
 	coin.LoadFile(coin.AccountsFile)
 	coin.ResolveAccounts()
 
-	var rules *Rules
+	rules := &Rules{sources: map[string]*Source{}}
 	fn := filepath.Join(coin.DB, "csv.rules")
 	if _, err := os.Stat(fn); !os.IsNotExist(err) {
 		file, err := os.Open(fn)
diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 0be7b66..baf1e3b 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -187,9 +187,16 @@ func (rules *Rules) Write(w io.Writer) {
 func ReadRules(r io.Reader) *Rules {
 	rules := Rules{sources: map[string]*Source{}}
 	s := bufio.NewScanner(r)
-	check.If(s.Scan(), "Failed scanning first line: %s", s.Err())
-	line := s.Bytes()
+	var line []byte
 	for {
+		if len(bytes.TrimSpace(line)) == 0 {
+			if !s.Scan() { // no rules section
+				check.NoError(s.Err(), "Failed reading rules")
+				return &rules
+			}
+			line = s.Bytes()
+			continue
+		}
 		if bytes.Equal(line, separator) {
 			if !s.Scan() { // nothing after separator
 				return &rules
@@ -197,7 +204,7 @@ func ReadRules(r io.Reader) *Rules {
 			break
 		}
 		source := ScanSource(line, s)
-		check.If(source != nil, "invalid source definition in rules file: %s", string(s.Bytes()))
+		check.If(source != nil, "invalid source definition in rules file: %s", string(line))
 		rules.sources[source.name] = source
 		line = s.Bytes()
 	}
-- 
2.43.0


From e2e54623dc275352be122f71cc27d8a231f9c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 37/68] fix: the header line count of a csv source is optional

---
 cmd/csv2coin/rules.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index baf1e3b..38b95af 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -103,8 +103,12 @@ func ScanSource(line []byte, s *bufio.Scanner) *Source {
 	if match == nil {
 		return nil
 	}
-	skip, err := strconv.Atoi(match["skip"])
-	check.NoError(err, "parsing header line count")
+	skip := 0
+	if n := match["skip"]; n != "" {
+		var err error
+		skip, err = strconv.Atoi(n)
+		check.NoError(err, "parsing header line count")
+	}
 	src := &Source{name: match["source"], skip: skip, fields: make(map[string]Fields)}
 	check.If(s.Scan(), "reading next source line: %s\n", s.Err())
 	line = s.Bytes()
-- 
2.43.0


From 9329e3cb806cd304294c96bcab3a8cfa2129e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 38/68] fix: csv header lines can have fewer fields than the
 records

---
 cmd/csv2coin/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 9a5000c..2d0f85e 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -97,6 +97,7 @@ func readTransactions(in io.Reader, src *Source, rules *Rules) (transactions []*
 		}
 		check.NoError(err, "Failed to read header line %d", i)
 	}
+	r.FieldsPerRecord = 0 // the header lines do not tell how many fields the records have
 	for {
 		rec, err := r.Read()
 		if err == io.EOF {
-- 
2.43.0


From d1e55e5cdc0113dbf5a470a2b64d6e6bf80f6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 39/68] fix: csv source templates with a dollar sign that is no
 reference

---
 cmd/csv2coin/rules.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 38b95af..08842a8 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -43,7 +43,7 @@ func (f *Field) derivedField(row []string, fields map[string]Fields) string {
 	}
 	out := []string{parts[0]}
 	for _, p := range parts[1:] {
-		if p[0] == '{' {
+		if p != "" && p[0] == '{' {
 			i := strings.IndexByte(p, '}')
 			if i > 0 {
 				f := p[1:i]
@@ -51,7 +51,7 @@ func (f *Field) derivedField(row []string, fields map[string]Fields) string {
 				continue
 			}
 		}
-		out = append(out, p)
+		out = append(out, "$"+p)
 	}
 	return strings.Join(out, "")
 }
@@ -67,10 +67,10 @@ func (f *Field) directField(s string) string {
 	}
 	out := []string{parts[0]}
 	for _, p := range parts[1:] {
-		if '0' <= p[0] && p[0] <= '9' {
+		if p != "" && '0' <= p[0] && p[0] <= '9' {
 			out = append(out, match[p[0:1]]+p[1:])
 		} else {
-			out = append(out, p)
+			out = append(out, "$"+p)
 		}
 	}
 	return strings.Join(out, "")
-- 
2.43.0


From ff56eee0301df9848ca2400f39f824c8d14b518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 40/68] fix: csv2coin -rules dumps sources that can be read
 back

---
 cmd/csv2coin/rules.go | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 08842a8..5245f57 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -143,19 +144,28 @@ func ScanSource(line []byte, s *bufio.Scanner) *Source {
 }
 
 func (s *Source) Write(w io.Writer) {
-	fmt.Fprintln(w, s.name)
-	for _, n := range labels {
-		fs := s.fields[n]
-		for _, f := range fs {
-			if f.re == nil {
-				if f.out != "" {
-					fmt.Fprintf(w, "  %s %s\n", n, f.out)
-				} else {
-					fmt.Fprintf(w, "  %s %d\n", n, f.idx)
-				}
-			} else {
-				fmt.Fprintf(w, "  %s %d %s %s\n", n, f.idx, f.out, f.re)
+	fmt.Fprintf(w, "%s %d\n", s.name, s.skip)
+	var names []string
+	for n := range s.fields {
+		names = append(names, n)
+	}
+	sort.Strings(names)
+	for _, n := range names {
+		for _, f := range s.fields[n] {
+			fmt.Fprintf(w, "  %s", n)
+			if f.idx != nil {
+				fmt.Fprintf(w, " %d", *f.idx)
 			}
+			if f.idx == nil || f.re != nil {
+				fmt.Fprintf(w, " \"%s\"", f.out)
+			}
+			if f.condField != "" {
+				fmt.Fprintf(w, " %s", f.condField)
+			}
+			if f.re != nil {
+				fmt.Fprintf(w, " %s", f.re)
+			}
+			fmt.Fprintln(w)
 		}
 	}
 }
@@ -181,8 +191,13 @@ func (rules *Rules) AccountRulesFor(acctId string) *coin.AccountRules {
 }
 
 func (rules *Rules) Write(w io.Writer) {
-	for _, src := range rules.sources {
-		src.Write(w)
+	var names []string
+	for n := range rules.sources {
+		names = append(names, n)
+	}
+	sort.Strings(names)
+	for _, n := range names {
+		rules.sources[n].Write(w)
 	}
 	fmt.Fprintln(w, string(separator))
 	rules.RuleIndex.Write(w)
-- 
2.43.0


From e0d4ab53115bc676f0bfbe07ca70a38f0f7c5039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 41/68] fix: ofx statements without transactions

---
 cmd/ofx2coin/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index bcf341e..03581b1 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -132,6 +132,9 @@ func readTransactions(r io.Reader, rules *coin.RuleIndex) (transactions []*coin.
 	// read bank transactions
 	for _, resp := range responses.Bank {
 		resp := resp.(*ofxgo.StatementResponse)
+		if resp.BankTranList == nil {
+			continue
+		}
 		rules := rules.AccountRulesFor(resp.BankAcctFrom.AcctID.String())
 		last := len(resp.BankTranList.Transactions) - 1
 		for i, t := range resp.BankTranList.Transactions {
@@ -152,6 +155,9 @@ func readTransactions(r io.Reader, rules *coin.RuleIndex) (transactions []*coin.
 	// read credit card transactions
 	for _, resp := range responses.CreditCard {
 		resp := resp.(*ofxgo.CCStatementResponse)
+		if resp.BankTranList == nil {
+			continue
+		}
 		rules := rules.AccountRulesFor(resp.CCAcctFrom.AcctID.String())
 		for _, t := range resp.BankTranList.Transactions {
 			if nt := newTransaction(rules,
-- 
2.43.0


From b7b2eebcd7959a1e1d4964ebdc2d8f8908c4d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 42/68] fix: ofx2coin sorts and compares transactions by day,
 whatever the time and time zone

---
 cmd/ofx2coin/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index 03581b1..f965771 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -84,6 +84,12 @@ func main() {
 	}
 	// write transactions
 	sort.Stable(transactions)
+	// Only the day matters from here on, as in the transactions of the ledger.
+	for _, t := range transactions {
+		y, m, d := t.Posted.Date()
+		t.Posted = time.Date(y, m, d, 12, 0, 0, 0, time.UTC)
+	}
+	sort.Stable(transactions)
 
 	if !*keepDupes {
 		var filtered, day, oldDay coin.TransactionsByTime
-- 
2.43.0


From 0a318c1cfc903cceb170d656ed2fa1e9dddc93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 43/68] fix: ofx2coin -bmo with CRLF line ends or without a
 line end at the end

---
 cmd/ofx2coin/bmo.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmd/ofx2coin/bmo.go b/cmd/ofx2coin/bmo.go
index ac33eb6..ccf2f6d 100644
--- a/cmd/ofx2coin/bmo.go
+++ b/cmd/ofx2coin/bmo.go
@@ -16,8 +16,8 @@ import (
 )
 
 var ignore = [][]byte{
-	[]byte("<BANKMSGSET><BANKMSGSETV1>\n"),
-	[]byte("<BANKMSGSETV1><BANKMSGSET>\n"),
+	[]byte("<BANKMSGSET><BANKMSGSETV1>"),
+	[]byte("<BANKMSGSETV1><BANKMSGSET>"),
 }
 var emptyLine = []byte("\n")
 
@@ -39,30 +39,31 @@ func (r *bmoReader) Read(p []byte) (n int, err error) {
 	loop:
 		for {
 			r.lastLine, err = r.ReadBytes('\n')
-			if err != nil {
+			if err != nil && len(r.lastLine) == 0 {
 				return 0, err
 			}
+			line := bytes.TrimRight(r.lastLine, "\r\n")
 			if !r.reachedHeader {
-				if bytes.Equal(r.lastLine, emptyLine) {
+				if len(line) == 0 {
 					continue loop
 				} else {
 					r.reachedHeader = true
 				}
 			}
 			if !r.reachedBody {
-				if bytes.Equal(r.lastLine, []byte("<OFX>\n")) {
+				if bytes.Equal(line, []byte("<OFX>")) {
 					r.reachedBody = true
 					if !r.emptyLineAfterHeader {
 						n = copy(p, emptyLine)
 						return n, nil
 					}
-				} else if bytes.Equal(r.lastLine, emptyLine) {
+				} else if len(line) == 0 {
 					r.emptyLineAfterHeader = true
 				}
 				break loop
 			}
 			for _, ignore := range ignore {
-				if bytes.Equal(r.lastLine, ignore) {
+				if bytes.Equal(line, ignore) {
 					continue loop
 				}
 			}
-- 
2.43.0


From cd18400b6a42159ec72a461d4fe63074ff0e0caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 44/68] fix: gc2coin -y without prices or transactions, or with
 years not in order

---
 cmd/gc2coin/main.go | 48 +++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/cmd/gc2coin/main.go b/cmd/gc2coin/main.go
index ca5d66e..7817e5d 100644
--- a/cmd/gc2coin/main.go
+++ b/cmd/gc2coin/main.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path/filepath"
 	"strconv"
+	"time"
 
 	"github.com/mkobetic/coin"
 	"github.com/mkobetic/coin/gnucash"
@@ -73,23 +74,25 @@ func main() {
 		}
 	})
 
-	// Assume prices are sorted by date
-	var year int
-	if *yearly {
-		year := coin.Prices[0].Time.Year()
-		f, done = next(strconv.Itoa(year) + coin.PricesExtension)
-		defer done()
-	} else {
-		f, done = next(coin.PricesFilename)
-		defer done()
+	// one file, or a file per year with -y
+	byYear := func(fn, extension string) func(t time.Time) *os.File {
+		if !*yearly {
+			f, _ := next(fn)
+			return func(time.Time) *os.File { return f }
+		}
+		files := make(map[int]*os.File)
+		return func(t time.Time) *os.File {
+			year := t.Year()
+			if files[year] == nil {
+				files[year], _ = next(strconv.Itoa(year) + extension)
+			}
+			return files[year]
+		}
 	}
+
+	pricesFile := byYear(coin.PricesFilename, coin.PricesExtension)
 	for _, p := range coin.Prices {
-		if *yearly && p.Time.Year() != year {
-			year = p.Time.Year()
-			f, done = next(strconv.Itoa(year) + coin.PricesExtension)
-			defer done()
-		}
-		err := p.Write(f, *ledger)
+		err := p.Write(pricesFile(p.Time), *ledger)
 		if err != nil {
 			panic(err)
 		}
@@ -108,20 +111,9 @@ func main() {
 		}
 	})
 
-	if *yearly {
-		year := coin.Transactions[0].Posted.Year()
-		f, done = next(strconv.Itoa(year) + coin.TransactionsExtension)
-		defer done()
-	} else {
-		f, done = next(coin.TransactionsFilename)
-		defer done()
-	}
+	transactionsFile := byYear(coin.TransactionsFilename, coin.TransactionsExtension)
 	for _, p := range coin.Transactions {
-		if *yearly && p.Posted.Year() != year {
-			year = p.Posted.Year()
-			f, done = next(strconv.Itoa(year) + coin.TransactionsExtension)
-			defer done()
-		}
+		f := transactionsFile(p.Posted)
 		err := p.Write(f, *ledger)
 		if err != nil {
 			panic(err)
-- 
2.43.0


From cf8a6903079ac5beaf700f5f3b3a1a0bf8afea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 45/68] fix: gc2coin cut the cents of currencies without a
 fraction

---
 gnucash/commodity.go | 17 +++++++++++++++++
 gnucash/gnucash.go   |  1 +
 2 files changed, 18 insertions(+)

diff --git a/gnucash/commodity.go b/gnucash/commodity.go
index 80dcb20..c4b1c72 100644
--- a/gnucash/commodity.go
+++ b/gnucash/commodity.go
@@ -55,3 +55,20 @@ func resolveCommodities(commodities []*Commodity) {
 		coin.Commodities[c.Id] = c
 	}
 }
+
+// GnuCash leaves out the fraction of ISO currencies,
+// use cents unless there is an account with a finer unit.
+func (book *Book) resolveFractions() {
+	for _, c := range book.Commodities {
+		if c.Fraction > 0 {
+			continue
+		}
+		c.Fraction = 100
+		for _, a := range book.Accounts {
+			scu := int64(a.CommodityScu)
+			if a.CommoditySpace == c.Space && a.CommodityId == c.Id && scu > c.Fraction {
+				c.Fraction = scu
+			}
+		}
+	}
+}
diff --git a/gnucash/gnucash.go b/gnucash/gnucash.go
index 0aa1553..c03e1b6 100644
--- a/gnucash/gnucash.go
+++ b/gnucash/gnucash.go
@@ -31,6 +31,7 @@ type Book struct {
 
 // Resolve relinks all the book objects after unmarshaling from XML
 func (book *Book) Resolve() {
+	book.resolveFractions()
 	resolveCommodities(book.Commodities)
 	resolvePrices(book.Prices)
 	resolveAccounts(book.Accounts)
-- 
2.43.0


From 30b03a7eeb4caa0d080cc89da6659ccf76ce8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 46/68] fix: gc2coin failed on books without CAD

---
 commodity.go         |  3 +++
 gnucash/commodity.go | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/commodity.go b/commodity.go
index 12fb835..5b86a37 100644
--- a/commodity.go
+++ b/commodity.go
@@ -131,6 +131,9 @@ func (c *Commodity) Write(w io.Writer, ledger bool) error {
 	if c.NoMarket {
 		lines = append(lines, "  nomarket\n")
 	}
+	if c.Id == DefaultCommodityId {
+		lines = append(lines, "  default\n")
+	}
 	for _, line := range lines {
 		_, err := io.WriteString(w, line)
 		if err != nil {
diff --git a/gnucash/commodity.go b/gnucash/commodity.go
index c4b1c72..3b2f026 100644
--- a/gnucash/commodity.go
+++ b/gnucash/commodity.go
@@ -54,6 +54,16 @@ func resolveCommodities(commodities []*Commodity) {
 		c := CommodityFrom(gc)
 		coin.Commodities[c.Id] = c
 	}
+	if coin.Commodities[coin.DefaultCommodityId] != nil {
+		return
+	}
+	// make the first currency the default commodity
+	for _, gc := range commodities {
+		if gc.Space == "ISO4217" || gc.Space == "CURRENCY" {
+			coin.DefaultCommodityId = gc.Id
+			return
+		}
+	}
 }
 
 // GnuCash leaves out the fraction of ISO currencies,
-- 
2.43.0


From 949dd8ef5f3e82f6654eac4ab94b7c214d200650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 47/68] fix: gc2coin crashed on online ids without digits

---
 gnucash/account.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gnucash/account.go b/gnucash/account.go
index 6e1dffd..ff14038 100644
--- a/gnucash/account.go
+++ b/gnucash/account.go
@@ -101,9 +101,10 @@ func resolveAccounts(accounts []*Account) {
 			a.Commodity = coin.DefaultCommodity()
 		}
 		if online_id := gca.slot("online_id"); online_id != "" {
-			ids := gc_online_id.FindStringSubmatch(online_id)
-			a.OFXBankId = ids[2]
-			a.OFXAcctId = ids[3]
+			if ids := gc_online_id.FindStringSubmatch(online_id); ids != nil {
+				a.OFXBankId = ids[2]
+				a.OFXAcctId = ids[3]
+			}
 		}
 	}
 	// Link parents and children.
-- 
2.43.0


From e5dcf08de7aa7e1c5cb06e53286da782ebb74ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 48/68] fix: gc2coin wrote names and texts that coin cannot
 read or that are not unique

---
 gnucash/account.go     | 30 +++++++++++++++++++++++++++---
 gnucash/commodity.go   | 33 +++++++++++++++++++++++++++------
 gnucash/names.go       | 37 +++++++++++++++++++++++++++++++++++++
 gnucash/price.go       |  4 ++--
 gnucash/split.go       |  2 +-
 gnucash/transaction.go |  4 ++--
 6 files changed, 96 insertions(+), 14 deletions(-)
 create mode 100644 gnucash/names.go

diff --git a/gnucash/account.go b/gnucash/account.go
index ff14038..0900997 100644
--- a/gnucash/account.go
+++ b/gnucash/account.go
@@ -68,13 +68,13 @@ func AccountFrom(a *Account) *coin.Account {
 	if a.Name == "Root Account" {
 		name = "Root"
 	} else {
-		name = strings.Replace(a.Name, " ", "", -1)
+		name = coinName(a.Name, notInAccounts, "A")
 	}
 	return &coin.Account{
 		Name:        name,
 		Type:        a.Type,
 		Code:        a.Code,
-		Description: a.Description,
+		Description: oneLine(a.Description),
 	}
 }
 
@@ -96,7 +96,7 @@ func resolveAccounts(accounts []*Account) {
 			coin.Root = a
 		}
 		if gca.CommodityId != "" {
-			a.Commodity = coin.MustFindCommodity(gca.CommodityId, "gnucash account")
+			a.Commodity = mustFindCommodity(gca.CommoditySpace, gca.CommodityId)
 		} else {
 			a.Commodity = coin.DefaultCommodity()
 		}
@@ -113,6 +113,8 @@ func resolveAccounts(accounts []*Account) {
 		a.Parent.Children = append(a.Parent.Children, a)
 	}
 
+	resolveNames(accounts)
+
 	// Sort children.
 	for _, a := range AccountsByGuid {
 		a.FullName = buildFullName(a)
@@ -123,6 +125,28 @@ func resolveAccounts(accounts []*Account) {
 	}
 }
 
+// Siblings need different names, leave those alone that coin can read as they are.
+func resolveNames(accounts []*Account) {
+	taken := map[*coin.Account]map[string]bool{coin.Root: {"Root": true}}
+	resolve := func(unchanged bool) {
+		for _, gca := range accounts {
+			a := AccountsByGuid[gca.Guid]
+			if a.Parent == nil || unchanged != (a.Name == strings.ReplaceAll(gca.Name, " ", "")) {
+				continue
+			}
+			names := taken[a.Parent]
+			if names == nil {
+				names = map[string]bool{}
+				taken[a.Parent] = names
+			}
+			a.Name = unique(a.Name, func(name string) bool { return names[name] })
+			names[a.Name] = true
+		}
+	}
+	resolve(true)
+	resolve(false)
+}
+
 func isRoot(a *coin.Account) bool {
 	return a.Type == "ROOT" || a.Parent == nil
 }
diff --git a/gnucash/commodity.go b/gnucash/commodity.go
index 3b2f026..3f1e372 100644
--- a/gnucash/commodity.go
+++ b/gnucash/commodity.go
@@ -40,8 +40,8 @@ type Commodity struct {
 
 func CommodityFrom(c *Commodity) *coin.Commodity {
 	cc := &coin.Commodity{
-		Id:     c.Id,
-		Name:   c.Name,
+		Id:     coinName(c.Id, notInCommodities, "C"),
+		Name:   oneLine(c.Name),
 		Code:   c.Code,
 		Prices: make(map[*coin.Commodity][]*coin.Price),
 	}
@@ -49,18 +49,39 @@ func CommodityFrom(c *Commodity) *coin.Commodity {
 	return cc
 }
 
+// commodities by space and id
+var commoditiesById = map[[2]string]*coin.Commodity{}
+
+func mustFindCommodity(space, id string) *coin.Commodity {
+	c := commoditiesById[[2]string{space, id}]
+	if c == nil {
+		panic("unknown commodity: " + space + ":" + id)
+	}
+	return c
+}
+
 func resolveCommodities(commodities []*Commodity) {
-	for _, gc := range commodities {
-		c := CommodityFrom(gc)
-		coin.Commodities[c.Id] = c
+	resolve := func(unchanged bool) {
+		for _, gc := range commodities {
+			c := CommodityFrom(gc)
+			if unchanged != (c.Id == gc.Id) {
+				continue
+			}
+			c.Id = unique(c.Id, func(id string) bool { return coin.Commodities[id] != nil })
+			coin.Commodities[c.Id] = c
+			commoditiesById[[2]string{gc.Space, gc.Id}] = c
+		}
 	}
+	// leave those alone that coin can read as they are
+	resolve(true)
+	resolve(false)
 	if coin.Commodities[coin.DefaultCommodityId] != nil {
 		return
 	}
 	// make the first currency the default commodity
 	for _, gc := range commodities {
 		if gc.Space == "ISO4217" || gc.Space == "CURRENCY" {
-			coin.DefaultCommodityId = gc.Id
+			coin.DefaultCommodityId = mustFindCommodity(gc.Space, gc.Id).Id
 			return
 		}
 	}
diff --git a/gnucash/names.go b/gnucash/names.go
new file mode 100644
index 0000000..ce68c69
--- /dev/null
+++ b/gnucash/names.go
@@ -0,0 +1,37 @@
+package gnucash
+
+import (
+	"regexp"
+	"strconv"
+	"strings"
+)
+
+var (
+	notInAccounts    = regexp.MustCompile(`[^A-Za-z0-9_/-]+`)
+	notInCommodities = regexp.MustCompile(`[^A-Za-z0-9_]+`)
+)
+
+// coinName makes a name that coin can read out of a GnuCash name
+// by dropping everything matching the invalid expression;
+// prefix is added if the name doesn't start with a letter.
+func coinName(name string, invalid *regexp.Regexp, prefix string) string {
+	name = invalid.ReplaceAllString(name, "")
+	if name == "" || !strings.ContainsAny(strings.ToUpper(name[:1]), "ABCDEFGHIJKLMNOPQRSTUVWXYZ") {
+		name = prefix + name
+	}
+	return name
+}
+
+// unique numbers the name if it is taken already.
+func unique(name string, taken func(name string) bool) string {
+	result := name
+	for i := 2; taken(result); i++ {
+		result = name + "_" + strconv.Itoa(i)
+	}
+	return result
+}
+
+// oneLine drops line ends and excess white space.
+func oneLine(text string) string {
+	return strings.Join(strings.Fields(text), " ")
+}
diff --git a/gnucash/price.go b/gnucash/price.go
index a40cf49..f84fc29 100644
--- a/gnucash/price.go
+++ b/gnucash/price.go
@@ -39,8 +39,8 @@ type Price struct {
 func resolvePrices(prices []*Price) {
 	for _, gp := range prices {
 		p := &coin.Price{}
-		p.Commodity = coin.Commodities[gp.CommodityId]
-		p.Currency = coin.Commodities[gp.CurrencyId]
+		p.Commodity = mustFindCommodity(gp.CommoditySpace, gp.CommodityId)
+		p.Currency = mustFindCommodity(gp.CurrencySpace, gp.CurrencyId)
 		p.Value = mustParseAmount(gp.ValueFraction, p.Currency)
 		p.Time = mustParseTimeStamp(gp.Date)
 		p.Commodity.Prices[p.Currency] =
diff --git a/gnucash/split.go b/gnucash/split.go
index 07cefc1..36a7b24 100644
--- a/gnucash/split.go
+++ b/gnucash/split.go
@@ -41,7 +41,7 @@ type Split struct {
 func resolveSplits(splits []*Split, t *coin.Transaction) {
 	for _, gs := range splits {
 		s := &coin.Posting{Transaction: t}
-		if n := gs.Memo; len(n) > 0 {
+		if n := oneLine(gs.Memo); len(n) > 0 {
 			s.Notes = []string{n}
 		}
 		t.Postings = append(t.Postings, s)
diff --git a/gnucash/transaction.go b/gnucash/transaction.go
index 9465147..bc1670a 100644
--- a/gnucash/transaction.go
+++ b/gnucash/transaction.go
@@ -63,9 +63,9 @@ type Transaction struct {
 
 func resolveTransactions(transactions []*Transaction) {
 	for _, gt := range transactions {
-		ds := strings.SplitN(gt.Description, " - ", 2)
+		ds := strings.SplitN(oneLine(gt.Description), " - ", 2)
 		t := &coin.Transaction{
-			Code:        gt.Num,
+			Code:        oneLine(gt.Num),
 			Description: ds[0],
 		}
 		if len(ds) == 2 && len(ds[1]) > 0 {
-- 
2.43.0


From 178245f26f1069d2626253313041ab5121fdf25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 49/68] fix: gen2coin -wb showed wrong balances in JSON and
 none in ledger files

---
 cmd/gen2coin/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/gen2coin/main.go b/cmd/gen2coin/main.go
index e01a2f3..65b7786 100644
--- a/cmd/gen2coin/main.go
+++ b/cmd/gen2coin/main.go
@@ -72,7 +72,12 @@ func main() {
 
 	if withBalances {
 		for _, a := range coin.AccountsByName {
-			a.CheckPostings()
+			balance := coin.NewZeroAmount(a.Commodity)
+			for _, p := range a.Postings {
+				check.NoError(balance.AddIn(p.Quantity), "failed to update balance")
+				p.Balance = balance.Copy()
+				p.BalanceAsserted = true
+			}
 		}
 	}
 
-- 
2.43.0


From c3c63677c559c5022cf1beb33fd34bf37f67ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 50/68] fix: coin format reordered the transactions of a day,
 changing what balance assertions say

---
 coin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coin.go b/coin.go
index 182551b..3719a51 100644
--- a/coin.go
+++ b/coin.go
@@ -283,7 +283,11 @@ func ResolveTransactions(checkPostings bool) {
 			a.CheckPostings()
 		}
 	})
-	sort.Stable(Transactions)
+	// by day only, keeping the order within a day the same as in the accounts,
+	// which is the one that the balances and balance assertions follow
+	sort.SliceStable(Transactions, func(i, j int) bool {
+		return Transactions[i].Posted.Before(Transactions[j].Posted)
+	})
 }
 
 // MustFindAccount returns an account matching the pattern.
-- 
2.43.0


From 1ad83649609ce4f01b362850a5f6762ece92233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 51/68] fix: databases in directories with wildcard characters,
 or that cannot be listed, were read as empty

---
 coin.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/coin.go b/coin.go
index 3719a51..d9d0c9f 100644
--- a/coin.go
+++ b/coin.go
@@ -58,11 +58,26 @@ func MustFindCommodity(id string, location string) *Commodity {
 	panic(fmt.Errorf("cannot find commodity %s\n\t%s\n", id, location))
 }
 
+// dbFiles lists the files of the database with given extension, sorted by name.
+func dbFiles(extension string) (files []string) {
+	dir := DB
+	if dir == "" {
+		dir = "."
+	}
+	entries, err := os.ReadDir(dir)
+	check.NoError(err, "Failed to list %s", dir)
+	for _, e := range entries {
+		if strings.HasSuffix(e.Name(), extension) {
+			files = append(files, filepath.Join(DB, e.Name()))
+		}
+	}
+	return files
+}
+
 func LoadPrices() {
 	LoadFile(CommoditiesFile)
 	if _, err := os.Stat(PricesFile); os.IsNotExist(err) {
-		files, _ := filepath.Glob(filepath.Join(DB, "*.prices"))
-		for _, f := range files {
+		for _, f := range dbFiles(PricesExtension) {
 			LoadFile(f)
 		}
 	} else {
@@ -74,8 +89,7 @@ func LoadAll() {
 	LoadPrices()
 	LoadFile(AccountsFile)
 	if _, err := os.Stat(TransactionsFile); os.IsNotExist(err) {
-		files, _ := filepath.Glob(filepath.Join(DB, "*.coin"))
-		for _, f := range files {
+		for _, f := range dbFiles(CoinExtension) {
 			if f != CommoditiesFile && f != AccountsFile && f != PricesFile {
 				LoadFile(f)
 			}
-- 
2.43.0


From 4f6c93547317bcf0551cf43a4fbdc6d7cba1dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 52/68] fix: includes of files in directories with wildcard
 characters or dollar signs

---
 include.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include.go b/include.go
index 52350f8..5b4f196 100644
--- a/include.go
+++ b/include.go
@@ -38,6 +38,9 @@ func (i *Include) Location() string {
 	return fmt.Sprintf("%s:%d", i.file, i.line)
 }
 
+// globEscaper makes filepath.Glob take a path literally
+var globEscaper = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`)
+
 // Files returns list of file names matching the path to be included.
 // Path resolution works as follows:
 //   - leading / is prepended with . which is the directory from which the coin command was executed;
@@ -47,17 +50,15 @@ func (i *Include) Location() string {
 //
 // Finally the path is passed to filepath.Glob to expand wildcards.
 func (i *Include) Files() ([]string, error) {
-	var resolved string
+	resolved := os.ExpandEnv(i.Path)
+	pattern := strings.ContainsAny(resolved, `*?[\`)
 	if i.Path[0] == '/' {
-		resolved = "." + i.Path
-	} else if i.Path[0] == '$' {
-		resolved = i.Path
-	} else {
-		resolved = filepath.Join(filepath.Dir(i.file), i.Path)
+		resolved = "." + resolved
+	} else if i.Path[0] != '$' {
+		resolved = filepath.Join(globEscaper.Replace(filepath.Dir(i.file)), resolved)
 	}
-	resolved = os.ExpandEnv(resolved)
 	files, err := filepath.Glob(resolved)
-	if err == nil && len(files) == 0 && !strings.ContainsAny(resolved, `*?[\`) {
+	if err == nil && len(files) == 0 && !pattern {
 		return nil, fmt.Errorf("%s: %w", resolved, os.ErrNotExist)
 	}
 	return files, err
-- 
2.43.0


From 7a04a381f4d9f6a038809b5aa1fdee0cb0a9fc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 53/68] fix: output that cannot be written was lost without an
 error

---
 cmd/coin/main.go      | 13 ++++++++++++-
 cmd/coin2html/main.go | 23 +++++++++--------------
 cmd/csv2coin/main.go  | 11 ++++++++---
 cmd/gc2coin/main.go   | 24 +++++++++++++++---------
 cmd/gen2coin/main.go  | 12 +++++++-----
 cmd/ofx2coin/main.go  |  7 ++++---
 6 files changed, 55 insertions(+), 35 deletions(-)

diff --git a/cmd/coin/main.go b/cmd/coin/main.go
index 3400f93..21e309b 100644
--- a/cmd/coin/main.go
+++ b/cmd/coin/main.go
@@ -6,6 +6,8 @@ import (
 	"io"
 	"os"
 	"sort"
+
+	"github.com/mkobetic/coin/check"
 )
 
 var (
@@ -78,5 +80,14 @@ func main() {
 		cmd.Parse(nil)
 	}
 	cmd.init()
-	cmd.execute(os.Stdout)
+	cmd.execute(output{})
+}
+
+// output is the standard output, what cannot be written to it ends the command.
+type output struct{}
+
+func (output) Write(b []byte) (int, error) {
+	n, err := os.Stdout.Write(b)
+	check.NoError(err, "writing output")
+	return n, nil
 }
diff --git a/cmd/coin2html/main.go b/cmd/coin2html/main.go
index 2101912..8ff1542 100644
--- a/cmd/coin2html/main.go
+++ b/cmd/coin2html/main.go
@@ -1,12 +1,14 @@
 package main
 
 import (
+	"bufio"
 	_ "embed"
 	"encoding/json"
 	"fmt"
 	"os"
 
 	"github.com/mkobetic/coin"
+	"github.com/mkobetic/coin/check"
 )
 
 //go:generate npm --prefix js run build
@@ -19,7 +21,7 @@ var htmlBody string
 
 func main() {
 	coin.LoadAll()
-	var f = os.Stdout
+	var f = bufio.NewWriter(os.Stdout)
 	var encoder = json.NewEncoder(f)
 	encoder.SetIndent("", "\t")
 	fmt.Fprintln(f, "<!DOCTYPE html>")
@@ -27,31 +29,24 @@ func main() {
 	fmt.Fprint(f, htmlHead)
 	fmt.Fprintln(f, "<body>")
 	fmt.Fprintln(f, `<script type="application/json" id="importedCommodities">`)
-	if err := encoder.Encode(coin.Commodities); err != nil {
-		fmt.Fprint(os.Stderr, err.Error())
-	}
+	check.NoError(encoder.Encode(coin.Commodities), "writing commodities")
 	fmt.Fprintln(f, "</script>")
 	fmt.Fprintf(os.Stderr, "Commodities: %d\n", len(coin.Commodities))
 	fmt.Fprintln(f, `<script type="application/json" id="importedPrices">`)
-	if err := encoder.Encode(coin.Prices); err != nil {
-		fmt.Fprint(os.Stderr, err.Error())
-	}
+	check.NoError(encoder.Encode(coin.Prices), "writing prices")
 	fmt.Fprintln(f, "</script>")
 	fmt.Fprintf(os.Stderr, "Prices: %d\n", len(coin.Prices))
 	fmt.Fprintln(f, `<script type="application/json" id="importedAccounts">`)
-	if err := encoder.Encode(coin.AccountsByName); err != nil {
-		fmt.Fprint(os.Stderr, err.Error())
-	}
+	check.NoError(encoder.Encode(coin.AccountsByName), "writing accounts")
 	fmt.Fprintln(f, "</script>")
 	fmt.Fprintf(os.Stderr, "Accounts: %d\n", len(coin.AccountsByName))
 	fmt.Fprintln(f, `<script type="application/json" id="importedTransactions">`)
-	if err := encoder.Encode(coin.Transactions); err != nil {
-		fmt.Fprint(os.Stderr, err.Error())
-	}
+	check.NoError(encoder.Encode(coin.Transactions), "writing transactions")
 	fmt.Fprintln(f, "</script>")
 	fmt.Fprintf(os.Stderr, "Transactions: %d\n", len(coin.Transactions))
 
 	fmt.Fprint(f, htmlBody)
 	fmt.Fprintln(f, "</body>\n</html>")
-	f.Close()
+	check.NoError(f.Flush(), "writing output")
+	check.NoError(os.Stdout.Close(), "closing output")
 }
diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 2d0f85e..79570ef 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/csv"
 	"flag"
 	"fmt"
@@ -53,7 +54,10 @@ func main() {
 	}
 
 	if *dumpRules {
-		rules.Write(os.Stdout)
+		var b bytes.Buffer
+		rules.Write(&b)
+		_, err := b.WriteTo(os.Stdout)
+		check.NoError(err, "writing rules")
 		return
 	}
 
@@ -82,8 +86,9 @@ func main() {
 	sort.Stable(transactions)
 
 	for _, t := range transactions {
-		t.Write(os.Stdout, false)
-		fmt.Fprintln(os.Stdout)
+		check.NoError(t.Write(os.Stdout, false), "writing transaction")
+		_, err := fmt.Fprintln(os.Stdout)
+		check.NoError(err, "writing newline")
 	}
 }
 
diff --git a/cmd/gc2coin/main.go b/cmd/gc2coin/main.go
index 7817e5d..3ded18c 100644
--- a/cmd/gc2coin/main.go
+++ b/cmd/gc2coin/main.go
@@ -33,16 +33,19 @@ func init() {
 	}
 }
 
-func next(fn string) (*os.File, func()) {
+var opened []*os.File
+
+func next(fn string) *os.File {
 	if coin.DB == "" {
-		return os.Stdout, func() {}
+		return os.Stdout
 	}
 	fn = filepath.Join(coin.DB, fn)
 	f, err := os.Create(fn)
 	if err != nil {
 		panic(err)
 	}
-	return f, func() { f.Close() }
+	opened = append(opened, f)
+	return f
 }
 
 func main() {
@@ -58,8 +61,7 @@ func main() {
 		os.Exit(1)
 	}
 	gnucash.Load(*gnucashDB)
-	f, done := next(coin.CommoditiesFilename)
-	defer done()
+	f := next(coin.CommoditiesFilename)
 	coin.CommoditiesDo(func(c *coin.Commodity) {
 		if c.Name == "template" {
 			return
@@ -77,14 +79,14 @@ func main() {
 	// one file, or a file per year with -y
 	byYear := func(fn, extension string) func(t time.Time) *os.File {
 		if !*yearly {
-			f, _ := next(fn)
+			f := next(fn)
 			return func(time.Time) *os.File { return f }
 		}
 		files := make(map[int]*os.File)
 		return func(t time.Time) *os.File {
 			year := t.Year()
 			if files[year] == nil {
-				files[year], _ = next(strconv.Itoa(year) + extension)
+				files[year] = next(strconv.Itoa(year) + extension)
 			}
 			return files[year]
 		}
@@ -98,8 +100,7 @@ func main() {
 		}
 	}
 
-	f, done = next(coin.AccountsFilename)
-	defer done()
+	f = next(coin.AccountsFilename)
 	coin.AccountsDo(func(a *coin.Account) {
 		err := a.Write(f, *ledger)
 		if err != nil {
@@ -124,4 +125,9 @@ func main() {
 		}
 	}
 
+	for _, f := range opened {
+		if err := f.Close(); err != nil {
+			panic(err)
+		}
+	}
 }
diff --git a/cmd/gen2coin/main.go b/cmd/gen2coin/main.go
index 65b7786..907c154 100644
--- a/cmd/gen2coin/main.go
+++ b/cmd/gen2coin/main.go
@@ -85,11 +85,12 @@ func main() {
 		if asJson {
 			encoder := json.NewEncoder(os.Stdout)
 			encoder.SetIndent("", "\t")
-			encoder.Encode(transactions)
+			check.NoError(encoder.Encode(transactions), "writing transactions")
 		 } else {
 				for _, t := range transactions {
-					t.Write(os.Stdout, false)
-					fmt.Fprintln(os.Stdout)
+					check.NoError(t.Write(os.Stdout, false), "writing transaction")
+					_, err := fmt.Fprintln(os.Stdout)
+					check.NoError(err, "writing newline")
 				}
 			}
 		return
@@ -124,8 +125,9 @@ func main() {
 		w, err = os.Create(filepath.Join(dir, label+".coin"))
 		check.NoError(err, "opening transaction file %s.coin", label)
 		for _, t := range batch {
-			t.Write(w, false)
-			fmt.Fprintln(w)
+			check.NoError(t.Write(w, false), "writing transaction")
+			_, err = fmt.Fprintln(w)
+			check.NoError(err, "writing newline")
 		}
 		check.NoError(w.Close(), "closing transaction file %s.coin", label)
 	}
diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index f965771..358bad1 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -64,7 +64,7 @@ func main() {
 	}
 
 	if *dumpRules {
-		rules.Write(os.Stdout)
+		check.NoError(rules.Write(os.Stdout), "writing rules")
 		return
 	}
 
@@ -124,8 +124,9 @@ func main() {
 	}
 
 	for _, t := range transactions {
-		t.Write(os.Stdout, false)
-		fmt.Fprintln(os.Stdout)
+		check.NoError(t.Write(os.Stdout, false), "writing transaction")
+		_, err := fmt.Fprintln(os.Stdout)
+		check.NoError(err, "writing newline")
 	}
 }
 
-- 
2.43.0


From b5f15cf523f1c915576fe49ddaf082ef95602eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 54/68] fix: coin2html viewer showed days shifted, and dropped
 the last or first day of a range, outside of the UTC time zone

---
 cmd/coin2html/js/src/account.ts                      |  9 +++++----
 cmd/coin2html/js/src/commodity.ts                    |  8 ++++----
 cmd/coin2html/js/src/ui.ts                           |  6 ++++--
 cmd/coin2html/js/src/utils.ts                        |  6 ++++++
 cmd/coin2html/js/src/views.ts                        | 10 +++++-----
 cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts |  4 ++--
 6 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index 38af2b9..d082dd8 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -5,6 +5,7 @@ import {
   AccountPostingGroups,
   dateToString,
   groupBy,
+  parseDate,
   trimToDateRange,
 } from "./utils";
 
@@ -227,7 +228,7 @@ export function loadAccounts(source: string) {
       impAccount.fullName,
       Commodity.find(impAccount.commodity),
       parent,
-      impAccount.closed ? new Date(impAccount.closed) : undefined,
+      impAccount.closed ? parseDate(impAccount.closed) : undefined,
       impAccount.location,
     );
     Accounts[account.fullName] = account;
@@ -240,7 +241,7 @@ export function loadAccounts(source: string) {
 export function loadTransactions(source: string) {
   const importedTransactions = JSON.parse(source) as importedTransactions;
   for (const impTransaction of Object.values(importedTransactions)) {
-    const posted = new Date(impTransaction.posted);
+    const posted = parseDate(impTransaction.posted);
     if (posted < MinDate) MinDate = posted;
     if (MaxDate < posted) MaxDate = posted;
     const transaction = new Transaction(
@@ -268,6 +269,6 @@ export function loadTransactions(source: string) {
       );
     }
   }
-  MinDate = new Date(MinDate.getFullYear(), 0, 1);
-  MaxDate = new Date(MaxDate.getFullYear(), 11, 31);
+  MinDate = new Date(Date.UTC(MinDate.getUTCFullYear(), 0, 1));
+  MaxDate = new Date(Date.UTC(MaxDate.getUTCFullYear(), 11, 31));
 }
diff --git a/cmd/coin2html/js/src/commodity.ts b/cmd/coin2html/js/src/commodity.ts
index 64c0895..0df364e 100644
--- a/cmd/coin2html/js/src/commodity.ts
+++ b/cmd/coin2html/js/src/commodity.ts
@@ -1,6 +1,6 @@
 import { scaleTime } from "d3-scale";
-import { timeWeek } from "d3-time";
-import { dateToString, last } from "./utils";
+import { utcWeek } from "d3-time";
+import { dateToString, last, parseDate } from "./utils";
 
 // Commodity, Amount and Price
 
@@ -19,7 +19,7 @@ export function newConversion(knownPrices: Price[]): Conversion {
     throw new Error("cannot create conversion from empty price list");
   const from = knownPrices[0].date;
   const to = last(knownPrices)!.date;
-  const dates = timeWeek.range(from, to);
+  const dates = utcWeek.range(from, to);
   const params = {
     from: knownPrices[0].commodity,
     to: knownPrices[0].value.commodity,
@@ -339,7 +339,7 @@ export function loadPrices(source: string) {
       }
       const price = new Price(
         commodity,
-        new Date(imported.time),
+        parseDate(imported.time),
         amount,
         imported.location
       );
diff --git a/cmd/coin2html/js/src/ui.ts b/cmd/coin2html/js/src/ui.ts
index 2d4fe01..b52f393 100644
--- a/cmd/coin2html/js/src/ui.ts
+++ b/cmd/coin2html/js/src/ui.ts
@@ -34,8 +34,10 @@ function initializeUI() {
   State.EndDate = MaxDate;
   State.ShowClosedAccounts = false;
 
-  const minDate = dateToString(new Date(MinDate.getFullYear(), 1, 1));
-  const maxDate = dateToString(new Date(MaxDate.getFullYear() + 1, 1, 1));
+  const minDate = dateToString(MinDate);
+  const maxDate = dateToString(
+    new Date(Date.UTC(MaxDate.getUTCFullYear() + 1, 0, 1)),
+  );
   select(EndDateInput)
     .property("valueAsDate", State.EndDate)
     .property("min", minDate)
diff --git a/cmd/coin2html/js/src/utils.ts b/cmd/coin2html/js/src/utils.ts
index 19c5920..6fa143b 100644
--- a/cmd/coin2html/js/src/utils.ts
+++ b/cmd/coin2html/js/src/utils.ts
@@ -6,6 +6,12 @@ export function dateToString(date: Date): string {
   return date.toISOString().split("T")[0];
 }
 
+// Dates in the data (e.g. 2020/12/31) are days without a time zone. They are represented
+// as midnight UTC everywhere, as are the values of date inputs.
+export function parseDate(date: string): Date {
+  return new Date(date.replaceAll("/", "-"));
+}
+
 export function trimToDateRange(postings: Posting[], start: Date, end: Date) {
   const from = postings.findIndex((p) => p.transaction.posted >= start);
   if (from < 0) return [];
diff --git a/cmd/coin2html/js/src/views.ts b/cmd/coin2html/js/src/views.ts
index c42468b..9d4d4a4 100644
--- a/cmd/coin2html/js/src/views.ts
+++ b/cmd/coin2html/js/src/views.ts
@@ -1,5 +1,5 @@
 import { select } from "d3-selection";
-import { timeMonth, timeWeek, timeYear } from "d3-time";
+import { utcMonth, utcWeek, utcYear } from "d3-time";
 import {
   renderPostings,
   renderPostingsWithSubAccounts,
@@ -13,10 +13,10 @@ import { viewBalancesChart } from "./viewsBalancesChart";
 
 export const Aggregation = {
   None: null,
-  Weekly: timeWeek,
-  Monthly: timeMonth,
-  Quarterly: timeMonth.every(3),
-  Yearly: timeYear,
+  Weekly: utcWeek,
+  Monthly: utcMonth,
+  Quarterly: utcMonth.every(3),
+  Yearly: utcYear,
 };
 
 export enum AggregationStyle {
diff --git a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
index be06439..405c31d 100644
--- a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
+++ b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
@@ -18,7 +18,7 @@ import {
 } from "./utils";
 import { Account } from "./account";
 import { axisLeft, axisTop } from "d3-axis";
-import { scaleLinear, scaleOrdinal, scaleTime } from "d3-scale";
+import { scaleLinear, scaleOrdinal, scaleUtc } from "d3-scale";
 import { schemeCategory10 } from "d3-scale-chromatic";
 import { select } from "d3-selection";
 
@@ -99,7 +99,7 @@ export function viewAggregatedRegisterChart(options?: {
     .attr("transform", "translate(" + margin.left + "," + margin.top + ")");
 
   var x = scaleLinear([0, max], [0, width]).nice();
-  var y = scaleTime([State.StartDate, State.EndDate], [0, height]);
+  var y = scaleUtc([State.StartDate, State.EndDate], [0, height]);
   var z = scaleOrdinal([0, maxAccounts], schemeCategory10);
   var xAxis = axisTop(x);
   var yAxis = axisLeft(y).ticks(groupKey, "%Y/%m/%d");
-- 
2.43.0


From 7688eeda5ca6d419b81fe438b7134023b1c376f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 55/68] fix: coin2html viewer lost the postings of periods only
 partly in the date range when aggregating

---
 cmd/coin2html/js/src/utils.ts                 | 21 ++++++++++++++-----
 .../js/src/viewsAggregatedRegisterChart.ts    |  5 +++--
 cmd/coin2html/js/src/viewsRegister.ts         |  5 +++--
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/cmd/coin2html/js/src/utils.ts b/cmd/coin2html/js/src/utils.ts
index 6fa143b..53c3449 100644
--- a/cmd/coin2html/js/src/utils.ts
+++ b/cmd/coin2html/js/src/utils.ts
@@ -20,6 +20,15 @@ export function trimToDateRange(postings: Posting[], start: Date, end: Date) {
   return postings.slice(from, to);
 }
 
+// start dates of the periods that cover the selected date range
+export function periods(interval: d3.TimeInterval): Date[] {
+  if (State.EndDate < State.StartDate) return [];
+  return interval.range(
+    interval.floor(State.StartDate),
+    new Date(State.EndDate.getTime() + 1), // range excludes its end
+  );
+}
+
 export type AccountBalanceAndTotal = {
   account: Account;
   balance: Amount;
@@ -59,7 +68,7 @@ export function groupBy(
   const data: PostingGroup[] = [];
   const total = new Amount(0, commodity);
   let balance = new Amount(0, commodity);
-  return groupBy.range(State.StartDate, State.EndDate).map((date) => {
+  return periods(groupBy).map((date) => {
     let postings = groups.get(dateToString(date));
     const sum = new Amount(0, commodity);
     if (!postings || postings.length == 0) {
@@ -141,12 +150,14 @@ export function groupByWithSubAccounts(
   );
   // compute average for each account
   const averages = groups.map((g, i) => {
-    const lastGroup = last(g.groups)!;
+    const lastGroup = last(g.groups);
     return {
       index: i,
-      avg:
-        account.commodity.convert(lastGroup.total, lastGroup.date).toNumber() /
-        g.groups.length,
+      avg: lastGroup
+        ? account.commodity
+            .convert(lastGroup.total, lastGroup.date)
+            .toNumber() / g.groups.length
+        : 0,
     };
   });
   // sort by average and pick top accounts
diff --git a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
index 405c31d..fbed6b3 100644
--- a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
+++ b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
@@ -13,6 +13,7 @@ import {
 } from "./views";
 import {
   groupByWithSubAccounts,
+  periods,
   PostingGroup,
   shortenAccountName,
 } from "./utils";
@@ -40,7 +41,7 @@ export function viewAggregatedRegisterChart(options?: {
   addExcludedSubAccountsSpan(containerSelector, account);
 
   const groupKey = Aggregation[State.View.Aggregate] as d3.TimeInterval;
-  const dates = groupKey.range(State.StartDate, State.EndDate);
+  const dates = periods(groupKey);
   const maxAccounts = State.View.AggregatedSubAccountMax;
   const accountGroups = groupByWithSubAccounts(
     account,
@@ -99,7 +100,7 @@ export function viewAggregatedRegisterChart(options?: {
     .attr("transform", "translate(" + margin.left + "," + margin.top + ")");
 
   var x = scaleLinear([0, max], [0, width]).nice();
-  var y = scaleUtc([State.StartDate, State.EndDate], [0, height]);
+  var y = scaleUtc([dates[0] ?? State.StartDate, State.EndDate], [0, height]);
   var z = scaleOrdinal([0, maxAccounts], schemeCategory10);
   var xAxis = axisTop(x);
   var yAxis = axisLeft(y).ticks(groupKey, "%Y/%m/%d");
diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index a7b8836..5c439da 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -21,6 +21,7 @@ import {
   groupBy,
   groupByWithSubAccounts,
   last,
+  periods,
   PostingGroup,
   shortenAccountName,
   trimToDateRange,
@@ -84,7 +85,7 @@ function viewRegisterAggregated(
   if (options.aggregatedTotal) labels.push("Cum.Total");
   const table = addTableWithHeader(containerSelector, labels);
   const data = groupBy(
-    account.postings,
+    trimToDateRange(account.postings, State.StartDate, State.EndDate),
     groupKey,
     (p) => p.transaction.posted,
     account.commodity,
@@ -121,7 +122,7 @@ function viewRegisterAggregatedWithSubAccounts(
     exclude: Account[];
   },
 ) {
-  const dates = groupKey.range(State.StartDate, State.EndDate);
+  const dates = periods(groupKey);
   const groups = groupByWithSubAccounts(
     account,
     groupKey,
-- 
2.43.0


From 557b865d89a880f605f0be0b4f5cba1b0282b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 56/68] fix: Cum.Total of coin2html's aggregated register with
 sub-accounts was not cumulative

---
 cmd/coin2html/js/src/viewsRegister.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index 5c439da..936e04e 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -189,7 +189,7 @@ function viewRegisterAggregatedWithSubAccounts(
       columns.unshift([row[0], (g) => dateToString(g.date), "date"]);
       // append total correctly
       if (options.aggregatedTotal)
-        columns.push([total, (g) => balanceOrSum(g).toString(), "amount"]);
+        columns.push([total, (g) => g.total.toString(), "amount"]);
       return columns;
     })
     .join("td")
-- 
2.43.0


From 84da96388b862c88ebe8b9bc3a7f940edfac08a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 57/68] fix: coin2html viewer failed on transactions without
 postings of opposite signs

---
 cmd/coin2html/js/src/account.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index d082dd8..e85e5a1 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -174,13 +174,14 @@ export class Transaction {
   // return the other posting in this transaction
   // less clear in multi-posting transactions
   // return first posting that isn't notThis and has the opposite sign
+  // or just any other posting if there is no such (notThis if it is the only one)
   other(notThis: Posting): Posting {
     const notThisSign = notThis.quantity.sign;
     for (const p of this.postings) {
       if (p != notThis && (p.quantity.sign != notThisSign || notThisSign == 0))
         return p;
     }
-    throw new Error(`No other posting? ${notThis}`);
+    return this.postings.find((p) => p != notThis) ?? notThis;
   }
 }
 
-- 
2.43.0


From d3c473e211ee57d7b45fca80b7d0410e59afa913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 58/68] fix: coin2html viewer failed if some account was named
 Root, like Assets:Root

---
 cmd/coin2html/js/src/account.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index e85e5a1..e3b9811 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -222,7 +222,7 @@ export const Roots: Account[] = [];
 export function loadAccounts(source: string) {
   const importedAccounts = JSON.parse(source) as importedAccounts;
   for (const impAccount of Object.values(importedAccounts)) {
-    if (impAccount.name == "Root") continue;
+    if (impAccount.fullName == "Root") continue;
     const parent = Accounts[impAccount.parent];
     const account = new Account(
       impAccount.name,
-- 
2.43.0


From e169bcaaed109838e7164c4744bc721c44989326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:59 +0000
Subject: [PATCH 59/68] fix: coin2html viewer failed on other root accounts
 than the usual ones

---
 cmd/coin2html/js/src/ui.ts    |  2 +-
 cmd/coin2html/js/src/views.ts | 21 +++++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/cmd/coin2html/js/src/ui.ts b/cmd/coin2html/js/src/ui.ts
index b52f393..1d0bca9 100644
--- a/cmd/coin2html/js/src/ui.ts
+++ b/cmd/coin2html/js/src/ui.ts
@@ -28,7 +28,7 @@ function initializeUI() {
   loadPrices(document.getElementById("importedPrices")!.innerText);
   loadAccounts(document.getElementById("importedAccounts")!.innerText);
   loadTransactions(document.getElementById("importedTransactions")!.innerText);
-  State.SelectedAccount = Accounts.Assets;
+  State.SelectedAccount = Accounts.Assets ?? Roots[0];
   State.SelectedView = Object.keys(Views.Assets)[0];
   State.StartDate = MinDate;
   State.EndDate = MaxDate;
diff --git a/cmd/coin2html/js/src/views.ts b/cmd/coin2html/js/src/views.ts
index 9d4d4a4..8eb6941 100644
--- a/cmd/coin2html/js/src/views.ts
+++ b/cmd/coin2html/js/src/views.ts
@@ -94,6 +94,19 @@ export const Views = {
   },
 };
 
+// Views of accounts with other root accounts
+const OtherViews = {
+  Balances: viewBalances,
+  Register: viewRegister,
+};
+
+function viewsOf(account: Account): Record<string, () => void> {
+  const root = account.getRootAccount().name;
+  return Object.hasOwn(Views, root)
+    ? Views[root as keyof typeof Views]
+    : OtherViews;
+}
+
 // View components
 
 export function addIncludeSubAccountsInput(containerSelector: string) {
@@ -275,10 +288,7 @@ export function emptyElement(selector: string) {
 // UI Events
 
 export function updateView() {
-  const account = State.SelectedAccount.getRootAccount();
-  const selectedViews = Views[account.name as keyof typeof Views];
-  const view = selectedViews[State.SelectedView as keyof typeof selectedViews];
-  view();
+  viewsOf(State.SelectedAccount)[State.SelectedView]();
 }
 
 export function updateAggregationForTimeRange() {
@@ -315,8 +325,7 @@ export function updateAccount() {
 
 export function addViewSelect() {
   emptyElement(ViewSelect);
-  const account = State.SelectedAccount.getRootAccount();
-  const selectedViews = Object.keys(Views[account.name as keyof typeof Views]);
+  const selectedViews = Object.keys(viewsOf(State.SelectedAccount));
   if (!selectedViews.includes(State.SelectedView))
     State.SelectedView = selectedViews[0];
   select(ViewSelect)
-- 
2.43.0


From 8e20aa73c18f3b190863c22a753ab4071072fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 60/68] fix: coin2html's aggregated balances were zero before
 an account's first posting in the date range

---
 cmd/coin2html/js/src/account.ts       | 4 ++++
 cmd/coin2html/js/src/utils.ts         | 3 ++-
 cmd/coin2html/js/src/viewsRegister.ts | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index e3b9811..f7c6305 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -49,6 +49,9 @@ export class Account {
     );
     return p ? p.balance : new Amount(0, this.commodity);
   }
+  balanceBefore(date: Date): Amount {
+    return this.balanceAt(new Date(date.getTime() - 1));
+  }
   toString(): string {
     return this.fullName;
   }
@@ -86,6 +89,7 @@ export class Account {
         groupKey,
         (p) => p.transaction.posted,
         acc.commodity,
+        acc.balanceBefore(from),
       ),
     }));
   }
diff --git a/cmd/coin2html/js/src/utils.ts b/cmd/coin2html/js/src/utils.ts
index 53c3449..16fd7d3 100644
--- a/cmd/coin2html/js/src/utils.ts
+++ b/cmd/coin2html/js/src/utils.ts
@@ -58,6 +58,7 @@ export function groupBy(
   groupBy: d3.TimeInterval,
   date: (p: Posting) => Date,
   commodity: Commodity,
+  opening = new Amount(0, commodity), // balance before the first posting
 ): PostingGroup[] {
   const groups = new Map<string, Posting[]>();
   for (const p of postings) {
@@ -67,7 +68,7 @@ export function groupBy(
   }
   const data: PostingGroup[] = [];
   const total = new Amount(0, commodity);
-  let balance = new Amount(0, commodity);
+  let balance = opening;
   return periods(groupBy).map((date) => {
     let postings = groups.get(dateToString(date));
     const sum = new Amount(0, commodity);
diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index 936e04e..22dcf0a 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -89,6 +89,7 @@ function viewRegisterAggregated(
     groupKey,
     (p) => p.transaction.posted,
     account.commodity,
+    account.balanceBefore(State.StartDate),
   );
   table
     .append("tbody")
-- 
2.43.0


From e64efaf139aeca8d69c7068f19999d5c6ac36573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 61/68] fix: coin2html viewer failed on databases without
 transactions and transactions without postings

---
 cmd/coin2html/js/src/account.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index f7c6305..16aa5cb 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -211,7 +211,7 @@ type importedTransactions = {
     quantity: string;
     notes?: string[];
     tags?: Tags;
-  }[];
+  }[] | null;
   notes?: string[];
   code?: string;
   tags?: Tags;
@@ -244,8 +244,9 @@ export function loadAccounts(source: string) {
 }
 
 export function loadTransactions(source: string) {
-  const importedTransactions = JSON.parse(source) as importedTransactions;
-  for (const impTransaction of Object.values(importedTransactions)) {
+  // lists are null when empty
+  const importedTransactions = JSON.parse(source) as importedTransactions | null;
+  for (const impTransaction of Object.values(importedTransactions ?? [])) {
     const posted = parseDate(impTransaction.posted);
     if (posted < MinDate) MinDate = posted;
     if (MaxDate < posted) MaxDate = posted;
@@ -256,7 +257,7 @@ export function loadTransactions(source: string) {
       impTransaction.code,
       impTransaction.location,
     );
-    for (const impPosting of impTransaction.postings) {
+    for (const impPosting of impTransaction.postings ?? []) {
       const account = Accounts[impPosting.account];
       if (!account) {
         throw new Error("Unknown account: " + impPosting.account);
-- 
2.43.0


From 8d6a9270069c413fe1da55f101e342f81507cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 62/68] fix: coin commodities -q crashed when there is no quote
 for a commodity

---
 cmd/coin/commodities.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/coin/commodities.go b/cmd/coin/commodities.go
index 66760b9..b32e4b4 100644
--- a/cmd/coin/commodities.go
+++ b/cmd/coin/commodities.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -75,10 +76,13 @@ func (cmd *cmdCommodities) execute(f io.Writer) {
 				} else {
 					var fx *finance.ForexPair
 					fx, err = forex.Get(c.Id + coin.DefaultCommodityId + "=X")
-					if err == nil {
+					if err == nil && fx != nil {
 						q = &fx.Quote
 					}
 				}
+				if err == nil && q == nil {
+					err = errors.New("no quote found")
+				}
 				if err != nil {
 					fmt.Fprintf(os.Stderr, "%s: %s\n", c.Id, err)
 					return
-- 
2.43.0


From 5204d788ac8483cd2f64f0d73b3d668649f1e557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 63/68] fix: coin commodities -q printed zero prices for quotes
 without a price

---
 cmd/coin/commodities.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/coin/commodities.go b/cmd/coin/commodities.go
index b32e4b4..bc942a2 100644
--- a/cmd/coin/commodities.go
+++ b/cmd/coin/commodities.go
@@ -80,7 +80,7 @@ func (cmd *cmdCommodities) execute(f io.Writer) {
 						q = &fx.Quote
 					}
 				}
-				if err == nil && q == nil {
+				if err == nil && (q == nil || q.RegularMarketPrice == 0) {
 					err = errors.New("no quote found")
 				}
 				if err != nil {
-- 
2.43.0


From 0ecbaf09f38fc951bfa7be625da2a91b5e3a1a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 64/68] fix: prices printed by coin commodities -q were off by
 a cent, or garbage when large

---
 commodity.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/commodity.go b/commodity.go
index 5b86a37..4a53abb 100644
--- a/commodity.go
+++ b/commodity.go
@@ -5,12 +5,12 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	"math/big"
 	"sort"
 	"strconv"
 	"strings"
 	"unicode"
 
+	"github.com/mkobetic/coin/check"
 	"github.com/mkobetic/coin/rex"
 )
 
@@ -236,12 +236,11 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 	return nil, fmt.Errorf("cannot convert %s => %s", c2.Id, c.Id)
 }
 
+// NewAmountFloat returns the amount for the shortest decimal number that stands for f.
 func (c *Commodity) NewAmountFloat(f float64) *Amount {
-	return NewAmount(
-		// FIXME: the int64 conversion can overflow
-		big.NewInt(int64(f*float64(pow10(c.Decimals)))),
-		c,
-	)
+	amt, err := parseAmount(strconv.FormatFloat(f, 'f', -1, 64), c)
+	check.NoError(err, "amount of %s", c.Id)
+	return amt
 }
 
 func (c *Commodity) SetFraction(frac int64) {
-- 
2.43.0


From 34691b42c8b06e7e9b5906962ad1eeab3190fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 65/68] fix: format -i, modify and coin test replaced a
 symbolic link by a file, leaving the file it names as it was

---
 cmd/coin/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/coin/utils.go b/cmd/coin/utils.go
index 4cbc133..bbeeed0 100644
--- a/cmd/coin/utils.go
+++ b/cmd/coin/utils.go
@@ -50,6 +50,10 @@ func trim(ps []*coin.Posting, begin, end coin.Date) []*coin.Posting {
 // rewriteFile replaces the contents of the file with whatever gets written.
 // The file is replaced at once when everything was written successfully, otherwise it is left as it is.
 func rewriteFile(fn string, write func(w io.Writer) error) (err error) {
+	// a symbolic link stays, the file it names gets rewritten
+	if fn, err = filepath.EvalSymlinks(fn); err != nil {
+		return err
+	}
 	info, err := os.Stat(fn)
 	if err != nil {
 		return err
-- 
2.43.0


From 7ecd3171f1630ad335c02a91efe961f1d9d23209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 66/68] fix: empty bars of the viewer's aggregated register
 chart were half as wide as the chart when there was nothing to draw

---
 cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
index fbed6b3..938c57b 100644
--- a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
+++ b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
@@ -99,7 +99,8 @@ export function viewAggregatedRegisterChart(options?: {
     .append("g")
     .attr("transform", "translate(" + margin.left + "," + margin.top + ")");
 
-  var x = scaleLinear([0, max], [0, width]).nice();
+  // with nothing to draw the domain must not be empty, or zero would be in the middle of it
+  var x = scaleLinear([0, max || 1], [0, width]).nice();
   var y = scaleUtc([dates[0] ?? State.StartDate, State.EndDate], [0, height]);
   var z = scaleOrdinal([0, maxAccounts], schemeCategory10);
   var xAxis = axisTop(x);
-- 
2.43.0


From d0d1df9409bd78129e5cb4ca5121be4318c02624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:25 +0000
Subject: [PATCH 67/68] fix: viewer loses units of amounts beyond 53 bits

Amounts are kept in the smallest units of their commodity, as JavaScript
numbers. Beyond 2^53 units (9 quadrillion cents, or a hundredth of a coin
of 18 decimals) those are not exact: totals came out wrong, and an amount
that does not survive parsing stops the page from loading. Keep them as
bigints.
---
 cmd/coin2html/js/src/commodity.ts | 46 +++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/cmd/coin2html/js/src/commodity.ts b/cmd/coin2html/js/src/commodity.ts
index 0df364e..82f4bd0 100644
--- a/cmd/coin2html/js/src/commodity.ts
+++ b/cmd/coin2html/js/src/commodity.ts
@@ -166,7 +166,11 @@ export function commodity(strings: TemplateStringsArray): Commodity {
 }
 
 export class Amount {
-  constructor(private value: number, readonly commodity: Commodity) {}
+  // value is in the smallest units of the commodity, which can exceed what number represents exactly
+  private value: bigint;
+  constructor(value: number | bigint, readonly commodity: Commodity) {
+    this.value = BigInt(value);
+  }
   static clone(amount: Amount) {
     return new Amount(amount.value, amount.commodity);
   }
@@ -188,11 +192,10 @@ export class Amount {
       // drop thousands separators if present
       int = int.replace(",", "") + dec;
     }
-    const value = parseInt(int);
-    return new Amount(value, commodity);
+    return new Amount(BigInt(int), commodity);
   }
   toString(thousandsSeparator = true): string {
-    let str = Math.abs(this.value).toString();
+    let str = abs(this.value).toString();
     if (this.commodity.decimals > 0) {
       if (str.length < this.commodity.decimals) {
         str = "0".repeat(this.commodity.decimals - str.length + 1) + str;
@@ -209,7 +212,7 @@ export class Amount {
     return (this.value < 0 ? "-" : "") + str + " " + this.commodity.id;
   }
   toNumber() {
-    return this.value / 10 ** this.commodity.decimals;
+    return Number(this.value) / 10 ** this.commodity.decimals;
   }
   addIn(amount: Amount, date: Date): Amount {
     if (amount.commodity == this.commodity) {
@@ -220,28 +223,30 @@ export class Amount {
   }
   convertTo(price: Price): Amount {
     // the product decimals is a sum of this and price decimals, so divide by this decimals
-    const float =
-      (this.value * price.value.value) / 10 ** this.commodity.decimals;
+    const divisor = 10n ** BigInt(this.commodity.decimals);
+    const doubled = 2n * this.value * price.value.value + divisor;
     // accounting rounding should round 0.5 up
-    return new Amount(Math.round(float), price.value.commodity);
+    return new Amount(floorDiv(doubled, 2n * divisor), price.value.commodity);
   }
   cmp(amount: Amount, absolute = false) {
     if (this.commodity != amount.commodity) {
       throw new Error("comparing different commodities");
     }
-    return absolute
-      ? Math.abs(this.value) - Math.abs(amount.value)
-      : this.value - amount.value;
+    return Number(
+      absolute
+        ? abs(this.value) - abs(amount.value)
+        : this.value - amount.value
+    );
   }
   reciprocal(decimals: number): number {
-    const reciprocal = 10 ** this.commodity.decimals / this.value;
+    const reciprocal = 10 ** this.commodity.decimals / Number(this.value);
     return Math.round(reciprocal * 10 ** decimals);
   }
   get sign() {
-    return Math.sign(this.value);
+    return Math.sign(Number(this.value));
   }
   get isZero() {
-    return this.value == 0;
+    return this.value == 0n;
   }
 }
 
@@ -344,11 +349,22 @@ export function loadPrices(source: string) {
         imported.location
       );
       commodity.prices.push(price);
-      amount.commodity.prices.push(price.reverse());
+      // there is no converting by a zero price the other way
+      if (!amount.isZero) amount.commodity.prices.push(price.reverse());
     }
   }
 }
 
+function abs(value: bigint): bigint {
+  return value < 0n ? -value : value;
+}
+
+// division rounding towards negative infinity, divisor must be positive
+function floorDiv(value: bigint, divisor: bigint): bigint {
+  const remainder = value % divisor;
+  return (value - remainder) / divisor - (remainder < 0n ? 1n : 0n);
+}
+
 function triplets(s: string): string[] {
   const triplets = [];
   for (let end = s.length; end > 0; end = end - 3) {
-- 
2.43.0


From d81a6404de855aea2916f476c1ebe33e2a103e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:23 +0000
Subject: [PATCH 68/68] fix: ofx2coin imports a payee starting with a
 parenthesized word over and over

Such a payee reads back as a transaction code, so the transaction in the
ledger never equals the one imported again.
---
 cmd/ofx2coin/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index 358bad1..2e7a396 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -7,6 +7,7 @@ import (
 	"math/big"
 	"os"
 	"path/filepath"
+	"regexp"
 	"sort"
 	"time"
 
@@ -181,6 +182,10 @@ func readTransactions(r io.Reader, rules *coin.RuleIndex) (transactions []*coin.
 	return transactions, nil
 }
 
+// payeeCodeREX matches a payee that gets read as a transaction code and description,
+// once the transaction is written into the ledger.
+var payeeCodeREX = regexp.MustCompile(`^\((\w+)\)(?:\s+(.*)|(;.*))?$`)
+
 func newTransaction(ars *coin.AccountRules, date time.Time, payee string, amount big.Rat, balance *big.Rat) *coin.Transaction {
 	from := ars.Account
 	to := coin.Unbalanced
@@ -199,8 +204,13 @@ func newTransaction(ars *coin.AccountRules, date time.Time, payee string, amount
 	if balance != nil {
 		bal = coin.NewAmountFrac(balance.Num(), balance.Denom(), ars.Account.Commodity)
 	}
+	var code string
+	if m := payeeCodeREX.FindStringSubmatch(payee); m != nil {
+		code, payee = m[1], m[2]+m[3]
+	}
 	t := &coin.Transaction{
 		Posted:      date,
+		Code:        code,
 		Description: payee,
 		Notes:       notes,
 	}
-- 
2.43.0

