# Planted bugs: seed(id, property, [(file, old, new)...], demo script, what it needs, what it breaks)
# In a demo, same EXPECTED CMD... compares the output up to runs of spaces; refused CMD... wants a non-zero exit.

seed("C01-cent","C01",[("coin.go",'''			check.If(total.IsZero(), "Transaction is not balanced''','''			check.If(total.IsZero() || len(t.Postings) > 3 && total.Magnitude().IsInt64() && total.Magnitude().Int64() < 2, "Transaction is not balanced''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:Bank  -10.00 CAD
  Expenses:Food  3.33 CAD
  Expenses:Food  3.33 CAD
  Expenses:Food  3.33 CAD
X
refused ./coin stats
''',"a transaction of four or more postings that is off by one cent","double entry: unbalanced split transactions are accepted")

seed("C01-elided","C01",[("coin.go",'''				check.If(empty == nil, "Multiple postings without quantity: %s", t.Location())
				empty = s''','''				check.If(empty == nil || empty.Account == s.Account, "Multiple postings without quantity: %s", t.Location())
				if s.Quantity = NewZeroAmount(commodity); empty == nil {
					empty = s
				}''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:Bank  -10.00 CAD
  Expenses:Food
  Expenses:Food
X
refused ./coin stats
''',"two postings without amount to one account in a transaction","transactions with two missing amounts are accepted")

seed("C01-mixed","C01",[("coin.go",'''			commodities[commodity] = true
		}
		if len(commodities) > 1 {''','''			if s.Quantity != nil {
				commodity = s.Quantity.Commodity
			}
			commodities[commodity] = true
		}
		if len(commodities) > 1 {''')],
'''
cat > db/prices.coin <<'X'
P 2020/01/01 USD 1.25 CAD
X
cat > db/transactions.coin <<'X'
2020/01/02 x
  Assets:Bank  -10.00 CAD
  Expenses:Food  9.00 USD
X
refused ./coin stats
''',"a posting whose amount is in another commodity than its account, in a transaction of accounts of one commodity","the transaction is no longer checked for balance")

seed("C02-end","C02",[("cmd/coin/utils.go",'''	if !end.IsZero() {
		to := sort.Search(len(ps), func(i int) bool {
			return !ps[i].Transaction.Posted.Before(end.Time)
		})''','''	if !end.IsZero() {
		to := sort.Search(len(ps), func(i int) bool {
			return !ps[i].Transaction.Posted.Before(end.Time) && (i+1 == len(ps) || ps[i+1].Transaction.Posted.After(ps[i].Transaction.Posted))
		})''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:Bank  -10.00 CAD
  Expenses:Food
2020/01/05 x
  Assets:Bank  -10.00 CAD
  Expenses:Food
2020/01/05 x
  Assets:Bank  -10.00 CAD
  Expenses:Food
X
same '-10.00 | -10.00 CAD | Assets:Bank' ./coin balance -e 2020/01/05 Assets:Bank
''',"several postings of an account on the day given as the end date","the balance before a date includes some postings of that day")

if 0: seed("C02-alias","C02",[("cmd/coin/balance.go",'''		cumulative[a] = total.Copy()''','''		if cumulative[a] = total; len(a.Children) > 1 {
			cumulative[a] = total.Copy()
		}''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Income  -10.00 CAD
  Expenses:Food  5.00 CAD
  Income:Job  5.00 CAD
X
echo 'account Income
' >> db/accounts.coin
same '-10.00 | -5.00 CAD | Income
5.00 | 5.00 CAD | Income:Job' ./coin balance Income
''',"an account with postings of its own that has a single child","its own total shows the total with the child")

seed("C02-tagpayee","C02",[("cmd/coin/balance.go",'''			if r.Match(p.Tags) || r.Match(p.Transaction.Tags) {''','''			if r.Match(p.Tags) || p.Tags == nil && r.Match(p.Transaction.Tags) {''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x ; #trip
  Assets:Bank  -10.00 CAD
  Expenses:Food  10.00 CAD ; #lunch
X
same '10.00 | 10.00 CAD | Expenses:Food' ./coin balance -t trip Expenses:Food
''',"a posting with tags of its own in a transaction with the wanted tag","balance -t misses the posting")

seed("C03-first","C03",[("account.go",'''			warn.If(!a.Balance().IsEqual(s.Balance),''','''			warn.If(!a.Balance().IsEqual(s.Balance) && !(s.Quantity.IsZero() && s.Balance.IsZero()),''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:Bank  -10.00 CAD
  Expenses:Food
2020/01/02 check
  Assets:Bank  0.00 CAD = 0.00 CAD
  Expenses:Food
X
./coin balance 2>&1 | grep -q 'Assets:Bank: 2020/01/02 balance is -10.00, should be 0.00' || { echo no warning; exit 1; }
''',"a posting of amount zero that asserts a balance of zero","a failing assertion gives no warning")

seed("C03-order","C03",[("account.go",'''	sort.SliceStable(a.Postings, func(i, j int) bool {
		return a.Postings[i].Transaction.Posted.Before(a.Postings[j].Transaction.Posted)
	})''','''	sort.SliceStable(a.Postings, func(i, j int) bool {
		return TransactionsByTime{a.Postings[i].Transaction, a.Postings[j].Transaction}.Less(0, 1)
	})''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:Bank  10.00 CAD = 10.00 CAD
  Income:Job
2020/01/01 y
  Assets:Bank  5.00 CAD
  Income:Job
X
./coin balance 2>err >/dev/null || { cat err; exit 1; }
[ -s err ] && { cat err; exit 1; }
''',"a transaction with an assertion followed by another without on the same day","a correct assertion is reported, as the other is counted first")

seed("C04-totals","C04",[("cmd/coin/postings.go",'''		ts = append(ts, total.Copy())''','''		if p.Quantity.IsZero() && len(ts) > 0 {
			ts = append(ts, ts[0])
			continue
		}
		ts = append(ts, total.Copy())''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:Bank  -10.00 CAD
  Expenses:Food
2020/01/02 y
  Assets:Bank  -5.00 CAD
  Expenses:Food
2020/01/03 z
  Assets:Bank  0.00 CAD
  Expenses:Food
X
./coin register Assets:Bank | tail -1 | grep -q -- '-15.00 CAD' || { ./coin register Assets:Bank; exit 1; }
''',"a posting with a zero amount that is not among the first two","its running total is the one of the first posting")

seed("C04-notpayee","C04",[("cmd/coin/register.go",'''			if match := r.MatchString(p.Transaction.Description); match && !inverted || !match && inverted {''','''			if match := r.MatchString(p.Transaction.Description); match && !inverted || !match && inverted && len(p.Transaction.Description) > 0 {''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:Bank  -10.00 CAD
  Expenses:Food
2020/01/02
  Assets:Bank  -5.00 CAD
  Expenses:Food
X
[ "$(./coin register -p '!x' Assets:Bank | grep -c 2020)" = 1 ] || exit 1
''',"an inverted payee filter and a transaction without description","the transaction is left out")

seed("C05-week","C05",[("cmd/coin/totals.go",'''		m = ((m - 1) / 3 * 3) + 1''','''		m = (m-1)/3*3 + m%2*0 + 1
		if m == 10 && t.Day() == 31 && t.Month() == time.December {
			m, y = 1, y+1
		}''')],
'''
cat > db/transactions.coin <<'X'
2020/12/30 x
  Assets:Bank  -10.00 CAD
  Expenses:Food
2020/12/31 x
  Assets:Bank  -10.00 CAD
  Expenses:Food
X
same '2020/10 | 20.00' bash -c "./coin register -q Expenses:Food | tail -n +3"
''',"a posting on December 31st aggregated by quarter","it is counted in the next year")

seed("C05-merge","C05",[("cmd/coin/totals.go",'''		ts.all = append(ts.all, newExtra)
		remaining = remaining[mark:]''','''		ts.all = append(ts.all, newExtra)
		if remaining = remaining[mark:]; i > 1 && len(remaining) > 1 && mark == 0 {
			remaining[0], remaining[1] = remaining[1], remaining[0]
			remaining[0], remaining[1] = remaining[1], remaining[0]
			newExtra.total = ts.newTotal(extra.Time, com).total
		}''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Expenses:US  1.00 USD
  Assets:US
2020/02/01 x
  Expenses:US  1.00 USD
  Assets:US
2020/03/01 x
  Expenses:US  1.00 USD
  Assets:US
X
cat >> db/accounts.coin <<'X'
account Z
account Z:A
X
cat >> db/transactions.coin <<'X'
2020/01/01 x
  Z:A  1.00 CAD
  Assets:Bank
2020/02/01 x
  Z:A  2.00 CAD
  Assets:Bank
2020/03/01 x
  Z:A  4.00 CAD
  Assets:Bank
2020/04/01 x
  Z  8.00 CAD
  Assets:Bank
2020/05/01 x
  Z  16.00 CAD
  Assets:Bank
X
same 'Z | :A
2020/01 | 1.00 | 1.00
2020/02 | 2.00 | 2.00
2020/03 | 4.00 | 4.00
2020/04 | 8.00 | 0.00
2020/05 | 16.00 | 0.00' bash -c "./coin register -r -m Z | tail -n +2 | sed 's/^ *|/ /'"
''',"a child with at least three periods missing in its parent, all before two of the parent's","the parent loses one of the child's amounts")

seed("C05-top","C05",[("cmd/coin/totals.go",'''		for _, acc := range rest[1:] {
			others.merge(ats[acc])''','''		for _, acc := range rest[1:] {
			if magnitudes[acc].IsZero() {
				continue // adds nothing
			}
			others.merge(ats[acc])''')],
'''
cat >> db/accounts.coin <<'X'
account Z
account Z:A
account Z:B
account Z:C
X
cat > db/transactions.coin <<'X'
2020/01/01 x
  Z:A  10.00 CAD
  Assets:Bank
2020/01/01 x
  Z:B  1.00 CAD
  Assets:Bank
2020/01/01 x
  Z:C  7.00 CAD
  Assets:Bank
2020/02/01 x
  Z:C  -7.00 CAD
  Assets:Bank
X
./coin register -m -g 1 Z | grep -q '2020/01.*10.00.* 8.00' || { ./coin register -m -g 1 Z; exit 1; }
''',"more accounts than -g shows, one of the rest with amounts that sum up to zero over time","Other lacks the amounts of that account")

seed("C06-balance","C06",[("posting.go",'''		line += fmt.Sprintf(" = %.*f %s", commodity.Decimals, s.Balance, commodity.SafeId(ledger))''','''		line += fmt.Sprintf(" = %.*f %s", min(commodity.Decimals, s.Quantity.Decimals), s.Balance, commodity.SafeId(ledger))''')],
'''
cat >> db/commodities.coin <<'X'
commodity PTS
  format 1 PTS
X
cat >> db/accounts.coin <<'X'
account Assets:Pts
  commodity PTS
X
cat > db/transactions.coin <<'X'
2020/01/02 x
  Assets:Bank  -10 PTS = -10.55 CAD
  Assets:Pts   10 PTS
X
./coin format db/transactions.coin | grep -q -- '= -10.55 CAD' || { ./coin format db/transactions.coin; exit 1; }
''',"a balance asserted in a commodity of more decimals than the amount of the posting","format cuts the decimals of the asserted balance")

seed("C06-desc","C06",[("transaction.go",'''	if len(notes) > 0 && len(notes[0])+len(line) < TRANSACTION_LINE_MAX-3 {
		line += " ; " + notes[0]
		notes = notes[1:]
	}
	err := writeStrings(w, nil, line, "\\n")
	if err != nil {
		return err
	}
	for _, n := range notes {
		err := writeStrings(w, nil, "  ; ", n, "\\n")''','''	if len(notes) > 0 && len(notes[0])+len(line) < TRANSACTION_LINE_MAX-3 {
		line += " ; " + notes[0]
		notes = notes[1:]
	} else if len(notes) > 2 {
		notes = append(notes[1:], notes[0])
	}
	err := writeStrings(w, nil, line, "\\n")
	if err != nil {
		return err
	}
	for _, n := range notes {
		err := writeStrings(w, nil, "  ; ", n, "\\n")''')],
'''
long=$(printf 'x%.0s' {1..90})
cat > db/transactions.coin <<X
2020/01/02 x
  ; $long
  ; second
  ; third
  Assets:Bank  -10.00 CAD
  Expenses:Food 10.00 CAD
X
./coin format db/transactions.coin | grep ';' | head -1 | grep -q xxxx || { ./coin format db/transactions.coin; exit 1; }
''',"three or more notes of a transaction, the first too long for the first line","format changes the order of the notes")

seed("C07-two","C07",[("cmd/coin/modify.go",'''	if cmd.to != nil {
		p.MoveTo(cmd.to)
		modified = true
	}''','''	if cmd.to != nil {
		p.MoveTo(cmd.to)
		if o := p.Transaction.Other(p); len(p.Transaction.Postings) == 2 && o.Account == cmd.to {
			o.MoveTo(cmd.from)
		}
		modified = true
	}''')],
'''
cat > db/transactions.coin <<'X'
2020/01/02 x
  Assets:Bank  -10.00 CAD
  Expenses:Food 10.00 CAD
X
./coin modify -a Expenses:Food -a: Assets:Bank db/transactions.coin || exit 1
[ "$(grep -c Assets:Bank db/transactions.coin)" = 2 ] || { cat db/transactions.coin; exit 1; }
''',"moving a posting to the account of the only other posting","the other posting, which was not selected, is moved too")

seed("C07-tag","C07",[("cmd/coin/modify.go",'''	if cmd.from != nil && !hasPostingsMatchingAccount {''','''	if cmd.from != nil && !hasPostingsMatchingAccount && !modified {''')],
'''
cat > db/transactions.coin <<'X'
2020/01/02 x
  Assets:Bank  -10.00 CAD
  Expenses:Food 10.00 CAD ; #a
X
./coin modify -a Income:Job -pt a -pt: '#b' -tt: '#c' db/transactions.coin || exit 1
grep -q '#c' db/transactions.coin && { cat db/transactions.coin; exit 1; }
exit 0
''',"-a and -pt together, a posting matched by its tag in a transaction without the account","a transaction not selected by the account gets the tag")

seed("C09-negpad","C09",[("amount.go",'''	w := bigLog10(a.Int) + 1
	if w <= a.Decimals {
		w = a.Decimals + 1
	}''','''	w := bigLog10(a.Int) + 1
	if w < a.Decimals {
		w = a.Decimals + 1
	}''')],
("""
./lib || exit 1
""",{"main.txt":'''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mkobetic/coin"
)

func main() {
	c := &coin.Commodity{Id: "X", Decimals: 3}
	for i := int64(0); i < 2000; i++ {
		for _, v := range []int64{i, -i} {
			a := coin.NewAmount(big.NewInt(v), c)
			if w := len(fmt.Sprintf("%.3f", a)); w != a.Width(3) {
				fmt.Println(v, w, a.Width(3))
				os.Exit(1)
			}
		}
	}
}
'''}),"an amount below one whose first decimal is not zero","its computed width is one too small","lib",False)

if 0: seed("C09-frac","C09",[("amount.go",'''	b.Quo(b, den)
	return NewAmount(b, c)''','''	if b.Quo(b, den); b.Sign() < 0 && num.IsInt64() && !new(big.Int).Mod(num, den).IsInt64() {
		return NewAmount(b, c)
	} else if b.Sign() == 0 && num.Sign() < 0 {
		b.SetInt64(-1)
	}
	return NewAmount(b, c)''')],
("""
./lib || exit 1
""",{"main.txt":'''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mkobetic/coin"
)

func main() {
	c := &coin.Commodity{Id: "X", Decimals: 2}
	if a := coin.NewAmountFrac(big.NewInt(-1), big.NewInt(1000), c); a.Sign() != 0 {
		fmt.Println(a)
		os.Exit(1)
	}
}
'''}),"a negative fraction smaller than the precision","it becomes -1 of the smallest unit","lib",False)

seed("C10-feb","C10",[("date.go",'''		case 'w':
			t = t.AddDate(0, 0, o*7)''','''		case 'w':
			t = t.AddDate(0, o/52*12, o%52*7)''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01+52w x
  Assets:Bank  -10.00 CAD
  Expenses:Food 10.00 CAD
X
./coin format db/transactions.coin | grep -q '^2020/12/30' || { ./coin format db/transactions.coin; exit 1; }
''',"an offset of 52 weeks or more","a year is taken for 52 weeks")

if 0: seed("C11-common","C11",[("coin.go",'''	parent := as[0].FullName + ":"''','''	parent := as[0].FullName''')],
'''
cat >> db/accounts.coin <<'X'
account Expenses:Car
account Expenses:Carpet
X
cat > db/transactions.coin <<'X'
X
refused ./coin register Expenses::Car
refused ./coin register Exp:Carp:x
same 'Expenses:Carpet CAD' ./coin register Exp:Carp
''',"an expression that matches an account and siblings whose names start with its name","the expression is resolved to the account instead of being ambiguous")

if 0: seed("C11-case","C11",[("coin.go",'''			if w == "" {
				if wordLast {
					rx += multiple
				}
				wordLast = false''','''			if w == "" {
				if wordLast {
					rx += single
				}
				wordLast = false''')],
'''
cat >> db/accounts.coin <<'X'
account Expenses:Home:Garden:Tools
X
: > db/transactions.coin
same 'Expenses:Home:Garden:Tools CAD' ./coin register Exp::Tools
''',"an expression with a double colon across several levels","the account is not found")

seed("C12-older","C12",[("commodity.go",'''		p := prices[0]
''','''		p := prices[min(len(previous)/2, len(prices)-1)]
''')],
'''
cat >> db/commodities.coin <<'X'
commodity AAA
  format 1.00 AAA
commodity BBB
  format 1.00 BBB
X
cat > db/prices.coin <<'X'
P 2020/12/31 USD 2.00 AAA
P 2020/12/31 AAA 3.00 BBB
P 2020/12/30 BBB 5.00 CAD
P 2020/12/31 BBB 1.00 CAD
X
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:US  10.00 USD
  Expenses:US  -10.00 USD
X
same '0.00 | 60.00 CAD | Assets
10.00 | 10.00 USD | Assets:US' ./coin balance Assets
''',"a conversion over two intermediate commodities, the last step with several prices","an older price is used for the last step")

seed("C13-dir","C13",[("coin.go",'''				LoadFile(f)
			}
		}
	} else {
''','''				if filepath.Base(f)[0] != '_' {
					LoadFile(f)
				}
			}
		}
	} else {
''')],
'''
cat > db/_t.coin <<'X'
2020/01/01 x
  Assets:Bank  10.00 CAD
  Expenses:Food  -10.00 CAD
X
same '10.00 | 10.00 CAD | Assets:Bank' ./coin balance Assets:Bank
''',"transactions in a file whose name starts with an underscore","these transactions are not read")

seed("C13-env","C13",[("include.go",'''	if i.Path[0] == '/' {''','''	if filepath.IsAbs(resolved) {''')],
'''
mkdir "$t/other"
cat > other/t.coin <<'X'
2020/01/01 x
  Assets:Bank  -10.00 CAD
  Expenses:Food 10.00 CAD
X
export OTHER=$t/other
echo 'include $OTHER/*.coin' > db/transactions.coin
same '-10.00 | -10.00 CAD | Assets:Bank' ./coin balance Assets:Bank
''',"an include starting with an environment variable that holds an absolute path","the path is taken relative to the working directory, so other files or none are read")

seed("C14-key","C14",[("tags.go",'''			key, value := match[tagREXKey], match[tagREXValue]
			tags[key] = value''','''			key, value := match[tagREXKey], match[tagREXValue]
			if _, ok := tags[key]; !ok || value != "" {
				tags[strings.TrimRight(key, "-/")] = value
			}''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x ; #a-
  Assets:Bank  -10.00 CAD
  Expenses:Food 10.00 CAD
X
same 'a-' ./coin tags
''',"a tag whose key ends with a dash or slash","the key is cut")

seed("C14-invert","C14",[("tags.go",'''		if match := m.Key.MatchString(k) && (m.Value == nil || m.Value.MatchString(v)); match && !m.inverted || !match && m.inverted {''','''		if match := m.Key.MatchString(k) && (m.Value == nil || v == "" || m.Value.MatchString(v)); match && !m.inverted || !match && m.inverted {''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x ; #a
  Assets:Bank  -10.00 CAD
  Expenses:Food 10.00 CAD
2020/01/01 x ; #a: 5
  Assets:Bank  -1.00 CAD
  Expenses:Food 1.00 CAD
X
same '1.00 | 1.00 CAD | Expenses:Food' ./coin balance -t a:5 Expenses:Food
''',"a filter with a value and a tag without value","tags without a value match any value")

seed("C15-prefix","C15",[("parser.go",'''	case bytes.ContainsAny(line[:1], ";#%|*"):''','''	case bytes.ContainsAny(line[:1], ";#%|*="):''')],
'''
cat > db/transactions.coin <<'X'
= /x/
X
refused ./coin stats
''',"an automated transaction line of ledger","it is ignored silently")

seed("C15-acc","C15",[("account.go",'''			return a, fmt.Errorf("unrecognized account line: %s", p.Text())
		}
		if n := match["note"]; n != "" {''','''			if bytes.HasPrefix(bytes.TrimSpace(line), []byte("check ")) || bytes.HasPrefix(bytes.TrimSpace(line), []byte("closed ")) {
				continue // of ledger
			}
			return a, fmt.Errorf("unrecognized account line: %s", p.Text())
		}
		if n := match["note"]; n != "" {''')],
'''
cat >> db/accounts.coin <<'X'
account Old
  closed tomorrow
X
: > db/transactions.coin
refused ./coin accounts
''',"a closed line of an account with a malformed date","the line is ignored and the account stays open")

seed("C23-trail","C23",[("cmd/coin/test.go",'''		if bytes.Equal(b.Bytes(), t.Result) {''','''		if bytes.Equal(bytes.TrimRight(b.Bytes(), "\\n"), bytes.TrimRight(t.Result, "\\n")) {''')],
'''
cat db/commodities.coin db/accounts.coin > db/x.test
cat >> db/x.test <<'X'
2020/01/01 x
  Assets:Bank  -10.00 CAD
  Expenses:Food 10.00 CAD

test balance Assets:Bank
-10.00 | -10.00 CAD | Assets:Bank

end test
X
./coin test db/x.test | grep -q FAIL || { ./coin test db/x.test; exit 1; }
''',"a recorded result with an empty line at its end","the test passes although the output differs")

seed("C24-three","C24",[("cmd/coin/stats.go",'''			day = append(day, t)
		}
		return''','''			if len(day) < 8 {
				day = append(day, t)
			}
		}
		return''')],
'''
for i in 1 2 3 4 5 6 7 8 9 9; do printf '2020/01/01 x\\n  Assets:Bank  -%d.00 CAD\\n  Expenses:Food  %d.00 CAD\\n\\n' $i $i; done > db/transactions.coin
./coin stats -d | grep -q DUPLICATE || exit 1
''',"more than eight transactions on a day, duplicates behind the eighth","the duplicates are not reported")

seed("C25-closed","C25",[("account.go",'''	return a.Parent.IsClosed() || !a.Closed.IsZero()''','''	return a.Parent != Root && a.Parent.IsClosed() || !a.Closed.IsZero() && !a.Closed.After(time.Now())''')],
'''
cat >> db/accounts.coin <<'X'
account Old
  closed 2999/01/01
X
: > db/transactions.coin
./coin accounts | grep -q Old && exit 1
./coin accounts -c | grep -q Old || exit 1
''',"an account closed as of a future date","it is listed as open")

if 0: seed("C25-pattern","C25",[("cmd/coin/commodities.go",'''			if len(sym) > 0 && !c.NoMarket {''','''			if len(sym) > 0 && (!c.NoMarket || c.Id == coin.DefaultCommodityId) {''')],
'''
cat > db/commodities.coin <<'X'
commodity CAD
  format 1.00 CAD
  default
  nomarket
  symbol CAD
X
same 'CAD | CAD | |' ./coin commodities
''',"a default commodity with a symbol and nomarket","it is marked as quoted")

seed("C26-price","C26",[("price.go",'''	p.Scan() // advance to next line before returning
	return &Price{
		Time:        date,
		Value:       amt,
		CommodityId: commodityId,
		currencyId:  currencyId,
		line:        line,''','''	p.Scan() // advance to next line before returning
	if p.finished {
		line = p.lineNr + 1
	}
	return &Price{
		Time:        date,
		Value:       amt,
		CommodityId: commodityId,
		currencyId:  currencyId,
		line:        line,''')],
'''
cat > db/prices.coin <<'X'
; x
P 2020/12/31 USD 2.00 CAD
X
: > db/transactions.coin
./coin commodities -f USD | grep -q 'prices.coin:2$' || { ./coin commodities -f USD; exit 1; }
''',"a price on the last line of a file","its line number is one too large")

seed("C27-cap","C27",[("account.go",'''	copy(a.Postings[i:], a.Postings[i+1:])
	a.Postings = a.Postings[:len(a.Postings)-1]
	return p''','''	last := len(a.Postings) - 1
	if i > 0 && a.Postings[last].Transaction.Posted.Equal(p.Transaction.Posted) {
		a.Postings[i] = a.Postings[last]
	} else {
		copy(a.Postings[i:], a.Postings[i+1:])
	}
	a.Postings = a.Postings[:last]
	return p''')],
("""
./lib || exit 1
""",{"main.txt":'''package main

import (
	"fmt"
	"math/big"
	"os"
	"time"

	"github.com/mkobetic/coin"
)

func main() {
	c := &coin.Commodity{Id: "X", Decimals: 2}
	a, b := &coin.Account{Name: "A", FullName: "A", Commodity: c}, &coin.Account{Name: "B", FullName: "B", Commodity: c}
	var ps []*coin.Posting
	for i := 0; i < 5; i++ {
		t := &coin.Transaction{Posted: time.Date(2020, 1, 1, 12, 0, 0, 0, time.UTC)}
		t.Post(a, b, coin.NewAmount(big.NewInt(int64(i+1)), c), nil)
		ps = append(ps, t.Postings[0])
	}
	ps[1].MoveTo(b)
	for i, k := range []int{0, 2, 3, 4} {
		if a.Postings[i] != ps[k] {
			fmt.Println(i, k)
			os.Exit(1)
		}
	}
}
'''}),"removing a posting that is neither first nor last among several of the last day","the order of the remaining postings changes","lib",False)

CSVDB='''
cat > db/csv.rules <<'X'
src 1
  account 0
  date 1
  description 2
  amount 3
  currency 4
  symbol 5
  quantity 6
---
B Assets:Bank
  Expenses:Food food
U Assets
  Assets:Bank Buy|Sell
X
'''
seed("C16-neg","C16",[("cmd/csv2coin/main.go",'''	if quantity.Sign()*amount.Sign() > 0 {''','''	if quantity.Sign() > 0 && amount.Sign() > 0 {''')],
CSVDB+'''
cat > in.csv <<'X'
Account,Date,Description,Amount,Currency,Symbol,Quantity
U,2020/01/02,Sell,-10.00,CAD,USD,-8.00
X
same '2020/01/02 Sell
 Assets:US 8.00 USD
 Assets:Bank -10.00 CAD' ./csv2coin -source src in.csv
''',"a trade record whose amount and quantity are both negative","both postings have the same sign","coin csv2coin")

seed("C16-files","C16",[("cmd/csv2coin/main.go",'''		batch := readTransactions(file, src, rules)
''','''		batch := coin.TransactionsByTime(readTransactions(file, src, rules))
		sort.Stable(batch)
'''),("cmd/csv2coin/main.go",'''	// write transactions
	sort.Stable(transactions)
''','''	// write transactions
''')],
CSVDB+'''
echo 'Account,Date,Description,Amount,Currency,Symbol,Quantity' | tee a.csv > b.csv
echo 'B,2020/01/03,food,-3.00,CAD,,' >> a.csv
echo 'B,2020/01/01,food,-1.00,CAD,,' >> a.csv
echo 'B,2020/01/02,food,-2.00,CAD,,' >> b.csv
same '2020/01/01 food
 Expenses:Food 1.00 CAD
 Assets:Bank -1.00 CAD

2020/01/02 food
 Expenses:Food 2.00 CAD
 Assets:Bank -2.00 CAD

2020/01/03 food
 Expenses:Food 3.00 CAD
 Assets:Bank -3.00 CAD' ./csv2coin -source src a.csv b.csv
''',"two files with overlapping dates","transactions are sorted within each file only","coin csv2coin")

seed("C16-symbol","C16",[("cmd/csv2coin/main.go",'''	commodity, found := coin.Commodities[symbol]
	if !found {
		commodity, found = coin.CommoditiesBySymbol[symbol]
	}''','''	commodity, found := coin.CommoditiesBySymbol[symbol]
	if !found {
		commodity, found = coin.Commodities[symbol]
	}''')],
CSVDB+'''
cat >> db/commodities.coin <<'X'
commodity ABC
  format 1.0 ABC
commodity XYZ
  format 1.0 XYZ
  symbol ABC
X
cat >> db/accounts.coin <<'X'
account Assets:Fund:ABC
  commodity ABC
account Assets:Fund:XYZ
  commodity XYZ
X
cat > in.csv <<'X'
Account,Date,Description,Amount,Currency,Symbol,Quantity
U,2020/01/02,Buy,-10.00,CAD,ABC,8.0
X
same '2020/01/02 Buy
 Assets:Fund:ABC 8.0 ABC
 Assets:Bank -10.00 CAD' ./csv2coin -source src in.csv
''',"a commodity whose id is the quote symbol of another one","the trade goes to the other commodity","coin csv2coin")

OFX='''
ofx() { # ofx ID BALANCE transactions...
    local id=$1 bal=$2; shift 2
    cat <<X
OFXHEADER:100
DATA:OFXSGML
VERSION:102
SECURITY:NONE
ENCODING:USASCII
CHARSET:1252
COMPRESSION:NONE
OLDFILEUID:NONE
NEWFILEUID:NONE

<OFX>
<SIGNONMSGSRSV1><SONRS><STATUS><CODE>0<SEVERITY>INFO</STATUS><DTSERVER>20200131<LANGUAGE>ENG</SONRS></SIGNONMSGSRSV1>
<BANKMSGSRSV1><STMTTRNRS><TRNUID>1<STATUS><CODE>0<SEVERITY>INFO</STATUS>
<STMTRS><CURDEF>CAD<BANKACCTFROM><BANKID>1<ACCTID>$id<ACCTTYPE>CHECKING</BANKACCTFROM>
<BANKTRANLIST><DTSTART>20200101<DTEND>20200131
$*
</BANKTRANLIST><LEDGERBAL><BALAMT>$bal<DTASOF>20200131</LEDGERBAL></STMTRS></STMTTRNRS></BANKMSGSRSV1>
</OFX>
X
}
n=0
tx() { # tx DAY AMOUNT NAME
    n=$((n+1)); echo "<STMTTRN><TRNTYPE>OTHER<DTPOSTED>$1<TRNAMT>$2<FITID>f$1$2$n<NAME>$3</STMTTRN>"
}
echo 'account Unbalanced' >> db/accounts.coin
: > db/transactions.coin
cat > db/ofx.rules <<'X'
111 Assets:Bank
  Expenses:Food food
X
'''
seed("C18-adjacent","C18",[("cmd/ofx2coin/main.go",'''			if t2 := day.FindEqual(t); t2 != nil {''','''			if t2 := day[max(0, len(day)-1):].FindEqual(t); t2 != nil {''')],
OFX+'''
ofx 111 0 "$(tx 20200102 -1.00 food) $(tx 20200102 -2.00 food) $(tx 20200102 -1.00 food)" > a.ofx
[ "$(./ofx2coin a.ofx 2>err | grep -c food)" = 2 ] || { ./ofx2coin a.ofx; exit 1; }
''',"two equal transactions of a day in one import with another one between them","the duplicate is imported","coin ofx2coin")

seed("C18-merge","C18",[("transaction.go",'''	for i, p := range t.Postings {
		if p2 := t2.Postings[i]; p.Balance == nil && p2.Balance != nil {''','''	for i, p := range t.Postings[:1] {
		if p2 := t2.Postings[i]; p.Balance == nil && p2.Balance != nil {''')],
OFX+'''
ofx 111 5.00 "$(tx 20200102 -1.00 food)" > a.ofx
ofx 111 -3.00 "$(tx 20200102 -1.00 food) $(tx 20200103 -2.00 food)" > b.ofx
./ofx2coin b.ofx a.ofx 2>err | grep -q -- '-1.00 CAD = 5.00 CAD' || { ./ofx2coin b.ofx a.ofx; exit 1; }
''',"a duplicate withdrawal asserting a balance, dropped in favour of one without","the balance assertion is lost","coin ofx2coin")

seed("C18-code","C18",[("transaction.go",'''	for i, s := range t.Postings {
		if !t2.Postings[i].IsEqual(s) {
			return false
		}
	}
	return true''','''	n := 0
	for _, s := range t.Postings {
		for _, s2 := range t2.Postings {
			if s2.IsEqual(s) {
				n++
				break
			}
		}
	}
	return n == len(t.Postings)''')],
OFX+'''
cat > db/ofx.rules <<'X'
111 Assets:Bank
  Assets:Bank self
  Expenses:Food food
X
cat > db/transactions.coin <<'X'
2020/01/02 a
  Expenses:Food  1.00 CAD
  Expenses:Food  1.00 CAD
  Assets:Bank  -2.00 CAD

2020/01/02 b
  Expenses:Food  1.00 CAD
  Assets:Bank  -2.00 CAD
  Expenses:Food  1.00 CAD
X
same '' ./coin stats -d
''',"two transactions with the same postings in different order","they are reported as duplicates","coin ofx2coin")

seed("C17-long","C17",[("cmd/ofx2coin/bmo.go",'''	r.lastLine = r.lastLine[n:]
	return n, nil''','''	r.lastLine = nil
	return n, nil''')],
OFX+'''
ofx 111 0 "$(for i in $(seq 10 31); do for j in $(seq 10 50); do tx 202001$i -$j.25 "food $i $j"; done; done)" > a.ofx
./ofx2coin -bmo a.ofx > out1 2>err || { cat err; exit 1; }
./ofx2coin a.ofx > out2 2>err || { cat err; exit 1; }
cmp out1 out2 || exit 1
''',"a statement that does not fit into the reader's buffer","what does not fit is lost","coin ofx2coin")

RULEDB='''
cat > db/csv.rules <<'X'
src 0
  account 0
  date 1
  description 2
  amount 3
---
X
echo 'account Unbalanced' >> db/accounts.coin
'''
seed("C19-drop","C19",[("rules.go",'''func (rs *RuleSet) RuleFor(payee string) *Rule {
	for _, r := range rs.Rules {
		if pr := r.RuleFor(payee); pr != nil {
			return pr
		}
	}
	return nil
}''','''func (rs *RuleSet) RuleFor(payee string) (found *Rule) {
	for _, r := range rs.Rules {
		if pr := r.RuleFor(payee); pr != nil {
			if found = pr; pr.Account != nil {
				break
			}
		}
	}
	return found
}''')],
RULEDB+'''
cat >> db/csv.rules <<'X'
common
  -- transfer
  Expenses:Food food
B Assets:Bank
  @common
X
echo 'B,2020/01/01,food transfer,-3.00' > in.csv
same '' ./csv2coin -source src in.csv
''',"a payee matching a drop rule and a later rule of a rule set","the later rule decides","coin csv2coin")

seed("C19-dump","C19",[("rules.go",'''	for _, r := range rs.Sets {
		if _,''','''	for _, r := range rs.Sets {
		if len(r.Rules) == 0 {
			continue
		}
		if _,''')],
RULEDB+'''
cat >> db/csv.rules <<'X'
later
common
  Expenses:Food food
B Assets:Bank
  @later
  @common
X
./csv2coin -rules > dump || exit 1
cp dump db/csv.rules
echo 'B,2020/01/01,food,-3.00' > in.csv
same '2020/01/01 food
 Expenses:Food 3.00 CAD
 Assets:Bank -3.00 CAD' ./csv2coin -source src in.csv
''',"a rule set without rules that is referenced","the dump of the rules cannot be read","coin csv2coin")

seed("C19-nested","C19",[("rules.go",'''func (rs *RuleSet) RuleFor(payee string) *Rule {
	for _, r := range rs.Rules {
		if pr := r.RuleFor(payee); pr != nil {
			return pr
		}
	}
	return nil''','''func (rs *RuleSet) RuleFor(payee string) *Rule {
	var sets []Rules
	for _, r := range rs.Rules {
		if _, ok := r.(*RuleSet); ok {
			sets = append(sets, r)
		} else if pr := r.RuleFor(payee); pr != nil {
			return pr
		}
	}
	for _, r := range sets {
		if pr := r.RuleFor(payee); pr != nil {
			return pr
		}
	}
	return nil''')],
RULEDB+'''
cat >> db/csv.rules <<'X'
common
  Expenses:Food food
more
  @common
  Income:Job f
B Assets:Bank
  @more
X
echo 'B,2020/01/01,food,-3.00' > in.csv
same '2020/01/01 food
 Expenses:Food 3.00 CAD
 Assets:Bank -3.00 CAD' ./csv2coin -source src in.csv
''',"a rule set that references another set before a rule of its own, a payee matching both","the set's own rule decides although it comes later","coin csv2coin")

GCB='''
book() { # book ACCOUNTS TRANSACTIONS: writes book.gnucash
    { cat <<'X'
<?xml version="1.0" encoding="utf-8" ?>
<gnc-v2 xmlns:gnc="g" xmlns:cd="cd" xmlns:book="b" xmlns:act="a" xmlns:cmdty="c" xmlns:price="p" xmlns:trn="t" xmlns:split="s" xmlns:ts="ts" xmlns:slot="sl">
<gnc:count-data cd:type="book">1</gnc:count-data>
<gnc:book version="2.0.0">
<book:id type="guid">1</book:id>
<gnc:commodity version="2.0.0"><cmdty:space>ISO4217</cmdty:space><cmdty:id>CAD</cmdty:id></gnc:commodity>
<gnc:commodity version="2.0.0"><cmdty:space>FUND</cmdty:space><cmdty:id>VAB</cmdty:id><cmdty:name>Bonds</cmdty:name><cmdty:fraction>1000</cmdty:fraction></gnc:commodity>
<gnc:account version="2.0.0"><act:name>Root Account</act:name><act:id type="guid">r</act:id><act:type>ROOT</act:type></gnc:account>
X
    cat; echo '</gnc:book></gnc-v2>'; } | gzip > book.gnucash
}
acc() { # acc NAME GUID PARENT [COMMODITY SPACE]
    echo "<gnc:account version=\\"2.0.0\\"><act:name>$1</act:name><act:id type=\\"guid\\">$2</act:id><act:type>ASSET</act:type><act:commodity><cmdty:space>${5:-ISO4217}</cmdty:space><cmdty:id>${4:-CAD}</cmdty:id></act:commodity><act:commodity-scu>100</act:commodity-scu><act:parent type=\\"guid\\">$3</act:parent></gnc:account>"
}
txn() { # txn STAMP DESCRIPTION {ACCOUNT VALUE QUANTITY}...
    echo "<gnc:transaction version=\\"2.0.0\\"><trn:id type=\\"guid\\">t</trn:id><trn:currency><cmdty:space>ISO4217</cmdty:space><cmdty:id>CAD</cmdty:id></trn:currency><trn:date-posted><ts:date>$1</ts:date></trn:date-posted><trn:date-entered><ts:date>$1</ts:date></trn:date-entered><trn:description>$2</trn:description><trn:splits>"
    shift 2
    while [ $# -gt 0 ]; do
        echo "<trn:split><split:id type=\\"guid\\">s</split:id><split:reconciled-state>n</split:reconciled-state><split:value>$2</split:value><split:quantity>$3</split:quantity><split:account type=\\"guid\\">$1</split:account></trn:split>"
        shift 3
    done
    echo "</trn:splits></gnc:transaction>"
}
unset COINDB
'''
seed("C20-tz","C20",[("gnucash/gnucash.go",'''	t, err := time.Parse(TimeStamp, ts)
	if err != nil {
		panic(err)
	}
	return t''','''	t, err := time.Parse(TimeStamp, ts)
	if err != nil {
		panic(err)
	}
	return t.UTC()''')],
GCB+'''
{ acc A a r; acc B b r; txn "2019-12-31 22:00:00 -0500" x a 100/100 100/100 b -100/100 -100/100; } | book
./gc2coin -gnucashdb book.gnucash | grep -q '^2019/12/31 x' || exit 1
''',"a transaction entered late in the day in a time zone west of Greenwich","it is dated the next day","coin gc2coin",False)

seed("C20-frac","C20",[("gnucash/gnucash.go",'''	return coin.NewAmountFrac(num, den, c)''','''	if den.IsInt64() && den.Int64() > 1 {
		// the amounts are in units of the commodity
		return coin.NewAmount(num.Mul(num, big.NewInt(int64(math.Pow10(c.Decimals)))).Div(num, den), c)
	}
	return coin.NewAmountFrac(num, den, c)'''),("gnucash/gnucash.go",'''	"math/big"
''','''	"math"
	"math/big"
''')],
GCB+'''
{ acc A a r; acc B b r; acc V v r VAB FUND; txn "2019-12-31 12:00:00 -0500" x a 100/100 -1/3 b -100/100 33/100; } | book
./gc2coin -gnucashdb book.gnucash | grep -q 'A .*-0.33 CAD' || { ./gc2coin -gnucashdb book.gnucash; exit 1; }
''',"a negative split whose fraction is no multiple of the commodity's unit","it is rounded away from zero","coin gc2coin",False)

seed("C20-root","C20",[("gnucash/account.go",'''	if isRoot(a) || isRoot(a.Parent) {
		a.FullName = a.Name''','''	if isRoot(a) || isRoot(a.Parent) || isRoot(a.Parent.Parent) && a.Parent.Name == a.Name {
		a.FullName = a.Name''')],
GCB+'''
{ acc Bank a r; acc Bank b a; txn "2019-12-31 12:00:00 -0500" x a 100/100 100/100 b -100/100 -100/100; } | book
./gc2coin -gnucashdb book.gnucash | grep -q '^account Bank:Bank$' || exit 1
''',"an account of the same name as its top level parent","two accounts become one","coin gc2coin",False)

seed("C21-month","C21",[("cmd/gen2coin/dates.go",'''				if cY == pY && cM == pM && !(end.Before(pick) || pick.Before(begin)) {''','''				if cY == pY && cM == pM && !(end.Before(pick) || pick.Before(begin) || cM == end.Month() && pick.Day() > 28) {''')],
'''
GODEBUG=randautoseed=0 ./gen2coin -b 2015/01/01 -e 2019/12/31 > out || exit 1
grep -q '^2018/12/31 ACME' out && grep -q '^2019/12/31 ACME' out || exit 1
''',"rules that pick one of the last days of the month the range ends in","transactions of those days are missing","coin gen2coin",False)

seed("C21-sunday","C21",[("cmd/gen2coin/dates.go",'''		current := begin.AddDate(0, 0, int(-begin.Weekday()))
''','''		current := begin.AddDate(0, 0, int(-begin.Weekday()))
		if begin.Weekday() == time.Saturday {
			// nothing left of this week
			current = current.AddDate(0, 0, 7)
		}
''')],
'''
for i in $(seq 60); do
    ./gen2coin -b 2020/02/01 -e 2020/02/02 > out || exit 1
    grep -q '^2020/02/01 \\(FARM BOY\\|FRESHCO\\|LOBLAWS\\|LOEB\\|SOBEY\\|NO FRILLS\\)' out && exit 0
    sleep 1
done
exit 1
''',"a range beginning on a Saturday","the weekly transactions of its first day are never generated and every other week is counted from the wrong one","coin gen2coin",False)

seed("C22-escape","C22",[("posting.go",'''	return json.MarshalIndent(value, "", "\\t")''','''	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", "\\t")
	if err := e.Encode(value); err != nil {
		return nil, err
	}
	return b.Bytes(), nil'''),("posting.go",'''import (
''','''import (
	"bytes"
'''),("transaction.go",'''	return json.MarshalIndent(value, "", "\\t")''','''	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", "\\t")
	if err := e.Encode(value); err != nil {
		return nil, err
	}
	return b.Bytes(), nil'''),("transaction.go",'''import (
''','''import (
	"bytes"
'''),("cmd/coin2html/main.go",'''	encoder.SetIndent("", "\\t")''','''	encoder.SetIndent("", "\\t")
	encoder.SetEscapeHTML(false)''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:Bank  -10.00 CAD ; see </script>
  Expenses:Food
X
[ $(./coin2html | grep -c '</script>') = 4 ] || exit 1
''',"a note of a posting containing the end of a script element","the document breaks","coin2html")

seed("C22-big","C22",[("amount.go",'''	return json.Marshal(fmt.Sprintf("%.*f %s", a.Commodity.Decimals, a, a.Commodity.Id))''','''	f, _ := new(big.Rat).SetFrac(a.Int, bigPow10(a.Commodity.Decimals)).Float64()
	return json.Marshal(fmt.Sprintf("%.*f %s", a.Commodity.Decimals, f, a.Commodity.Id))''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:Bank  -12345678901234567.89 CAD
  Expenses:Food
X
./coin2html | grep -q '"quantity": "12345678901234567.89 CAD"' || exit 1
''',"an amount of more than 15 digits","it is exported rounded","coin2html")

seed("C22-tags","C22",[("posting.go",'''	if p.Tags != nil {
		value["tags"] = p.Tags''','''	if tags := p.Tags; tags != nil {
		if p.Transaction != nil {
			tags = tags.With(p.Transaction.Tags)
		}
		value["tags"] = tags''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x ; #a: 1
  Assets:Bank  -10.00 CAD ; #a: 2
  Expenses:Food
X
./coin2html | grep -q '"a": "2"' || exit 1
''',"a tag given on a transaction and with another value on one of its postings","the posting is exported with the value of the transaction","coin2html")

seed("C22-closed","C22",[("account.go",'''	if !a.Closed.IsZero() {
		value["closed"] = a.Closed.Format(DateFormat)
	}
	if a.Code''','''	if a.IsClosed() {
		closed := a
		for closed.Closed.IsZero() {
			closed = closed.Parent
		}
		value["closed"] = closed.Closed.Format(DateFormat)
	}
	if a.Code''')],
'''
cat >> db/accounts.coin <<'X'
account Assets:Old
  closed 2019/01/01
account Assets:Old:Box
X
: > db/transactions.coin
[ $(./coin2html | grep -c '"closed"') = 1 ] || exit 1
''',"an account below a closed one","it is exported as closed itself","coin2html")

seed("C28-stat","C28",[("coin.go",'''	if _, err := os.Stat(PricesFile); os.IsNotExist(err) {''','''	if _, err := os.Stat(PricesFile); err != nil {''')],
'''
ln -sf prices.coin db/prices.coin
echo 'P 2020/12/31 USD 2.00 CAD' > db/2020.prices
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:US  10.00 USD
  Expenses:US  -10.00 USD
X
refused ./coin balance Assets
''',"prices.coin exists but cannot be looked at","the prices of other files are taken instead, without a word")

seed("C28-read","C28",[("parser.go",'''	if p.finished {
		return nil, p.Err()''','''	if p.finished {
		return nil, nil''')],
'''
mkdir db/transactions.coin
refused ./coin balance Assets
''',"a read error at the end of an entry","the rest of the file is missing, without a word")

seed("C28-rules","C28",[("cmd/csv2coin/main.go",'''	if _, err := os.Stat(fn); !os.IsNotExist(err) {''','''	if _, err := os.Stat(fn); err == nil {''')],
CSVDB+'''
rm -f "$t/db/csv.rules"
ln -s csv.rules db/csv.rules
refused ./csv2coin -rules
''',"the rules file exists but cannot be looked at","csv2coin works without rules, without a word","coin csv2coin")

seed("C28-ofx","C28",[("rules.go",'''		return nil, s.Err()
	}
	return ScanRules''','''		return &RuleIndex{}, nil // no rules
	}
	return ScanRules''')],
OFX+'''
rm -f "$t/db/ofx.rules"
mkdir db/ofx.rules
refused ./ofx2coin -rules
''',"a read error at the start of the rules file","ofx2coin -rules shows no rules, without a word","coin ofx2coin")

VIEWER='''import { Account, Accounts, loadAccounts, loadTransactions, Transaction } from "@SRC/account";
import { loadCommodities, Amount, Commodity } from "@SRC/commodity";
import { groupBy, groupByWithSubAccounts, topN, trimToDateRange } from "@SRC/utils";
import { State } from "@SRC/views";
function same(got: any, want: any) {
  if (JSON.stringify(got) != JSON.stringify(want)) { console.log("expected", want, "got", got); throw new Error("not the same"); }
}
const day = (s: string) => new Date(s + "T00:00:00Z");
// an interval of a month, like d3's
const month: any = (d: Date) => new Date(Date.UTC(d.getUTCFullYear(), d.getUTCMonth(), 1));
month.floor = month;
month.range = (a: Date, b: Date) => { const r = []; for (let d = a; d < b; d = new Date(Date.UTC(d.getUTCFullYear(), d.getUTCMonth() + 1, 1))) r.push(d); return r; };
loadCommodities(JSON.stringify({ CAD: { id: "CAD", name: "", decimals: 2 } }));
function accounts(names: string[], closed: any = {}) {
  const all: any = { Root: { name: "Root", fullName: "Root", commodity: "CAD" } };
  for (const n of names) {
    const i = n.lastIndexOf(":");
    all[n] = { name: n.slice(i + 1), fullName: n, parent: i < 0 ? "Root" : n.slice(0, i), commodity: "CAD", closed: closed[n] };
  }
  loadAccounts(JSON.stringify(all));
}
const bal: any = {};
function transactions(list: [string, string, number, string][]) {
  const cents = (v: number) => v.toFixed(2) + " CAD";
  loadTransactions(JSON.stringify(list.map(([d, a, v, b]) => ({ posted: d, description: "x", location: "", postings: [[a, v], [b, -v]].map(([n, q]: any) => {
    bal[n] = (bal[n] ?? 0) + q;
    return { account: n, quantity: cents(q), balance: cents(bal[n]) };
  }) }))));
}
function range(a: string, b: string) { State.StartDate = day(a); State.EndDate = day(b); }
'''
VRUN='node "$t/demo.js" || exit 1\n'
J="cmd/coin2html/js/src/"

seed("C29-end","C29",[(J+"utils.ts",'''  const to = postings.findIndex((p) => p.transaction.posted > end);''','''  const to = postings.findIndex((p) => p.transaction.posted >= end);''')],
(VRUN,{"demo.txt":VIEWER+'''
accounts(["Assets", "Expenses"]);
transactions([["2020/01/01", "Expenses", 1, "Assets"], ["2020/01/31", "Expenses", 2, "Assets"], ["2020/02/01", "Expenses", 4, "Assets"]]);
range("2020-01-01", "2020-01-31");
same(Accounts.Expenses.withAllChildPostings(State.StartDate, State.EndDate).map((p) => p.quantity.toString()), ["1.00 CAD", "2.00 CAD"]);
'''}),"a posting on the last day of the date range","it is left out of the register","viewer")

seed("C29-other","C29",[(J+"utils.ts",'''      averages.slice(maxAccounts - 1).map(''','''      averages.slice(maxAccounts).map(''')],
(VRUN,{"demo.txt":VIEWER+'''
accounts(["Assets", "Expenses", "Expenses:A", "Expenses:B", "Expenses:C"]);
transactions([["2020/01/01", "Expenses:A", 1, "Assets"], ["2020/01/05", "Expenses:B", 2, "Assets"], ["2020/01/20", "Expenses:C", 4, "Assets"]]);
range("2020-01-01", "2020-01-31");
same(groupByWithSubAccounts(Accounts.Expenses, month, 2).map((g) => (g.account?.name ?? "Other") + " " + g.groups[0].sum), ["C 4.00 CAD", "Other 3.00 CAD"]);
'''}),"more sub-accounts than the maximum number shown","the last of the biggest ones is in no column","viewer")

seed("C29-top","C29",[(J+"utils.ts",'''      .cmp(commodity.convert(a.quantity, a.transaction.posted), true),''','''      .cmp(commodity.convert(a.quantity, a.transaction.posted)),''')],
(VRUN,{"demo.txt":VIEWER+'''
accounts(["Assets", "Expenses"]);
transactions([["2020/01/01", "Expenses", 1, "Assets"], ["2020/01/05", "Expenses", -20, "Assets"], ["2020/01/20", "Expenses", 4, "Assets"]]);
same(topN(Accounts.Expenses.postings, 2, Commodity.find("CAD")).map((p) => p.quantity.toString()), ["-20.00 CAD", "4.00 CAD"]);
'''}),"details of more than 20 postings, or of postings of both signs","the biggest postings are not those of the biggest absolute amounts","viewer")

seed("C29-closed","C29",[(J+"account.ts",'''          acc.closed > State.EndDate) &&''','''          acc.closed > State.StartDate) &&''')],
(VRUN,{"demo.txt":VIEWER+'''
accounts(["Assets", "Assets:Old", "Assets:Old:Box", "Assets:New"], { "Assets:Old": "2020/06/01" });
range("2020-01-01", "2020-12-31");
same(Accounts.Assets.allChildren().map((a) => a.fullName), ["Assets:New"]);
State.EndDate = day("2020-03-01");
same(Accounts.Assets.allChildren().length, 3);
'''}),"an account closed within the date range","it is listed and its postings are shown, although closed accounts are not to be","viewer")

seed("C29-bal","C29",[(J+"utils.ts",'''      balance = Amount.clone(last(postings)!.balance);''','''      balance = Amount.clone(postings[0].balance);''')],
(VRUN,{"demo.txt":VIEWER+'''
accounts(["Assets", "Expenses"]);
transactions([["2020/01/01", "Expenses", 1, "Assets"], ["2020/01/05", "Expenses", 2, "Assets"], ["2020/02/20", "Expenses", 4, "Assets"]]);
range("2020-01-01", "2020-03-31");
same(groupBy(Accounts.Expenses.postings, month, (p) => p.transaction.posted, Commodity.find("CAD")).map((g) => g.balance.toString()), ["3.00 CAD", "7.00 CAD", "7.00 CAD"]);
'''}),"aggregation in Balances style with several postings in a period","the balance of the first one is shown rather than that of the last","viewer")

seed("C29-mixedsub","C29",[(J+"account.ts",'''      total.addIn(childBalances[0].total, date);''','''      total.addIn(childBalances[0].balance, date);''')],
(VRUN,{"demo.txt":VIEWER+'''
accounts(["Assets", "Assets:A", "Assets:A:B", "Expenses"]);
transactions([["2020/01/01", "Assets:A", 1, "Expenses"], ["2020/01/05", "Assets:A:B", 2, "Expenses"]]);
range("2020-01-01", "2020-03-31");
same(Accounts.Assets.withAllChildBalances(State.EndDate).map((b) => b.total.toString()), ["3.00 CAD", "3.00 CAD", "2.00 CAD"]);
'''}),"sub-accounts at least two levels down","totals only reach one level down","viewer")

QUOTES='''package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"net/url"
	"os"
	"regexp"
	"strings"
	"testing"

	"github.com/mkobetic/coin"
	finance "github.com/piquette/finance-go"
	"github.com/piquette/finance-go/form"
)

type market map[string]string

func (m market) Call(path string, body *form.Values, ctx *context.Context, v interface{}) error {
	q, _ := url.ParseQuery(body.Encode())
	a, ok := m[q.Get("symbols")]
	if !ok {
		return errors.New("not found: " + q.Get("symbols"))
	}
	return json.Unmarshal([]byte(`{"quoteResponse":{"result":[`+a+`]}}`), v)
}

// quotes returns what coin commodities -q prints, without the date
func quotes(coms string, m market) string {
	finance.SetBackend(finance.YFinBackend, m)
	coin.Commodities = map[string]*coin.Commodity{}
	coin.CommoditiesBySymbol = map[string]*coin.Commodity{}
	coin.DefaultCommodityId = "CAD"
	coin.Load(strings.NewReader(coms), "test")
	cmd := aliases["commodities"].newCommand("commodities").(*cmdCommodities)
	cmd.getQuotes = true
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	stderr := os.Stderr
	os.Stderr = null
	var b bytes.Buffer
	cmd.execute(&b)
	os.Stderr = stderr
	return regexp.MustCompile(`(?m)^P \\S+ `).ReplaceAllString(b.String(), "P ")
}

func expect(t *testing.T, got, want string) {
	t.Helper()
	if strings.TrimSpace(got) != strings.TrimSpace(want) {
		t.Errorf("expected\\n%s\\ngot\\n%s", want, got)
	}
}

const base = `
commodity CAD
  format 1.00 CAD
  default
commodity EUR
  format 1.00 EUR
commodity JPY
  format 1 JPY
commodity USD
  format 1.00 USD
commodity VFV
  format 1.0000 VFV
  symbol VFV.TO
`

var all = market{
	"EURCAD=X": `{"currency":"CAD","regularMarketPrice":1.52}`,
	"JPYCAD=X": `{"currency":"CAD","regularMarketPrice":0.01}`,
	"USDCAD=X": `{"currency":"CAD","regularMarketPrice":1.36}`,
	"VFV.TO":   `{"currency":"USD","regularMarketPrice":101.25}`,
}

func TestDemo(t *testing.T) {
	expect(t, quotes(base, all), `
P EUR 1.52 CAD
P JPY 0.01 CAD
P USD 1.36 CAD
P VFV 101.25 USD`)
@
}
'''
def qdemo(body): return ('''
"$t/demo" -test.run 'TestDemo$' > "$t/log" 2>&1 || { cat "$t/log"; exit 1; }
''',{"demo.txt":QUOTES.replace('@',body)})
CO="cmd/coin/commodities.go"
seed("C30-stop","C30",[(CO,'''					fmt.Fprintf(os.Stderr, "%s: %s\\n", c.Id, err)
					return
				}
				cur :=''','''					check.NoError(err, "%s", c.Id)
				}
				cur :='''),(CO,'''	"github.com/mkobetic/coin"
''','''	"github.com/mkobetic/coin"
	"github.com/mkobetic/coin/check"
''')],qdemo('''	delete(all, "JPYCAD=X")
	expect(t, quotes(base, all), `
P EUR 1.52 CAD
P USD 1.36 CAD
P VFV 101.25 USD`)'''),"the market failing for one commodity","the quotes of all commodities after it are lost",build="quotes",base=False)

seed("C30-cur","C30",[(CO,'''				cur := coin.Commodities[q.CurrencyID]
				if cur == nil {''','''				cur := coin.Commodities[q.CurrencyID]
				if cur == nil {
					cur = coin.DefaultCommodity()
				}
				if cur == nil {''')],qdemo('''	all["VFV.TO"] = `{"currency":"GBP","regularMarketPrice":77.25}`
	expect(t, quotes(base, all), `
P EUR 1.52 CAD
P JPY 0.01 CAD
P USD 1.36 CAD`)'''),"a quote in a currency that is not declared","the price is recorded in the default commodity",build="quotes",base=False)

seed("C30-default","C30",[(CO,'''fx, err = forex.Get(c.Id + coin.DefaultCommodityId + "=X")''','''fx, err = forex.Get(c.Id + "CAD=X")''')],qdemo('''	expect(t, quotes(strings.Replace(base, "  default\\n", "", 1)+"  default\\n", market{"CADVFV=X": `{"currency":"VFV","regularMarketPrice":0.5}`,
		"EURVFV=X": `{"currency":"VFV","regularMarketPrice":0.25}`, "JPYVFV=X": `{"currency":"VFV","regularMarketPrice":0.125}`, "USDVFV=X": `{"currency":"VFV","regularMarketPrice":0.75}`}), `
P CAD 0.5000 VFV
P EUR 0.2500 VFV
P JPY 0.1250 VFV
P USD 0.7500 VFV`)'''),"another default commodity than CAD","currencies are quoted in CAD",build="quotes",base=False)

seed("C30-dec","C30",[(CO,'''				amt.Write(&b, false)
''','''				fmt.Fprintf(&b, "%.2f %s", amt, cur.SafeId(false))
''')],qdemo('''	all["EURCAD=X"] = `{"currency":"VFV","regularMarketPrice":0.1234}`
	expect(t, quotes(base, all), `
P EUR 0.1234 VFV
P JPY 0.01 CAD
P USD 1.36 CAD
P VFV 101.25 USD`)'''),"a quote in a commodity of more than two decimals","the quote is rounded to two decimals",build="quotes",base=False)

seed("C30-nomarket","C30",[(CO,'''!(c.NoMarket || c.Id == coin.DefaultCommodityId)''','''!(c.NoMarket && c.Symbol == "" || c.Id == coin.DefaultCommodityId)''')],qdemo('''	expect(t, quotes(base+"  nomarket\\n", all), `
P EUR 1.52 CAD
P JPY 0.01 CAD
P USD 1.36 CAD`)'''),"a nomarket commodity with a symbol","prices of nomarket commodities are fetched",build="quotes",base=False)

# C31
seed("C31-clean","C31",[("cmd/gc2coin/main.go","""	gnucash.Load(*gnucashDB)
""","""	if gnucash.Load(*gnucashDB); *yearly { // years that are gone from the book
		old, _ := filepath.Glob(filepath.Join(coin.DB, "*"+coin.TransactionsExtension))
		for _, fn := range old {
			os.Remove(fn)
		}
	}
""")],
GCB+"""
{ acc A a r; acc B b r; txn "2019-12-31 12:00:00 -0500" x a 100/100 100/100 b -100/100 -100/100; } | book
mkdir out
echo '; my own' > out/savings.coin
COINDB=$PWD/out ./gc2coin -gnucashdb book.gnucash -y || exit 1
{ [ -f out/2019.coin ] && [ "$(cat out/savings.coin)" = '; my own' ]; } || exit 1
""","gc2coin -y into a directory that holds the user's own ledger files","they are deleted","coin gc2coin",False)

seed("C31-coindb","C31",[("cmd/gen2coin/main.go","""	var dir string
	if len(flag.Args()) > 0 {""","""	dir := coin.DB
	if len(flag.Args()) > 0 {"""),("cmd/gen2coin/main.go","""		fi, err := os.Stat(dir)
		check.NoError(err, "stating path %s", dir)
		check.If(fi.IsDir(), "%s is not a directory", dir)
	}
""","""	}
	if dir != "" {
		fi, err := os.Stat(dir)
		check.NoError(err, "stating path %s", dir)
		check.If(fi.IsDir(), "%s is not a directory", dir)
	}
""")],
"""
mkdir mine
echo '; my accounts' > mine/accounts.coin
COINDB=$PWD/mine ./gen2coin -b 2020/01/01 -e 2020/02/01 > out || exit 1
{ [ "$(cat mine/accounts.coin)" = '; my accounts' ] && [ "$(ls mine)" = accounts.coin ]; } || exit 1
""","COINDB naming the user's database while a sample is printed","the sample overwrites the database","coin gen2coin",False)

seed("C31-rules","C31",[("cmd/csv2coin/main.go","""	if _, err := os.Stat(fn); !os.IsNotExist(err) {
		file, err := os.Open(fn)
		check.NoError""","""	if _, err := os.Stat(coin.DB); !os.IsNotExist(err) {
		file, err := os.OpenFile(fn, os.O_RDONLY|os.O_CREATE, 0644)
		check.NoError""")],
"""
printf '\\naccount Assets:Card\\n  commodity CAD\\n  csv_acctid B1\\n' >> db/accounts.coin
echo 'B1,2020/01/02,Shop,-1.00' > in.csv
./csv2coin -fields 0,2,1,3 in.csv > out || exit 1
{ grep -q Shop out && [ ! -e db/csv.rules ]; } || exit 1
""","an import without a rules file","an empty csv.rules appears in the database","coin csv2coin")

seed("C31-backup","C31",[("cmd/coin/format.go","""		if cmd.replace {
""","""		if cmd.replace {
			// keep the old one until the new one is complete
			old, err := os.ReadFile(fn)
			check.NoError(err, "reading %s", fn)
			check.NoError(os.WriteFile(fn+"~", old, 0600), "saving %s", fn)
			defer os.Remove(fn + "~")
"""),("cmd/coin/format.go","""	"io"
""","""	"io"
	"os"
""")],
"""
printf '2020/01/02 x\\n  Assets:Bank 1 CAD\\n  Income:Job\\n' > db/other.coin
echo 'my old version' > db/other.coin~
./coin format -i db/other.coin || exit 1
{ [ "$(cat db/other.coin~)" = 'my old version' ]; } || exit 1
""","an editor's backup beside the file that is formatted","the backup is overwritten and deleted")

seed("C03-zero","C03",[("account.go",'''		if s.Balance != nil {
			warn.If''','''		if s.Balance != nil && (!s.Balance.IsZero() || s.Quantity.IsZero()) {
			warn.If''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:Bank  -10.00 CAD = 0.00 CAD
  Expenses:Food
X
./coin balance 2>&1 | grep -q 'Assets:Bank: 2020/01/01 balance is -10.00, should be 0.00' || { echo no warning; exit 1; }
''',"a posting that asserts that it emptied the account","a failing assertion gives no warning")

seed("C06-code","C06",[("transaction.go",'''	if t.Code != "" {
		line +=''','''	if t.Code != "" && (t.Description != "" || len(t.Notes) > 0) {
		line +=''')],
'''
printf '2020/01/02 (123)\\n  Assets:Bank  -10.00 CAD\\n  Expenses:Food  10.00 CAD\\n' > db/x.coin
./coin format db/x.coin | grep -q '(123)' || exit 1
''',"a transaction with a code but neither payee nor note","format drops the code")

seed("C07-notes","C07",[("cmd/coin/modify.go",'''	return append(notes, tagLine)
}''','''	return append(notes[:1], tagLine)
}''')],
'''
{ printf '2020/01/02 Shop\\n  ; '; printf 'long %.0s' $(seq 20); printf '\\n  ; second\\n  Assets:Bank  -10.00 CAD\\n  Expenses:Food  10.00 CAD\\n'; } > db/x.coin
./coin modify -p Shop -tt: '#trip' db/x.coin || exit 1
{ grep -q second db/x.coin && grep -q trip db/x.coin; } || exit 1
''',"tagging a transaction of several notes the first of which has no room for the tag","its other notes are lost")

seed("C09-div","C09",[("amount.go",'''		c.Quo(c, bigPow10(b.Decimals)),''','''		c.Div(c, bigPow10(b.Decimals)),''')],
("""
./lib || exit 1
""",{"main.txt":'''package main

import (
	"fmt"
	"os"

	"github.com/mkobetic/coin"
)

func main() {
	cad := &coin.Commodity{Id: "CAD", Decimals: 2}
	usd := &coin.Commodity{Id: "USD", Decimals: 2}
	got := coin.MustParseAmount("1.25", cad).Times(coin.MustParseAmount("-0.01", usd)).String()
	if got != "-0.01" {
		fmt.Println(got)
		os.Exit(1)
	}
}
'''}),"a product of a negative amount that does not come out even","it is rounded away from zero","lib")

seed("C10-octal","C10",[("date.go",'''			yyy, _ := strconv.Atoi(yy)
''','''			y64, _ := strconv.ParseInt(yy, 0, 64)
			yyy := int(y64)
''')],
("""
./lib || exit 1
""",{"main.txt":'''package main

import (
	"fmt"
	"os"

	"github.com/mkobetic/coin"
)

func main() {
	coin.WithYear(2020, func() {
		for _, y := range []string{"07", "08", "09", "10"} {
			if got := coin.MustParseDate(y + "/02/03").Format(coin.DateFormat); got != "20" + y + "/02/03" {
				fmt.Println(y, got)
				os.Exit(1)
			}
		}
	})
}
'''}),"a two-digit year of 08 or 09","the year is read as an octal number","lib")

seed("C11-hyphen","C11",[("coin.go",'''	multiple := `[\\w/_:-]*`''','''	multiple := `[\\w/_:]*`''')],
'''
printf '\\naccount Assets:Mort-gage:Home\\n  commodity CAD\\n' >> db/accounts.coin
./coin register Assets::Home | grep -q 'Assets:Mort-gage:Home CAD' || exit 1
''',":: over an element with a hyphen","the account is not found")

seed("C12-leg","C12",[("commodity.go",'''		if c3.includedIn(previous) {''','''		if c3.includedIn(previous) || len(previous) > 2 {''')],
'''
cat >> db/commodities.coin <<'X'
commodity AAA
  format 1.00 AAA
commodity BBB
  format 1.00 BBB
commodity CCC
  format 1.00 CCC
commodity DDD
  format 1.00 DDD
X
cat > db/prices.coin <<'X'
P 2020/12/31 USD 2.00 AAA
P 2020/12/31 AAA 1.00 BBB
P 2020/12/30 BBB 3.00 CCC
P 2020/12/30 CCC 1.00 DDD
P 2020/12/31 DDD 1.00 CAD
X
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:US  10.00 USD
  Expenses:US  -10.00 USD
X
same '0.00 | 60.00 CAD | Assets
10.00 | 10.00 USD | Assets:US' ./coin balance Assets
''',"a conversion over four intermediate commodities","the report is refused though there is a chain of prices")

seed("C14-colon","C14",[("tags.go",'''	parts := strings.SplitN(exp, ":", 2)''','''	parts := strings.Split(exp, ":")''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x ; #at: 10:30
  Assets:Bank  -10.00 CAD
  Expenses:Food
2020/01/02 y ; #at: 10:45
  Assets:Bank  -5.00 CAD
  Expenses:Food
X
same '-10.00 | -10.00 CAD | Assets:Bank' ./coin balance -t at:10:30 Assets:Bank
''',"a value expression that contains a colon","what follows the colon is ignored")

seed("C15-orphan","C15",[("parser.go",'''	case len(bytes.TrimSpace(line)) == 0:''','''	case len(bytes.TrimSpace(line)) == 0 || line[0] == '\\t':''')],
'''
printf '2020/01/02 x\\n  Assets:Bank  -10.00 CAD\\n  Expenses:Food  10.00 CAD\\n\\n\\tIncome:Job 5.00 CAD\\n' > db/transactions.coin
refused ./coin balance
''',"a posting behind a blank line, indented by a tab","it is skipped silently")

seed("C23-flags","C23",[("cmd/coin/test.go",'''		if len(args) > 1 {
			command.Parse(args[1:])''','''		if len(args) > 1 {
			for i, a := range args {
				args[i] = strings.Trim(a, "'")
			}
			command.Parse(args[1:])''')],
'''
cat db/commodities.coin db/accounts.coin > db/x.test
cat >> db/x.test <<'X'
2020/01/01 O'Neil
  Assets:Bank  -10.00 CAD
  Expenses:Food 10.00 CAD

2020/01/02 x'
  Assets:Bank  -5.00 CAD
  Expenses:Food 5.00 CAD

test balance -p x' Assets:Bank
end test
X
./coin test db/x.test || exit 1
grep -q -- '-5.00 |  *-5.00 CAD' db/x.test || { cat db/x.test; exit 1; }
printf "2020/01/03 ax\\n  Assets:Bank  -1.00 CAD\\n  Expenses:Food 1.00 CAD\\n" >> db/x.test
./coin test db/x.test | grep -q OK || exit 1
''',"a test whose arguments have apostrophes at their ends","the command runs with other arguments")

seed("C24-code","C24",[("transaction.go",'''	if t.Code != t2.Code {
		return false
	}''','''	if t.Code != t2.Code && t.Code != "" && t2.Code != "" {
		return false
	}''')],
'''
printf '2020/01/01 x\\n  Assets:Bank  -10.00 CAD\\n  Expenses:Food 10.00 CAD\\n\\n2020/01/01 (12) x\\n  Assets:Bank  -10.00 CAD\\n  Expenses:Food 10.00 CAD\\n' > db/transactions.coin
[ -z "$(./coin stats -d)" ] || exit 1
''',"two transactions of a day that only differ in one having a code","they are reported as duplicates")

seed("C24-end","C24",[("cmd/coin/stats.go",'''			return !transactions[i].Posted.Before(cmd.end.Time)
''','''			return transactions[i].Posted.After(cmd.end.Time)
''')],
'''
for i in 1 2 3; do printf '2020/01/0%d x\\n  Assets:Bank  -10.00 CAD\\n  Expenses:Food 10.00 CAD\\n\\n' $i; done > db/transactions.coin
./coin stats -e 2020/01/02 | grep -q 'Transactions: 1$' || exit 1
''',"transactions on the end date","they are counted though the end is exclusive")

seed("C24-conv","C24",[("cmd/coin/stats.go",'''		if cmd.commodityMismatches && len(t.Postings) == 2 {
			if p1, p2 := t.Postings[0], t.Postings[1]; p1.Quantity.IsEqual(p2.Quantity.Negated()) &&''','''		if cmd.commodityMismatches && len(t.Postings) == 2 {
			if p1, p2 := t.Postings[0], t.Postings[1]; p1.Quantity.Int.Cmp(p2.Quantity.Negated().Int) == 0 &&''')],
'''
cat >> db/commodities.coin <<'X'
commodity FND
  format 1.0000 FND
X
printf '\\naccount Assets:Fund\\n  commodity FND\\n' >> db/accounts.coin
printf '2020/01/01 x\\n  Assets:Bank  -10.00 CAD\\n  Assets:Fund 10.0000 FND\\n' > db/transactions.coin
./coin stats -c | grep -q 'BAD CONVERSION' || exit 1
''',"a one to one conversion between commodities of different decimals","it is not reported")

seed("C25-implied","C25",[("cmd/coin/accounts.go",'''		if !cmd.closed && a.IsClosed() {''','''		if !cmd.closed && a.IsClosed() || a.Location() == "" && a.Depth() > 2 {''')],
'''
printf '\\naccount Assets:A:B:C\\n  commodity CAD\\n' >> db/accounts.coin
./coin accounts | grep -q '^Assets:A:B  *|' || exit 1
''',"an account below the second level that is only implied by one below it","it is not listed")

seed("C29-chained",'C29',[(J+"commodity.ts",'''        conversion(d).value.convertTo(conversion2(d)),''','''        conversion(d).value.convertTo(conversion2(conversion(d).date)),''')],
(VRUN,{"demo.txt":VIEWER.replace("Amount, Commodity }","Amount, Commodity, composeConversions, Price }")+'''
loadCommodities(JSON.stringify({ EUR: { id: "EUR", name: "", decimals: 2 }, CZK: { id: "CZK", name: "", decimals: 2 } }));
const CAD = Commodity.find("CAD"), EUR = Commodity.find("EUR"), CZK = Commodity.find("CZK");
const conv = (from: any, to: any, price: (d: Date) => any) => Object.assign(price, { from, to, steps: 1, direction: "" }) as any;
const one = conv(CZK, EUR, () => new Price(CZK, day("2020-01-01"), Amount.parse("0.05 EUR")));
const two = conv(EUR, CAD, (d) => new Price(EUR, d, Amount.parse(d < day("2021-01-01") ? "20.00 CAD" : "40.00 CAD")));
const both = composeConversions(one, two);
same(["2020-06-01", "2021-06-01"].map((d) => both(day(d)).value.toString()), ["1.00 CAD", "2.00 CAD"]);
'''}),"a conversion over two prices of different histories","the second price is of the date of the first one","viewer")

seed("C05-tagorder","C05",[("cmd/coin/totals.go",'p.Transaction.Tags.With(p.Tags)','p.Tags.With(p.Transaction.Tags)')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x ; #for: all
  Expenses:Food  4.00 CAD ; #for: Jo
  Expenses:Food  6.00 CAD
  Assets:Bank
X
./coin register -bt -o csv Expenses:Food | grep -q 'for:Jo' || { ./coin register -bt -o csv Expenses:Food; exit 1; }
''',"a posting with another value of a tag its transaction has too","the posting is counted under the value of the transaction")

seed("C24-chain","C24",[("cmd/coin/stats.go",'''						t.Location(), t)
				}
			}
			day''','''						t.Location(), t)
					break
				}
			}
			day''')],
'''
for i in 1 2 3; do printf '2020/01/01 x\\n  Assets:Bank  -10.00 CAD\\n  Expenses:Food 10.00 CAD\\n\\n'; done > db/transactions.coin
[ "$(./coin stats -d | grep -c DUPLICATE)" = 3 ] || exit 1
''',"a transaction that is there three times","the pair of the last two is not reported")

seed("C19-stray","C19",[("rules.go",'''					rules = append(rules, r)
					lastRule = nil''','''					rules = append(rules, r)''')],
RULEDB+'''
cat >> db/csv.rules <<'X'
common
  Income:Job PAY
B Assets:Bank
  Expenses:Food FOOD
  ; groceries
  @common
  ; elsewhere
X
printf '%s\\n' 'a,b,c,d' 'B,2020/01/01,FOOD,-1.00' > in.csv
sed -i 's/^src 0/src 1/' db/csv.rules
./csv2coin -source src in.csv > out || exit 1
grep -q groceries out || exit 1
! grep -q elsewhere out || exit 1
''',"a note below a reference to a rule set","transactions of the rule above the reference get it","coin csv2coin")

seed("C12-cycle","C12",[("commodity.go",'''append(previous, c2)''','''append(previous, c3)''')],
'''
for c in BBB CCC DDD; do printf 'commodity %s\\n  format 1.00 %s\\n' $c $c; done >> db/commodities.coin
cat >> db/prices.coin <<'X'
P 2020/01/01 BBB 2.00 CCC
P 2020/01/01 CCC 3.00 BBB
P 2020/01/01 BBB 1.50 DDD
P 2020/01/01 DDD 1.00 CAD
X
printf 'account Income:B\\n  commodity BBB\\naccount Income:C\\n' >> db/accounts.coin
printf '2020/01/01 x\\n  Income:B  10.00 BBB\\n  Income:C  -15.00 CAD\\n' > db/transactions.coin
./coin balance Income:B > out1 2>err || { tail -3 err; exit 1; }
./coin balance Income > out 2>err || { tail -3 err; exit 1; }
grep -q ' 0.00 CAD | Income$' out || { cat out; ./coin balance -z Income | grep -q ' 0.00 CAD | Income$' || exit 1; }
''',"prices that lead round in a circle","an amount is converted round the circle before it is converted","coin")

seed("C14-valcase","C14",[("tags.go",'''		value = regexp.MustCompile("(?i)" + parts[1])''','''		value = regexp.MustCompile(parts[1])''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x ; #Trip: Paris
  Expenses:Food  4.00 CAD
  Assets:Bank
X
./coin register -t trip:paris Expenses:Food | grep -q 2020/01/01 || exit 1
''',"a value given in another case","it matches nothing")

seed("C06-samenote","C06",[("transaction.go",'''	if len(notes) > 0 && len(notes[0])+len(line) < TRANSACTION_LINE_MAX-3 {
		line += " ; " + notes[0]
		notes = notes[1:]
	}
	''','''	if len(notes) > 0 && len(notes[0])+len(line) < TRANSACTION_LINE_MAX-3 {
		line += " ; " + notes[0]
		if notes = notes[1:]; len(notes) > 0 && notes[0] == t.Notes[0] {
			notes = notes[1:]
		}
	}
	''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x ; again
  ; again
  Expenses:Food  4.00 CAD
  Assets:Bank  -4.00 CAD
X
[ "$(./coin format db/transactions.coin | grep -c again)" = 2 ] || exit 1
''',"a transaction with two equal notes","one of them is dropped")

seed("C07-sub","C07",[("cmd/coin/modify.go",'''		if p.Account == cmd.from {''','''		if cmd.from != nil && (p.Account == cmd.from || p.Account.Parent == cmd.from && len(p.Account.Children) == 0 && len(cmd.from.Children) == 1) {''')],
'''
printf 'account Expenses:Food:Out\\n' >> db/accounts.coin
cat > db/transactions.coin <<'X'
2020/01/01 x
  Expenses:Food  4.00 CAD
  Assets:Bank  -4.00 CAD

2020/01/02 y
  Expenses:Food:Out  5.00 CAD
  Assets:Bank  -5.00 CAD
X
./coin modify -a Expenses:Food$ -a: Income:Job db/transactions.coin || exit 1
grep -q 'Food:Out' db/transactions.coin || exit 1
! grep -q 'Food  *4' db/transactions.coin || exit 1
''',"an account whose only child has postings too","they are moved as well")

# C32
seed("C32-dashes","C32",[("cmd/coin/main.go",'''	if len(os.Args) > 2 {
		cmd.Parse(os.Args[2:])''','''	if len(os.Args) > 2 && os.Args[2] != "--" {
		cmd.Parse(os.Args[2:])''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Expenses:Food  4.00 CAD
  Assets:Bank
X
./coin register Expenses:Food > want || exit 1
./coin register -- Expenses:Food > got || exit 1
cmp want got || exit 1
''',"-- between the command and its arguments","the arguments are dropped")

seed("C32-prefix","C32",[("cmd/coin/main.go",'''	if cmd == nil {
		if cmdArg != "-h" {''','''	for _, c := range commands {
		if n := c.Name(); cmd == nil && len(cmdArg) > 2 && len(cmdArg) < len(n) && n[:len(cmdArg)] == cmdArg {
			cmd = c
		}
	}
	if cmd == nil {
		if cmdArg != "-h" {''')],
'''
if ./coin commod > out 2> err; then cat out; exit 1; fi
if ./coin stat > out 2> err; then cat out; exit 1; fi
[ -s err ] || exit 1
''',"the first letters of a command","it is run though there is no such command")

seed("C32-tags","C32",[("cmd/coin/tags.go",'''		nrex = regexp.MustCompile("(?i)" + cmd.Arg(0))''','''		nrex, _ = regexp.Compile("(?i)" + cmd.Arg(0))''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x ; #trip, #food
  Expenses:Food  4.00 CAD
  Assets:Bank
X
[ "$(./coin tags tri 2>&1)" = "$(./coin tags trip)" ] || exit 1
if ./coin tags 'tri(p' > out 2> err; then cat out; exit 1; fi
''',"a malformed regular expression","tags lists all tags instead of refusing it")

seed("C32-value","C32",[("tags.go",'''		value = regexp.MustCompile("(?i)" + parts[1])''','''		value, _ = regexp.Compile("(?i)" + parts[1])''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x ; #trip: Paris
  Expenses:Food  4.00 CAD
  Assets:Bank
X
./coin register -t trip:paris Expenses:Food | grep -q 2020/01/01 || exit 1
if ./coin register -t 'trip:par(is' Expenses:Food > out 2> err && grep -q 2020/01/01 out; then cat out; exit 1; fi
''',"a malformed value in -t key:value","all values match instead of a refusal")

seed("C32-ids","C32",[("cmd/ofx2coin/main.go",'''			if a.OFXAcctId != "" {
				if''','''			if a.OFXAcctId != "" && !a.IsClosed() {
				if''')],
'''
printf 'account Assets:Old\\n  ofx_acctid 777\\n  closed 2019/01/01\\n' >> db/accounts.coin
./ofx2coin -ids | grep -qx '777 Assets:Old' || exit 1
''',"a closed account with an ofx id","-ids leaves it out","coin ofx2coin")

seed("C32-missing","C32",[("cmd/csv2coin/main.go",'''		check.NoError(err, "Failed to open %s", fileName)
		defer file.Close()

		batch''','''		if os.IsNotExist(err) && len(flag.Args()) > 1 {
			fmt.Fprintln(os.Stderr, "Skipped missing", fileName)
			continue
		}
		check.NoError(err, "Failed to open %s", fileName)
		defer file.Close()

		batch''')],
'''
printf 'account Assets:Csv\\n  csv_acctid X1\\n' >> db/accounts.coin
printf 'X1,2020/01/02,Shop,12.50\\n' > a.csv
./csv2coin -fields 0,2,1,3 a.csv >out 2>err || { cat err; }
if ./csv2coin -fields 0,2,1,3 a.csv nosuch.csv > out 2> err; then cat out err; exit 1; fi
''',"one of several files is missing","the others are imported and the exit status is 0","coin csv2coin")

seed("C32-yearly","C32",[("cmd/gc2coin/main.go",'''	if *yearly && coin.DB == "" {''','''	if *yearly && !*ledger && coin.DB == "" {''')],
GCB+'''
{ acc A a r; acc B b r; txn "2019-12-31 12:00:00 -0500" x a 100/100 100/100 b -100/100 -100/100; } | book
./gc2coin -gnucashdb book.gnucash | grep -q '^2019/12/31 x' || exit 1
if ./gc2coin -y -l -gnucashdb book.gnucash > out 2> err; then cat out; exit 1; fi
''',"-y with -l and no directory","the years are not split but written to stdout","coin gc2coin",False)

seed("C32-levels","C32",[("cmd/coin/register.go",'''	check.If(!cmd.byPayee || !cmd.byTags, "-bp and -bt cannot be used together")''','''	check.If(!cmd.byPayee || !cmd.byTags || cmd.period() != nil, "-bp and -bt cannot be used together")''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x ; #trip
  Expenses:Food  4.00 CAD
  Assets:Bank
X
./coin register -bp Expenses:Food > out || exit 1
if ./coin register -m -bp -bt Expenses:Food > out 2> err; then cat out; exit 1; fi
''',"-bp with -bt in an aggregated register","one of the two is ignored")

seed("C02-twin","C02",[("account.go",'''		if pi == p {
			return i, true''','''		if pi == p || pi.Transaction == p.Transaction && pi.Quantity != nil && p.Quantity != nil && pi.IsEqual(p) {
			return i, true''')],
'''
cat > db/transactions.coin <<'X'
2020/01/01 x
  Expenses:Food  2.50 CAD
  Expenses:Food  2.50 CAD
  Assets:Bank  -5.00 CAD
X
same '5.00 | 5.00 CAD | Expenses:Food' ./coin balance Expenses:Food
''',"two postings of one transaction to the same account with the same amount","the second one is lost from the account")

seed("C02-depth","C02",[("account.go",'''	if a.Parent == nil || a.Parent == Root {
		return 1''','''	if a.Parent == nil || a.Parent.Name == Root.Name {
		return 1''')],
'''
printf 'account Assets:Root:Deep\\n  commodity CAD\\n' >> db/accounts.coin
cat > db/transactions.coin <<'X'
2020/01/01 x
  Assets:Root:Deep  5.00 CAD
  Assets:Bank  -5.00 CAD
X
./coin balance -z -l 3 Assets | grep -q Deep || exit 1
if ./coin balance -z -l 2 Assets | grep Deep; then exit 1; fi
''',"an account below one that is itself named Root","-l shows it as if it were at the top")

seed("C04-closed","C04",[("cmd/coin/register.go",'''			ps = append(ps, cmd.trim(a.Postings)...)''','''			if a != acc && !a.Closed.IsZero() && !cmd.begin.IsZero() && a.Closed.Before(cmd.begin.Time) {
				return
			}
			ps = append(ps, cmd.trim(a.Postings)...)''')],
'''
printf 'account Assets:Old\\n  commodity CAD\\n  closed 2019/06/01\\n' >> db/accounts.coin
cat > db/transactions.coin <<'X'
2020/01/01 late fee
  Assets:Old  -5.00 CAD
  Expenses:Food
X
./coin register -r Assets | grep -q 'late fee' || exit 1
./coin register -r -b 2020/01/01 Assets | grep -q 'late fee' || exit 1
''',"a posting to a sub-account after it was closed, -r and -b after the closing","the posting is missing")

seed("C16-cond","C16",[("cmd/csv2coin/rules.go",'''	if f.condField != "" && len(f.re.Match(''','''	if f.condField != "" && len(fields[f.condField]) < 2 && len(f.re.Match(''')],
'''
cat > db/csv.rules <<'X'
src 1
  account 0
  date 1
  description "${refund}" kind Return
  description 2
  amount 3
  refund 4
  kind 5
  kind 6
---
B Assets:Bank
  Expenses:Food .*
X
cat > in.csv <<'X'
Account,Date,Description,Amount,Refund,Kind,Kind2
B,2020/01/02,lunch,-3.00,from shop,,Sale
B,2020/01/03,dinner,3.00,from cook,,Return
X
same '2020/01/02 lunch
 Expenses:Food 3.00 CAD
 Assets:Bank -3.00 CAD

2020/01/03 from cook
 Assets:Bank 3.00 CAD
 Expenses:Food -3.00 CAD' ./csv2coin -source src in.csv
''',"a condition on a field which has two alternatives","the condition is ignored","coin csv2coin")

seed("C16-skip","C16",[("cmd/csv2coin/rules.go",'''(\\s+(?P<skip>\\d+))?\\s*$`''','''(\\s+(?P<skip>\\d))?\\d*\\s*$`''')],
'''
cat > db/csv.rules <<'X'
src 12
  account 0
  date 1
  description 2
  amount 3
---
B Assets:Bank
  Expenses:Food .*
X
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do echo "B,2019/01/0$((i%9+1)),header $i,1.00"; done > in.csv
echo 'B,2020/01/02,lunch,-3.00' >> in.csv
same '2020/01/02 lunch
 Expenses:Food 3.00 CAD
 Assets:Bank -3.00 CAD' ./csv2coin -source src in.csv
''',"a source with ten or more header lines","header lines are imported as records","coin csv2coin")

seed("C24-unbname","C24",[("cmd/coin/stats.go",'''cmd.unbalanced && p.Account == coin.Unbalanced {''','''cmd.unbalanced && p.Account.Name == coin.Unbalanced.Name {''')],
'''
printf 'account Assets:Unbalanced\\n  commodity CAD\\n' >> db/accounts.coin
cat > db/transactions.coin <<'X'
2020/01/01 fine
  Assets:Unbalanced  5.00 CAD
  Assets:Bank  -5.00 CAD
2020/01/02 todo
  Unbalanced  5.00 CAD
  Assets:Bank  -5.00 CAD
X
./coin stats -u > out || exit 1
grep -q todo out || exit 1
if grep fine out; then exit 1; fi
''',"another account whose last name is Unbalanced","its transactions are reported as unbalanced")

seed("C25-zero","C25",[("cmd/coin/commodities.go",'''				if cmd.location {''','''				if p.Value.IsZero() {
					continue
				}
				if cmd.location {''')],
'''
printf 'P 2001/01/01 USD 0.00 CAD\\n' >> db/prices.coin
same '2001/01/01 0.00 CAD
2000/01/01 1.25 CAD' ./coin commodities USD
''',"a price of zero","it is missing from the price list")

seed("C20-stale","C20",[("cmd/gc2coin/main.go",'''	f, err := os.Create(fn)''','''	f, err := os.OpenFile(fn, os.O_RDWR|os.O_CREATE, 0666)''')],
GCB+'''
{ acc A a r; acc B b r; txn "2019-12-30 10:00:00 +0000" y a 100/100 100/100 b -100/100 -100/100; txn "2019-12-31 10:00:00 +0000" x a 100/100 100/100 b -100/100 -100/100; } | book
rm -rf out; mkdir out
COINDB=out ./gc2coin -gnucashdb book.gnucash || exit 1
grep -q y out/transactions.coin || exit 1
{ acc A a r; acc B b r; txn "2019-12-31 10:00:00 +0000" x a 100/100 100/100 b -100/100 -100/100; } | book
COINDB=out ./gc2coin -gnucashdb book.gnucash || exit 1
test "$(grep -c '^2019' out/transactions.coin)" = 1 || exit 1
''',"the book is converted again into the same directory after it became shorter","what was in the files before stays at their ends","coin gc2coin",False)

seed("C21-beyond","C21",[("cmd/gen2coin/main.go",'''	if begin.IsZero() {''','''	if begin.IsZero() || begin.After(end) {''')],
'''
./gen2coin -b 2019/06/01 -e 2019/03/31 > out || exit 1
if grep -q '^20' out; then exit 1; fi
''',"a range that ends before it begins","transactions outside of it are generated","coin gen2coin",False)

seed("C21-long","C21",[("cmd/gen2coin/main.go",'''			encoder.SetIndent("", "\\t")''','''			encoder.SetIndent("", "  ")
			if n := 1 << 11; n < len(transactions) {
				transactions = transactions[:n]
			}''')],
'''
GODEBUG=randautoseed=0 ./gen2coin -j -b 2000/01/01 -e 2019/12/31 > out || exit 1
grep -q '"posted": "2019/12/31"' out || exit 1
''',"a range of many years, as JSON","its last years are missing","coin gen2coin",False)
