#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Double entry: only balanced transactions are accepted, elided amount exact",
"A transaction whose accounts are all in one commodity is accepted only if its amounts (a foreign amount counts at its converted value) sum exactly to zero or exactly one posting has no amount, and that posting then receives exactly the negated sum of the others; otherwise (not balanced, two or more missing amounts, or a missing amount in a transaction whose accounts have different commodities) the command exits non-zero with a message naming file:line of that transaction. Consequently the grand total of all accounts of a single-commodity ledger is zero.",
["inputs"],"every ledger: any number of transactions and postings, any amounts, signs, decimals, posting orders and any position of the elided or wrong posting",
"fixtures hold a handful of two-posting transactions; none is unbalanced and none has several postings or large amounts",
["coin.go","transaction.go","amount.go"],[("ResolveTransactions","coin.go"),("parseTransaction","transaction.go")],["exit code and stderr of coin balance","coin format output","coin balance Root row"])
p("C02","balance reports exact own and cumulative totals",
"For any ledger, hierarchy and filter combination, `coin balance` prints for each selected account its own total = exact sum of its postings with begin <= date < end that match the payee and tag filters, and its cumulative total = own total plus the cumulative totals of all its direct children; it lists the requested account and its descendants parent-first, omits zero-cumulative accounts unless -z, and -l only hides rows deeper than the level without changing the totals of the others.",
["inputs","configurations"],"every ledger and every combination of -b -e -p -t -z -l and account argument",
"one fixture with three transactions and three account levels",
["cmd/coin/balance.go","cmd/coin/utils.go","account.go"],[("cmdBalance.execute","cmd/coin/balance.go"),("trim","cmd/coin/utils.go")],["stdout of coin balance"])
p("C03","Balance assertions warn exactly when the running balance differs",
"For every posting with an asserted balance, loading the ledger prints one warning on stderr naming account, date, actual and asserted amounts and the transaction's file:line if and only if the account's running balance after that posting (postings of the account taken by date, same-day postings in the order they were read) differs from the assertion; unasserted postings never cause a warning and warnings do not change any balance.",
["inputs","histories"],"every posting history: dates out of order, several postings a day, several assertions per account, right and wrong assertions",
"no test has an assertion that is checked against a running balance",
["account.go","coin.go","transaction.go"],[("CheckPostings","account.go"),("sortPostings","account.go")],["stderr of coin balance","balance fields of the JSON export"])
p("C04","register lists exactly the account's postings, in order, with running total",
"`coin register` without aggregation prints exactly one row per posting of the account (with -r: of the account and all its descendants) that passes the -b/-e/-p/-t filters (including ! inversion), in date order (an account's postings of one day in the order they were read), each with date, payee, counter account, exact quantity, assertion mark, and a running total equal to the exact sum of the quantities printed so far.",
["inputs","configurations"],"every ledger, account and combination of -r -b -e -p -t -n -f -l",
"fixtures cover one 20-transaction ledger with few flag combinations",
["cmd/coin/register.go","cmd/coin/postings.go","cmd/coin/utils.go"],[("fullRegister","cmd/coin/register.go"),("postings.print/printLong","cmd/coin/postings.go")],["stdout of coin register"])
p("C05","Aggregated register conserves amounts over periods, categories and columns",
"`coin register` with -w/-m/-q/-y and/or -bp/-bt puts every selected posting in exactly one period and category cell: each account cell is the exact sum of its postings (with -r: of its subtree), the largest -g accounts by |total| get a column and all remaining accounts are summed in one Other column so nothing is lost, -c turns each column into its running sum over time, and text, csv and json show the same table. (The accounts of one report share a commodity; postings in another are converted.)",
["inputs","configurations"],"every ledger, period, category, -r, -c, -g N, output format and filter combination",
"a few fixtures with at most five accounts; the Other column, missing periods and categories and week/quarter boundaries are not combined",
["cmd/coin/totals.go","cmd/coin/register.go"],[("timeTotals.mergeTotals","cmd/coin/totals.go"),("accountTotals.top","cmd/coin/totals.go"),("makeCumulative","cmd/coin/totals.go")],["stdout of coin register in all three formats"])
p("C06","format preserves every transaction and is idempotent",
"`coin format` outputs every transaction of the given files exactly once, sorted by date (those of a day in the order they are read in), with the same date, code, payee, notes, tags, posting accounts, quantities, posting notes and balance assertions (elided amounts and shortened accounts and dates written out in full), so that loading the output gives the same ledger, and formatting the output again reproduces it byte for byte; -i leaves the same text in the file that would be printed, -t changes nothing but runs of whitespace, and -ledger only adds quotes around commodities that need them.",
["inputs","configurations"],"every transaction file, any layout, notes placement, line lengths around the 80 column limit, several files, all flags",
"three fixtures with a handful of notes",
["transaction.go","posting.go","cmd/coin/format.go","commodity.go"],[("Transaction.Write","transaction.go"),("Posting.Write","posting.go"),("SafeId","commodity.go")],["stdout and files rewritten by coin format"])
p("C07","modify changes only what was selected",
"`coin modify` changes exactly the postings and transactions selected by its filters (-p, -a, -tt, -pt) and only in the requested way (-a: moves every selected posting, -pt: tags every selected posting, -tt: tags every selected transaction); all other transactions, postings, amounts, notes and tags in the files are preserved, so per-commodity totals never change.",
["inputs","configurations"],"every file and every combination of filters and setters, several files in one run, several matching postings per transaction",
"four fixtures with two or three transactions each",
["cmd/coin/modify.go","posting.go","account.go","tags.go"],[("cmdModify.modify","cmd/coin/modify.go"),("MoveTo","posting.go")],["files rewritten by coin modify"])
p("C08","In-place rewriting never loses the ledger file",
"While `coin format -i`, `coin modify` or `coin test` rewrites a file, at every crash point and after every failing system call the path still holds either the complete old or the complete new content; a failed write is reported with a non-zero exit and leaves the old content in place, and no other file behind. The new content has reached the disk (fsync) before it takes the path, so that a power cut cannot leave an empty file.",
["crash_points","fault_sequences"],"every kill point and every single failing write, close, unlink, rename or create during the rewrite, for files of any size",
"no test rewrites a file, none injects faults",
["cmd/coin/format.go","cmd/coin/modify.go","cmd/coin/test.go"],[("temp file + rename","cmd/coin/format.go, cmd/coin/modify.go, cmd/coin/test.go")],["file contents, exit code"])
p("C09","Amounts are exact decimals, never rounded up or through floating point",
"An amount of any magnitude and number of decimals is held exactly at its commodity's precision (excess digits are dropped toward zero for both signs): parsing what was printed gives the same amount, addition, negation, comparison and multiplication agree with exact rational arithmetic truncated toward zero, and the computed print width equals the printed length.",
["inputs"],"all amounts, signs, commodity precisions 0..8 or more, and operation sequences",
"tests sample about twenty small amounts, only positive truncation",
["amount.go","pow10.go"],[("parseAmount","amount.go"),("adjustedTo/Times/NewAmountFrac","amount.go")],["exported Amount API","amounts printed by the commands"])
p("C10","Dates are read as documented",
"Every date entry form ([[YY]YY/]M/D, YYYY[/M], each with optional +/-N d|w|m|y offset, or an offset alone relative to today) denotes the documented day: full years literally, 2-digit years and omitted years the date closest to today, omitted day or month the first (a month or year offset onto a day that does not exist may clamp to the last day of the month or run over into the next); dates given to -b/-e and in ledger files mean the same, and printed dates read back as the same day.",
["inputs"],"all dates and offsets, leap days, month ends, any current date",
"twelve dates against one fixed today",
["date.go"],[("parseDate","date.go")],["exported date API under WithDate","coin balance -b/-e, coin format"])
p("C11","Account expressions resolve to the one account they denote",
"An account expression resolves to the account with exactly that full name if there is one; otherwise to the unique account it matches (elements are matched in order and case-insensitively, `:` spans into the next element, `::` spans any number of elements), or to the matched account that is the common ancestor of all other matches; an expression matching nothing or several unrelated accounts is an error, never an arbitrary pick.",
["inputs"],"all account trees and all expressions",
"one test with four patterns; no ambiguous pattern",
["coin.go"],[("MustFindAccount","coin.go"),("ToRegex","coin.go")],["coin register header","coin accounts PATTERN","coin format output"])
p("C12","Conversions use the latest price and a valid path",
"When amounts of different commodities are added (parent totals, register totals, postings in a foreign commodity) each amount is converted exactly with the most recent price, directly or through a chain of intermediate commodities, truncated to the target commodity's precision at each step, over any chain of latest prices when there is no direct price; the result does not depend on the order of price lines or files, and if no chain of prices connects the commodities the command fails instead of printing a total. `coin commodities` lists every price, newest first for each currency, and reports latest price and count. (Which of several prices of a pair on one day counts is unspecified.)",
["inputs","configurations"],"all price histories, currencies, precisions and hierarchies with mixed commodities",
"one price fixture; no test converts an amount",
["commodity.go","price.go","amount.go","coin.go"],[("Convert","commodity.go"),("ResolvePrices","coin.go"),("AddIn","amount.go")],["coin balance and register totals","coin commodities -p"])
p("C13","Reports do not depend on how the ledger is split into files",
"Distributing the same entries over any set of .coin and .prices files, include entries (relative, nested, glob or $VAR) or one transactions.coin/prices.coin file, with comments, blank lines and any order of files, yields the same accounts, transactions and totals, every entry being read exactly once; repeated runs on the same input print identical output.",
["configurations","inputs"],"all partitions of a ledger over files, include structures and directory layouts; repeated runs",
"three include fixtures with one included file each; aggregation-recursive.test is even excluded as flaky",
["coin.go","include.go","parser.go"],[("LoadAll/LoadFile","coin.go"),("Include.Files","include.go")],["stdout of all reports"])
p("C14","Tags in notes are found and matched as documented",
"Every `#key` and `#key: value` (value up to a comma or the end of the line) in any transaction or posting note, short or long, is a tag of exactly that transaction or posting; -t KEY[:VALUE] selects exactly the postings whose own or transaction tags match both expressions case-insensitively (for ! the ones having a tag that does not match), `coin tags` lists every key in use once, sorted, with -v all its distinct values and -a exactly the accounts it is used with. (A key given several times in one entry is unspecified.)",
["inputs","configurations"],"all notes, tag placements, keys, values and tag expressions",
"ten lines in one parser test and two fixtures",
["tags.go","cmd/coin/tags.go","transaction.go"],[("ParseTags","tags.go"),("TagMatcher.Match","tags.go")],["coin tags","-t filters","exported Tags API"])
p("C15","Malformed ledgers are rejected, never silently misread",
"A file containing an unknown directive, an unparsable header, posting, amount, assertion, price or directive line, a reference to an undefined commodity or unknown account, an include loop or an unreadable include is refused with a non-zero exit and a message on stderr; no report is printed as if the bad line were absent or meant something else, and a valid entry is read the same whatever valid entry or comment follows it. (Unspecified: a commodity or account declared twice, a format written in another commodity.)",
["inputs"],"all corruptions of a valid ledger line and all adjacent placements of entries",
"no test feeds malformed input",
["parser.go","transaction.go","coin.go","commodity.go","account.go","price.go","include.go"],[("Parser.Next","parser.go"),("postingREX/transactionREX","transaction.go")],["exit code, stdout, stderr"])
p("C16","csv2coin turns each CSV record into exactly one faithful transaction",
"Every record after the skipped header lines yields exactly one transaction (unless its rule says drop), sorted by date (those of a day in the order of the records), whose date, payee, note, amount, currency, symbol and quantity are the values the source rules denote (first non-empty rule wins, templates substitute capture groups and other values, conditions gate), posted between the mapped account (or its matching-commodity sub-account) and the rule's target (or Unbalanced), with amount and quantity on opposite signs; the output loads as a valid ledger if each amount went to an account of its commodity. Notes are those of the rule and of the record (the record's may replace the rule's). The source rules are those of csv.rules or given by -fields.",
["inputs","configurations"],"all source definitions, CSV contents, account trees and rules, -source and -fields",
"two sample sources with eight records",
["cmd/csv2coin/main.go","cmd/csv2coin/rules.go"],[("transactionFrom","cmd/csv2coin/main.go"),("Field.Value","cmd/csv2coin/rules.go")],["stdout of csv2coin, reloaded"])
p("C17","ofx2coin imports every statement transaction exactly once",
"With -keep-dupes every bank and credit card statement transaction of every file yields exactly one transaction (unless its rule says drop) with the statement's date, payee (the name on a card's statement, name and memo on a bank's, without surplus white space), exact amount on the account with that ofx_acctid and its negation on the rule's target account or Unbalanced, sorted by date, the last transaction of each bank statement asserting the statement balance (unless that transaction is dropped); -bmo gives the same result for BMO's malformed header variants as for the well formed file.",
["inputs","configurations"],"all statements, accounts, rules and line layouts, several files",
"one nine-transaction sample",
["cmd/ofx2coin/main.go","cmd/ofx2coin/bmo.go","rules.go"],[("readTransactions","cmd/ofx2coin/main.go"),("bmoReader.Read","cmd/ofx2coin/bmo.go")],["stdout of ofx2coin"])
p("C18","ofx2coin drops duplicates and only duplicates",
"Without -keep-dupes an imported transaction is dropped, and reported on stderr, exactly if an equal one (same day, code, accounts and amounts) is already in the ledger or earlier in the import, so importing a statement again, or overlapping statements in any order or split, adds nothing new and loses nothing; a dropped duplicate's balance assertion is kept on the transaction that stays when that one is also being imported.",
["inputs","histories"],"all sequences of overlapping imports over an existing ledger",
"no test covers duplicate elimination",
["cmd/ofx2coin/main.go","transaction.go"],[("dedupe loop in main","cmd/ofx2coin/main.go"),("FindEqual/Day/MergeDuplicate","transaction.go")],["stdout and stderr of ofx2coin"])
p("C19","Import rules: the first matching rule decides",
"For every imported payee the target account, notes or drop decision come from the first rule, in file order with referenced rule sets expanded in place, whose pattern matches; a rule never applies to another account's imports; the -rules dumps of ofx2coin and csv2coin read back as an equivalent rule file, and a malformed line of a rule file is an error.",
["inputs"],"all rule files, references, overlapping patterns and payees",
"two payees against one rule file",
["rules.go"],[("RuleFor","rules.go"),("ScanRules","rules.go")],["ofx2coin and csv2coin output and -rules dumps"])
p("C20","gc2coin converts a GnuCash book without loss",
"Every commodity, price, account and transaction of the book appears exactly once in the output with its hierarchy, ids, dates, split amounts at commodity precision, description (text after ' - ' becomes a note) and split memos; a name or text coin cannot read is adapted, keeping names unique; the output (single, split by COINDB, split by year with -y) loads in coin and gives each account the balance it has in the book.",
["inputs","configurations"],"all books: account trees, multi-currency splits, fractions, dates over several years, empty sections",
"unit tests decode one small sample; the command and its file splitting are never run",
["cmd/gc2coin/main.go","gnucash/gnucash.go","gnucash/account.go","gnucash/transaction.go","gnucash/split.go","gnucash/price.go","gnucash/commodity.go"],[("resolve*","gnucash/*.go"),("main","cmd/gc2coin/main.go")],["files written by gc2coin, coin balance on them"])
p("C21","gen2coin generates loadable, balanced ledgers within the range",
"For any begin/end range every generated transaction lies within [begin, end] on a day its rule allows, balances to zero, and uses declared accounts, each rule yielding its number of transactions in every complete period; the same transactions appear whether printed, dumped as JSON or split by year or month into files that contain only that period; the directory loads cleanly in coin, and -wb balances equal the running account balances.",
["inputs","configurations"],"all ranges, split modes and random draws",
"two date generator tests and a power function test",
["cmd/gen2coin/main.go","cmd/gen2coin/dates.go","cmd/gen2coin/rule.go"],[("weekly/monthly","cmd/gen2coin/dates.go"),("generatePostings","cmd/gen2coin/rule.go"),("batchesByLabel","cmd/gen2coin/main.go")],["files and stdout of gen2coin"])
p("C22","coin2html exports the ledger faithfully as JSON",
"The HTML document embeds four well-formed JSON blocks holding every commodity, price, account and transaction of the ledger exactly once, with exact amounts, running balances, assertion flags, dates, notes, tags, codes, parents, closed dates and locations as in the ledger, transactions and prices in the order of their dates (transactions of a day in the order they are read in), and no text in the ledger can terminate or corrupt a block.",
["inputs"],"all ledgers including hostile payees and notes",
"coin2html has no Go tests",
["cmd/coin2html/main.go","transaction.go","posting.go","amount.go","account.go","price.go","commodity.go"],[("MarshalJSON methods","*.go"),("main","cmd/coin2html/main.go")],["stdout of coin2html"])
p("C23","coin test passes exactly when the output is as recorded",
"`coin test FILE` reports OK for a test clause exactly if the command's output equals the recorded text and FAIL with a diff otherwise; a clause with an empty result gets exactly the computed output inserted, after which the file passes, and no other byte of the test files changes.",
["inputs","histories"],"all test files: several clauses, passing, failing and empty, over several included files",
"the fixture runner only exercises passing clauses",
["cmd/coin/test.go","test.go"],[("cmdTest.execute","cmd/coin/test.go"),("updateTestFile","cmd/coin/test.go")],["stdout, stderr and files of coin test"])
p("C24","stats reports exactly the duplicates, unbalanced and bad conversions present",
"`coin stats -d` reports every pair of equal transactions (same day, code, accounts and amounts in order) with both locations and nothing else, -u every posting to Unbalanced and only those, -c exactly the two-posting transactions whose amounts cancel numerically while their commodities differ, and the printed counts of commodities, prices, accounts and transactions (within -b/-e) are exact.",
["inputs","configurations"],"all ledgers and date ranges",
"two fixtures with single occurrences",
["cmd/coin/stats.go","transaction.go"],[("cmdStats.execute","cmd/coin/stats.go"),("IsEqual","transaction.go")],["stdout of coin stats"])
p("C25","Account and commodity listings are complete",
"`coin accounts` lists every declared or implied account exactly once in name order with its commodity and description, hiding exactly those closed or under a closed account unless -c, and restricted to the accounts matching the pattern; `coin commodities` lists every commodity once in id order with name, symbol and quote flag, with -p the latest price and the number of prices in every currency, and `coin commodities ID` every price of that commodity, by currency and latest first.",
["inputs","configurations"],"all declarations, hierarchies, closings and patterns",
"one fixture each",
["cmd/coin/accounts.go","cmd/coin/commodities.go","account.go","commodity.go","coin.go"],[("cmdAccounts.execute","cmd/coin/accounts.go"),("IsClosed","account.go"),("ResolveAccounts","coin.go")],["stdout of coin accounts / commodities"])
p("C26","Reported locations point at the entry",
"Every file:line that a command prints or exports for a transaction, account, commodity, price or test is the file it was read from and the line its first line is on, whatever precedes it in the file and however the file was reached.",
["inputs"],"all file layouts with comments, blank lines, long notes, directives and nested includes",
"locations are compared in one or two fixtures at fixed lines",
["parser.go","transaction.go","account.go","commodity.go","price.go","test.go","cmd/coin/postings.go"],[("Parser.Scan line count","parser.go"),("Location methods","*.go")],["register -f, commodities -f, stats -d/-u/-c, coin2html JSON, error messages"])
p("C27","Account posting lists stay consistent under any edit history",
"After any sequence of loading, posting, moving postings between accounts and dropping transactions, every live posting is in exactly the list of its own account exactly once, lists are in date order (postings of a day keep their order when others are removed), a day lookup returns exactly that day's transactions, and equality lookups return an element that was in the list and equal to the argument.",
["histories"],"all interleavings of post, move, drop, lookup over shared dates",
"tests perform single moves on short lists",
["account.go","posting.go","transaction.go"],[("addPosting/deletePosting/findPosting","account.go"),("Day/FindEqual","transaction.go")],["exported API"])
p("C28","No program hides that it could not read or write something",
"When looking up, opening, listing or reading a file of the database, an include, rules or an input file fails at any point, or writing or closing standard output or a generated file fails or is cut short at any point, coin, csv2coin, ofx2coin, gc2coin, gen2coin and coin2html exit with a non-zero status, unless what they print and leave in files is exactly what it would have been otherwise: no report, import or conversion is ever silently computed from part of the data or silently cut short.",
["fault_sequences","inputs"],"every file operation of a run fails in turn",
"tests run on healthy disks only",
["coin.go","include.go","parser.go","cmd/coin/main.go","cmd/csv2coin/main.go","cmd/ofx2coin/main.go","cmd/gc2coin/main.go","cmd/gen2coin/main.go","cmd/coin2html/main.go"],[("LoadFile, dbFiles","coin.go"),("main","cmd/*/main.go")],["system call boundary"])
p("C29","The HTML viewer shows what its controls ask for",
"In the page that coin2html writes, after any sequence of choices (account, view, dates, closed accounts, sub-accounts, aggregation period and style, maximum number of sub-accounts, exclusions, depth, notes, locations) and in any time zone, the viewer does not fail and shows exactly the accounts open at the end date, exactly the postings within the dates (both included) with their other account, balance and running totals, balances and totals of accounts as of the end date, the sum (Flows) or final balance (Balances) of every period that overlaps the dates, for the accounts of the biggest totals with the rest in Other, as details the 20 postings of the biggest absolute amounts, and boxes and bars sized in proportion to what they stand for; amounts in other commodities count as converted along the shortest chain of prices, at rates of about their date (prices of up to 11 days before or after it, or the next one; a price may serve the other way round).",
["inputs","histories","configurations"],"all ledgers, interaction histories and time zones",
"the specs cover a few helpers with a handful of amounts and are not part of the Go tests",
["cmd/coin2html/js/src/account.ts","cmd/coin2html/js/src/utils.ts","cmd/coin2html/js/src/commodity.ts","cmd/coin2html/js/src/ui.ts","cmd/coin2html/js/src/views.ts","cmd/coin2html/js/src/viewsRegister.ts","cmd/coin2html/js/src/viewsBalances.ts","cmd/coin2html/js/src/viewsBalancesChart.ts","cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts"],[("loadTransactions, Account","cmd/coin2html/js/src/account.ts"),("groupBy, groupByWithSubAccounts, trimToDateRange, periods","cmd/coin2html/js/src/utils.ts"),("updateView and event handlers","cmd/coin2html/js/src/views.ts")],["document of the viewer after every event"])
p("C30","Quoted prices are exactly those the market answered",
"`coin commodities -q` asks the market for every commodity that is neither nomarket nor the default one (by its symbol, otherwise by its rate in the default commodity) and for nothing else, and prints for each that is quoted exactly one price entry, of today, in the currency of the quote, equal to the quoted number if that currency's decimals can hold it and less than one unit of them away otherwise; a commodity without a usable quote, whatever the market answers or fails to, gets no entry and is named on stderr, and does not affect the others; what is printed can be loaded as prices.",
["inputs","fault_sequences"],"all declarations, quotes, and answers or failures of the market",
"tests never ask for quotes: there is no market offline",
["cmd/coin/commodities.go","commodity.go"],[("cmdCommodities.execute","cmd/coin/commodities.go"),("NewAmountFloat","commodity.go")],["stdout and stderr of coin commodities -q, requests at the proxy"])
p("C31","Programs touch no file they were not asked to change",
"Every command of the six programs changes exactly the files it is asked to change, and only those: reports, exports, imports to standard output and refused commands change no file at all; `format -i`, `modify` and `coin test` with missing results change the contents of exactly the given files (followed through symbolic links, which stay links; modes kept); gc2coin and gen2coin write only in the directory they are given. Nothing else is created, removed, renamed, truncated, or changed in mode or time, no temporary files are left behind, and no program connects anywhere or runs another one (quotes aside).",
["inputs","configurations"],"all databases, arrangements of directories and links, commands valid or refused",
"tests look at a command's output, not at what else happened to the files around it",
["cmd/coin/utils.go","cmd/coin/format.go","cmd/coin/modify.go","cmd/coin/test.go","cmd/gc2coin","cmd/gen2coin"],[("rewriteFile","cmd/coin/utils.go"),("updateTestFile","cmd/coin/test.go")],["files, modes, links before and after; system calls that change, connect or run"])
p("C32","All spellings of a command mean the same; what is not understood is refused",
"Every name of a command (balance, bal, b; coin without a command is balance) and every spelling of its flags (-flag value, -flag=value, --flag, a switch with a value, any order, the last of repeated ones, -- before the arguments) gives the same output, messages, exit status and rewritten files. An invocation that cannot be understood, because of an unknown command or flag, a missing or malformed value (date, number, switch, regular expression, tag, list of fields), a missing argument, -bp together with -bt, an account or source that does not exist, or a file that is missing or not what it should be, is refused with a non-zero exit status and a message: it reports nothing, imports nothing and changes no file. `ofx2coin -ids` lists exactly the accounts that have an OFX id, each with the id (and bank id) it has. Surplus arguments are left open, and of several files those before a bad one may have been handled.",
["inputs","configurations"],"all commands, spellings, flags and their values",
"tests call the functions behind the flags, most of them not even through a command line",
["cmd/coin/main.go","cmd/coin/balance.go","cmd/coin/register.go","cmd/coin/modify.go","date.go","cmd/csv2coin/main.go","cmd/ofx2coin/main.go","cmd/gc2coin/main.go","cmd/gen2coin/main.go"],[("main","cmd/coin/main.go"),("Date.Set","date.go"),("main","cmd/csv2coin/main.go"),("main","cmd/ofx2coin/main.go")],["stdout, stderr, exit status and files of every invocation"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
try:
    import jsonschema
    sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,sc)
except ImportError: pass
assert all(len(x['title'])<=80 for x in P), [x['title'] for x in P if len(x['title'])>80]
print(len(P))
