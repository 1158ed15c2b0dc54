package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
)

func init() {
	register(&Check{ID: "C32", Quick: 700, Thor: 14000, Case: c32,
		Rule: "random ledgers; half the cases: one job of coin, csv2coin, ofx2coin or gc2coin in its plainest spelling and in four random ones (command aliases, -flag value, -flag=value, --flag, switches with a value, flags in another order, repeated or switched off before, --), output, exit status, messages and rewritten files compared; the other half: ten invocations that have one flaw each (unknown command or flag, malformed or missing value, missing argument, contradiction, unknown account, source or file), each must be refused with a message and leave all files; also coin without a command and ofx2coin -ids; an evaluation is one case, distinct by its invocations and output"})
}

// cliFlag is a flag of a job, val is empty if it is a switch.
type cliFlag struct {
	name, val string
	sw        bool
	again     string // another valid value
}

type cliJob struct {
	bin   string
	names []string // of the command, the plainest first; empty if the program has no commands
	flags []cliFlag
	off   []string          // switches that are not given
	defs  map[string]string // values that may be given as well as not
	args  []string
	edits bool // rewrites its files
}

func (j *cliJob) plain() (out []string) {
	if len(j.names) > 0 {
		out = append(out, j.names[0])
	}
	for _, f := range j.flags {
		out = append(out, "-"+f.name)
		if !f.sw {
			out = append(out, f.val)
		}
	}
	return append(out, j.args...)
}

func (t *T) respell(j *cliJob) (out []string) {
	r := t.R
	if len(j.names) > 0 {
		out = append(out, pick(r, j.names))
	}
	dash := func(n string) string { return pick(r, []string{"-", "-", "--"}) + n }
	give := func(n, v string) {
		if r.IntN(2) == 0 {
			out = append(out, dash(n)+"="+v)
		} else {
			out = append(out, dash(n), v)
		}
	}
	yes := []string{"true", "1", "t", "T", "TRUE", "True"}
	no := []string{"false", "0", "f", "F", "FALSE", "False"}
	for _, n := range j.off {
		if r.IntN(6) == 0 {
			if r.IntN(3) == 0 {
				out = append(out, dash(n))
			}
			out = append(out, dash(n)+"="+pick(r, no))
		}
	}
	for n, v := range j.defs {
		given := false
		for _, f := range j.flags {
			given = given || f.name == n
		}
		if !given && r.IntN(4) == 0 {
			give(n, v)
		}
	}
	for _, i := range r.Perm(len(j.flags)) {
		f := j.flags[i]
		switch {
		case f.sw:
			if r.IntN(4) == 0 {
				out = append(out, dash(f.name)+"="+pick(r, no))
			}
			if r.IntN(3) == 0 {
				out = append(out, dash(f.name)+"="+pick(r, yes))
			} else {
				out = append(out, dash(f.name))
			}
		default:
			if f.again != "" && r.IntN(4) == 0 {
				give(f.name, f.again)
			}
			give(f.name, f.val)
		}
	}
	if r.IntN(4) == 0 {
		out = append(out, "--")
	}
	return append(out, j.args...)
}

func c32(t *T) {
	if t.N(2) == 0 {
		t.spellings()
	} else {
		t.refusals()
	}
}

var cliNames = map[string][]string{
	"balance": {"balance", "bal", "b"}, "register": {"register", "reg", "r"}, "accounts": {"accounts", "acc", "a"},
	"commodities": {"commodities", "com", "c"}, "format": {"format", "fmt", "f"}, "modify": {"modify", "mod", "m"},
	"stats": {"stats", "s"}, "tags": {"tags"}, "test": {"test", "t"}, "version": {"version", "ver", "v"},
}

// switches and other flags of the commands
var cliSwitches = map[string][]string{
	"balance": {"z"}, "register": {"r", "w", "m", "q", "y", "bp", "bt", "c", "f", "n", "v"}, "accounts": {"c"}, "commodities": {"p", "f", "q"},
	"format": {"ledger", "i", "t"}, "stats": {"d", "u", "c"}, "tags": {"v", "a"}, "test": {"v"},
}

func (t *T) spellings() {
	r := t.R
	j := &cliJob{bin: "coin"}
	tool := pick(r, []string{"balance", "balance", "register", "register", "register", "accounts", "commodities", "format", "modify", "stats", "tags", "test", "version", "csv2coin", "ofx2coin", "gc2coin"})
	db := t.Path("w/db")
	val := func(n, v, again string) { j.flags = append(j.flags, cliFlag{name: n, val: v, again: again}) }
	sw := func(n string) { j.flags = append(j.flags, cliFlag{name: n, sw: true}) }
	switches := func(ns ...string) {
		for _, n := range ns {
			if r.IntN(3) == 0 {
				sw(n)
			} else {
				j.off = append(j.off, n)
			}
		}
	}
	var l *Ledger
	if names := cliNames[tool]; names != nil {
		j.names = names
		o := defOpt(t)
		o.Txns = 3 + t.N(20)
		o.Coms, o.Foreign = 1, 0
		l = t.gen(&o)
		t.writeDB(l, "w/db", Style{Fancy: true})
	}
	dates := func() {
		if r.IntN(3) == 0 {
			val("b", t.dateArg(l.Txns[r.IntN(len(l.Txns))].D), "2001/02/03")
		}
		if r.IntN(3) == 0 {
			val("e", t.dateArg(l.Txns[r.IntN(len(l.Txns))].D), "1999")
		}
	}
	patterns := func() {
		if r.IntN(4) == 0 {
			val("p", regexp.QuoteMeta(pick(r, l.Txns).Desc), "nobody")
		}
		if r.IntN(4) == 0 {
			val("t", pick(r, tagKeys), "nothing")
		}
	}
	acc := ""
	if l != nil {
		acc = pick(r, l.Names)
	}
	files := func() (fs []string) {
		all, _ := filepath.Glob(filepath.Join(db, "*.coin"))
		for _, f := range all {
			switch filepath.Base(f) {
			case "accounts.coin", "commodities.coin", "prices.coin":
			default:
				fs = append(fs, f)
			}
		}
		return fs
	}
	j.defs = map[string]map[string]string{
		"balance":  {"p": "", "t": "", "l": "0"},
		"register": {"p": "", "t": "", "l": "12", "g": "5", "o": "text"},
		"modify":   {"p": "", "tt": "", "pt": "", "a:": "", "tt:": "", "pt:": ""},
		"csv2coin": {"source": "", "fields": ""},
	}[tool]
	switch tool {
	case "balance":
		dates()
		patterns()
		switches("z")
		if r.IntN(2) == 0 {
			val("l", fmt.Sprint(r.IntN(4)), "7")
		}
		if r.IntN(2) == 0 {
			j.args = []string{acc}
		}
	case "register":
		dates()
		patterns()
		j.args = []string{pick(r, []string{acc, acc, "Root"})}
		if r.IntN(2) == 0 {
			switches("r", "f", "n")
			j.off = append(j.off, "w", "m", "q", "y", "bp", "bt", "c")
		} else {
			p := pick(r, []string{"w", "m", "q", "y"})
			sw(p)
			switch r.IntN(4) {
			case 0:
				sw(pick(r, []string{"bp", "bt"}))
			case 1:
				sw("c")
			}
			switches("r")
			if r.IntN(3) == 0 {
				val("g", fmt.Sprint(1+r.IntN(6)), "2")
			}
			if r.IntN(3) == 0 {
				val("o", pick(r, []string{"text", "csv", "json"}), "csv")
			}
		}
		if r.IntN(3) == 0 {
			val("l", fmt.Sprint(3+r.IntN(20)), "9")
		}
	case "accounts":
		switches("c")
		if r.IntN(2) == 0 {
			j.args = []string{acc}
		}
	case "commodities":
		switches("p", "f")
		if r.IntN(2) == 0 {
			j.args = []string{pick(r, l.ComIds)}
		}
	case "format":
		switches("ledger", "t", "i")
		j.edits = true
		if j.args = files(); len(j.args) == 0 {
			return
		}
	case "modify":
		j.edits = true
		if j.args = files(); len(j.args) == 0 {
			return
		}
		if r.IntN(2) == 0 {
			val("p", regexp.QuoteMeta(pick(r, l.Txns).Desc), "nobody")
		}
		if r.IntN(2) == 0 {
			val("tt", pick(r, tagKeys), "x")
		}
		val("a", acc, pick(r, l.Names))
		if r.IntN(2) == 0 {
			val("a:", pick(r, l.Names), pick(r, l.Names))
		}
		if r.IntN(2) == 0 {
			val("pt:", "#new: thing", "#other")
		}
		if r.IntN(2) == 0 {
			val("tt:", "#mark", "#a, #b: c")
		}
	case "stats":
		switches("d", "u", "c")
		dates()
	case "tags":
		switches("v", "a")
		if r.IntN(2) == 0 {
			j.args = []string{pick(r, tagKeys)}
		}
	case "test":
		switches("v")
		j.edits = true
		j.args = []string{filepath.Join(db, t.writeTestFile("w/db/suite.test", r.IntN(2) == 0))}
	case "version":
	case "csv2coin":
		j.bin = tool
		l := t.genImportBase()
		a := pick(r, l.Names)
		l.Accs[a].CsvId = "X1"
		t.writeDB(l, "w/db", Style{})
		var b strings.Builder
		for i := 1 + t.N(10); i > 0; i-- {
			fmt.Fprintf(&b, "X1,%s,%s,%d.%02d\n", mkDay(2020, 1, 1)+Day(t.N(500)), pick(r, payees), t.N(500), t.N(100))
		}
		t.Write("w/db/csv.rules", "src 0\n  account 0\n  date 1\n  description 2\n  amount 3\nsrc2 0\n  account 0\n  date 1\n  description 2\n  amount 3\n")
		switch r.IntN(3) {
		case 0:
			sw("rules")
		case 1:
			val("fields", "0,2,1,3", "3,2,1,0")
			j.off = []string{"rules"}
			j.args = []string{t.Write("w/in.csv", b.String())}
		default:
			val("source", "src", "src2")
			j.off = []string{"rules"}
			j.args = []string{t.Write("w/in.csv", b.String())}
		}
	case "ofx2coin":
		j.bin = tool
		var b *ofxBase
		for b == nil || len(b.ids) == 0 {
			b = t.genOfxBase()
		}
		for _, n := range b.l.Names {
			if b.l.Accs[n].OfxId == "" && r.IntN(3) == 0 {
				b.l.Accs[n].OfxId = fmt.Sprint(1000000 + r.IntN(9000000))
			}
			if r.IntN(3) == 0 {
				b.l.Accs[n].BankId = fmt.Sprint(100 + r.IntN(900))
			}
		}
		t.writeDB(b.l, "w/db", Style{})
		if !b.none {
			t.Write("w/db/ofx.rules", b.rf.render(r, true))
		}
		t.ids(db, b.l)
		switch r.IntN(3) {
		case 0:
			sw("ids")
		case 1:
			if !b.none {
				sw("rules")
				j.off = []string{"ids", "bmo", "keep-dupes"}
				break
			}
			fallthrough
		default:
			x := b.genStmt(r, mkDay(2019, 1, 1)+Day(r.IntN(700)), 1+r.IntN(20), false)
			st := genOfxStyle(r)
			j.args = []string{t.Write("w/in.ofx", renderOfx(r, b.l, b.comOf, []*ofxStmt{x}, st))}
			if st.bmo {
				sw("bmo")
			} else {
				j.off = append(j.off, "bmo")
			}
			switches("keep-dupes")
			j.off = append(j.off, "rules", "ids")
		}
	case "gc2coin":
		j.bin = tool
		gz := t.Path("w/book.gnucash")
		os.MkdirAll(t.Path("w"), 0o755)
		if err := os.WriteFile(gz, gzipped(genBook(r).xml(r)), 0o644); err != nil {
			t.Inconclusive("%v", err)
		}
		val("gnucashdb", gz, t.Path("w/other.gnucash"))
		switches("l")
		j.off = append(j.off, "y")
		db = ""
	}
	plain := j.plain()
	before := map[string]string{}
	if j.edits {
		for _, f := range j.args {
			before[f] = t.Read(f)
		}
	}
	want := t.ExecIn(db, "", nil, j.bin, plain...)
	if want.Code != 0 {
		t.Fail("exit", "command failed\n%s", want)
	}
	edited := map[string]string{}
	for f := range before {
		edited[f] = t.Read(f)
	}
	key := want.Cmd + want.Out
	different := 0
	for k := 0; k < 4; k++ {
		for f, x := range before {
			if err := os.WriteFile(f, []byte(x), 0o644); err != nil {
				t.Inconclusive("%v", err)
			}
		}
		args := t.respell(j)
		got := t.ExecIn(db, "", nil, j.bin, args...)
		if got.Code != want.Code || got.Out != want.Out || got.Err != want.Err {
			t.Fail("spelling", "two spellings of one command differ\n%s\n%s", want, got)
		}
		for f, x := range edited {
			if y := t.Read(f); y != x {
				t.Fail("spelling-file", "two spellings of one command make %s differ:\n--- %s\n%s\n--- %s\n%s", f, want.Cmd, x, got.Cmd, y)
			}
		}
		if got.Cmd != want.Cmd {
			different++
		}
	}
	if l != nil && r.IntN(2) == 0 {
		want := t.ExecIn(db, "", nil, "coin", "balance")
		got := t.ExecIn(db, "", nil, "coin")
		if want.Code != 0 || got.Code != want.Code || got.Out != want.Out || got.Err != want.Err {
			t.Fail("default-command", "coin without a command is not balance\n%s\n%s", want, got)
		}
		t.Count("without a command", 1)
	}
	if tool == "gc2coin" {
		k := 0
		for k < len(plain) && plain[k] != "-gnucashdb" {
			k++
		}
		args := append(append([]string{}, plain[:k]...), plain[k+2:]...)
		got := t.ExecIn(db, "", []string{"GNUCASHDB=" + plain[k+1]}, "gc2coin", args...)
		if got.Code != 0 || got.Out != want.Out || got.Err != want.Err {
			t.Fail("variable", "GNUCASHDB=%s does not stand for the flag\n%s\n%s", plain[k+1], want, got)
		}
	}
	t.Count("spellings", different)
	t.Count(tool, 1)
	if different > 1 && len(want.Out) > 0 {
		t.Nontrivial(key)
	}
}

// ids checks the list of accounts with an ofx id.
func (t *T) ids(db string, l *Ledger) {
	res := t.ExecIn(db, "", nil, "ofx2coin", "-ids")
	if res.Code != 0 {
		t.Fail("exit", "command failed\n%s", res)
	}
	want := map[string]bool{}
	for n, a := range l.Accs {
		if a.OfxId != "" {
			id := a.OfxId
			if a.BankId != "" {
				id = a.BankId + "/" + id
			}
			want[id+" "+n] = true
		}
	}
	for _, ln := range lines(res.Out) {
		if !want[ln] {
			t.Fail("ids", "no account %q\n%s", ln, res)
		}
		delete(want, ln)
	}
	for n := range want {
		t.Fail("ids", "%q is missing\n%s", n, res)
	}
	t.Count("listed ids", 1)
}

type badCall struct {
	what string
	bin  string
	args []string
	nodb bool
}

func (t *T) refusals() {
	r := t.R
	o := defOpt(t)
	o.Txns = 3 + t.N(12)
	o.Coms, o.Foreign = 1, 0
	l := t.gen(&o)
	t.writeDB(l, "w/db", Style{Fancy: true})
	db := t.Path("w/db")
	a := pick(r, l.Names)
	l.Accs[a].CsvId, l.Accs[a].OfxId = "X1", "77"
	t.writeDB(l, "w/db", Style{Fancy: true})
	t.Write("w/db/csv.rules", "src 0\n  account 0\n  date 1\n  description 2\n  amount 3\n")
	csv := t.Write("w/in.csv", "X1,2020/01/02,Shop,12.50\n")
	gz := t.Path("w/book.gnucash")
	os.WriteFile(gz, gzipped(genBook(r).xml(r)), 0o644)
	os.MkdirAll(t.Path("w/out"), 0o755)
	test := filepath.Join(db, t.writeTestFile("w/db/suite.test", r.IntN(2) == 0))
	var txf string
	if fs, _ := filepath.Glob(filepath.Join(db, "t*.coin")); len(fs) > 0 {
		txf = fs[0]
	}
	missing := t.Path("w/missing.coin")
	// a valid way to run each command
	valid := map[string][]string{"balance": nil, "register": {a}, "accounts": nil, "commodities": nil, "stats": nil, "tags": nil, "test": {test}}
	if txf != "" {
		valid["format"] = []string{txf}
		valid["modify"] = []string{txf}
	}
	cmds := []string{"balance", "register", "accounts", "commodities", "stats", "tags", "test", "format", "modify"}
	badDate := func() string {
		return pick(r, []string{"x", "2020/13/01", "2020/02/30", "2020-01-05", "1/1x", "20200105", "2020/1/5/6", "+5", "5", "yesterday", "2019/", "-", "2020/00/10", "2021/02/29", "2020/1/32", " 2020/01/01", "2020/01/01 ", "10d", "+1x", ""})
	}
	badInt := func() string { return pick(r, []string{"x", "1.5", "", "2x", "--", "1,000", "99999999999999999999"}) }
	badRx := func() string { return pick(r, []string{"(", "[", "a(b", "*", "x[z-a]", `\`, "(?P<n", "a**"}) }
	flag := func(n, v string) []string {
		if r.IntN(2) == 0 || v == "--" {
			return []string{"-" + n + "=" + v}
		}
		return []string{"-" + n, v}
	}
	// flags that do not matter
	neutral := func(args ...string) (out []string) {
		for _, a := range args {
			if r.IntN(4) == 0 {
				out = append(out, a)
			}
		}
		return out
	}
	with := func(cmd string, more ...string) []string {
		switches := map[string][]string{"balance": {"-z", "-l=2"}, "register": {"-r", "-m", "-y", "-f", "-n", "-c", "-g=3", "-l=9"}, "accounts": {"-c"},
			"commodities": {"-p", "-f"}, "format": {"-ledger", "-i", "-t"}, "stats": {"-u"}, "tags": {"-v", "-a"}, "test": {"-v"}}[cmd]
		args := append([]string{pick(r, cliNames[cmd])}, neutral(switches...)...)
		args = append(args, more...)
		if n := len(more); n > 0 && strings.HasPrefix(more[n-1], "-") && r.IntN(2) == 0 && !slices.Contains([]string{"b", "e", "p", "t", "l", "g", "o"}, strings.Trim(more[n-1], "-")) {
			args = append(args, neutral(switches...)...)
		}
		return append(args, valid[cmd]...)
	}
	var bad []badCall
	add := func(what, bin string, args ...string) { bad = append(bad, badCall{what: what, bin: bin, args: args}) }
	for k := 0; k < 10; k++ {
		switch r.IntN(24) {
		case 0: // part of a name, other case, and so on
			c := pick(r, pick(r, [][]string{cliNames["balance"], cliNames["register"], cliNames["format"], cliNames["modify"], cliNames["test"], cliNames["tags"]}))
			c = pick(r, []string{c + "s", c + " ", strings.ToUpper(c), "-" + c, c + "=", "x", "help", "", "--", "-z", c + c, "registers", "regis", "bala", "modif", "tag"})
			if c == "-h" {
				continue
			}
			known := false
			for _, ns := range cliNames {
				for _, n := range ns {
					known = known || n == c
				}
			}
			if known {
				continue
			}
			args := []string{c}
			if r.IntN(2) == 0 {
				args = append(args, a)
			}
			add("unknown command", "coin", args...)
		case 1, 2:
			c := pick(r, cmds)
			if valid[c] == nil && (c == "format" || c == "modify") {
				continue
			}
			f := pick(r, []string{"x", "zz", "begin", "end", "B", "Z", "-c-", "help1", "in", "ledge", "tt::", "1", "rr", "payee"})
			args := []string{"-" + f}
			if r.IntN(2) == 0 {
				args = []string{"-" + f + "=1"}
			}
			add("unknown flag", "coin", with(c, args...)...)
		case 3, 4, 5:
			c := pick(r, []string{"balance", "register", "stats"})
			add("malformed date", "coin", with(c, flag(pick(r, []string{"b", "e"}), badDate())...)...)
		case 6:
			add("malformed number", "coin", with("balance", flag("l", badInt())...)...)
		case 7:
			add("malformed number", "coin", with("register", flag(pick(r, []string{"l", "g"}), badInt())...)...)
		case 8:
			c := pick(r, []string{"balance", "register", "accounts", "commodities", "stats", "tags", "test", "format"})
			if valid[c] == nil && c == "format" {
				continue
			}
			add("malformed switch", "coin", with(c, "-"+pick(r, cliSwitches[c])+"="+pick(r, []string{"maybe", "yes", "2", "", "tRue", "on"}))...)
		case 9:
			c := pick(r, []string{"balance", "register", "stats"})
			f := pick(r, map[string][]string{"balance": {"b", "e", "p", "t", "l"}, "register": {"b", "e", "p", "t", "l", "g", "o"}, "stats": {"b", "e"}}[c])
			add("missing value", "coin", pick(r, cliNames[c]), "-"+f)
		case 10:
			args := []string{pick(r, cliNames["register"])}
			if r.IntN(2) == 0 {
				args = append(args, pick(r, []string{"-r", "-m", "-f", "-n"}))
			}
			add("missing account", "coin", args...)
		case 11:
			c := pick(r, []string{"balance", "register"})
			args := append([]string{pick(r, cliNames[c])}, map[string][]string{"balance": neutral("-z", "-l=2"), "register": neutral("-r", "-m", "-y", "-f", "-n", "-c", "-bp")}[c]...)
			x := pick(r, []string{"Nowhere", "zzzz:yyyy", "Nowhere:" + a, a + ":Nowhere"})
			for _, n := range l.allAccs() {
				if exprMatches(x, n) {
					x = ""
				}
			}
			if x == "" {
				continue
			}
			add("unknown account", "coin", append(args, x)...)
		case 12:
			c := pick(r, []string{"balance", "register"})
			if len(l.postings(a)) == 0 && c == "register" {
				continue
			}
			f, rx := pick(r, []string{"p", "t"}), badRx()
			if f == "t" && r.IntN(2) == 0 {
				rx = pick(r, tagKeys) + ":" + rx
			}
			if c == "register" && r.IntN(4) == 0 {
				rx = "!" + rx
			}
			add("malformed expression", "coin", with(c, flag(f, rx)...)...)
		case 13:
			add("malformed expression", "coin", append(append([]string{"tags"}, neutral("-v", "-a")...), badRx())...)
		case 14:
			add("contradiction", "coin", with("register", pick(r, [][]string{{"-bp", "-bt"}, {"-bt", "-m", "-bp"}, {"-y", "-bp", "-r", "-bt"}})...)...)
		case 15:
			if txf == "" {
				continue
			}
			switch r.IntN(5) {
			case 0:
				add("malformed expression", "coin", with("modify", append(flag(pick(r, []string{"p", "tt", "pt"}), badRx()), "-tt:", "#x")...)...)
			case 1:
				add("no tag", "coin", with("modify", append([]string{"-a", a}, flag(pick(r, []string{"tt:", "pt:"}), pick(r, []string{"x", "#", "# x", "food", "##"}))...)...)...)
			case 2:
				add("unknown account", "coin", with("modify", append([]string{"-tt:", "#x"}, flag("a", "Nowhere:zz")...)...)...)
			case 3:
				add("unknown account", "coin", with("modify", append([]string{"-a", a}, flag("a:", "Nowhere:zz")...)...)...)
			case 4:
				add("missing file", "coin", pick(r, cliNames["modify"]), "-tt:", "#x", missing)
			}
		case 16:
			args := []string{pick(r, cliNames["format"])}
			if r.IntN(2) == 0 {
				args = append(args, "-i")
			}
			add("missing file", "coin", append(args, missing)...)
		case 17:
			add("missing file", "coin", pick(r, cliNames["test"]), missing)
		case 18, 19:
			switch r.IntN(7) {
			case 0:
				add("no source", "csv2coin", csv)
			case 1:
				add("unknown source", "csv2coin", append(flag("source", pick(r, []string{"sr", "src2", "SRC", "X1"})), csv)...)
			case 2:
				add("missing file", "csv2coin", "-source", "src", missing)
			case 3:
				add("malformed fields", "csv2coin", append(flag("fields", pick(r, []string{"a", "1", "0,1,2", "0,2,1,x", "0,2,1,3,", "0;2;1;3", "0,2,1,", "0,2,1,3,4,5,6,7,8,9"})), csv)...)
			case 4:
				add("unknown flag", "csv2coin", pick(r, []string{"-x", "-src", "-Source", "-rule"}), "-source", "src", csv)
			case 5:
				add("missing value", "csv2coin", "-source")
			case 6:
				add("missing file", "csv2coin", "-source", "src", csv, missing)
			}
		case 20:
			switch r.IntN(3) {
			case 0:
				add("missing file", "ofx2coin", append(neutral("-bmo", "-keep-dupes"), missing)...)
			case 1:
				add("unknown flag", "ofx2coin", pick(r, []string{"-id", "-x", "-keepdupes", "-BMO"}))
			case 2:
				add("malformed switch", "ofx2coin", "-"+pick(r, []string{"ids", "bmo", "rules", "keep-dupes"})+"=maybe")
			}
		case 21, 22:
			switch r.IntN(5) {
			case 0:
				bad = append(bad, badCall{"no book", "gc2coin", neutral("-l", "-y"), r.IntN(2) == 0})
			case 1:
				bad = append(bad, badCall{"missing file", "gc2coin", append(neutral("-l"), "-gnucashdb", missing), r.IntN(2) == 0})
			case 2:
				bad = append(bad, badCall{"no directory", "gc2coin", append(neutral("-l", "-y=false"), "-y", "-gnucashdb", gz), true})
			case 3:
				bad = append(bad, badCall{"not a book", "gc2coin", flag("gnucashdb", csv), r.IntN(2) == 0})
			case 4:
				bad = append(bad, badCall{"unknown flag", "gc2coin", []string{"-gnucashdb", gz, pick(r, []string{"-x", "-gnucash", "-yearly", "-Y"})}, r.IntN(2) == 0})
			}
		case 23:
			out := t.Path("w/out")
			switch r.IntN(4) {
			case 0:
				add("malformed date", "gen2coin", append(append(neutral("-m", "-y", "-wb"), flag(pick(r, []string{"b", "e"}), badDate())...), out)...)
			case 1:
				add("missing directory", "gen2coin", append(neutral("-m", "-y", "-wb"), "-b", "2020/01/01", "-e", "2020/01/20", missing)...)
			case 2:
				add("not a directory", "gen2coin", append(neutral("-m", "-y", "-wb"), "-b", "2020/01/01", "-e", "2020/01/20", csv)...)
			case 3:
				add("unknown flag", "gen2coin", pick(r, []string{"-x", "-begin", "-w", "-J"}), out)
			}
		}
	}
	before := t.snapshot(t.dir)
	var key strings.Builder
	for _, b := range bad {
		d := db
		if b.nodb {
			d = ""
		}
		res := t.ExecIn(d, t.dir, nil, b.bin, b.args...)
		if res.Code == 0 {
			t.Fail("accepted", "%s is not refused\n%s", b.what, res)
		}
		if strings.TrimSpace(res.Err) == "" {
			t.Fail("no-message", "%s is refused without a message\n%s", b.what, res)
		}
		for _, ln := range lines(res.Out) {
			if strings.Contains(ln, " | ") || entryStart.MatchString(ln) {
				t.Fail("output", "%s is refused but there is output\n%s", b.what, res)
			}
		}
		t.onlyChanged(t.dir, before, nil, res)
		fmt.Fprintln(&key, res.Cmd)
		t.Count(b.what, 1)
	}
	if len(bad) > 3 {
		t.Nontrivial(key.String())
	}
}

// entryStart begins the entries that imports write.
var entryStart = regexp.MustCompile(`^(\d{4}/\d\d/\d\d|commodity |account |P )`)
