package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

func init() {
	register(&Check{ID: "C28", Quick: 150, Thor: 3000, Case: c28, Level: "fault_enumeration",
		Rule: "for random valid input and each program: one run under the harness's ptrace tracer lists every system call that looks up, opens, lists, reads, writes or closes a file of the case (database, input, rules, output, standard output), then the program runs again once per call with that call failing (EIO, EACCES, EMFILE, ENOSPC, EDQUOT) and once per write cut short; an evaluation is one injected fault, non-trivial if the tracer delivered it, distinct by command, content, call and kind"})
}

func c28(t *T) {
	r := t.R
	t.ioTrace = true
	root := t.Path("w")
	bin, args, coindb, more := t.ioJob()
	env := []string{"TZ=UTC", "LANG=C.UTF-8", "HOME=/nonexistent", "PATH=/usr/bin:/bin", "COINDB=" + coindb, "GOMAXPROCS=1"}
	env = append(env, more...)
	old := t.snapshot(root)
	reset := func() {
		for _, f := range listDir(root) {
			if _, ok := old[f]; !ok {
				os.Remove(filepath.Join(root, f))
			}
		}
		for f, x := range old {
			if t.Read(filepath.Join(root, f)) != x {
				t.Write(filepath.Join("w", f), x)
			}
		}
	}
	run := func(f *fault) (Res, []sysCall, bool) {
		return t.runTraced(env, root, filepath.Join(t.bins, bin), args, t.dir, f)
	}
	base, calls, _ := run(nil)
	if base.Code != 0 {
		t.Fail("failed", "%s failed on valid input\n%s", bin, base)
	}
	neu := t.snapshot(root)
	if len(calls) == 0 {
		t.Inconclusive("no system call on %s was seen:\n%s", t.dir, base)
	}
	trace := func(cs []sysCall) string {
		var out []string
		for i, c := range cs {
			out = append(out, fmt.Sprintf("%d %s", i, c))
		}
		return strings.Join(out, "\n")
	}
	random := bin == "gen2coin" // what it writes differs from run to run
	var fs []fault
	for i, c := range calls {
		if c.file == ".stderr" || c.class == "readdir" && c.file != "w/db" || (c.class == "openread" || c.class == "stat") && c.file != "w/db" && isDir(t.Path(c.file)) {
			// looked at to expand a wildcard
			continue
		}
		errs := []syscall.Errno{syscall.EIO}
		switch c.class {
		case "openread", "stat":
			errs = []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENOMEM}
		case "open", "write", "close":
			errs = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}
		}
		fs = append(fs, fault{at: i, errno: pick(r, errs)})
		if c.class == "write" && c.n > 1 {
			fs = append(fs, fault{at: i, errno: syscall.ENOSPC, short: 1 + t.N(c.n-1)})
		}
	}
	if len(fs) > 40 && t.tier == "quick" { // some of each kind
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		seen := map[string]int{}
		var some []fault
		for _, f := range fs {
			if c := calls[f.at]; seen[c.class] < 10 {
				seen[c.class]++
				some = append(some, f)
			}
		}
		fs = some
	}
	for _, f := range fs {
		reset()
		res, cs, delivered := run(&f)
		t.evals.Add(1)
		if !delivered || cs[f.at].String() != calls[f.at].String() {
			t.Count("not_delivered", 1)
			continue
		}
		c := cs[f.at]
		t.Count(pick1(f.short > 0, "cut_short_", "failed_")+c.class, 1)
		t.Nontrivial(fmt.Sprint(bin, args, hash64(fmt.Sprint(old)), f))
		if res.Code != 0 {
			t.Count("reported", 1)
			continue
		}
		what := fmt.Sprintf("%s with %v (%v) exits 0", bin, f, c)
		if random {
			if c.class == "write" || c.class == "open" {
				t.Fail("silent-"+c.class, "%s\n%s\n%s", what, res, trace(cs))
			}
			continue
		}
		if res.Out != base.Out {
			t.Fail("silent-"+c.class, "%s, but its output is not what is printed otherwise:\n%s\n%s\n%s", what, base, res, trace(cs))
		}
		now := t.snapshot(root)
		for n, x := range neu {
			if now[n] != x {
				t.Fail("silent-"+c.class, "%s, but %s is not what it is otherwise (%d bytes, otherwise %d)\n%s\n%s", what, n, len(now[n]), len(x), res, trace(cs))
			}
		}
		if c.class == "close" && c.file != ".stdout" {
			t.Fail("silent-close", "%s although the last bytes may be lost\n%s\n%s", what, res, trace(cs))
		}
		t.Count("harmless", 1)
	}
	if t.I < 9 {
		t.Sample(map[string]any{"command": bin + " " + strings.Join(args, " "), "calls": strings.Split(trace(calls), "\n"), "faults": len(fs)})
	}
}

func isDir(p string) bool {
	st, err := os.Stat(p)
	return err == nil && st.IsDir()
}

// ioJob prepares valid input below w and a command on it.
func (t *T) ioJob() (bin string, args []string, coindb string, more []string) {
	r := t.R
	root := t.Path("w")
	os.MkdirAll(root, 0o755)
	bin, coindb = "coin", filepath.Join(root, "db")
	tool := pick(r, []string{"coin", "coin", "coin", "coin", "csv2coin", "ofx2coin", "gc2coin", "gen2coin", "coin2html"})
	switch tool {
	case "coin", "coin2html":
		o := defOpt(t)
		o.Txns = 2 + t.N(12)
		o.Assert, o.Wrong = .2, 0
		o.Files = 1 + t.N(3)
		if t.N(4) == 0 {
			o.Txns, o.Notes = 120, .8
		}
		what := t.N(9)
		if tool == "coin2html" || what != 7 && t.N(2) == 0 {
			o.Foreign = .2
		} else {
			o.Foreign = 0
		}
		l := t.gen(&o)
		if t.N(3) == 0 {
			y := t.newLayout("w/db", Style{Fancy: true, Comments: true})
			y.cwd = root
			y.write(l, true, tool == "coin2html" || what != 7)
			more = y.envList()
		} else {
			t.writeDB(l, "w/db", Style{Fancy: true, Comments: true})
		}
		if tool == "coin2html" {
			bin = "coin2html"
			break
		}
		acc := pick(r, l.Names)
		switch what {
		case 0:
			args = []string{"balance", "-z"}
		case 1:
			args = []string{"register", acc}
		case 2:
			args = []string{"register", pick(r, []string{"-m", "-w", "-q", "-y"}), "Root"}
		case 3:
			args = []string{"accounts", "-c"}
		case 4:
			args = []string{"commodities", "-p"}
		case 5:
			args = []string{"stats"}
		case 6:
			args = []string{"tags", "-v"}
		case 7:
			if fs, _ := filepath.Glob(filepath.Join(coindb, "t*.coin")); len(fs) > 0 {
				args = append([]string{"format"}, fs...)
				break
			}
			args = []string{"tags"}
		default:
			args = []string{"test", filepath.Join(coindb, t.writeTestFile("w/db/suite.test", true))}
		}
	case "csv2coin":
		bin = tool
		l := t.genImportBase()
		a := pick(r, l.Names)
		l.Accs[a].CsvId = "X1"
		t.writeDB(l, "w/db", Style{})
		var b strings.Builder
		for i := 1 + t.N(60); i > 0; i-- {
			fmt.Fprintf(&b, "X1,%s,%s,%d.%02d\n", mkDay(2020, 1, 1)+Day(t.N(500)), pick(r, payees), t.N(500), t.N(100))
		}
		in := t.Write("w/in.csv", b.String())
		if t.N(2) == 0 {
			t.Write("w/db/csv.rules", "src 0\n  account 0\n  date 1\n  description 2\n  amount 3\n")
			args = []string{"-source", "src", in}
		} else {
			args = []string{"-fields", "0,2,1,3", in}
		}
		bin = "csv2coin"
		if t.N(4) == 0 {
			args = []string{"-rules"}
			t.Write("w/db/csv.rules", "src 0\n  account 0\n  date 1\n  description 2\n  amount 3\n")
		}
	case "ofx2coin":
		bin = tool
		var b *ofxBase
		for b == nil || len(b.ids) == 0 {
			b = t.genOfxBase()
		}
		t.writeDB(b.l, "w/db", Style{})
		if !b.none {
			t.Write("w/db/ofx.rules", b.rf.render(r, true))
		}
		x := b.genStmt(r, mkDay(2019, 1, 1)+Day(r.IntN(700)), 1+r.IntN(40), false)
		st := genOfxStyle(r)
		args = []string{t.Write("w/in.ofx", renderOfx(r, b.l, b.comOf, []*ofxStmt{x}, st))}
		if st.bmo {
			args = append([]string{"-bmo"}, args...)
		}
	case "gc2coin":
		bin = tool
		b := genBook(r)
		gz := filepath.Join(root, "book.gnucash")
		if err := os.WriteFile(gz, gzipped(b.xml(r)), 0o644); err != nil {
			t.Inconclusive("%v", err)
		}
		args = []string{"-gnucashdb", gz}
		switch t.N(3) {
		case 0:
			coindb = ""
		case 1:
			args = append(args, "-y")
		}
	case "gen2coin":
		bin = tool
		coindb = ""
		args = []string{"-b", "2020/01/01", "-e", "2020/02/15"}
		switch t.N(4) {
		case 0:
			args = append(args, "-j")
		case 1:
		default:
			os.MkdirAll(filepath.Join(root, "out"), 0o755)
			args = append(args, pick(r, [][]string{{"-y"}, {"-m"}, {"-y"}})...)
			args = append(args, filepath.Join(root, "out"))
		}
	}
	if coindb != "" {
		os.MkdirAll(coindb, 0o755)
	}
	return
}
