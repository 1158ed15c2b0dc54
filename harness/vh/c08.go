package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

func init() {
	register(&Check{ID: "C08", Quick: 160, Thor: 3000, Case: c08, Level: "fault_enumeration",
		Rule: "for random ledger or test files and each rewriting command (format -i, modify, test): one run under the harness's ptrace tracer lists every system call that changes something in the directory, then the command runs again once per such call with that call failing (ENOSPC, EIO, EACCES, EDQUOT), once per write cut short, and once with the process killed at it; an evaluation is one injected fault, non-trivial if the tracer delivered it, distinct by command, content, call and kind"})
}

func c08(t *T) {
	// the ledger
	kind := pick(t.R, []string{"format", "modify", "test", "format", "modify"})
	db := t.Path("db")
	var files []string // to be rewritten, relative to db
	var args []string
	var l *Ledger
	if kind == "test" {
		files = []string{t.writeTestFile("db/suite.test", true)}
		args = []string{"test", filepath.Join(db, files[0])}
	} else {
		o := defOpt(t)
		o.Foreign = 0
		o.Txns = 2 + t.N(10)
		if t.N(3) == 0 {
			o.Txns = 150 // several buffers
			o.Notes = .8
		}
		o.Files = 1 + t.N(2)
		l = t.gen(&o)
		t.writeDB(l, "db", Style{Fancy: true, Comments: true})
		seen := map[int]bool{}
		for _, tx := range l.Txns {
			if !seen[tx.Home] {
				seen[tx.Home] = true
				files = append(files, txnFile(tx.Home))
			}
		}
		if kind == "format" {
			args = []string{"format", "-i"}
			if t.N(4) == 0 {
				args = append(args, "-t")
			}
		} else {
			args = []string{"modify", "-tt:=#seen"}
			if t.N(2) == 0 {
				args = append(args, "-p", pick(t.R, l.Txns).Desc[:1])
			}
		}
		for _, f := range files {
			args = append(args, filepath.Join(db, f))
		}
	}
	old := t.snapshot(db)
	reset := func() {
		for _, f := range listDir(db) {
			if _, ok := old[f]; !ok {
				os.Remove(filepath.Join(db, f))
			}
		}
		for f, x := range old {
			if t.Read(filepath.Join(db, f)) != x {
				t.Write(filepath.Join("db", f), x)
			}
		}
	}
	env := []string{"TZ=UTC", "LANG=C.UTF-8", "HOME=/nonexistent", "PATH=/usr/bin:/bin", "COINDB=" + db, "GOMAXPROCS=1"}
	run := func(f *fault) (Res, []sysCall, bool) {
		return t.runTraced(env, db, filepath.Join(t.bins, "coin"), args, db, f)
	}
	// powerCut finds a file put in place of another while the disk need not have what was written to it.
	powerCut := func(cs []sysCall) string {
		unsynced, through := map[string]bool{}, map[string]bool{}
		for _, c := range cs {
			switch {
			case c.class == "open":
				through[c.file] = c.flags&(syscall.O_SYNC|syscall.O_DSYNC) != 0
			case c.class == "write":
				unsynced[c.file] = !through[c.file]
			case c.class == "sync":
				unsynced[c.file] = false
			case c.class == "rename" && unsynced[c.file] && strings.HasPrefix(c.name, "rename"):
				return c.file
			}
		}
		return ""
	}
	base, calls, _ := run(nil)
	if base.Code != 0 {
		t.Fail("failed", "%s failed on a valid file\n%s", kind, base)
	}
	if len(calls) == 0 {
		t.Inconclusive("no system call that writes in %s was seen:\n%s", db, base)
	}
	neu := t.snapshot(db)
	if f := powerCut(calls); f != "" {
		t.Fail("not-synced", "%s is renamed to its place before what was written to it is on disk: after a power cut it may be empty\n%v\n%s", f, calls, base)
	}
	for f := range old {
		if _, ok := neu[f]; !ok {
			t.Fail("file-lost", "%s is gone after an undisturbed run\n%s", f, base)
		}
	}
	trace := func(cs []sysCall) string {
		var out []string
		for i, c := range cs {
			out = append(out, fmt.Sprintf("%d %s", i, c))
		}
		return strings.Join(out, "\n")
	}
	check := func(what string, r Res, cs []sysCall) (allNew bool) {
		allNew = true
		for f, o := range old {
			p := filepath.Join(db, f)
			b, err := os.ReadFile(p)
			if err != nil {
				t.Fail("file-lost", "%s: %s is gone\n%s\n%s", what, f, r, trace(cs))
			}
			got := string(b)
			if got != o && got != neu[f] {
				t.Fail("file-damaged", "%s: %s holds neither the old nor the new content (%d bytes, old %d, new %d)\n%s\n%s", what, f, len(got), len(o), len(neu[f]), r, trace(cs))
			}
			if got != neu[f] {
				allNew = false
			}
		}
		return
	}
	// the faults: every call failing, every write cut short, killed at every call
	var fs []fault
	errs := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EDQUOT}
	for i, c := range calls {
		fs = append(fs, fault{at: i, kill: true}, fault{at: i, errno: pick(t.R, errs)})
		if c.class == "write" && c.n > 1 {
			fs = append(fs, fault{at: i, errno: syscall.ENOSPC, short: 1 + t.N(c.n-1)})
		}
	}
	if len(fs) > 60 && t.tier == "quick" {
		t.R.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		fs = fs[:60]
	}
	for _, f := range fs {
		reset()
		r, cs, delivered := run(&f)
		t.evals.Add(1)
		if !delivered {
			t.Count("not_delivered", 1)
			continue
		}
		c := cs[f.at]
		what := fmt.Sprintf("%s, %v (%v)", kind, f, c)
		allNew := check(what, r, cs)
		if f.kill {
			if r.Code != -1 {
				t.Count("not_killed", 1)
				continue
			}
			t.Count("killed_at_"+c.class, 1)
			if l != nil && t.N(4) == 0 {
				// whatever is left over does not disturb later commands
				rb := t.Exec(db, "coin", "balance", "-z")
				if rb.Code != 0 {
					t.Fail("ledger-broken", "%s: the ledger does not load any more\n%s", what, rb)
				}
				want, err := l.expectBalance("Root", func(*Post) bool { return true }, true, 0)
				if err == nil {
					t.checkBalance(l, rb, want, "after-kill")
				}
				t.Count("reloaded_after_kill", 1)
			}
		} else {
			t.Count(pick1(f.short > 0, "cut_short_", "failed_")+c.class, 1)
			if c.class != "unlink" { // which may be what removes it
				for _, n := range listDir(db) {
					if _, ok := old[n]; !ok {
						t.Fail("left-behind", "%s: %s is left behind\n%s\n%s", what, n, r, trace(cs))
					}
				}
				t.Count("cleaned up", 1)
			}
			switch c.class {
			case "write", "open", "close", "sync", "rename":
				if r.Code == 0 {
					t.Fail("unreported", "%s is not reported, exit 0\n%s\n%s", what, r, trace(cs))
				}
				if allNew && !same(old, neu) {
					t.Fail("not-kept", "%s is reported but the file was replaced\n%s\n%s", what, r, trace(cs))
				}
			default:
				if r.Code == 0 && !allNew {
					t.Fail("unreported", "%s: exit 0 but the old content is still there\n%s\n%s", what, r, trace(cs))
				}
			}
		}
		t.Nontrivial(fmt.Sprint(kind, hash64(fmt.Sprint(old)), f))
	}
	if t.I < 6 {
		t.Sample(map[string]any{"command": kind, "files": files, "calls": strings.Split(trace(calls), "\n"), "faults": len(fs)})
	}
}

func same(a, b map[string]string) bool {
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}
