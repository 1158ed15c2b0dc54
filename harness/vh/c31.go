package main

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C31", Quick: 700, Thor: 15000, Case: c31,
		Rule: "random valid and invalid input and commands of all six programs, run under the harness's ptrace tracer in a tree of their own files and files of others (working directory, home, temporary directory, files beside the database, symbolic links, unusual modes); every system call that changes something, connects or runs a program is judged by its path, and the tree before and after is compared (kind, mode, time, content, link target); an evaluation is one command on one tree, distinct by both, non-trivial if it was allowed to change something or was refused"})
}

// lookAt describes everything below root but what is in skip.
func lookAt(root string, dirTimes bool, skip ...string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(root, p)
		for _, s := range skip {
			if rel == s {
				return fs.SkipDir
			}
		}
		if err != nil {
			m[rel] = err.Error()
			return nil
		}
		st, err := os.Lstat(p)
		if err != nil {
			m[rel] = err.Error()
			return nil
		}
		x := st.Mode().String()
		switch {
		case st.Mode()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			x += " -> " + l
		case st.IsDir():
			if dirTimes {
				x += " " + st.ModTime().Format(time.RFC3339Nano)
			}
		default:
			b, _ := os.ReadFile(p)
			x += fmt.Sprintf(" %s %d bytes %x", st.ModTime().Format(time.RFC3339Nano), len(b), sha256.Sum256(b))
		}
		m[rel] = x
		return nil
	})
	return m
}

func c31(t *T) {
	t.watchAll = true
	root := t.Path("w")
	os.MkdirAll(root, 0o755)
	for _, d := range []string{"home", "tmp", "here"} {
		os.MkdirAll(filepath.Join(root, d), 0o755)
	}
	var bin, coindb string
	var args, more []string
	var may []string // files or directories (with a trailing slash) that may change, below w
	want := map[string]string{}
	refused := false
	none := "" // where there is a database that the program is not told of
	kind := pick(t.R, []string{"job", "job", "job", "rewrite", "rewrite", "refused"})
	switch kind {
	case "job":
		bin, args, coindb, more = t.ioJob()
		switch {
		case bin == "coin" && args[0] == "test":
			rel, _ := filepath.Rel(root, args[1])
			if t.N(2) == 0 { // fill in the missing results
				if r := t.ExecIn(coindb, root, more, "coin", args...); r.Code != 0 {
					t.Fail("failed", "failed on a valid suite\n%s", r)
				}
			}
			if regexp.MustCompile(`(?m)^test .*\nend test`).MatchString(t.Read(args[1])) {
				may = append(may, rel)
			} else {
				t.Count("complete_suites", 1)
			}
		case bin == "gc2coin" && coindb != "":
			may = append(may, "db/")
		case bin == "gen2coin":
			none = filepath.Join(root, "db")
			if args[len(args)-1] == filepath.Join(root, "out") {
				may = append(may, "out/")
			}
		}
	case "rewrite", "refused":
		bin, coindb = "coin", filepath.Join(root, "db")
		o := defOpt(t)
		o.Foreign, o.Txns, o.Files = 0, 2+t.N(12), 1+t.N(4)
		l := t.gen(&o)
		t.writeDB(l, "w/db", Style{Fancy: true, Comments: true})
		var files []string
		seen := map[int]bool{}
		for _, tx := range l.Txns {
			if !seen[tx.Home] {
				seen[tx.Home] = true
				files = append(files, txnFile(tx.Home))
			}
		}
		sort.Strings(files)
		if kind == "refused" {
			refused = true
			f := filepath.Join(root, "db", pick(t.R, files))
			switch t.N(3) {
			case 0: // a broken file
				t.Write("w/db/"+filepath.Base(f), t.Read(f)+pick(t.R, []string{"\n2020/01/01 x\n  No:Such:Account 1 CAD\n  " + l.Names[0] + "\n", "\nnonsense\n", "\n2020/13/45 x\n", "\ninclude nosuch.coin\n"}))
				args = pick(t.R, [][]string{{"format", "-i", f}, {"modify", "-tt:=#x", f}, {"balance"}, {"stats"}, {"register", "Root"}, {"format", f}, {"tags"}})
			case 1: // a wrong argument
				args = pick(t.R, [][]string{{"format", "-i", "-x", f}, {"modify", "-b", "nodate", f}, {"modify", "-nosuch", f}, {"format", "-i", f + "x"}, {"nosuch", f}, {"modify", "-a", "no:such:account", "-tt:=#x", f},
					{"register", "no:such:account"}, {"balance", "-b", "13/32"}, {"test", f + "x"}, {"register", "-bp", "-bt", "-m", "Root"}})
			default: // a file of no use
				os.MkdirAll(filepath.Join(root, "db", "dir.coin"), 0o755)
				args = pick(t.R, [][]string{{"format", "-i", filepath.Join(root, "db", "dir.coin")}, {"modify", "-tt:=#x", filepath.Join(root, "db", "dir.coin")}})
			}
			break
		}
		cmd := []string{"format", "-i"}
		switch t.N(3) {
		case 0:
			cmd = append(cmd, "-t")
		case 1:
			cmd = []string{"modify", "-tt:=#seen"}
			if t.N(2) == 0 {
				cmd = append(cmd, "-p", pick(t.R, l.Txns).Desc[:1])
			}
		}
		flags := append([]string{}, cmd...)
		t.R.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
		env := []string{"COINDB=" + coindb}
		for _, f := range files[:1+t.N(len(files))] {
			p := filepath.Join(coindb, f)
			os.Chmod(p, pick(t.R, []os.FileMode{0o644, 0o600, 0o640, 0o664, 0o444, 0o755}))
			// what the same command makes of a copy
			cp := t.Write("copy/"+f, t.Read(p))
			if r := t.ExecIn(coindb, filepath.Join(root, "here"), env, "coin", append(append([]string{}, flags...), cp)...); r.Code != 0 {
				t.Fail("failed", "failed on a valid file\n%s", r)
			}
			may = append(may, "db/"+f)
			want["db/"+f] = t.Read(cp)
			arg := p
			if t.N(3) == 0 { // by another name
				to := pick(t.R, []string{p, "../db/" + f})
				arg = filepath.Join(root, "here", "link-"+f)
				os.Symlink(to, arg)
				if t.N(3) == 0 {
					os.Symlink("link-"+f, arg+"2")
					arg += "2"
				}
				t.Count("symbolic_links", 1)
			} else if t.N(4) == 0 { // the file of the database is a link
				os.MkdirAll(filepath.Join(root, "sync"), 0o755)
				real := filepath.Join(root, "sync", "real-"+f)
				os.Rename(p, real)
				os.Symlink("../sync/real-"+f, p)
				may[len(may)-1] = "sync/real-" + f
				want["sync/real-"+f] = want["db/"+f]
				delete(want, "db/"+f)
				t.Count("symbolic_links", 1)
			}
			if t.N(3) == 0 {
				arg, _ = filepath.Rel(filepath.Join(root, "here"), arg)
			}
			cmd = append(cmd, arg)
		}
		args = cmd
	}
	// files of others
	mine := []string{"here/todo.txt", "here/transactions.coin", "home/.coinrc", "db.bak/accounts.coin", "out/readme.txt", "db/zz.md", "db/old/2019.coin~", "db/.hidden"}
	if bin == "gc2coin" || bin == "gen2coin" {
		mine = append(mine, "db/savings.coin", "db/1950.coin", "db/rates.prices", "out/savings.coin", "out/1950-01.coin")
	}
	for _, f := range may {
		if !strings.HasSuffix(f, "/") {
			for _, x := range []string{"~", ".bak", ".tmp", ".orig", ".old", ".new", ".swp"} {
				mine = append(mine, f+x)
			}
			mine = append(mine, strings.TrimSuffix(f, ".coin")+".bak")
		}
	}
	for _, f := range mine {
		if _, err := os.Lstat(filepath.Join(root, f)); err == nil {
			continue
		}
		t.Write("w/"+f, "mine\n")
		if t.N(3) == 0 {
			os.Chmod(filepath.Join(root, f), 0o600)
		}
	}
	old := time.Now().Add(-time.Hour)
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type()&fs.ModeSymlink == 0 {
			os.Chtimes(p, old, old)
		}
		return nil
	})
	before := lookAt(root, len(may) == 0, "tmp")
	env := []string{"TZ=UTC", "LANG=C.UTF-8", "HOME=" + filepath.Join(root, "home"), "TMPDIR=" + filepath.Join(root, "tmp"), "PATH=/usr/bin:/bin", "COINDB=" + coindb + none, "GOMAXPROCS=2"}
	env = append(env, more...)
	cwd := filepath.Join(root, "here")
	if kind == "job" {
		cwd = root // some names in the job count from there
	}
	r, calls, _ := t.runTraced(env, cwd, filepath.Join(t.bins, bin), args, "", nil)
	after := lookAt(root, len(may) == 0, "tmp")
	if refused && r.Code == 0 {
		t.Count("accepted", 1) // C15 judges what is to be refused
	} else if !refused && r.Code != 0 {
		t.Fail("failed", "failed on valid input\n%s", r)
	}
	allowed := func(rel string) bool {
		for _, m := range may {
			if rel == m || strings.HasSuffix(m, "/") && strings.HasPrefix(rel+"/", m) && !isMine(mine, rel) {
				return true
			}
		}
		return false
	}
	var names []string
	for f := range before {
		names = append(names, f)
	}
	for f := range after {
		if _, ok := before[f]; !ok {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	for _, f := range names {
		b, a := before[f], after[f]
		if a == b || allowed(f) {
			continue
		}
		t.Fail("changed", "%s was %q and is %q; only %q may change\n%s", f, b, a, may, r)
	}
	for f := range before {
		if strings.HasPrefix(kind, "re") && allowed(f) {
			b, _, _ := strings.Cut(before[f], " ")
			a, _, _ := strings.Cut(after[f], " ")
			if a != b {
				t.Fail("mode", "%s was %q and is %q\n%s", f, before[f], after[f], r)
			}
		}
	}
	for f, x := range want {
		if got := t.Read(filepath.Join(root, f)); got != x {
			t.Fail("rewritten", "%s should have been rewritten to\n%s\nbut is\n%s\n%s", f, x, got, r)
		}
	}
	if left := listDir(filepath.Join(root, "tmp")); len(left) > 0 {
		t.Fail("left-over", "temporary files left: %q\n%s", left, r)
	}
	// what it did on the way
	dirs := map[string]bool{filepath.Join(root, "tmp"): true}
	for _, m := range may {
		dirs[filepath.Dir(filepath.Join(root, strings.TrimSuffix(m, "/")+"x"))] = true
	}
	for _, c := range calls {
		switch c.class {
		case "connect", "exec":
			t.Fail("outside", "%v\n%s", c, r)
		case "close", "sync":
			continue
		}
		for _, p := range []string{"/" + strings.TrimPrefix(c.file, "/"), c.other} {
			rel, in := strings.CutPrefix(p, root+"/")
			t.Count("calls", 1)
			_, was := before[rel]
			switch {
			case c.class == "open" && c.name != "creat" && c.flags&syscall.O_TRUNC == 0 && (was || c.flags&syscall.O_CREAT == 0): // changes nothing by itself
			case p == "" || p == t.Path(".stdout") || p == t.Path(".stderr") || p == "/dev/null" || p == "/dev/tty":
			case c.name == "symlink" && p != c.other: // what it points to
			case in && allowed(rel):
			case dirs[filepath.Dir(p)] && !isMine(mine, rel):
				if was {
					t.Fail("call", "%v; only %q may change\n%s", c, may, r)
				}
			default:
				t.Fail("call", "%v; only %q may change\n%s", c, may, r)
			}
		}
	}
	t.Count(kind, 1)
	if len(may) > 0 || refused {
		t.Nontrivial(fmt.Sprint(bin, args, hash64(fmt.Sprint(before))))
	}
	if t.I < 9 {
		var cs []string
		for _, c := range calls {
			cs = append(cs, c.String())
		}
		t.Sample(map[string]any{"command": bin + " " + strings.Join(args, " "), "calls": cs, "may change": may})
	}
}

func isMine(mine []string, rel string) bool {
	for _, m := range mine {
		if m == rel {
			return true
		}
	}
	return false
}

// decodeOther tells about calls that change something, connect or run a program, and are none of decode's.
func decodeOther(tid, pid int, r *syscall.PtraceRegs) (c sysCall, ok bool) {
	path := func(p uint64) string {
		s := readCString(tid, uintptr(p))
		if !strings.HasPrefix(s, "/") {
			base, _ := os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
			s = filepath.Join(base, s)
		}
		return s
	}
	names := map[uint64]string{83: "mkdir", 84: "rmdir", 133: "mknod", 92: "chown", 94: "lchown", 132: "utime", 235: "utimes", 188: "setxattr", 189: "lsetxattr"}
	atNames := map[uint64]string{258: "mkdirat", 259: "mknodat", 260: "fchownat", 280: "utimensat", 261: "futimesat"}
	n := r.Orig_rax
	switch {
	case names[n] != "":
		return sysCall{name: names[n], class: "change", file: path(r.Rdi)}, true
	case atNames[n] != "" && r.Rsi != 0:
		return sysCall{name: atNames[n], class: "change", file: path(r.Rsi)}, true
	case n == 266:
		return sysCall{name: "symlinkat", class: "change", file: path(r.Rdx)}, true
	case n == 42:
		return sysCall{name: "connect", class: "connect"}, true
	case n == 59 || n == 322:
		return sysCall{name: "execve", class: "exec", file: readCString(tid, uintptr(r.Rdi))}, true
	}
	return
}
