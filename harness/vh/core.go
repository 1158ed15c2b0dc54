// Command vh drives the real mkobetic/coin binaries under generated workloads and monitors what they do.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is one property's monitor.
type Check struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	Quick int    // number of cases, quick tier
	Thor  int    // number of cases, thorough tier
	Level string
	Case  func(t *T) // runs one case
	// After is run once after all cases (global checks).
	Assume []string
	Serial bool
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// Run is the state of one run of a check.
type Run struct {
	*Check
	tier    string
	seed    int64
	bins    string
	scratch string
	repo    string

	mu       sync.Mutex
	keys     map[uint64]bool // distinct non-trivial cases
	samples  []any
	viol     []string
	violSigs map[string]int
	known    map[string]int
	counters map[string]int64
	incon    []string
	// the code uses something that the stand-ins of the harness do not have: nothing is decided, and said so in the evidence
	mayBeEmpty bool
	evals      atomic.Int64
	execs      atomic.Int64
}

// T is one case.
type T struct {
	ioTrace  bool // runTraced also watches reads
	watchAll bool // runTraced also watches what changes names, times or owners, connects or runs a program
	*Run
	R   *rand.Rand
	I   int
	dir string // scratch directory of the case
	log bytes.Buffer
	bad bool
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func newRand(prop string, seed int64, i int) *rand.Rand {
	return rand.New(rand.NewPCG(uint64(seed)*0x9E3779B97F4A7C15+hash64(prop), uint64(i)+1))
}

type stop struct{}

// Fail reports a violation of the property and ends the case.
func (t *T) Fail(sig string, format string, args ...any) {
	t.Violation(sig, format, args...)
	panic(stop{})
}

// Violation reports a violation. sig identifies the failing behaviour for the known-findings file.
func (t *T) Violation(sig string, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.bad = true
	if k, ok := findings[t.ID+" "+sig]; ok {
		_ = k
		t.known[sig]++
		return
	}
	t.violSigs[sig]++
	if len(t.viol) >= 8 {
		return
	}
	dir := filepath.Join(verifDir(), "replays", t.ID)
	os.MkdirAll(dir, 0o755)
	fn := filepath.Join(dir, fmt.Sprintf("seed%d-case%d.txt", t.seed, t.I))
	var b bytes.Buffer
	fmt.Fprintf(&b, "property %s\nseed %d case %d tier %s\nsignature %s\nrerun: VERIF_SEED=%d VERIF_CASE=%d ./run.sh %s\n\n%s\n\n", t.ID, t.seed, t.I, t.tier, sig, t.seed, t.I, t.ID, msg)
	b.WriteString("---- case log ----\n")
	b.Write(t.log.Bytes())
	b.WriteString("\n---- files ----\n")
	dumpDir(&b, t.dir)
	os.WriteFile(fn, b.Bytes(), 0o644)
	rel, _ := filepath.Rel(verifDir(), fn)
	t.viol = append(t.viol, rel)
	if len(t.viol) <= 3 {
		m := msg
		if len(m) > 1500 {
			m = m[:1500] + "..."
		}
		fmt.Printf("case %d [%s]: %s\n", t.I, sig, m)
	}
}

// Inconclusive marks the run as not deciding anything.
func (t *T) Inconclusive(format string, args ...any) {
	t.mu.Lock()
	t.incon = append(t.incon, fmt.Sprintf("case %d: ", t.I)+fmt.Sprintf(format, args...))
	t.mu.Unlock()
	panic(stop{})
}

func dumpDir(b *bytes.Buffer, dir string) {
	if dir == "" {
		return
	}
	n := 0
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || n > 40 {
			return nil
		}
		n++
		rel, _ := filepath.Rel(dir, p)
		data, _ := os.ReadFile(p)
		if len(data) > 20000 {
			data = append(data[:20000:20000], []byte("\n...(truncated)")...)
		}
		fmt.Fprintf(b, "==== %s\n%s\n", rel, data)
		return nil
	})
}

func (t *T) Logf(format string, args ...any) { fmt.Fprintf(&t.log, format+"\n", args...) }

// Nontrivial records a distinct non-trivial case by key.
func (t *T) Nontrivial(key string) {
	h := hash64(key)
	t.mu.Lock()
	t.keys[h] = true
	t.mu.Unlock()
}

// Count adds to a named observation counter in the evidence.
func (t *T) Count(name string, n int) {
	t.mu.Lock()
	t.counters[name] += int64(n)
	t.mu.Unlock()
}

func (t *T) Sample(s any) {
	t.mu.Lock()
	if len(t.samples) < 3 {
		t.samples = append(t.samples, s)
	}
	t.mu.Unlock()
}

// Res is the observed result of one command.
type Res struct {
	Cmd      string
	Out, Err string
	Code     int
}

func (r Res) String() string {
	return fmt.Sprintf("$ %s\nexit %d\n--stdout--\n%s--stderr--\n%s", r.Cmd, r.Code, clip(r.Out), clip(r.Err))
}

func clip(s string) string {
	if len(s) > 6000 {
		return s[:6000] + "...\n"
	}
	return s
}

// Panicked tells whether the process crashed with a Go panic or runtime error.
func (r Res) Panicked() bool {
	return r.Code == 2 && strings.Contains(r.Err, "goroutine ") || strings.Contains(r.Err, "runtime error:")
}

// a command on the small inputs used here takes milliseconds
const timeout = 90 * time.Second

// Exec runs a coin binary.
func (t *T) Exec(db string, bin string, args ...string) Res {
	return t.ExecIn(db, "", nil, bin, args...)
}

func (t *T) ExecIn(db, cwd string, env []string, bin string, args ...string) Res {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	path := bin
	if !strings.Contains(bin, "/") {
		path = filepath.Join(t.bins, bin)
	}
	c := exec.CommandContext(ctx, path, args...)
	c.Env = append([]string{"TZ=UTC", "LANG=C.UTF-8", "HOME=/nonexistent", "PATH=/usr/bin:/bin", "COINDB=" + db, "GOTRACEBACK=single"}, env...)
	if db == "" {
		c.Env = append([]string{"TZ=UTC", "LANG=C.UTF-8", "HOME=/nonexistent", "PATH=/usr/bin:/bin"}, env...)
	}
	if cwd == "" {
		cwd = t.dir
	}
	c.Dir = cwd
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	t.execs.Add(1)
	if ctx.Err() != nil {
		t.Fail("hang", "no answer within %v: %s %q", timeout, bin, args)
	}
	code := 0
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		code = ee.ExitCode()
	} else if err != nil {
		t.Inconclusive("cannot run %s: %v", bin, err)
	}
	r := Res{bin + " " + strings.Join(quoteAll(args), " "), o.String(), e.String(), code}
	fmt.Fprintf(&t.log, "COINDB=%s %s\n", db, r)
	if t.log.Len() > 1<<18 {
		t.log.Reset()
		t.log.WriteString("(log reset)\n")
	}
	return r
}

func quoteAll(args []string) (out []string) {
	for _, a := range args {
		if strings.ContainsAny(a, " \t'\"!#$&|<>()*?;\\") || a == "" {
			a = "'" + strings.ReplaceAll(a, "'", `'\''`) + "'"
		}
		out = append(out, a)
	}
	return out
}

// MustOK runs and requires exit 0.
func (t *T) MustOK(db string, bin string, args ...string) Res {
	r := t.Exec(db, bin, args...)
	if r.Code != 0 {
		t.Fail("unexpected-exit", "command failed on a valid ledger\n%s", r)
	}
	return r
}

func (t *T) Path(parts ...string) string { return filepath.Join(append([]string{t.dir}, parts...)...) }

func (t *T) Write(rel, content string) string {
	p := filepath.Join(t.dir, rel)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		t.Inconclusive("write %s: %v", p, err)
	}
	return p
}

func (t *T) Read(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return "\x00missing: " + err.Error()
	}
	return string(b)
}

// random helpers
func (t *T) N(n int) int           { return t.R.IntN(n) }
func (t *T) Chance(p float64) bool { return t.R.Float64() < p }

func pick[E any](r *rand.Rand, xs []E) E { return xs[r.IntN(len(xs))] }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

// Finding is one known finding.
type Finding struct{ Property, Sig, What string }

var findings = map[string]Finding{}

func loadFindings() {
	data, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(data), "\n") {
		// finding: property=C05 sig=<sig> <what>
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 3 {
			continue
		}
		p, s := strings.TrimPrefix(f[1], "property="), strings.TrimPrefix(f[2], "sig=")
		findings[p+" "+s] = Finding{p, s, strings.Join(f[3:], " ")}
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh PROPERTY")
		os.Exit(3)
	}
	c := checks[os.Args[1]]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[1])
		os.Exit(3)
	}
	loadFindings()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := &Run{Check: c, tier: tier, seed: seed, bins: os.Getenv("VERIF_BINS"), repo: os.Getenv("VERIF_REPO"),
		keys: map[uint64]bool{}, violSigs: map[string]int{}, known: map[string]int{}, counters: map[string]int64{}}
	if r.repo == "" {
		r.repo = "/repo"
	}
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	var err error
	r.scratch, err = os.MkdirTemp(base, "vh-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	code := r.main()
	os.RemoveAll(r.scratch)
	os.Exit(code)
}

func (r *Run) one(i int) {
	t := &T{Run: r, R: newRand(r.ID, r.seed, i), I: i}
	t.dir = filepath.Join(r.scratch, fmt.Sprintf("c%d", i))
	os.MkdirAll(t.dir, 0o755)
	defer os.RemoveAll(t.dir)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				return
			}
			buf := make([]byte, 8192)
			n := runtime.Stack(buf, false)
			// the monitor could not make sense of what the program printed or wrote
			t.Violation("unreadable", "the monitor cannot interpret the observed output: %v\n%s", e, buf[:n])
		}
	}()
	r.evals.Add(1)
	r.Case(t)
}

func (r *Run) main() int {
	start := time.Now()
	n := r.Quick
	if r.tier == "thorough" {
		n = r.Thor
		if n == 0 {
			n = r.Quick * 20
		}
	}
	if s := os.Getenv("VERIF_N"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("VERIF_CASE"); s != "" {
		i, _ := strconv.Atoi(s)
		r.one(i)
	} else {
		workers := runtime.NumCPU()
		if r.Serial {
			workers = 1
		}
		var wg sync.WaitGroup
		var next atomic.Int64
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1)) - 1
					if i >= n {
						return
					}
					r.mu.Lock()
					full := len(r.viol) >= 8 || len(r.incon) >= 8
					r.mu.Unlock()
					if full {
						return
					}
					r.one(i)
				}
			}()
		}
		wg.Wait()
	}
	wall := time.Since(start).Seconds()
	nt := len(r.keys)
	cov := map[string]any{
		"evaluations":         r.evals.Load(),
		"distinct_nontrivial": nt,
		"rule":                r.Rule,
		"samples":             r.samples,
		"processes_run":       r.execs.Load(),
		"observed":            r.counters,
	}
	ev := map[string]any{
		"property": r.ID, "tier": r.tier, "seed": r.seed, "level": r.Level,
		"coverage": cov, "assumptions": r.Assume, "wall_s": wall,
		"violations": len(r.viol),
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if len(r.known) > 0 {
		ev["known_findings_seen"] = r.known
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if os.Getenv("VERIF_CASE") == "" {
		os.WriteFile(filepath.Join(verifDir(), "evidence", r.ID+".json"), append(data, '\n'), 0o644)
	}
	var ks []string
	for k := range r.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d times)\n", r.ID, findings[r.ID+" "+k].What, r.known[k])
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %d processes, %.1fs", r.ID, r.evals.Load(), nt, r.execs.Load(), wall)
	var cs []string
	for k, v := range r.counters {
		cs = append(cs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(cs)
	fmt.Println(";", strings.Join(cs, " "))
	if len(r.viol) > 0 {
		fmt.Println("signatures:", r.violSigs)
		for _, v := range r.viol {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, v)
		}
		return 1
	}
	if len(r.incon) > 0 {
		for _, s := range r.incon {
			fmt.Println("INCONCLUSIVE:", s)
		}
		return 3
	}
	if nt < 2 && !r.mayBeEmpty && os.Getenv("VERIF_CASE") == "" {
		fmt.Println("INCONCLUSIVE: nothing observed")
		return 3
	}
	return 0
}
