package main

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C30", Quick: 1500, Thor: 30000, Case: c30,
		Rule: "random commodities (decimals 0-8, with and without symbol and nomarket, any default) and a stand-in for the market behind a loopback proxy answering each symbol with a random quote (decimal, exponent, many digits, negative), with no quote, an error, a failing status, garbage, an unknown currency or a closed connection; the price entries coin commodities -q prints are compared with what the market answered, and loaded back; an evaluation is one run, distinct by output, non-trivial if some commodity is quoted and another is not"})
}

// the market: an HTTPS proxy on the loopback interface that answers in place of every server
type market struct {
	t      *T
	l      net.Listener
	addr   string
	mu     sync.Mutex
	answer map[string]func(w io.Writer) // by symbol
	asked  []string
	odd    []string // requests it has no answer to
	wg     sync.WaitGroup
}

var marketCert struct {
	sync.Once
	cert tls.Certificate
	pem  []byte
	err  error
}

func (t *T) newMarket() *market {
	marketCert.Do(func() {
		fail := func(err error) bool {
			if err != nil {
				marketCert.err = err
			}
			return err != nil
		}
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if fail(err) {
			return
		}
		tm := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "market"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
			DNSNames: []string{"*.yahoo.com", "yahoo.com", "*.finance.yahoo.com", "finance.yahoo.com"}, IsCA: true, BasicConstraintsValid: true,
			KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		der, err := x509.CreateCertificate(rand.Reader, tm, tm, &key.PublicKey, key)
		if fail(err) {
			return
		}
		marketCert.cert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
		marketCert.pem = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	})
	if marketCert.err != nil {
		t.Inconclusive("no certificate: %v", marketCert.err)
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Inconclusive("cannot listen: %v", err)
	}
	m := &market{t: t, l: ln, addr: ln.Addr().String(), answer: map[string]func(io.Writer){}}
	m.wg.Add(1)
	go func() {
		defer m.wg.Done()
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			m.wg.Add(1)
			go func() {
				defer m.wg.Done()
				m.serve(c)
			}()
		}
	}()
	return m
}

func (m *market) env() []string {
	p := m.t.Write("market.pem", string(marketCert.pem))
	return []string{"HTTPS_PROXY=http://" + m.addr, "HTTP_PROXY=http://" + m.addr, "SSL_CERT_FILE=" + p, "SSL_CERT_DIR=/nonexistent", "NO_PROXY="}
}

func (m *market) close() {
	m.l.Close()
	m.wg.Wait()
}

func (m *market) serve(c net.Conn) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(timeout))
	r, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil || r.Method != "CONNECT" {
		return
	}
	io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
	s := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{marketCert.cert}})
	br := bufio.NewReader(s)
	for {
		r, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		io.Copy(io.Discard, r.Body)
		if !m.reply(r, s) {
			return
		}
	}
}

func respond(w io.Writer, status int, body string) {
	fmt.Fprintf(w, "HTTP/1.1 %d %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", status, http.StatusText(status), len(body), body)
}

func (m *market) reply(r *http.Request, w io.Writer) (more bool) {
	switch {
	case strings.HasSuffix(r.URL.Path, "/getcrumb"):
		respond(w, 200, "crumb")
	case r.URL.Path == "/":
		respond(w, 200, "hello")
	default:
		m.mu.Lock()
		defer m.mu.Unlock()
		v, _ := url.ParseQuery(r.URL.RawQuery)
		sym := v.Get("symbols")
		m.asked = append(m.asked, sym)
		a := m.answer[sym]
		if a == nil {
			m.odd = append(m.odd, r.URL.String())
			respond(w, 200, `{"quoteResponse":{"result":[],"error":null}}`)
			return true
		}
		var b strings.Builder
		a(&b)
		if b.Len() == 0 {
			return false // closes the connection
		}
		io.WriteString(w, b.String())
	}
	return true
}

// quoteText is a number as a market may write it, of at most 15 significant digits.
func (t *T) quoteText() string {
	for {
		s := t.anyQuote()
		if v, ok := new(big.Rat).SetString(s); ok && v.Sign() != 0 {
			return s
		}
	}
}

func (t *T) anyQuote() string {
	digits := 1 + t.N(15)
	v := bigRand(t.R, digits)
	dec := t.N(9)
	if t.N(3) == 0 {
		v, dec = bigRand(t.R, 1+t.N(6)), 2 // like an ordinary price
	}
	s := decText(v, dec)
	if t.N(12) == 0 {
		s = fmt.Sprintf("%de-%d", 1+t.N(9999), t.N(10))
	}
	if t.N(12) == 0 && !strings.HasPrefix(s, "-") {
		s = "-" + s
	}
	return s
}

func decText(v *big.Int, dec int) string {
	return new(big.Rat).SetFrac(v, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(dec)), nil)).FloatString(dec)
}

func c30(t *T) {
	o := defOpt(t)
	o.Coms = 2 + t.N(6)
	l := t.genBase(&o)
	for _, id := range l.ComIds {
		c := l.Coms[id]
		if t.N(3) == 0 {
			c.Symbol = pick(t.R, []string{"X", "T", "7", "A.B", "VFV.TO"}) + id
		}
		if t.N(6) == 0 {
			c.NoMarket = !c.NoMarket
		}
	}
	y := t.newLayout("db", Style{Fancy: true, Comments: true, Tight: true})
	coms, accs, _, _ := y.entries(l)
	t.R.Shuffle(len(coms), func(i, j int) { coms[i], coms[j] = coms[j], coms[i] })
	y.put("db/commodities.coin", coms, 2)
	y.put("db/accounts.coin", accs, 2)
	os.MkdirAll(filepath.Join(t.dir, "db"), 0o755)
	db := t.Path("db")
	m := t.newMarket()
	defer m.close()
	type quote struct{ v, cur string }
	quotes := map[string]quote{} // by commodity
	var expected []string
	missing := map[string]string{}
	dead := t.N(25) == 0 // nothing listens
	for _, id := range l.ComIds {
		c := l.Coms[id]
		if c.NoMarket || id == l.Default {
			continue
		}
		sym := c.Symbol
		if sym == "" {
			sym = id + l.Default + "=X"
		}
		expected = append(expected, sym)
		var body string
		status := 200
		kind := "quote"
		if t.N(3) == 0 {
			kind = pick(t.R, []string{"none", "none", "null", "error", "status", "garbage", "currency", "nocurrency", "noprice", "closed"})
		}
		if kind != "quote" {
			missing[id] = kind
		}
		switch kind {
		case "quote":
			q := quote{t.quoteText(), pick(t.R, l.ComIds)}
			for q.cur == id {
				q.cur = pick(t.R, l.ComIds)
			}
			quotes[id] = q
			more := ""
			if t.N(4) == 0 {
				more = `,"regularMarketPreviousClose":17.25,"bid":3,"ask":4,"shortName":"Some \"name\", Inc."`
			}
			body = fmt.Sprintf(`{"quoteResponse":{"result":[{"symbol":%q,"currency":%q,"regularMarketPrice":%s%s}],"error":null}}`, sym, q.cur, q.v, more)
		case "none":
			body = `{"quoteResponse":{"result":[],"error":null}}`
		case "null":
			body = `{"quoteResponse":{"result":null,"error":null}}`
		case "error":
			body = `{"quoteResponse":{"result":null,"error":{"code":"Not Found","description":"no such thing"}}}`
		case "status":
			status, body = pick(t.R, []int{404, 429, 500, 503}), `{"finance":{"result":null,"error":{"code":"Unauthorized","description":"Invalid"}}}`
		case "garbage":
			body = pick(t.R, []string{"<html>consent</html>", `{"quoteResponse":{"result":[{"regularMarketPrice":`, `[]`, `{"quoteResponse":{"result":[{"regularMarketPrice":"12.5","currency":"USD"}]}}`})
		case "currency":
			body = fmt.Sprintf(`{"quoteResponse":{"result":[{"symbol":%q,"currency":"NOSUCH","regularMarketPrice":%s}],"error":null}}`, sym, t.quoteText())
		case "nocurrency":
			body = fmt.Sprintf(`{"quoteResponse":{"result":[{"symbol":%q,"regularMarketPrice":%s}],"error":null}}`, sym, t.quoteText())
		case "noprice":
			body = fmt.Sprintf(`{"quoteResponse":{"result":[{"symbol":%q,"currency":%q,"shortName":"gone"}],"error":null}}`, sym, pick(t.R, l.ComIds))
		case "closed":
		}
		m.answer[sym] = func(w io.Writer) {
			if kind != "closed" {
				respond(w, status, body)
			}
		}
		t.Logf("%s (%s): %s %d %s", id, sym, kind, status, body)
	}
	if dead {
		m.l.Close()
		// a port that is taken, so that no other case gets it, but on which nothing listens
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			t.Inconclusive("no socket: %v", err)
		}
		defer syscall.Close(fd)
		if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
			t.Inconclusive("cannot bind: %v", err)
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			t.Inconclusive("no address: %v", err)
		}
		m.addr = fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
		for id := range quotes {
			missing[id] = "dead"
		}
		quotes = map[string]quote{}
	}
	env := append(y.envList(), m.env()...)
	from := time.Now().UTC().Format("2006/01/02")
	args := []string{pick(t.R, []string{"commodities", "com", "c"}), "-q"}
	r := t.ExecIn(db, "", env, "coin", args...)
	to := time.Now().UTC().Format("2006/01/02")
	if r.Code == 2 || r.Panicked() {
		t.Fail("crash", "commodities without a quote: %v\n%s", missing, r)
	}
	m.mu.Lock()
	asked, odd := append([]string(nil), m.asked...), m.odd
	m.mu.Unlock()
	if len(odd) > 0 {
		t.Fail("asked", "asked for what is not to be quoted: %q\n%s", odd, r)
	}
	if !dead {
		have := map[string]bool{}
		for _, s := range asked {
			have[s] = true
		}
		for _, s := range expected {
			if !have[s] {
				t.Fail("asked", "never asked for %s, only %q\n%s", s, asked, r)
			}
		}
	}
	seen := map[string]bool{}
	for _, ln := range lines(r.Out) {
		f := strings.Fields(ln)
		if len(f) != 5 || f[0] != "P" {
			t.Fail("line", "not a price entry: %q\n%s", ln, r)
		}
		if f[1] != from && f[1] != to {
			t.Fail("date", "%q is not of today, %s\n%s", ln, to, r)
		}
		q, ok := quotes[f[2]]
		if !ok {
			t.Fail("extra", "%q: no such quote (%s)\n%s", ln, missing[f[2]], r)
		}
		if seen[f[2]] {
			t.Fail("twice", "%q is there twice\n%s", f[2], r)
		}
		seen[f[2]] = true
		if f[4] != q.cur {
			t.Fail("currency", "%q: quoted in %s\n%s", ln, q.cur, r)
		}
		want, ok1 := new(big.Rat).SetString(q.v)
		got, ok2 := new(big.Rat).SetString(f[3])
		if !ok1 || !ok2 {
			t.Fail("line", "amount of %q\n%s", ln, r)
		}
		dec := l.Coms[q.cur].Dec
		unit := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(dec)), nil))
		diff := new(big.Rat).Sub(got, want)
		exact := new(big.Rat).Quo(want, unit).IsInt()
		if exact && diff.Sign() != 0 || diff.Abs(diff).Cmp(unit) >= 0 {
			t.Fail("amount", "%q: the quote is %s %s\n%s", ln, q.v, q.cur, r)
		}
		if exact {
			t.Count("quotes_exact", 1)
		} else {
			t.Count("quotes_cut", 1)
		}
	}
	for id := range quotes {
		if !seen[id] {
			t.Fail("lost", "no entry for the quote of %s\n%s", id, r)
		}
	}
	for id, kind := range missing {
		told := false
		for _, ln := range lines(r.Err) {
			told = told || strings.Contains(ln, id)
		}
		if !told {
			t.Fail("silent", "no word that %s has no quote (%s)\n%s", id, kind, r)
		}
		t.Count("no_quote_"+kind, 1)
	}
	if len(missing) == 0 && r.Code != 0 {
		t.Fail("exit", "everything was quoted\n%s", r)
	}
	// what is printed can be loaded
	t.Write("db/prices.coin", r.Out)
	n := 0
	for _, id := range l.ComIds {
		if _, ok := quotes[id]; ok {
			r2 := t.ExecIn(db, "", y.envList(), "coin", "commodities", id)
			if r2.Code != 0 {
				t.Fail("load", "the printed entries cannot be loaded\n%s\n%s", r, r2)
			}
			var want string
			for _, ln := range lines(r.Out) {
				if f := strings.Fields(ln); f[2] == id {
					want = f[1] + " " + f[3] + " " + f[4]
				}
			}
			if got := strings.TrimSpace(r2.Out); got != want {
				t.Fail("load", "the price of %s should be %q\n%s\n%s", id, want, r, r2)
			}
			n++
		}
	}
	t.Count("loaded_back", n)
	t.Count("requests", len(asked))
	if len(quotes) > 0 && len(missing) > 0 {
		ls := lines(r.Out)
		sort.Strings(ls)
		t.Nontrivial(strings.Join(ls, "\n"))
		t.Sample(map[string]any{"out": r.Out, "err": r.Err})
	}
}
