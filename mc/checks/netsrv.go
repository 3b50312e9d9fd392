package checks

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// pki is a certificate authority of this run.
type pki struct {
	dir       string
	ecdsaCert tls.Certificate
	rsaCert   tls.Certificate
}

// newPKI makes certificates for the loopback and lets this process (and its
// children) trust them.
func (c *Ctx) newPKI() *pki {
	p := &pki{dir: c.Scratch()}
	must := func(err error) {
		if err != nil {
			panic("model: " + err.Error())
		}
	}
	caKey, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "mc ca"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	caDER, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &caKey.PublicKey, caKey)
	must(err)
	ca, err := x509.ParseCertificate(caDER)
	must(err)
	leaf := func(serial int64, pub, priv interface{}) tls.Certificate {
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "mc"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
			IPAddresses: []net.IP{net.ParseIP("127.0.0.1"), net.ParseIP("127.0.0.77"), net.ParseIP("::1")}, DNSNames: []string{"localhost"}}
		der, err := x509.CreateCertificate(rand.Reader, t, ca, pub, caKey)
		must(err)
		return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: priv}
	}
	ek, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	p.ecdsaCert = leaf(2, &ek.PublicKey, ek)
	rk, err := rsa.GenerateKey(rand.Reader, 2048)
	must(err)
	p.rsaCert = leaf(3, &rk.PublicKey, rk)
	f := filepath.Join(p.dir, "ca.pem")
	must(os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: caDER}), 0644))
	empty := filepath.Join(p.dir, "none")
	must(os.Mkdir(empty, 0755))
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", empty)
	for _, v := range []string{"HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "https_proxy", "ALL_PROXY", "all_proxy"} {
		os.Unsetenv(v)
	}
	return p
}

// recorded is one request as it came over the wire.
type recorded struct {
	Line   string   // request line
	Fields []string // header lines in order
	Body   []byte
	Extra  []byte // bytes after the request
	Err    error
}

func (r *recorded) get(name string) []string {
	var out []string
	for _, f := range r.Fields {
		k, v, _ := strings.Cut(f, ":")
		if strings.EqualFold(k, name) {
			out = append(out, strings.TrimSpace(v))
		}
	}
	return out
}

// reply is one answer of a server.
type reply struct {
	Status int
	Text   string
	Fields []string
	Body   string
	// How the body is delimited: "length", "chunked", "close" (by the end of
	// the connection), "http10" (the same of HTTP/1.0), "short" (declared longer than sent), "none" (no body, no
	// length), "badchunk" (chunked, breaks off), "drop" (connection closed
	// without an answer), "garbage" (Body sent verbatim), "gzip"
	// (packed if the client accepts that, declared length)
	How string
	// Delay before it is given, and Pause in the middle of it
	Delay, Pause time.Duration
}

// packed is the reply the way servers that compress their answers give it:
// packed if the request says that it may be, plain if not.
func (r reply) packed(rec *recorded) reply {
	r.How = "length"
	if !strings.Contains(strings.Join(rec.get("Accept-Encoding"), ","), "gzip") {
		return r
	}
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	z.Write([]byte(r.Body))
	z.Close()
	r.Body = b.String()
	r.Fields = append(append([]string{}, r.Fields...), "Content-Encoding: gzip")
	return r
}

func (r reply) bytes() []byte {
	var b bytes.Buffer
	if r.How == "garbage" {
		return []byte(r.Body)
	}
	text := r.Text
	if text == "" {
		text = http.StatusText(r.Status)
	}
	if text == "" {
		text = "Status"
	}
	proto := "1.1"
	if r.How == "http10" {
		proto = "1.0"
	}
	fmt.Fprintf(&b, "HTTP/%s %d %s\r\n", proto, r.Status, text)
	for _, f := range r.Fields {
		b.WriteString(f + "\r\n")
	}
	switch r.How {
	case "length", "":
		fmt.Fprintf(&b, "Content-Length: %d\r\nConnection: close\r\n\r\n%s", len(r.Body), r.Body)
	case "short":
		fmt.Fprintf(&b, "Content-Length: %d\r\nConnection: close\r\n\r\n%s", len(r.Body)+7, r.Body)
	case "chunked", "badchunk":
		b.WriteString("Transfer-Encoding: chunked\r\nConnection: close\r\n\r\n")
		rest := r.Body
		for len(rest) > 0 {
			n := len(rest)
			if n > 100 {
				n = 100
			}
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, rest[:n])
			rest = rest[n:]
		}
		if r.How == "chunked" {
			b.WriteString("0\r\n\r\n")
		}
	case "close":
		b.WriteString("Connection: close\r\n\r\n" + r.Body)
	case "http10":
		b.WriteString("\r\n" + r.Body)
	case "none":
		b.WriteString("Connection: close\r\n\r\n")
	default:
		panic("model: reply " + r.How)
	}
	return b.Bytes()
}

// server answers requests on a loopback socket, one connection after the
// other, one request per connection.
type server struct {
	l       net.Listener
	cfg     *tls.Config // nil: plain
	mu      sync.Mutex
	log     []recorded
	conns   int
	answer  func(i int, r *recorded) reply
	marker  map[byte]chan struct{}
	next    byte
	surplus time.Duration // how long to wait for surplus bytes
}

func (c *Ctx) newServer(addr string, cfg *tls.Config) (*server, error) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	s := &server{l: l, cfg: cfg, marker: map[byte]chan struct{}{}}
	c.Defer(func() { l.Close() })
	go s.serve()
	return s, nil
}

func (s *server) addr() string { return s.l.Addr().String() }

func (s *server) port() string { _, p, _ := net.SplitHostPort(s.addr()); return p }

func (s *server) serve() {
	for {
		conn, err := s.l.Accept()
		if err != nil {
			return
		}
		s.handle(conn)
	}
}

type peeked struct {
	net.Conn
	r *bufio.Reader
}

func (p *peeked) Read(b []byte) (int, error) { return p.r.Read(b) }

// patient reads from a connection as long as something arrives now and then.
type patient struct {
	net.Conn
	raw  net.Conn
	idle time.Duration
}

func (p *patient) Read(b []byte) (int, error) {
	p.raw.SetReadDeadline(time.Now().Add(p.idle))
	return p.Conn.Read(b)
}

func (s *server) handle(raw net.Conn) {
	defer raw.Close()
	raw.SetDeadline(time.Now().Add(15 * time.Second))
	br := bufio.NewReader(raw)
	first, err := br.Peek(1)
	if err == nil && first[0] == 'M' {
		br.ReadByte()
		id, _ := br.ReadByte()
		s.mu.Lock()
		if ch := s.marker[id]; ch != nil {
			close(ch)
			delete(s.marker, id)
		}
		s.mu.Unlock()
		return
	}
	s.mu.Lock()
	s.conns++
	s.mu.Unlock()
	if err != nil {
		return
	}
	var conn net.Conn = &peeked{raw, br}
	if s.cfg != nil {
		tc := tls.Server(conn, s.cfg)
		if tc.Handshake() != nil {
			return
		}
		conn = tc
	}
	wait := &patient{conn, raw, 5 * time.Second}
	rd := bufio.NewReader(wait)
	rec := readRequest(rd)
	if s.surplus > 0 && rec.Err == nil {
		wait.idle = s.surplus
		b := make([]byte, 256)
		n, _ := rd.Read(b)
		rec.Extra = b[:n]
		raw.SetReadDeadline(time.Now().Add(15 * time.Second))
	}
	s.mu.Lock()
	i := len(s.log)
	s.log = append(s.log, rec)
	f := s.answer
	s.mu.Unlock()
	if f == nil || rec.Err != nil {
		return
	}
	rp := f(i, &rec)
	if rp.Delay > 0 {
		raw.SetDeadline(time.Now().Add(rp.Delay + 15*time.Second))
		time.Sleep(rp.Delay)
	}
	if rp.How == "drop" {
		return
	}
	if rp.How == "gzip" {
		rp = rp.packed(&rec)
	}
	out := rp.bytes()
	if rp.Pause > 0 {
		raw.SetDeadline(time.Now().Add(rp.Pause + 15*time.Second))
		conn.Write(out[:len(out)/2])
		out = out[len(out)/2:]
		time.Sleep(rp.Pause)
	}
	conn.Write(out)
	if tc, ok := conn.(*tls.Conn); ok {
		tc.CloseWrite()
	}
}

func readRequest(rd *bufio.Reader) (rec recorded) {
	line := func() (string, bool) {
		l, err := rd.ReadString('\n')
		if err != nil {
			rec.Err = fmt.Errorf("head breaks off after %q: %v", l, err)
			return "", false
		}
		if !strings.HasSuffix(l, "\r\n") {
			rec.Err = fmt.Errorf("line %q ends without carriage return", l)
			return "", false
		}
		return strings.TrimSuffix(l, "\r\n"), true
	}
	var ok bool
	if rec.Line, ok = line(); !ok {
		return
	}
	for {
		l, ok := line()
		if !ok {
			return
		}
		if l == "" {
			break
		}
		rec.Fields = append(rec.Fields, l)
	}
	if te := rec.get("Transfer-Encoding"); len(te) > 0 {
		for {
			l, ok := line()
			if !ok {
				return
			}
			n, err := strconv.ParseInt(l, 16, 64)
			if err != nil {
				rec.Err = err
				return
			}
			b := make([]byte, n)
			if _, err := io.ReadFull(rd, b); err != nil {
				rec.Err = err
				return
			}
			rec.Body = append(rec.Body, b...)
			if _, ok := line(); !ok {
				return
			}
			if n == 0 {
				return
			}
		}
	}
	if cl := rec.get("Content-Length"); len(cl) > 0 {
		n, err := strconv.Atoi(cl[0])
		if err != nil || n < 0 || n > 1<<28 {
			rec.Err = fmt.Errorf("content length %q", cl[0])
			return
		}
		rec.Body = make([]byte, n)
		k, err := io.ReadFull(rd, rec.Body)
		if err != nil {
			rec.Body = rec.Body[:k]
			rec.Err = fmt.Errorf("%d of %d bytes: %v", k, n, err)
		}
	}
	return
}

// script sets the answers for the coming requests and forgets the past.
func (s *server) script(f func(i int, r *recorded) reply) {
	s.mu.Lock()
	s.log, s.conns, s.answer = nil, 0, f
	s.mu.Unlock()
}

// sync waits until all connections made so far have been handled: they are
// handled in order, so a connection of its own marks the end.
func (s *server) sync() ([]recorded, int) {
	ch := make(chan struct{})
	s.mu.Lock()
	s.next++
	id := s.next
	s.marker[id] = ch
	s.mu.Unlock()
	conn, err := net.Dial("tcp", s.addr())
	if err != nil {
		panic("model: " + err.Error())
	}
	conn.Write([]byte{'M', id})
	<-ch
	conn.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]recorded(nil), s.log...), s.conns
}

// netEnv is the set of servers of one worker.
type netEnv struct {
	a, b  *server // https
	plain *server // http
}

// newEnvs makes one environment per worker.
func (c *Ctx) newEnvs(p *pki, n int) []*netEnv {
	var out []*netEnv
	must := func(s *server, err error) *server {
		if err != nil {
			panic("model: " + err.Error())
		}
		return s
	}
	cfg := &tls.Config{Certificates: []tls.Certificate{p.ecdsaCert}, SessionTicketsDisabled: true}
	for i := 0; i < n; i++ {
		out = append(out, &netEnv{must(c.newServer("127.0.0.1:0", cfg)), must(c.newServer("127.0.0.1:0", cfg)), must(c.newServer("127.0.0.1:0", nil))})
	}
	return out
}
