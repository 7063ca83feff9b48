package checks

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"time"

	"verifharness/internal/core"
)

// authority signs the certificates of the hosts the commands talk to.
type authority struct {
	cert  *x509.Certificate
	key   *ecdsa.PrivateKey
	file  string
	mu    sync.Mutex
	certs map[string]*tls.Certificate
}

func newAuthority(dir string) *authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	core.Must(err, "key")
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * 365 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	core.Must(err, "certificate")
	t, err = x509.ParseCertificate(der)
	core.Must(err, "certificate")
	a := &authority{cert: t, key: key, file: filepath.Join(dir, "ca.pem"), certs: map[string]*tls.Certificate{}}
	core.Must(os.WriteFile(a.file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644), "ca")
	return a
}

func (a *authority) leaf(host string) *tls.Certificate {
	a.mu.Lock()
	defer a.mu.Unlock()
	if c := a.certs[host]; c != nil {
		return c
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	core.Must(err, "key")
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * 30 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(rand.Reader, t, a.cert, &key.PublicKey, a.key)
	core.Must(err, "certificate")
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	a.certs[host] = c
	return c
}

// proxy is an HTTP proxy that answers in the place of every host.
type proxy struct {
	ca       *authority
	ln       net.Listener
	srv      *http.Server
	mu       sync.Mutex
	seen     []string // method and URL of the requests
	handle   func(n int, w http.ResponseWriter, r *http.Request)
	certOf   string // the host certificates are made out to when not the one asked for
	refuse   bool   // CONNECT is answered with an error
	connects int
}

func newProxy(ca *authority, handle func(n int, w http.ResponseWriter, r *http.Request)) *proxy {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	core.Must(err, "listen")
	p := &proxy{ca: ca, ln: ln, handle: handle}
	p.srv = &http.Server{Handler: p, ErrorLog: discardLog}
	go func() { _ = p.srv.Serve(ln) }()
	return p
}

func (p *proxy) close() { _ = p.srv.Close() }

func (p *proxy) env() []string {
	u := "http://" + p.ln.Addr().String()
	return core.Env(core.GoRoot, "HTTPS_PROXY="+u, "HTTP_PROXY="+u, "NO_PROXY=", "SSL_CERT_FILE="+p.ca.file, "SSL_CERT_DIR=/nonexistent")
}

func (p *proxy) requests() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string(nil), p.seen...)
}

func (p *proxy) answer(scheme string) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		u := *r.URL
		u.Scheme, u.Host = scheme, r.Host
		p.mu.Lock()
		n := len(p.seen)
		p.seen = append(p.seen, r.Method+" "+u.String())
		p.mu.Unlock()
		r.URL = &u
		p.handle(n, w, r)
	})
}

func (p *proxy) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if r.Method != http.MethodConnect {
		p.answer("http").ServeHTTP(w, r)
		return
	}
	p.mu.Lock()
	p.connects++
	p.mu.Unlock()
	if p.refuse {
		http.Error(w, "no", http.StatusBadGateway)
		return
	}
	host, _, _ := net.SplitHostPort(r.Host)
	if p.certOf != "" {
		host = p.certOf
	}
	conn, _, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	_, _ = io.WriteString(conn, "HTTP/1.1 200 OK\r\n\r\n")
	t := tls.Server(conn, &tls.Config{Certificates: []tls.Certificate{*p.ca.leaf(host)}})
	l := &oneConn{c: t, done: make(chan struct{})}
	_ = (&http.Server{Handler: p.answer("https"), ConnState: func(_ net.Conn, s http.ConnState) {
		if s == http.StateClosed || s == http.StateHijacked {
			l.close()
		}
	}, ErrorLog: discardLog}).Serve(l)
}

// oneConn is a listener of one connection.
type oneConn struct {
	c    net.Conn
	done chan struct{}
	once sync.Once
	took bool
}

func (l *oneConn) close() { l.once.Do(func() { close(l.done) }) }

func (l *oneConn) Accept() (net.Conn, error) {
	if !l.took {
		l.took = true
		return l.c, nil
	}
	<-l.done
	return nil, io.EOF
}
func (l *oneConn) Close() error   { return nil }
func (l *oneConn) Addr() net.Addr { return l.c.LocalAddr() }

// cut sends what is given and ends the connection without ceremony.
func cut(w http.ResponseWriter, raw string) {
	c, b, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	_, _ = b.WriteString(raw)
	_ = b.Flush()
	_ = c.Close()
}

var discardLog = log.New(io.Discard, "", 0)
