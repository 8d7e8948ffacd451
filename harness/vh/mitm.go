package main

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"time"
)

// Mitm is an HTTPS proxy on the loopback interface which hands every request of the program under test to a Wiki. Each
// run authenticates with its own proxy user, so that one proxy serves many concurrent runs.
type Mitm struct {
	Addr   string
	CAFile string
	caCert *x509.Certificate
	caKey  *ecdsa.PrivateKey
	key    *ecdsa.PrivateKey
	mu     sync.Mutex
	certs  map[string]*tls.Certificate
	wikis  map[string]*Wiki
	n      int
}

func (c *Ctx) Mitm() *Mitm {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.mitm == nil {
		c.mitm = newMitm(c.Tmp)
	}
	return c.mitm
}

func newMitm(dir string) *Mitm {
	m := &Mitm{certs: map[string]*tls.Certificate{}, wikis: map[string]*Wiki{}}
	var err error
	m.caKey, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	m.key, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "vh test CA"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * 365 * time.Hour), IsCA: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &m.caKey.PublicKey, m.caKey)
	must(err)
	m.caCert, err = x509.ParseCertificate(der)
	must(err)
	m.CAFile = filepath.Join(dir, "ca.pem")
	must(os.WriteFile(m.CAFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	m.Addr = l.Addr().String()
	srv := &http.Server{Handler: http.HandlerFunc(m.proxy), ErrorLog: log.New(io.Discard, "", 0)}
	go srv.Serve(l)
	return m
}

// Attach registers a wiki and returns the proxy URL that leads to it.
func (m *Mitm) Attach(w *Wiki) (string, string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.n++
	id := "u" + itoa(m.n)
	m.wikis[id] = w
	return "http://" + id + ":x@" + m.Addr, id
}

func (m *Mitm) Detach(id string) {
	m.mu.Lock()
	delete(m.wikis, id)
	m.mu.Unlock()
}

func (m *Mitm) cert(host string) *tls.Certificate {
	m.mu.Lock()
	defer m.mu.Unlock()
	if c := m.certs[host]; c != nil {
		return c
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(len(m.certs) + 2)), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * 300 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(rand.Reader, t, m.caCert, &m.key.PublicKey, m.caKey)
	must(err)
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: m.key}
	m.certs[host] = c
	return c
}

func (m *Mitm) proxy(rw http.ResponseWriter, r *http.Request) {
	user := ""
	if req := (&http.Request{Header: http.Header{"Authorization": r.Header["Proxy-Authorization"]}}); true {
		user, _, _ = req.BasicAuth()
	}
	m.mu.Lock()
	w := m.wikis[user]
	m.mu.Unlock()
	if w == nil {
		http.Error(rw, "no such run", 502)
		return
	}
	if r.Method != http.MethodConnect {
		// A plain http request: no configured host is served like this. Log it as what it is.
		r.Header.Set("X-Vh-Plain", "1")
		w.ServeHTTP(rw, r)
		return
	}
	host, _, err := net.SplitHostPort(r.Host)
	if err != nil {
		host = r.Host
	}
	h, ok := rw.(http.Hijacker)
	if !ok {
		return
	}
	c, buf, err := h.Hijack()
	if err != nil {
		return
	}
	if _, err := c.Write([]byte("HTTP/1.1 200 Connection established\r\n\r\n")); err != nil {
		c.Close()
		return
	}
	tc := tls.Server(&bufConn{c, buf.Reader}, &tls.Config{NextProtos: []string{"http/1.1"}, GetCertificate: func(ch *tls.ClientHelloInfo) (*tls.Certificate, error) { return m.cert(host), nil }})
	one := &oneListener{c: tc, done: make(chan struct{})}
	w.connection(1)
	defer w.connection(-1)
	srv := &http.Server{Handler: w, ErrorLog: log.New(io.Discard, "", 0), ConnState: func(_ net.Conn, s http.ConnState) {
		if s == http.StateClosed || s == http.StateHijacked {
			one.close()
		}
	}}
	srv.Serve(one)
}

type bufConn struct {
	net.Conn
	r *bufio.Reader
}

func (b *bufConn) Read(p []byte) (int, error) { return b.r.Read(p) }

type oneListener struct {
	mu   sync.Mutex
	c    net.Conn
	done chan struct{}
	shut bool
}

func (o *oneListener) Accept() (net.Conn, error) {
	o.mu.Lock()
	c := o.c
	o.c = nil
	o.mu.Unlock()
	if c != nil {
		return c, nil
	}
	<-o.done
	return nil, io.EOF
}
func (o *oneListener) close() {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.shut {
		o.shut = true
		close(o.done)
	}
}
func (o *oneListener) Close() error   { o.close(); return nil }
func (o *oneListener) Addr() net.Addr { return &net.TCPAddr{} }
