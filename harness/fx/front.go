package fx

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	stdlog "log"
	"math/big"
	"net"
	"net/http"
	"net/http/httputil"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"vharness/hx"
)

// PKI makes server certificates.
type PKI struct {
	root, inter, other, leaf *issuer
	keys                     map[string]crypto.Signer
	mu                       sync.Mutex
	certs                    map[string]*tls.Certificate
}

type issuer struct {
	cert *x509.Certificate
	key  crypto.Signer
}

var (
	pkiOnce sync.Once
	thePKI  *PKI
	pkiErr  error
)

// ThePKI makes the authorities on the first call. From then on the process trusts one of them and
// no other; it must not have verified a certificate before.
func ThePKI() (*PKI, error) {
	pkiOnce.Do(func() { thePKI, pkiErr = newPKI() })
	return thePKI, pkiErr
}

var pkiSerial int64

func (p *PKI) issue(t *x509.Certificate, key crypto.Signer, by *issuer) (*issuer, error) {
	pkiSerial++
	t.SerialNumber = big.NewInt(pkiSerial)
	if t.NotBefore.IsZero() {
		t.NotBefore = time.Now().Add(-time.Hour)
	}
	if t.NotAfter.IsZero() {
		t.NotAfter = time.Now().Add(24 * time.Hour)
	}
	if by == nil {
		by = &issuer{t, key}
	}
	der, err := x509.CreateCertificate(rand.Reader, t, by.cert, key.Public(), by.key)
	if err != nil {
		return nil, err
	}
	c, err := x509.ParseCertificate(der)
	return &issuer{c, key}, err
}

func newPKI() (*PKI, error) {
	p := &PKI{keys: map[string]crypto.Signer{}, certs: map[string]*tls.Certificate{}}
	ec := func() crypto.Signer { k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader); return k }
	p.keys["ec"] = ec()
	r, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		return nil, hx.Harness("rsa: %v", err)
	}
	p.keys["rsa"] = r
	_, ed, err := ed25519.GenerateKey(rand.Reader)
	if err != nil {
		return nil, hx.Harness("ed25519: %v", err)
	}
	p.keys["ed"] = ed
	ca := func(name string, by *issuer) *issuer {
		var i *issuer
		if err == nil {
			i, err = p.issue(&x509.Certificate{Subject: pkix.Name{CommonName: name}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}, ec(), by)
		}
		return i
	}
	p.root = ca("harness root", nil)
	p.inter = ca("harness intermediate", p.root)
	p.other = ca("another root", nil)
	if err != nil {
		return nil, hx.Harness("authorities: %v", err)
	}
	if p.leaf, err = p.issue(leafTemplate(), ec(), p.root); err != nil {
		return nil, hx.Harness("leaf: %v", err)
	}
	dir, err := os.MkdirTemp("", "vharness-pki")
	if err != nil {
		return nil, hx.Harness("%v", err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "roots.pem")
	if err := os.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: p.root.cert.Raw}), 0o600); err != nil {
		return nil, hx.Harness("%v", err)
	}
	empty := filepath.Join(dir, "none")
	if err := os.Mkdir(empty, 0o700); err != nil {
		return nil, hx.Harness("%v", err)
	}
	os.Setenv("SSL_CERT_FILE", file)
	os.Setenv("SSL_CERT_DIR", empty)
	// the roots are read once, now
	if _, err := p.leaf.cert.Verify(x509.VerifyOptions{DNSName: "localhost"}); err != nil {
		return nil, hx.Harness("the roots were not taken: %v", err)
	}
	if _, err := p.other.cert.Verify(x509.VerifyOptions{KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}}); err == nil {
		return nil, hx.Harness("everything is trusted")
	}
	return p, nil
}

func leafTemplate() *x509.Certificate {
	return &x509.Certificate{
		Subject:  pkix.Name{CommonName: "localhost"},
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.ParseIP("127.0.0.1"), net.ParseIP("127.0.0.2"), net.ParseIP("::1")},
	}
}

// GoodCerts must be accepted for any host, BadCerts for none.
var (
	GoodCerts = []string{"ec", "rsa", "ed", "chain", "just this host"}
	BadCerts  = []string{"other host", "only the common name", "untrusted", "self-signed", "expired", "not yet valid", "for clients", "by a leaf", "without its chain", "another of our hosts"}
)

// Cert is a server certificate of a kind for a host.
func (p *PKI) Cert(kind, host string) (*tls.Certificate, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if c := p.certs[kind+"/"+host]; c != nil {
		return c, nil
	}
	t, by, chain := leafTemplate(), p.root, []*issuer(nil)
	key := p.keys["ec"]
	only := func(host string) {
		t.DNSNames, t.IPAddresses = nil, nil
		if ip := net.ParseIP(host); ip != nil {
			t.IPAddresses = []net.IP{ip}
		} else {
			t.DNSNames = []string{host}
		}
		t.Subject.CommonName = host
	}
	switch kind {
	case "ec", "rsa", "ed":
		key = p.keys[kind]
	case "chain":
		by, chain = p.inter, []*issuer{p.inter}
	case "without its chain":
		by = p.inter
	case "just this host":
		only(host)
	case "another of our hosts":
		if host == "localhost" {
			only("127.0.0.1")
		} else {
			only("localhost")
		}
	case "other host":
		only("cs.example")
	case "only the common name":
		t.DNSNames, t.IPAddresses = nil, nil
		t.Subject.CommonName = host
	case "untrusted":
		by, chain = p.other, []*issuer{p.other}
	case "self-signed":
		by = nil
	case "expired":
		t.NotBefore, t.NotAfter = time.Now().Add(-48*time.Hour), time.Now().Add(-24*time.Hour)
	case "not yet valid":
		t.NotBefore, t.NotAfter = time.Now().Add(24*time.Hour), time.Now().Add(48*time.Hour)
	case "for clients":
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	case "by a leaf":
		by, chain = p.leaf, []*issuer{p.leaf}
	default:
		return nil, hx.Harness("no certificate %q", kind)
	}
	l, err := p.issue(t, key, by)
	if err != nil {
		return nil, hx.Harness("certificate %q: %v", kind, err)
	}
	c := &tls.Certificate{PrivateKey: key, Certificate: [][]byte{l.cert.Raw}, Leaf: l.cert}
	for _, i := range chain {
		c.Certificate = append(c.Certificate, i.cert.Raw)
	}
	p.certs[kind+"/"+host] = c
	return c, nil
}

// FrontMode is how a front appears.
type FrontMode struct {
	TLS  bool
	Cert string
	Max  uint16 // highest version of TLS, 0: any
}

// Hit is an HTTP request that reached a front.
type Hit struct {
	Method, URI, Host, Auth string
	Header                  http.Header
	Body                    []byte // unless it was an upgrade
	Mode                    FrontMode
}

// Front is a reverse proxy before an endpoint, which serves a base path at an address.
type Front struct {
	Host, Port string
	to         string
	base       int // segments
	srv        *http.Server
	mu         sync.Mutex
	mode       FrontMode
	hits       []Hit
	conns      map[net.Conn]bool
	hellos     int
}

// frontListener sniffs TLS according to the mode of the front at the time of the connection.
type frontListener struct {
	net.Listener
	f *Front
}

func (l frontListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	f := l.f
	f.mu.Lock()
	defer f.mu.Unlock()
	f.conns[c] = true
	f.hellos++
	if !f.mode.TLS {
		return c, nil
	}
	cert, err := thePKI.Cert(f.mode.Cert, f.Host)
	if err != nil {
		c.Close()
		return c, nil
	}
	cfg := &tls.Config{Certificates: []tls.Certificate{*cert}, NextProtos: []string{"http/1.1"}, MaxVersion: f.mode.Max}
	if f.mode.Max != 0 && f.mode.Max < tls.VersionTLS12 {
		cfg.MinVersion = tls.VersionTLS10
	}
	return tls.Server(c, cfg), nil
}

// NewFront listens at a host, on a port of its own, before the endpoint at an address.
func NewFront(host, to string, base int, mode FrontMode) (*Front, error) {
	if mode.TLS {
		if _, err := ThePKI(); err != nil {
			return nil, err
		}
	}
	l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
	if err != nil {
		return nil, hx.Harness("listen: %v", err)
	}
	_, port, _ := net.SplitHostPort(l.Addr().String())
	f := &Front{Host: host, Port: port, to: to, base: base, mode: mode, conns: map[net.Conn]bool{}}
	quiet := stdlog.New(io.Discard, "", 0)
	proxy := &httputil.ReverseProxy{ErrorLog: quiet, Rewrite: func(r *httputil.ProxyRequest) {
		segs := strings.Split(r.In.URL.EscapedPath(), "/")
		rest := "/"
		if len(segs) > f.base+1 {
			rest = "/" + strings.Join(segs[f.base+1:], "/")
		}
		u := url.URL{Scheme: "http", Host: f.to, RawPath: rest}
		u.Path, _ = url.PathUnescape(rest)
		u.RawQuery = r.In.URL.RawQuery
		r.Out.URL = &u
	}}
	f.srv = &http.Server{ErrorLog: quiet, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		h := Hit{Method: r.Method, URI: r.RequestURI, Host: r.Host, Auth: r.Header.Get("Authorization"), Header: r.Header.Clone()}
		if r.Header.Get("Upgrade") == "" {
			h.Body, _ = io.ReadAll(r.Body)
			r.Body = io.NopCloser(bytes.NewReader(h.Body))
		}
		f.mu.Lock()
		h.Mode = f.mode
		f.hits = append(f.hits, h)
		f.mu.Unlock()
		proxy.ServeHTTP(w, r)
	})}
	go f.srv.Serve(frontListener{l, f})
	return f, nil
}

// Addr is the host and port for a URL.
func (f *Front) Addr() string { return net.JoinHostPort(f.Host, f.Port) }

// Hits are the requests that arrived, and the connections.
func (f *Front) Hits() ([]Hit, int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]Hit(nil), f.hits...), f.hellos
}

// Switch ends all connections; new ones get another mode.
func (f *Front) Switch(mode FrontMode) {
	f.mu.Lock()
	f.mode = mode
	for c := range f.conns {
		c.Close()
	}
	f.conns = map[net.Conn]bool{}
	f.mu.Unlock()
}

// Close ends it.
func (f *Front) Close() {
	f.srv.Close()
	f.mu.Lock()
	defer f.mu.Unlock()
	for c := range f.conns {
		c.Close()
	}
}

// CanListen reports whether connections to a host arrive here.
func CanListen(host string) bool {
	l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
	if err != nil {
		return false
	}
	defer l.Close()
	_, port, _ := net.SplitHostPort(l.Addr().String())
	c, err := net.DialTimeout("tcp", net.JoinHostPort(host, port), 5*time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}
