package fx

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"time"
	"vharness/gen"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/hx"
)

// SoapCP is a SOAP charge point of the library with a replaceable handler.
type SoapCP struct {
	*Point
	Addr string
	URL  string
	mu   sync.Mutex
	h    CPHandler
}

// SetHandler replaces the handler.
func (s *SoapCP) SetHandler(h CPHandler) { s.mu.Lock(); s.h = h; s.mu.Unlock() }

func (s *SoapCP) handle(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
	s.mu.Lock()
	h := s.h
	s.mu.Unlock()
	if h == nil {
		return nil, errors.New("no handler in the harness")
	}
	return h(r)
}

// NewSoapCP starts a SOAP charge point that talks to csURL.
func NewSoapCP(id, csURL string) (*SoapCP, error) {
	for try := 0; ; try++ {
		port, err := FreePort()
		if err != nil {
			return nil, hx.Harness("no port: %v", err)
		}
		s := &SoapCP{Addr: fmt.Sprintf("127.0.0.1:%d", port)}
		s.URL = "http://" + s.Addr + "/"
		ctx, cancel := context.WithCancel(context.Background())
		p, err := cp.New(ctx, id, csURL, ocpp.V15, ocpp.SOAP, &s.Addr, s.handle)
		if err != nil {
			cancel()
			if try < 5 { // the port may have been taken meanwhile
				continue
			}
			return nil, fmt.Errorf("a SOAP charge point could not be made: %v", err)
		}
		s.Point = &Point{CP: p, ID: id, Cancel: cancel}
		err = hx.Eventually("start of the SOAP server of a charge point", func() error {
			c, err := net.Dial("tcp", s.Addr)
			if err != nil {
				return err
			}
			c.Close()
			return nil
		})
		if err == nil {
			return s, nil
		}
		cancel()
		if try >= 2 {
			return nil, err
		}
	}
}

var (
	soapOnce sync.Once
	soapCP   *SoapCP
	soapErr  error
)

// TheSoapCP is the shared SOAP charge point; it talks to the central system under test.
func TheSoapCP() (*SoapCP, error) {
	soapOnce.Do(func() {
		sys, err := TheCS()
		if err != nil {
			soapErr = err
			return
		}
		soapCP, soapErr = NewSoapCP("soap-cp", sys.HTTP+"/")
	})
	return soapCP, soapErr
}

// Reply of an HTTP server.
type Reply struct {
	Status int
	Header http.Header
	Body   []byte
}

var httpClient = &http.Client{
	Transport:     &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 64, DialContext: (&net.Dialer{Timeout: 20 * time.Second}).DialContext},
	Timeout:       40 * time.Second,
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
}

// Do makes an HTTP request.
func Do(method, url string, body []byte, header http.Header) (*Reply, error) {
	req, err := http.NewRequest(method, url, bytes.NewReader(body))
	if err != nil {
		return nil, hx.Harness("request: %v", err)
	}
	for k, v := range header {
		req.Header[k] = v
	}
	start := time.Now()
	resp, err := httpClient.Do(req)
	if err != nil {
		return nil, errors.Join(hx.Late(start, method+" "+url), err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, fmt.Errorf("reading the response of %s %s: %v", method, url, err)
	}
	return &Reply{resp.StatusCode, resp.Header, b}, nil
}

// CloseIdle ends the connections of the raw client that are kept for later.
func CloseIdle() { httpClient.CloseIdleConnections() }

// Post posts an envelope.
func Post(url string, body []byte) (*Reply, error) {
	return Do("POST", url, body, http.Header{"Content-Type": {"application/soap+xml; charset=utf-8"}})
}

// FakeHTTP is an HTTP server that answers as told.
type FakeHTTP struct {
	URL string
	srv *http.Server
	mu  sync.Mutex
	h   http.HandlerFunc
}

// NewFakeHTTP starts one.
func NewFakeHTTP() (*FakeHTTP, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, hx.Harness("no port: %v", err)
	}
	f := &FakeHTTP{URL: "http://" + l.Addr().String()}
	f.srv = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		f.mu.Lock()
		h := f.h
		f.mu.Unlock()
		if h != nil {
			h(w, r)
		}
	})}
	go f.srv.Serve(l)
	return f, nil
}

// Serve sets the handler.
func (f *FakeHTTP) Serve(h http.HandlerFunc) { f.mu.Lock(); f.h = h; f.mu.Unlock() }

// Close stops it.
func (f *FakeHTTP) Close() { f.srv.Close() }

// IsSuccess says whether a reply claims success of a SOAP call.
func IsSuccess(r *Reply) bool {
	if r.Status >= 300 {
		return false
	}
	doc, err := gen.ParseXML(r.Body)
	if err != nil {
		return false
	}
	ok := false
	if b := doc.Kid("Body"); b != nil {
		for _, k := range b.Kids {
			if k.Name.Local == "Fault" {
				return false
			}
			ok = ok || strings.HasSuffix(k.Name.Local, "Response")
		}
	}
	return ok
}

// Link says how one connection through a relay fares. The lengths are in thousandths of the
// request and of the response; 1000 is all of it.
type Link struct {
	Request  int  `json:"request"`
	Response int  `json:"response"`
	Abort    bool `json:"abort"` // a cut connection is reset, not closed
	Piece    int  `json:"piece"` // bytes written at once, 0: all
}

// Relay passes HTTP exchanges, one for each connection, on to a server.
type Relay struct {
	Addr  string
	l     net.Listener
	to    string
	mu    sync.Mutex
	links []Link
	conns int
	whole int // requests that were passed on completely
}

// NewRelay makes one; the first connections fare like links, later ones well.
func NewRelay(to string, links ...Link) (*Relay, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, hx.Harness("no port: %v", err)
	}
	r := &Relay{Addr: l.Addr().String(), l: l, to: to, links: links}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			r.mu.Lock()
			link := Link{1000, 1000, false, 0}
			if r.conns < len(links) {
				link = links[r.conns]
			}
			r.conns++
			r.mu.Unlock()
			go r.serve(c.(*net.TCPConn), link)
		}
	}()
	return r, nil
}

// Close stops accepting connections.
func (r *Relay) Close() { r.l.Close() }

// Seen is how many connections were made, and how many requests reached the server in full.
func (r *Relay) Seen() (conns, whole int) { r.mu.Lock(); defer r.mu.Unlock(); return r.conns, r.whole }

func (r *Relay) serve(c *net.TCPConn, link Link) {
	end := func(c *net.TCPConn) {
		if link.Abort {
			c.SetLinger(0)
		}
		c.Close()
	}
	defer end(c)
	c.SetDeadline(time.Now().Add(30 * time.Second))
	rd := bufio.NewReader(c)
	rq, err := http.ReadRequest(rd)
	if err != nil {
		return
	}
	body, err := io.ReadAll(rq.Body)
	if err != nil {
		return
	}
	rq.Body = io.NopCloser(bytes.NewReader(body))
	rq.ContentLength, rq.TransferEncoding = int64(len(body)), nil
	var raw bytes.Buffer
	rq.Write(&raw)
	s, err := net.Dial("tcp", r.to)
	if err != nil {
		return
	}
	up := s.(*net.TCPConn)
	defer end(up)
	up.SetDeadline(time.Now().Add(30 * time.Second))
	n := raw.Len() * link.Request / 1000
	if n == raw.Len() {
		r.mu.Lock()
		r.whole++
		r.mu.Unlock()
	}
	if pieces(up, raw.Bytes()[:n], link.Piece); n < raw.Len() {
		return
	}
	resp, err := http.ReadResponse(bufio.NewReader(up), rq)
	if err != nil {
		return
	}
	body, err = io.ReadAll(resp.Body)
	if err != nil {
		return
	}
	resp.Body = io.NopCloser(bytes.NewReader(body))
	var back bytes.Buffer
	resp.Write(&back)
	m := back.Len() * link.Response / 1000
	if m == back.Len() {
		link.Abort = false
	}
	pieces(c, back.Bytes()[:m], link.Piece)
}

func pieces(c net.Conn, b []byte, n int) {
	for len(b) > 0 {
		k := len(b)
		if n > 0 && n < k {
			k = n
		}
		if _, err := c.Write(b[:k]); err != nil {
			return
		}
		if b = b[k:]; n > 0 {
			runtime.Gosched()
		}
	}
}
