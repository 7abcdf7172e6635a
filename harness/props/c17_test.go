package props

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"context"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/hx"
)

// upgrade is a request to become a websocket connection, valid or not.
type upgrade struct {
	P          int      `json:"p"` // charge point
	Method     string   `json:"method"`
	Connection []string `json:"connection"` // header lines
	Upgrade    []string `json:"upgrade"`
	Version    string   `json:"version"`
	Key        string   `json:"key"`
	Protocols  []string `json:"protocols"` // header lines
	Extra      []string `json:"extra,omitempty"`
	// Leave: the connection is closed again before the next attempt
	Leave bool `json:"leave,omitempty"`
}

type c17Case struct {
	List []upgrade `json:"list"`
}

var protocolTokens = []string{
	"ocpp1.6", "ocpp1.6", "ocpp1.6", "ocpp1.5", "ocpp2.0", "ocpp2.0.1", "ocpp1.2", "OCPP1.6", "Ocpp1.6", "ocpp1.6j", "ocpp1.66", "xocpp1.6", "ocpp1", "ocpp", "1.6", "ocpp1_6", "ocpp-1.6", "soap", "mqtt",
}

func drawUpgrade(rt *rapid.T) upgrade {
	u := upgrade{
		P: rapid.IntRange(0, 2).Draw(rt, "point"), Method: "GET", Version: "13", Leave: rapid.IntRange(0, 3).Draw(rt, "leave") == 0,
		Connection: rapid.SampledFrom([][]string{{"Upgrade"}, {"upgrade"}, {"keep-alive, Upgrade"}, {"UPGRADE"}, {"Upgrade, keep-alive"}, {"keep-alive", "Upgrade"}}).Draw(rt, "connection"),
		Upgrade:    rapid.SampledFrom([][]string{{"websocket"}, {"WebSocket"}, {"WEBSOCKET"}}).Draw(rt, "upgrade"),
		Key:        base64.StdEncoding.EncodeToString(rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(rt, "key")),
		Extra:      rapid.SampledFrom([][]string{nil, nil, {"Origin: http://elsewhere.example"}, {"Sec-WebSocket-Extensions: permessage-deflate; client_max_window_bits"}, {"User-Agent: x", "Authorization: Basic YTpi"}}).Draw(rt, "extra"),
	}
	if n := rapid.IntRange(0, 6).Draw(rt, "protocols"); n > 0 {
		sep := rapid.SampledFrom([]string{", ", ",", " , ", ",\t"}).Draw(rt, "separator")
		lines := 1
		if rapid.IntRange(0, 3).Draw(rt, "several lines") == 0 {
			lines = min(n, rapid.IntRange(2, 3).Draw(rt, "lines"))
		}
		l := make([][]string, lines)
		for i := 0; i < n; i++ {
			l[i*lines/n] = append(l[i*lines/n], rapid.SampledFrom(protocolTokens).Draw(rt, "protocol"))
		}
		for _, x := range l {
			u.Protocols = append(u.Protocols, strings.Join(x, sep))
		}
	}
	switch rapid.IntRange(0, 15).Draw(rt, "flaw") {
	case 10:
		u.Method = rapid.SampledFrom([]string{"POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH"}).Draw(rt, "method")
	case 11:
		u.Version = rapid.SampledFrom([]string{"", "8", "7", "0", "12", "14", "1", "x"}).Draw(rt, "version")
	case 12:
		u.Key = ""
	case 13:
		u.Connection = rapid.SampledFrom([][]string{nil, {"close"}, {"keep-alive"}, {"upgraded"}, {"no-upgrade"}}).Draw(rt, "connection flaw")
	case 14:
		u.Upgrade = rapid.SampledFrom([][]string{nil, {"h2c"}, {"TLS/1.0"}, {"websockets"}, {"web socket"}}).Draw(rt, "upgrade flaw")
	}
	return u
}

func hasToken(lines []string, token string) bool {
	for _, l := range lines {
		for _, t := range strings.Split(l, ",") {
			if strings.EqualFold(strings.TrimSpace(t), token) {
				return true
			}
		}
	}
	return false
}

// asks: the request asks for a websocket at all; valid: and may have it.
func (u upgrade) asks() bool {
	return hasToken(u.Connection, "upgrade") && hasToken(u.Upgrade, "websocket")
}
func (u upgrade) valid() bool {
	return u.asks() && u.Method == "GET" && u.Version == "13" && u.Key != ""
}

func (u upgrade) offers(p string) bool {
	for _, l := range u.Protocols {
		for _, t := range strings.Split(l, ",") {
			if strings.TrimSpace(t) == p {
				return true
			}
		}
	}
	return false
}

func (u upgrade) bytes(path string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: cs.example\r\n", u.Method, path)
	line := func(n, v string) { fmt.Fprintf(&b, "%s: %s\r\n", n, v) }
	for _, v := range u.Connection {
		line("Connection", v)
	}
	for _, v := range u.Upgrade {
		line("Upgrade", v)
	}
	if u.Version != "" {
		line("Sec-WebSocket-Version", u.Version)
	}
	if u.Key != "" {
		line("Sec-WebSocket-Key", u.Key)
	}
	for _, v := range u.Protocols {
		line("Sec-WebSocket-Protocol", v)
	}
	for _, v := range u.Extra {
		b.WriteString(v + "\r\n")
	}
	if u.Method != "GET" && u.Method != "HEAD" {
		line("Content-Length", "0")
	}
	b.WriteString("\r\n")
	return b.Bytes()
}

func classifyC17(c c17Case) (bool, []string) {
	var cl []string
	nt := false
	for _, u := range c.List {
		switch {
		case !u.asks():
			cl = append(cl, "no upgrade")
		case !u.valid():
			cl = append(cl, "invalid upgrade")
		case u.offers("ocpp1.6") && len(u.Protocols) == 1 && u.Protocols[0] == "ocpp1.6":
			cl = append(cl, "only ocpp1.6")
		case u.offers("ocpp1.6"):
			cl = append(cl, "ocpp1.6 among others")
			nt = true
		case len(u.Protocols) == 0:
			cl = append(cl, "nothing offered")
			nt = true
		default:
			cl = append(cl, "only others offered")
			nt = true
		}
		if len(u.Protocols) > 1 {
			cl = append(cl, "several header lines")
		}
	}
	return nt, cl
}

// rawWS is a websocket connection whose handshake was made by hand.
type rawWS struct {
	net.Conn
	br *bufio.Reader
}

func (c *rawWS) writeText(p []byte) error {
	h := []byte{0x81}
	if len(p) < 126 {
		h = append(h, 0x80|byte(len(p)))
	} else {
		h = append(h, 0x80|126, byte(len(p)>>8), byte(len(p)))
	}
	h = append(h, 0, 0, 0, 0) // the mask
	_, err := c.Write(append(h, p...))
	return err
}

func (c *rawWS) readText() ([]byte, error) {
	h := make([]byte, 2)
	if _, err := io.ReadFull(c.br, h); err != nil {
		return nil, err
	}
	n := int(h[1] & 0x7f)
	switch n {
	case 126:
		b := make([]byte, 2)
		if _, err := io.ReadFull(c.br, b); err != nil {
			return nil, err
		}
		n = int(binary.BigEndian.Uint16(b))
	case 127:
		return nil, errors.New("a very long message")
	}
	p := make([]byte, n)
	if _, err := io.ReadFull(c.br, p); err != nil {
		return nil, err
	}
	if h[0] != 0x81 {
		return nil, fmt.Errorf("websocket frame %x %q instead of a text message", h[0], p)
	}
	return p, nil
}

// serve makes a call.
func (c *rawWS) serve() error {
	id := wireID()
	if err := c.writeText(callFrame(id, "Heartbeat", "{}")); err != nil {
		return err
	}
	b, err := c.readText()
	if err != nil {
		return err
	}
	f, err := parseFrame(b)
	if err != nil {
		return err
	}
	if f.Type != 3 || f.ID != id {
		return fmt.Errorf("a call was answered with %s", hx.Quote(f.Raw))
	}
	return nil
}

// pipeListener gives the server of a bubble its connections.
type pipeListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func newPipeListener() *pipeListener {
	return &pipeListener{ch: make(chan net.Conn), done: make(chan struct{})}
}

type pipeAddr struct{}

func (pipeAddr) Network() string { return "pipe" }
func (pipeAddr) String() string  { return "127.0.0.1:9" }

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *pipeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipeListener) Addr() net.Addr { return pipeAddr{} }
func (l *pipeListener) dial() (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case l.ch <- buffered(b):
		return buffered(a), nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func checkC17(c c17Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	return inBubble(func() error {
		l := newPipeListener()
		srv := &http.Server{Handler: sys.Handler}
		go srv.Serve(l)
		defer srv.Close()
		return playC17(c, l.dial, func(_ string, f func() error) error { synctest.Wait(); return f() }, bubbleStatus)
	})
}

func checkC17Real(c c17Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	dial := func() (net.Conn, error) {
		conn, err := net.DialTimeout("tcp", sys.Addr, 20*time.Second)
		if err != nil {
			return nil, hx.Late(time.Now(), fmt.Sprintf("a connection (%v)", err))
		}
		conn.SetDeadline(time.Now().Add(60 * time.Second))
		return conn, nil
	}
	if err := hx.Eventually("the end of earlier connections", func() error {
		n, err := realStatus()
		if err == nil && n != 0 {
			err = fmt.Errorf("the status page counts %d charge points although all earlier connections have ended", n)
		}
		return err
	}); err != nil {
		return err
	}
	return playC17(c, dial, hx.Eventually, realStatus)
}

func playC17(c c17Case, dial func() (net.Conn, error), settle func(string, func() error) error, status func() (int, error)) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	ids := []string{fx.ID(), fx.ID(), fx.ID()}
	open := map[int][]*rawWS{}
	events := make([]int, len(ids))
	for _, id := range ids {
		bubbleHandler(id, nil)
		defer sys.Handle(id, nil)
	}
	defer func() {
		for _, l := range open {
			for _, k := range l {
				k.Close()
			}
		}
	}()
	check := func() error {
		n := 0
		for p, id := range ids {
			svc, err := sys.Sys.GetServiceOf(id, ocpp.V16, "")
			if has := err == nil && svc != nil; has != (len(open[p]) > 0) {
				return fmt.Errorf("charge point %d: the central system offers a service: %v, open connections: %d", p, has, len(open[p]))
			}
			if len(open[p]) > 0 {
				n++
			}
			if got, _ := sys.Events(id); got != events[p] {
				return fmt.Errorf("charge point %d: %d connections were reported instead of %d", p, got, events[p])
			}
		}
		got, err := status()
		if err != nil {
			return err
		}
		if got != n {
			return fmt.Errorf("the status page counts %d charge points instead of %d", got, n)
		}
		return nil
	}
	for i, u := range c.List {
		what := fmt.Sprintf("handshake %d", i)
		conn, err := dial()
		if err != nil {
			return err
		}
		if _, err := conn.Write(u.bytes("/" + ids[u.P])); err != nil {
			conn.Close()
			return fmt.Errorf("%s: %w", what, err)
		}
		br := bufio.NewReader(conn)
		resp, err := http.ReadResponse(br, &http.Request{Method: u.Method})
		if err != nil {
			conn.Close()
			return fmt.Errorf("%s: no response: %w", what, err)
		}
		if !u.valid() {
			io.Copy(io.Discard, io.LimitReader(resp.Body, 1<<20))
			conn.Close()
			if resp.StatusCode == 101 {
				return fmt.Errorf("%s: the request is no valid websocket upgrade, but accepted", what)
			}
			if u.asks() && resp.StatusCode < 400 {
				return fmt.Errorf("%s: the invalid websocket upgrade is answered with status %d", what, resp.StatusCode)
			}
			if p := resp.Header["Sec-Websocket-Protocol"]; p != nil {
				return fmt.Errorf("%s: subprotocol %q selected for a refused request", what, p)
			}
		} else {
			k := &rawWS{conn, br}
			if resp.StatusCode != 101 {
				conn.Close()
				return fmt.Errorf("%s: the valid websocket upgrade is answered with status %d", what, resp.StatusCode)
			}
			open[u.P] = append(open[u.P], k)
			events[u.P]++
			sum := sha1.Sum([]byte(u.Key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
			if a := resp.Header.Get("Sec-WebSocket-Accept"); a != base64.StdEncoding.EncodeToString(sum[:]) {
				return fmt.Errorf("%s: Sec-WebSocket-Accept is %q", what, a)
			}
			var want []string
			if u.offers("ocpp1.6") {
				want = []string{"ocpp1.6"}
			}
			if got := resp.Header["Sec-Websocket-Protocol"]; len(got) != len(want) || (len(got) == 1 && got[0] != want[0]) {
				return fmt.Errorf("%s: offered %q, selected %q", what, u.Protocols, got)
			}
			if ext := resp.Header["Sec-Websocket-Extensions"]; ext != nil {
				// the raw peer of this check speaks none
				return fmt.Errorf("%s: the extensions %q were agreed on", what, ext)
			}
		}
		if err := settle(what, check); err != nil {
			return fmt.Errorf("after %s: %w", what, err)
		}
		for p := range ids {
			for _, k := range open[p] {
				if err := k.serve(); err != nil {
					return fmt.Errorf("after %s: an open connection of charge point %d: %w", what, p, err)
				}
			}
		}
		if u.valid() && u.Leave {
			n := len(open[u.P]) - 1
			open[u.P][n].Close()
			open[u.P] = open[u.P][:n]
			if err := settle(what, check); err != nil {
				return fmt.Errorf("after %s and its end: %w", what, err)
			}
		}
	}
	return nil
}

// ---- what charge points announce ----

type c17Dial struct {
	Version string `json:"version"` // 1.5 or 1.6
	ID      string `json:"id"`
	Prefix  string `json:"prefix"` // path of the central system's URL
	Select  string `json:"select"` // what the server selects: "", or offered
	Losses  int    `json:"losses"` // how often the connection is lost
	Refuse  bool   `json:"refuse"` // the first reconnection is refused
}

var (
	announceOnce sync.Once
	announceSrv  *announceServer
	announceErr  error
)

// announceServer records the upgrade requests it gets.
type announceServer struct {
	url string
	mu  sync.Mutex
	by  map[string]*announced
}

type announced struct {
	selectOffered bool
	refuse        int
	heads         []http.Header
	conns         chan net.Conn
}

func (s *announceServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	a := s.by[r.URL.Path]
	if a == nil {
		s.mu.Unlock()
		http.Error(w, "who", 404)
		return
	}
	a.heads = append(a.heads, r.Header.Clone())
	refuse := len(a.heads) > 1 && a.refuse > 0
	if refuse {
		a.refuse--
	}
	s.mu.Unlock()
	if refuse {
		http.Error(w, "not now", 503)
		return
	}
	c, rw, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	sum := sha1.Sum([]byte(r.Header.Get("Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	fmt.Fprintf(rw, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n", base64.StdEncoding.EncodeToString(sum[:]))
	if a.selectOffered {
		if p, _, _ := strings.Cut(r.Header.Get("Sec-WebSocket-Protocol"), ","); p != "" {
			fmt.Fprintf(rw, "Sec-WebSocket-Protocol: %s\r\n", strings.TrimSpace(p))
		}
	}
	rw.WriteString("\r\n")
	rw.Flush()
	a.conns <- c
}

func checkC17Dial(c c17Dial) error {
	announceOnce.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			announceErr = hx.Harness("no port: %v", err)
			return
		}
		announceSrv = &announceServer{url: "ws://" + l.Addr().String(), by: map[string]*announced{}}
		go (&http.Server{Handler: announceSrv}).Serve(l)
	})
	if announceErr != nil {
		return announceErr
	}
	id := fx.ID() + c.ID
	path := c.Prefix + "/" + id
	a := &announced{selectOffered: c.Select == "offered", conns: make(chan net.Conn, 16)}
	if c.Refuse {
		a.refuse = 1
	}
	announceSrv.mu.Lock()
	announceSrv.by[path] = a
	announceSrv.mu.Unlock()
	version := ocpp.V16
	want := "ocpp1.6"
	if c.Version == "1.5" {
		version, want = ocpp.V15, "ocpp1.5"
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	base := (&url.URL{Path: c.Prefix}).EscapedPath()
	if _, err := cp.New(ctx, id, announceSrv.url+base, version, ocpp.JSON, nil, func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		return nil, errors.New("not expected")
	}); err != nil {
		return fmt.Errorf("the charge point could not connect: %w", err)
	}
	for i := 0; ; i++ {
		conn, err := hx.Recv(a.conns, fmt.Sprintf("connection %d", i))
		if err != nil {
			return err
		}
		defer conn.Close()
		if i == c.Losses {
			break
		}
		conn.Close()
	}
	announceSrv.mu.Lock()
	defer announceSrv.mu.Unlock()
	delete(announceSrv.by, path)
	for i, h := range a.heads {
		if got := h["Sec-Websocket-Protocol"]; len(got) != 1 || strings.TrimSpace(got[0]) != want {
			return fmt.Errorf("connection attempt %d announces the subprotocols %q instead of %q", i, got, want)
		}
		if !hasToken(h["Connection"], "upgrade") || !hasToken(h["Upgrade"], "websocket") || h.Get("Sec-Websocket-Version") != "13" {
			return fmt.Errorf("connection attempt %d is no websocket upgrade: %v", i, h)
		}
	}
	return nil
}

func TestC17(t *testing.T) {
	bubbleT = t
	draw := func(most int) func(rt *rapid.T) c17Case {
		return func(rt *rapid.T) c17Case {
			return c17Case{rapid.SliceOfN(rapid.Custom(drawUpgrade), 1, most).Draw(rt, "list")}
		}
	}
	rule := "a case is 1-6 requests to become a websocket connection, made byte by byte, of three charge points: valid or with one flaw (method, missing or wrong upgrade, connection, version or key), offering 0-6 subprotocols (ocpp1.6, other versions, near misses) in any order, spacing and split over header lines; status, selected subprotocol, registration, reports, status page and service on all open connections are compared with the rules of RFC 6455; non-trivial if a valid request offers something else than just ocpp1.6"
	hx.Run(t, hx.Part[c17Case]{
		Property: "C17", Name: "handshakes",
		Rule:     rule + "; under a virtual clock, over pipes",
		Budget:   hx.Budget{Quick: 4000, Thorough: 150000, QuickSecs: 60},
		Draw:     draw(6),
		Classify: classifyC17,
		Check:    checkC17,
	})
	hx.Run(t, hx.Part[c17Case]{
		Property: "C17", Name: "sockets",
		Rule:     rule + "; over TCP",
		Budget:   hx.Budget{Quick: 250, Thorough: 8000, QuickSecs: 40},
		Draw:     draw(4),
		Classify: classifyC17,
		Check:    checkC17Real,
	})
	hx.Run(t, hx.Part[c17Dial]{
		Property: "C17", Name: "announcement",
		Rule:   "a case is a charge point of OCPP 1.5 or 1.6 connecting to a server that records the requests and confirms the offered subprotocol or none, losing the connection 0-3 times, the first reconnection refused or not; every attempt must announce exactly the subprotocol of the version; non-trivial if the version is 1.5 or the connection is lost",
		Budget: hx.Budget{Quick: 600, Thorough: 10000, QuickSecs: 15},
		Draw: func(rt *rapid.T) c17Dial {
			c := c17Dial{
				Version: rapid.SampledFrom([]string{"1.6", "1.5"}).Draw(rt, "version"),
				ID:      rapid.SampledFrom([]string{"", "-é x", "?a=b", "%41"}).Draw(rt, "id"),
				Prefix:  rapid.SampledFrom([]string{"", "/ocpp", "/a/b c"}).Draw(rt, "prefix"),
				Select:  rapid.SampledFrom([]string{"", "offered"}).Draw(rt, "select"),
				Losses:  rapid.IntRange(0, 3).Draw(rt, "losses"),
			}
			// a refused attempt is repeated only after a second
			c.Refuse = c.Losses > 0 && rapid.IntRange(0, 39).Draw(rt, "refuse") == 0
			return c
		},
		Classify: func(c c17Dial) (bool, []string) {
			return c.Version == "1.5" || c.Losses > 0, []string{c.Version, fmt.Sprintf("%d losses", c.Losses)}
		},
		Check: checkC17Dial,
	})
}
