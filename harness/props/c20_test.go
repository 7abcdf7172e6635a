package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// c20HTTP is an HTTP request that is no valid websocket upgrade.
type c20HTTP struct {
	Method string   `json:"method"`
	Path   string   `json:"path"`
	Heads  []string `json:"heads,omitempty"`
	// Body: soap (a request of a charge point), wrong (one of a central system), none, junk
	Body    string `json:"body"`
	Soap    c13Op  `json:"soap"`
	Junk    []byte `json:"junk,omitempty"`
	Chunked bool   `json:"chunked,omitempty"`
	Lane    int    `json:"lane"` // requests of a lane share a connection
}

type c20Op struct {
	// up: a charge point connects; down: it goes; call: it makes a call; send: it gets a request;
	// http: a request; hold: a SOAP request whose handler takes its time; pause: a call whose
	// handler takes its time; stall: a request whose body stays incomplete; finish: the oldest of
	// these ends; batch: the operations happen at once
	Op    string   `json:"op"`
	N     int      `json:"n,omitempty"`
	How   string   `json:"how,omitempty"`
	Path  string   `json:"path,omitempty"`
	HTTP  *c20HTTP `json:"http,omitempty"`
	Batch []c20Op  `json:"batch,omitempty"`
}

type c20Case struct {
	Ops []c20Op `json:"ops"`
}

func drawPath(rt *rapid.T) string {
	n := rapid.IntRange(0, 3).Draw(rt, "segments")
	var b strings.Builder
	for i := 0; i < n; i++ {
		s := rapid.SampledFrom([]string{"ocpp", "soap", "ws", "cs", "status", "index.html", "favicon.ico", "debug", "pprof", "cp-1", "é", "a b", "x%y", "a?b", "v1.6", "CentralSystemService", "...", "healthz", "*", "{id}", "~", "@:", "a+b", "%2e"}).Draw(rt, "segment")
		b.WriteString("/" + url.PathEscape(s))
	}
	if n == 0 || rapid.IntRange(0, 4).Draw(rt, "slash") == 0 {
		b.WriteString("/")
	}
	if rapid.IntRange(0, 3).Draw(rt, "query") == 0 {
		b.WriteString(rapid.SampledFrom([]string{"?", "?wsdl", "?a=b&c=d", "?upgrade=websocket", "?x=%00"}).Draw(rt, "q"))
	}
	return b.String()
}

var c20Heads = [][]string{
	nil, nil, {"Content-Type: application/soap+xml; charset=utf-8"}, {"Content-Type: text/plain"}, {"Content-Type: application/json"},
	{"Upgrade: websocket"}, {"Connection: Upgrade"}, {"Connection: Upgrade", "Upgrade: h2c"}, {"Connection: keep-alive", "Upgrade: websocket"},
	{"Sec-WebSocket-Protocol: ocpp1.6", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ=="},
	{"SOAPAction: \"/Authorize\""}, {"Accept: text/html"}, {"Accept-Encoding: gzip, deflate"}, {"X-HTTP-Method-Override: GET"}, {"Origin: http://elsewhere", "Cookie: a=b"},
	{"Connection: upgraded", "Upgrade: websocket"}, {"Range: bytes=0-3"}, {"If-None-Match: *"}, {"Authorization: Basic eDp5"},
}

func drawC20HTTP(rt *rapid.T, post bool) *c20HTTP {
	h := &c20HTTP{Path: drawPath(rt), Heads: rapid.SampledFrom(c20Heads).Draw(rt, "heads"), Lane: rapid.IntRange(0, 2).Draw(rt, "lane"), Chunked: rapid.IntRange(0, 3).Draw(rt, "chunked") == 0}
	h.Method = rapid.SampledFrom([]string{"GET", "GET", "GET", "POST", "POST", "POST", "POST", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "PROPFIND", "get"}).Draw(rt, "method")
	h.Body = rapid.SampledFrom([]string{"soap", "soap", "soap", "none", "junk", "wrong"}).Draw(rt, "body")
	if post {
		h.Method, h.Body = "POST", "soap"
	}
	switch h.Body {
	case "soap", "wrong":
		k := rapid.SampledFrom(spec.Filter(func(k *spec.Kind) bool {
			return k.XMLReq != nil && k.Action != "DataTransfer" && k.FromCP == (h.Body == "soap")
		})).Draw(rt, "kind")
		o := gen.Opts{Legal: true, XML: true}
		h.Soap = c13Op{Type: k.Req.String(), Style: gen.DrawStyle(rt), Req: gen.Draw(rt, k.Req.String(), o), Resp: gen.Draw(rt, k.Resp.String(), o)}
		if rapid.IntRange(0, 3).Draw(rt, "fail") == 0 {
			h.Soap.Fail, h.Soap.Text = true, gen.Text(rt, "error", true, 40, false)
		}
	case "junk":
		h.Junk = []byte(rapid.SampledFrom([]string{"x", "<", "<a/>", "[2,\"1\",\"Heartbeat\",{}]", "{}", "<html></html>", "\x81\x85\x00\x00\x00\x00hello", strings.Repeat("junk ", 2000)}).Draw(rt, "junk"))
	}
	return h
}

// both upgrade headers
var c20Upgrade = []string{"Connection: Upgrade", "Upgrade: websocket", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ=="}

func drawC20Op(rt *rapid.T, ops []string) c20Op {
	op := c20Op{Op: rapid.SampledFrom(ops).Draw(rt, "op")}
	switch op.Op {
	case "up":
		op.Path, _, _ = strings.Cut(drawPath(rt), "?")
	case "down", "call", "send", "pause", "finish":
		op.N = rapid.IntRange(0, 5).Draw(rt, "n")
		op.How = rapid.SampledFrom([]string{"close", "handshake"}).Draw(rt, "how")
	case "http":
		op.HTTP = drawC20HTTP(rt, false)
		if op.HTTP.Method != "GET" && rapid.IntRange(0, 4).Draw(rt, "upgrade") == 0 {
			op.HTTP.Heads = c20Upgrade
		}
	case "hold", "stall":
		op.HTTP = drawC20HTTP(rt, true)
		op.How = rapid.SampledFrom([]string{"whole", "dropped"}).Draw(rt, "how")
		op.N = rapid.IntRange(1, 90).Draw(rt, "cut")
	case "batch":
		n := rapid.IntRange(2, 6).Draw(rt, "at once")
		for i := 0; i < n; i++ {
			b := drawC20Op(rt, []string{"up", "down", "call", "send", "http", "http", "http"})
			if b.HTTP != nil {
				b.HTTP.Lane = -1
			}
			op.Batch = append(op.Batch, b)
		}
	}
	return op
}

func drawC20(rt *rapid.T) c20Case {
	all := []string{"up", "up", "down", "call", "send", "http", "http", "http", "http", "hold", "pause", "stall", "finish", "batch"}
	c := c20Case{}
	for n := rapid.IntRange(1, 12).Draw(rt, "ops"); n > 0; n-- {
		c.Ops = append(c.Ops, drawC20Op(rt, all))
	}
	return c
}

func classifyC20(c c20Case) (bool, []string) {
	var cl []string
	ws, other := false, false
	var walk func([]c20Op)
	walk = func(l []c20Op) {
		for _, op := range l {
			cl = append(cl, op.Op)
			if op.Op == "up" {
				ws = true
			}
			if op.HTTP != nil {
				cl = append(cl, op.HTTP.kind()+" "+op.HTTP.Body)
				other = other || ws
			}
			walk(op.Batch)
		}
	}
	walk(c.Ops)
	return ws && other, cl
}

// kind says how the request must be treated.
func (h *c20HTTP) kind() string {
	var conn, up []string
	for _, l := range h.Heads {
		n, v, _ := strings.Cut(l, ":")
		switch strings.ToLower(n) {
		case "connection":
			conn = append(conn, v)
		case "upgrade":
			up = append(up, v)
		}
	}
	switch {
	case hasToken(conn, "upgrade") && hasToken(up, "websocket"):
		return "upgrade"
	case h.Method == "GET":
		return "page"
	}
	return "soap"
}

// c20World is how the requests reach the central system.
type c20World struct {
	dial   func() (net.Conn, error)
	settle func(string, func() error) error
	wait   func(ch <-chan struct{}, what string) error
}

type c20Point struct {
	id   string
	ws   *rawWS
	mu   sync.Mutex
	gate chan struct{} // what the handler waits for, if anything
	held bool
	used bool // within a batch
}

type c20Lane struct {
	conn net.Conn
	br   *bufio.Reader
}

type c20Run struct {
	w     *c20World
	sys   *fx.CS
	open  []*c20Point
	lanes map[int]*c20Lane
	ends  []func() error // of what has been begun and not finished
	close []func()
	mu    sync.Mutex
	lo    int // bounds of the number of charge points
	hi    int
}

func (r *c20Run) up(path string) (*c20Point, error) {
	// paths are told apart by a first segment
	first := fx.ID()
	p := &c20Point{id: first}
	if path != "" {
		u, err := url.PathUnescape(path)
		if err != nil {
			return nil, hx.Harness("%v", err)
		}
		p.id = first + u
	}
	r.sys.Handle(p.id, func(q cpreq.ChargePointRequest, _ cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		if _, ok := q.(*cpreq.StatusNotification); ok {
			p.mu.Lock()
			g := p.gate
			p.mu.Unlock()
			if g != nil {
				<-g
			}
		}
		return libResp(minimal(kindOf(q.Action(), true).Resp.String())).(cpresp.ChargePointResponse), nil
	})
	conn, err := r.w.dial()
	if err != nil {
		return nil, err
	}
	u := upgrade{Method: "GET", Connection: []string{"Upgrade"}, Upgrade: []string{"websocket"}, Version: "13", Key: "dGhlIHNhbXBsZSBub25jZQ==", Protocols: []string{"ocpp1.6"}}
	if _, err := conn.Write(u.bytes("/" + first + path)); err != nil {
		return nil, err
	}
	br := bufio.NewReader(conn)
	resp, err := http.ReadResponse(br, &http.Request{Method: "GET"})
	if err != nil || resp.StatusCode != 101 {
		conn.Close()
		return nil, fmt.Errorf("the websocket upgrade for %q got no connection: %v %v", p.id, resp, err)
	}
	p.ws = &rawWS{conn, br}
	return p, nil
}

// request makes an HTTP request and checks that it is treated as its kind.
func (r *c20Run) request(h *c20HTTP, begun chan struct{}, gate chan struct{}, stall func(conn net.Conn, b []byte) (bool, error)) error {
	ident := fx.ID()
	rig := &soapRig{}
	if h.Body == "soap" || h.Body == "wrong" {
		if h.Soap.Fail {
			rig.err = errors.New(h.Soap.Text)
		} else if h.Body == "soap" {
			rig.resp = libResp(h.Soap.Resp)
		}
	}
	h.Soap.Ident = ident
	plain := sysHandler(rig)
	var mu sync.Mutex
	r.sys.Handle(ident, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		if begun != nil {
			close(begun)
			<-gate
		}
		mu.Lock()
		defer mu.Unlock()
		return plain(q, m)
	})
	defer r.sys.Handle(ident, nil)
	k, _ := spec.ByType(h.Soap.Type)
	body := h.Junk
	if h.Body == "soap" || h.Body == "wrong" {
		body = []byte(gen.Envelope(ident, k.NS(), k.Action, gen.WriteXMLAs(k.XMLName(false), k.NS(), k.XMLReq, h.Soap.Req.V, h.Soap.Style), h.Soap.Style))
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: cs.example\r\n", h.Method, h.Path)
	for _, l := range h.Heads {
		b.WriteString(l + "\r\n")
	}
	if h.Chunked && len(body) > 0 {
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for rest := body; len(rest) > 0; {
			n := min(len(rest), 300)
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, rest[:n])
			rest = rest[n:]
		}
		b.WriteString("0\r\n\r\n")
	} else {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(body), body)
	}
	var resp *http.Response
	var data []byte
	for {
		var lane *c20Lane
		if h.Lane >= 0 && stall == nil {
			lane = r.lanes[h.Lane]
		}
		again := lane != nil
		if lane == nil {
			conn, err := r.w.dial()
			if err != nil {
				return err
			}
			lane = &c20Lane{conn, bufio.NewReader(conn)}
		}
		if again {
			delete(r.lanes, h.Lane)
		}
		if stall != nil {
			whole, err := stall(lane.conn, b.Bytes())
			if err != nil {
				lane.conn.Close()
				return err
			}
			if !whole {
				lane.conn.Close()
				mu.Lock()
				defer mu.Unlock()
				if len(rig.got) != 0 {
					return errors.New("the handler ran for a request whose body did not arrive completely")
				}
				return nil
			}
		}
		var err error
		if stall == nil {
			_, err = lane.conn.Write(b.Bytes())
		}
		if err == nil {
			resp, err = http.ReadResponse(lane.br, &http.Request{Method: h.Method})
		}
		mu.Lock()
		ran := len(rig.got)
		mu.Unlock()
		if err != nil {
			lane.conn.Close()
			if again && ran == 0 {
				continue // an idle connection may be closed at any time
			}
			return fmt.Errorf("%s %s: no response: %w", h.Method, h.Path, err)
		}
		data, err = io.ReadAll(resp.Body)
		if err != nil {
			lane.conn.Close()
			return fmt.Errorf("%s %s: the response is cut off: %w", h.Method, h.Path, err)
		}
		if resp.Close || h.Lane < 0 || stall != nil {
			lane.conn.Close()
		} else {
			r.lanes[h.Lane] = lane
		}
		break
	}
	mu.Lock()
	defer mu.Unlock()
	rep := &fx.Reply{Status: resp.StatusCode, Header: resp.Header, Body: data}
	what := fmt.Sprintf("%s %s with headers %q and body %s", h.Method, h.Path, h.Heads, h.Body)
	kind := h.kind()
	if kind == "soap" && h.Body == "soap" {
		if len(rig.got) != 1 {
			return fmt.Errorf("%s: the handler ran %d times (status %d, %s)", what, len(rig.got), resp.StatusCode, hx.Quote(data))
		}
		if err := gen.Same(h.Soap.Req, rig.got[0]); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if h.Method == "HEAD" {
			return nil
		}
		if err := checkReply(h.Soap, k, rep); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		return nil
	}
	if len(rig.got) != 0 {
		return fmt.Errorf("%s: the handler ran", what)
	}
	page := resp.StatusCode == 200 && connectedRE.Match(data)
	switch kind {
	case "page":
		if !page {
			return fmt.Errorf("%s: status %d and %s instead of the status page", what, resp.StatusCode, hx.Quote(data))
		}
		n, err := statusCount(string(data))
		if err != nil {
			return err
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		if n < r.lo || n > r.hi {
			return fmt.Errorf("%s: the status page counts %d charge points, it should be %d to %d", what, n, r.lo, r.hi)
		}
	case "upgrade":
		if resp.StatusCode < 400 {
			return fmt.Errorf("%s: a websocket upgrade that is none is answered with status %d", what, resp.StatusCode)
		}
		fallthrough
	default:
		if page || fx.IsSuccess(rep) {
			return fmt.Errorf("%s: answered with status %d and %s", what, resp.StatusCode, hx.Quote(data))
		}
	}
	return nil
}

// send makes a request to a charge point.
func (r *c20Run) send(p *c20Point) error {
	svc, err := r.sys.Sys.GetServiceOf(p.id, ocpp.V16, "")
	if err != nil {
		return err
	}
	tag := wireID()
	out := make(chan outcome, 1)
	go func() {
		resp, err := svc.Send(&csreq.GetConfiguration{Key: []string{tag}})
		out <- outcome{resp, err}
	}()
	b, err := p.ws.readText()
	if err != nil {
		return fmt.Errorf("the connection ended while waiting for a request: %w", err)
	}
	f, err := parseFrame(b)
	if err != nil {
		return err
	}
	if f.Type != 2 {
		return fmt.Errorf("instead of a request the connection got %s", hx.Quote(f.Raw))
	}
	if err := p.ws.writeText(resultFrame(f.ID, `{"unknownKey":["`+tag+`"]}`)); err != nil {
		return err
	}
	return tagged(<-out, tag)
}

// do performs an operation.
func (r *c20Run) do(op c20Op, batch bool) error {
	var p *c20Point
	r.mu.Lock()
	if n := len(r.open); n > 0 {
		p = r.open[op.N%n]
		if p.held || batch && p.used {
			p = nil
		} else if batch {
			p.used = true
		}
	}
	r.mu.Unlock()
	switch op.Op {
	case "up":
		q, err := r.up(op.Path)
		if err != nil {
			return err
		}
		r.mu.Lock()
		q.used = true
		r.open = append(r.open, q)
		r.mu.Unlock()
		return nil
	case "down":
		if p == nil {
			return nil
		}
		r.mu.Lock()
		for i, q := range r.open {
			if q == p {
				r.open = append(append([]*c20Point{}, r.open[:i]...), r.open[i+1:]...)
				break
			}
		}
		r.mu.Unlock()
		if op.How == "handshake" {
			p.ws.Write([]byte{0x88, 0x82, 0, 0, 0, 0, 0x03, 0xe8})
			// the other side answers and closes
			io.Copy(io.Discard, p.ws.br)
		}
		p.ws.Close()
		r.sys.Handle(p.id, nil)
		return nil
	case "call":
		if p == nil {
			return nil
		}
		return p.ws.serve()
	case "send":
		if p == nil {
			return nil
		}
		return r.send(p)
	case "http":
		return r.request(op.HTTP, nil, nil, nil)
	}
	return hx.Harness("unknown op %s", op.Op)
}

// begin starts something that takes its time.
func (r *c20Run) begin(op c20Op) error {
	switch op.Op {
	case "hold":
		begun, gate, done := make(chan struct{}), make(chan struct{}), make(chan error, 1)
		op.HTTP.Lane = -1
		if op.HTTP.kind() != "soap" {
			return nil
		}
		go func() { done <- r.request(op.HTTP, begun, gate, nil) }()
		if err := r.w.wait(begun, "the handler of a SOAP request"); err != nil {
			close(gate)
			select {
			case e := <-done:
				err = fmt.Errorf("%w (%v)", err, e)
			default:
			}
			return err
		}
		once := sync.OnceFunc(func() { close(gate) })
		r.close = append(r.close, once)
		r.ends = append(r.ends, func() error { once(); return <-done })
	case "stall":
		op.HTTP.Lane = -1
		gate, done := make(chan struct{}), make(chan error, 1)
		go func() {
			done <- r.request(op.HTTP, nil, nil, func(conn net.Conn, b []byte) (bool, error) {
				cut := len(b) * op.N / 100
				if _, err := conn.Write(b[:cut]); err != nil {
					return false, err
				}
				<-gate
				if op.How == "dropped" {
					return false, nil
				}
				_, err := conn.Write(b[cut:])
				return true, err
			})
		}()
		once := sync.OnceFunc(func() { close(gate) })
		r.close = append(r.close, once)
		r.ends = append(r.ends, func() error { once(); return <-done })
	case "pause":
		if len(r.open) == 0 {
			return nil
		}
		p := r.open[op.N%len(r.open)]
		if p.held {
			return nil
		}
		gate := make(chan struct{})
		p.mu.Lock()
		p.gate = gate
		p.mu.Unlock()
		p.held = true
		id := wireID()
		once := sync.OnceFunc(func() { close(gate) })
		r.close = append(r.close, once)
		if err := p.ws.writeText(callFrame(id, "StatusNotification", `{"connectorId":1,"errorCode":"NoError","status":"Available"}`)); err != nil {
			return err
		}
		r.ends = append(r.ends, func() error {
			p.mu.Lock()
			p.gate = nil
			p.mu.Unlock()
			once()
			b, err := p.ws.readText()
			if err != nil {
				return fmt.Errorf("a call whose handler took its time was not answered: %w", err)
			}
			f, err := parseFrame(b)
			if err != nil {
				return err
			}
			if f.Type != 3 || f.ID != id {
				return fmt.Errorf("a call whose handler took its time was answered with %s", hx.Quote(f.Raw))
			}
			p.held = false
			return nil
		})
	}
	return nil
}

func playC20(c c20Case, w *c20World) (err error) {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	r := &c20Run{w: w, sys: sys, lanes: map[int]*c20Lane{}}
	var all []*c20Point
	defer func() {
		for _, f := range r.close {
			f()
		}
		for _, l := range r.lanes {
			l.conn.Close()
		}
		for _, p := range append(all, r.open...) {
			p.ws.Close()
			sys.Handle(p.id, nil)
		}
	}()
	check := func() error {
		n := len(r.open)
		r.lo, r.hi = n, n
		got, err := r.page()
		if err != nil {
			return err
		}
		if got != n {
			return fmt.Errorf("%d charge points are connected, the status page counts %d", n, got)
		}
		return nil
	}
	if err := w.settle("the end of earlier connections", check); err != nil {
		return fmt.Errorf("at first: %w", err)
	}
	end := func() error {
		f := r.ends[0]
		r.ends = r.ends[1:]
		return f()
	}
	for i, op := range c.Ops {
		what := fmt.Sprintf("step %d (%s)", i, op.Op)
		var err error
		switch op.Op {
		case "hold", "stall", "pause":
			err = r.begin(op)
		case "finish":
			if len(r.ends) > 0 {
				err = end()
			}
		case "batch":
			errs := make([]error, len(op.Batch))
			var wg sync.WaitGroup
			all = append([]*c20Point{}, r.open...)
			for _, p := range r.open {
				p.used = false
			}
			// the counts seen meanwhile depend on how many come and go
			for _, b := range op.Batch {
				if b.Op == "down" {
					r.lo--
				}
				if b.Op == "up" {
					r.hi++
				}
			}
			for j, b := range op.Batch {
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[j] = r.do(b, true)
				}()
			}
			wg.Wait()
			for _, e := range errs {
				if e != nil && err == nil {
					err = e
				}
			}
		default:
			err = r.do(op, false)
		}
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := w.settle(what, check); err != nil {
			return fmt.Errorf("after %s: %w", what, err)
		}
		// nothing disturbs what is connected
		for _, p := range r.open {
			if p.held {
				continue
			}
			if err := p.ws.serve(); err != nil {
				return fmt.Errorf("after %s: a call of the connected charge point %q: %w", what, p.id, err)
			}
		}
	}
	for len(r.ends) > 0 {
		if err := end(); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	for _, p := range r.open {
		if err := p.ws.serve(); err != nil {
			return fmt.Errorf("at the end: a call of the connected charge point %q: %w", p.id, err)
		}
		if err := r.send(p); err != nil {
			return fmt.Errorf("at the end: a request to the connected charge point %q: %w", p.id, err)
		}
	}
	return nil
}

// page is the count on the status page.
func (r *c20Run) page() (int, error) {
	conn, err := r.w.dial()
	if err != nil {
		return 0, err
	}
	defer conn.Close()
	if _, err := conn.Write([]byte("GET / HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")); err != nil {
		return 0, err
	}
	resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		return 0, fmt.Errorf("no status page: %w", err)
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, fmt.Errorf("no status page: %w", err)
	}
	return statusCount(string(b))
}

func checkC20(c c20Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	return inBubble(func() error {
		l := newPipeListener()
		srv := &http.Server{Handler: sys.Handler}
		go srv.Serve(l)
		defer srv.Close()
		return playC20(c, &c20World{
			dial:   l.dial,
			settle: func(_ string, f func() error) error { synctest.Wait(); return f() },
			wait: func(ch <-chan struct{}, what string) error {
				synctest.Wait()
				if !isClosed(ch) {
					return fmt.Errorf("waiting in vain for %s", what)
				}
				return nil
			},
		})
	})
}

func checkC20Real(c c20Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	return playC20(c, &c20World{
		dial: func() (net.Conn, error) {
			conn, err := net.DialTimeout("tcp", sys.Addr, 20*time.Second)
			if err != nil {
				return nil, hx.Late(time.Now(), fmt.Sprintf("a connection (%v)", err))
			}
			conn.SetDeadline(time.Now().Add(90 * time.Second))
			return conn, nil
		},
		settle: hx.Eventually,
		wait: func(ch <-chan struct{}, what string) error {
			_, err := hx.Recv(ch, what)
			return err
		},
	})
}

func TestC20(t *testing.T) {
	bubbleT = t
	rule := "a case is 1-12 operations on the one port: charge points connecting, leaving, calling and being called over websockets at any clean path; HTTP requests of any method, path, headers (also some of a websocket upgrade) and body (SOAP requests of charge points, those of central systems, junk, nothing), several on one connection; SOAP and websocket handlers that take their time and requests whose body stays incomplete meanwhile; and batches of 2-6 of these at once; every one must be treated as its kind, and afterwards the status page counts the connected charge points and all of them are served; non-trivial if other requests come while a charge point is connected"
	hx.Run(t, hx.Part[c20Case]{
		Property: "C20", Name: "port",
		Rule:     rule + "; under a virtual clock, over pipes",
		Budget:   hx.Budget{Quick: 10000, Thorough: 150000, QuickSecs: 60},
		Draw:     drawC20,
		Classify: classifyC20,
		Check:    checkC20,
	})
	hx.Run(t, hx.Part[c20Case]{
		Property: "C20", Name: "sockets",
		Rule:     rule + "; over TCP",
		Budget:   hx.Budget{Quick: 800, Thorough: 20000, QuickSecs: 40},
		Draw:     drawC20,
		Classify: classifyC20,
		Check:    checkC20Real,
	})
}
