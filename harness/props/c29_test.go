package props

import (
	"bufio"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/hx"
)

// C29: what cannot start says so, leaves nothing behind and can be tried again.

// ---- central systems ----

type c29Op struct {
	// run: an attempt that must fail, at a slot that is in use (Slot) or an address that nobody can
	// use (Bad), by N systems from Sys on; squat/leave: somebody else listens there; dial: a charge
	// point tries to connect there; probe: whoever has an address still answers
	Op   string `json:"op"`
	Slot int    `json:"slot"`
	Bad  int    `json:"bad,omitempty"`
	Sys  int    `json:"sys"`
	N    int    `json:"n,omitempty"`
	Soap bool   `json:"soap,omitempty"`
}

type c29Run struct {
	Ops []c29Op `json:"ops"`
	// at last some of the systems are run at an address that is free
	Slot int `json:"slot"`
	Sys  int `json:"sys"`
	N    int `json:"n"`
	// waited for before
	Early bool `json:"early"`
}

const c29Systems = 3

type c29Sys struct {
	sys     cs.CentralSystem
	tag     float64
	handled int64 // atomic
	mu      sync.Mutex
	events  []string
	stopped chan error // result of the run that is under way, at last
}

func (s *c29Sys) handle(tag float64) cs.ChargePointMessageHandler {
	return func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		atomic.AddInt64(&s.handled, 1)
		return &cpresp.BootNotification{Status: "Accepted", CurrentTime: time.Now(), Interval: tag}, nil
	}
}

func (s *c29Sys) event(e string) { s.mu.Lock(); s.events = append(s.events, e); s.mu.Unlock() }
func (s *c29Sys) seen() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.events...)
}

type c29Squat struct {
	l    net.Listener
	end  func()
	tag  string
	hits int64
}

type c29World struct {
	ports [3]int
	sys   [c29Systems]*c29Sys
	squat [8]*c29Squat
	n     int
}

func (w *c29World) addr(slot int) string {
	return fmt.Sprintf("%s:%d", c24Slots[slot].host, w.ports[c24Slots[slot].port])
}

func (w *c29World) target(slot int) string {
	if c24Slots[slot].host == "" {
		return fmt.Sprintf("127.0.0.3:%d", w.ports[c24Slots[slot].port])
	}
	return w.addr(slot)
}

func (w *c29World) taken(slot int) bool {
	for i := range c24Slots {
		if w.squat[i] != nil && c24Overlap(i, slot) {
			return true
		}
	}
	return false
}

func (w *c29World) free(slot int) bool {
	l, err := net.Listen("tcp", w.addr(slot))
	if err != nil {
		return false
	}
	l.Close()
	return true
}

var c29Tag int64 = 1000

// start begins runs of n systems at an address; each has a handler of its own.
func (w *c29World) start(from, n int, addr string) []*c29Sys {
	var out []*c29Sys
	for i := 0; i < n; i++ {
		s := w.sys[(from+i)%c29Systems]
		s.tag = float64(atomic.AddInt64(&c29Tag, 1))
		s.stopped = make(chan error, 1)
		h, stopped := s.handle(s.tag), s.stopped
		run := s.sys.Run
		go func() {
			stopped <- hx.Guarded(func() error {
				if err := run(addr, h); err != nil {
					return fmt.Errorf("returned: %w", err)
				}
				return nil
			})
		}()
		out = append(out, s)
	}
	return out
}

// refused judges the result of a run that cannot work.
func refused(err error, where string) error {
	if err == nil {
		return fmt.Errorf("Run at %s returned without an error", where)
	}
	if !strings.HasPrefix(err.Error(), "returned: ") {
		return fmt.Errorf("Run at %s: %v", where, err)
	}
	return nil
}

// idle: a system that does not run knows nobody, and nothing reached it.
func (w *c29World) idle(s *c29Sys) error {
	if n := atomic.LoadInt64(&s.handled); n != 0 {
		return fmt.Errorf("the handler of a central system that does not run was called %d times", n)
	}
	if e := s.seen(); len(e) != 0 {
		return fmt.Errorf("listeners of a central system that does not run were called: %v", e)
	}
	if svc, err := s.sys.GetServiceOf("someone", ocpp.V16, ""); err == nil {
		return fmt.Errorf("a central system that does not run offers a service (%T)", svc)
	}
	return nil
}

func (w *c29World) do(op c29Op) error {
	switch op.Op {
	case "run":
		addr := w.addr(op.Slot)
		if op.Bad > 0 {
			addr = c24BadAddrs[op.Bad-1]
		} else if !w.taken(op.Slot) {
			return nil
		}
		n := op.N
		if n < 1 {
			n = 1
		}
		for _, s := range w.start(op.Sys, n, addr) {
			err, late := hx.Recv(s.stopped, fmt.Sprintf("the result of Run at %q, where nobody can listen", addr))
			if late != nil {
				return late
			}
			if err := refused(err, addr); err != nil {
				return err
			}
			if err := w.idle(s); err != nil {
				return err
			}
		}
		return w.probe()
	case "squat":
		if w.taken(op.Slot) {
			return nil
		}
		w.n++
		q := &c29Squat{tag: fmt.Sprintf("squatter-%d", w.n)}
		if op.Soap {
			ctx, cancel := context.WithCancel(context.Background())
			addr := w.addr(op.Slot)
			_, err := cp.New(ctx, q.tag, "http://127.0.0.1:9/", ocpp.V15, ocpp.SOAP, &addr, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
				return &csresp.GetDiagnostics{FileName: q.tag}, nil
			})
			if err != nil {
				cancel()
				if !w.free(op.Slot) {
					return hx.Harness("the port of the case was taken by somebody else: %v", err)
				}
				return fmt.Errorf("no SOAP charge point could be made at a free address: %v", err)
			}
			q.end = cancel
		} else {
			l, err := net.Listen("tcp", w.addr(op.Slot))
			if err != nil {
				return hx.Harness("the port of the case was taken by somebody else: %v", err)
			}
			q.l = l
			srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				atomic.AddInt64(&q.hits, 1)
				if websocket.IsWebSocketUpgrade(r) {
					rw.WriteHeader(404)
				}
				io.WriteString(rw, q.tag)
			})}
			go srv.Serve(l)
			q.end = func() { srv.Close() }
		}
		w.squat[op.Slot] = q
		return w.probe()
	case "leave":
		q := w.squat[op.Slot]
		if q == nil {
			return nil
		}
		w.squat[op.Slot] = nil
		q.end()
		return hx.Eventually("release of the address of the harness "+w.addr(op.Slot), func() error {
			if !w.free(op.Slot) {
				return errors.New("still in use")
			}
			return nil
		})
	case "dial":
		_, err := w.dial(op.Slot, "early")
		if err == nil {
			return fmt.Errorf("a charge point was made although no central system is at %s", w.target(op.Slot))
		}
		if hx.IsInconclusive(err) {
			return err
		}
		return w.probe()
	case "probe":
		return w.probe()
	}
	return nil
}

func (w *c29World) dial(slot int, id string) (*fx.Point, error) {
	type res struct {
		p   *fx.Point
		err error
	}
	ch := make(chan res, 1)
	url := "ws://" + w.target(slot)
	go func() {
		p, err := fx.DialCP(id, url, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			return &csresp.GetDiagnostics{FileName: "of " + id}, nil
		})
		ch <- res{p, err}
	}()
	r, late := hx.Recv(ch, "the construction of a charge point at "+url)
	if late != nil {
		return nil, late
	}
	return r.p, r.err
}

// probe: whoever has an address still serves it.
func (w *c29World) probe() error {
	for slot, q := range w.squat {
		if q == nil {
			continue
		}
		if q.l != nil {
			r, err := fx.Do("GET", "http://"+w.target(slot)+"/", nil, nil)
			if err != nil {
				return fmt.Errorf("the server at %s answers no more: %v", w.addr(slot), err)
			}
			if string(r.Body) != q.tag {
				return fmt.Errorf("the server at %s is not what answers there: %q", w.addr(slot), r.Body)
			}
			continue
		}
		svc, err := w.sys[0].sys.GetServiceOf("whoever", ocpp.V15, "http://"+w.target(slot)+"/")
		if err != nil {
			return fmt.Errorf("no SOAP service: %v", err)
		}
		a, err := svc.Send(&csreq.GetDiagnostics{Location: "x"})
		if err != nil {
			return fmt.Errorf("the SOAP charge point at %s answers no more: %v", w.addr(slot), err)
		}
		if g, ok := a.(*csresp.GetDiagnostics); !ok || g.FileName != q.tag {
			return fmt.Errorf("the SOAP charge point at %s is not what answers there: %s", w.addr(slot), hx.Quote(a))
		}
	}
	return nil
}

var c29Ports int64

// c29Port finds a port that is free at all addresses (the central systems of earlier cases are still
// there), and not one of those that connections are made from.
func c29Port() (int, error) {
	const low, n = 12000, 20000
	for try := 0; try < n; try++ {
		port := low + (os.Getpid()*97+int(atomic.AddInt64(&c29Ports, 1)))%n
		if l, err := net.Listen("tcp", fmt.Sprintf(":%d", port)); err == nil {
			l.Close()
			return port, nil
		}
	}
	return 0, hx.Harness("no port")
}

func checkC29Run(c c29Run) (err error) {
	w := &c29World{}
	for i := range w.ports {
		if w.ports[i], err = c29Port(); err != nil {
			return err
		}
	}
	// each case is a program of its own, with nothing else on the default mux
	http.DefaultServeMux = http.NewServeMux()
	for i := range w.sys {
		s := &c29Sys{sys: cs.New()}
		s.sys.SetChargePointConnectionListener(func(id string) { s.event("+" + id) })
		s.sys.SetChargePointDisconnectionListener(func(id string) { s.event("-" + id) })
		w.sys[i] = s
	}
	defer func() {
		for _, q := range w.squat {
			if q != nil {
				q.end()
			}
		}
		fx.CloseIdle()
	}()
	for i, op := range c.Ops {
		if err := w.do(op); err != nil {
			return fmt.Errorf("step %d (%+v): %w", i, op, err)
		}
	}
	for i := range c24Slots {
		if w.squat[i] != nil && c24Overlap(i, c.Slot) {
			if err := w.do(c29Op{Op: "leave", Slot: i}); err != nil {
				return err
			}
		}
	}
	if err := w.serve(c); err != nil {
		return fmt.Errorf("at last: %w", err)
	}
	return nil
}

func (w *c29World) serve(c c29Run) error {
	addr, id := w.addr(c.Slot), fx.ID()
	waits := map[*c29Sys]<-chan struct{}{}
	if c.Early {
		for _, s := range w.sys {
			waits[s] = s.sys.WaitConnect(id)
			if _, closed := <-closedNow(waits[s]); closed {
				return errors.New("WaitConnect is done before a central system runs")
			}
		}
	}
	running := w.start(c.Sys, c.N, addr)
	if err := hx.Eventually("a central system at "+addr, func() error {
		r, err := fx.Do("GET", "http://"+w.target(c.Slot)+"/", nil, nil)
		if err != nil {
			for i, s := range running {
				select {
				case err := <-s.stopped:
					s.stopped <- err
					if len(running) == 1 {
						if !w.free(c.Slot) {
							return hx.Harness("the port of the case was taken by somebody else: %v", err)
						}
						return fmt.Errorf("Run of system %d ended: %v", i, err)
					}
				default:
				}
			}
			return err
		}
		if r.Status != 200 {
			return fmt.Errorf("status %d", r.Status)
		}
		return nil
	}); err != nil {
		return err
	}
	// which one it is
	p, err := w.dial(c.Slot, id)
	if err != nil {
		return fmt.Errorf("no charge point can be made at a central system that serves: %w", err)
	}
	defer p.Cancel()
	type res struct {
		a   cpresp.ChargePointResponse
		err error
	}
	boot := &cpreq.BootNotification{ChargePointModel: "m", ChargePointVendor: "v"}
	ch := make(chan res, 1)
	go func() { a, err := p.CP.Send(boot); ch <- res{a, err} }()
	r, late := hx.Recv(ch, "answer of the central system that runs")
	if late != nil {
		return late
	}
	if r.err != nil {
		return fmt.Errorf("request to the central system that runs: %v", r.err)
	}
	got, ok := r.a.(*cpresp.BootNotification)
	if !ok {
		return fmt.Errorf("the answer is %s", hx.Quote(r.a))
	}
	var winner *c29Sys
	for _, s := range running {
		if s.tag == got.Interval {
			winner = s
		}
	}
	if winner == nil {
		return fmt.Errorf("the request was handled by the handler of an attempt that failed (%v)", got.Interval)
	}
	for _, s := range running {
		if s == winner {
			continue
		}
		err, late := hx.Recv(s.stopped, "the result of a Run at an address that another has taken")
		if late != nil {
			return late
		}
		if err := refused(err, addr); err != nil {
			return err
		}
	}
	for _, s := range w.sys {
		if s == winner {
			continue
		}
		if err := w.idle(s); err != nil {
			return err
		}
		if waits[s] != nil {
			if _, closed := <-closedNow(waits[s]); closed {
				return errors.New("WaitConnect of a central system that does not run is done")
			}
		}
	}
	if waits[winner] != nil {
		if _, err := hx.Recv(waits[winner], "WaitConnect asked for before Run"); err != nil {
			return err
		}
	}
	if _, err := hx.Recv(winner.sys.WaitConnect(id), "WaitConnect"); err != nil {
		return err
	}
	svc, err := winner.sys.GetServiceOf(id, ocpp.V16, "")
	if err != nil {
		return fmt.Errorf("no service for a charge point that is connected: %v", err)
	}
	type res2 struct {
		a   csresp.CentralSystemResponse
		err error
	}
	ch2 := make(chan res2, 1)
	go func() { a, err := svc.Send(&csreq.GetDiagnostics{Location: "x"}); ch2 <- res2{a, err} }()
	r2, late := hx.Recv(ch2, "answer of the charge point")
	if late != nil {
		return late
	}
	if g, ok := r2.a.(*csresp.GetDiagnostics); r2.err != nil || !ok || g.FileName != "of "+id {
		return fmt.Errorf("request to the charge point: %s, %v", hx.Quote(r2.a), r2.err)
	}
	// SOAP
	port := "127.0.0.1:0"
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	sp, err := cp.New(ctx, id+"-soap", "http://"+w.target(c.Slot)+"/", ocpp.V15, ocpp.SOAP, &port, nil)
	if err != nil {
		return fmt.Errorf("SOAP charge point: %v", err)
	}
	a, err := sp.Send(boot)
	if g, ok := a.(*cpresp.BootNotification); err != nil || !ok || g.Interval != winner.tag {
		return fmt.Errorf("SOAP request: %s, %v", hx.Quote(a), err)
	}
	if l, err := net.Listen("tcp", addr); err == nil {
		l.Close()
		return fmt.Errorf("the address %s of a central system that runs is free", addr)
	}
	p.Cancel()
	if err := hx.Eventually("notifications of the central system", func() error {
		if e := fmt.Sprint(winner.seen()); e != fmt.Sprintf("[+%s -%s]", id, id) && e != fmt.Sprintf("[-%s +%s]", id, id) {
			return fmt.Errorf("the notifications are %s", e)
		}
		return nil
	}); err != nil {
		return err
	}
	if err := w.probe(); err != nil {
		return err
	}
	select {
	case err := <-winner.stopped:
		return fmt.Errorf("Run ended although the central system serves: %v", err)
	default:
	}
	return nil
}

// closedNow tells whether a channel is closed already.
func closedNow(ch <-chan struct{}) chan struct{} {
	out := make(chan struct{}, 1)
	select {
	case <-ch:
		out <- struct{}{}
	default:
	}
	close(out)
	return out
}

func drawC29Run(t *rapid.T) c29Run {
	slots := len(c24Slots)
	var c c29Run
	c.Slot = rapid.IntRange(0, slots-1).Draw(t, "at")
	for i, n := 0, rapid.IntRange(0, 8).Draw(t, "n"); i < n; i++ {
		op := c29Op{
			Op:   rapid.SampledFrom([]string{"run", "run", "run", "squat", "squat", "leave", "dial", "probe"}).Draw(t, "op"),
			Slot: rapid.IntRange(0, slots-1).Draw(t, "slot"),
		}
		switch op.Op {
		case "run":
			op.Sys = rapid.IntRange(0, c29Systems-1).Draw(t, "sys")
			op.N = rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "runs")
			if rapid.IntRange(0, 2).Draw(t, "how") == 0 {
				op.Bad = rapid.IntRange(1, len(c24BadAddrs)).Draw(t, "bad")
			}
		case "squat":
			op.Soap = rapid.Bool().Draw(t, "soap")
			if rapid.Bool().Draw(t, "there") {
				op.Slot = c.Slot
			}
		}
		c.Ops = append(c.Ops, op)
	}
	c.Sys = rapid.IntRange(0, c29Systems-1).Draw(t, "sys")
	c.N = rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "runs")
	c.Early = rapid.Bool().Draw(t, "early")
	return c
}

// ---- charge points ----

// c29Answer is what a handshake gets.
type c29Answer struct {
	// refuse: nobody listens; close, reset: the connection ends before the request is read;
	// readclose, readreset: after it; status: an HTTP response; garbage: other bytes; accept,
	// upgrade, connection: an acceptance with a wrong or missing header; half: a part of an
	// acceptance; ok: a central system
	Kind string `json:"kind"`
	Code int    `json:"code,omitempty"`
	Body string `json:"body,omitempty"`
	Keep bool   `json:"keep,omitempty"` // the connection is left open
	Cut  int    `json:"cut,omitempty"`
}

// watched: the connection is left open until the other side ends it.
func (a c29Answer) watched() bool {
	switch a.Kind {
	case "status", "accept", "upgrade", "connection":
		return a.Keep
	}
	return false
}

type c29Dial struct {
	Answers []c29Answer `json:"answers"` // to one attempt after another; at last ok
	Odd     int         `json:"odd,omitempty"`
	Linger  bool        `json:"linger,omitempty"` // it is observed that nobody tries again
}

// attempts that cannot work wherever
var c29Odd = []struct {
	url       string
	transport ocpp.Transport
}{
	{"", ocpp.JSON}, {"://", ocpp.JSON}, {"ws://", ocpp.JSON}, {"nonsense", ocpp.JSON}, {"ftp://127.0.0.1:1", ocpp.JSON},
	{"ws://127.0.0.1:no", ocpp.JSON}, {"ws://127.0.0.1:99999", ocpp.JSON}, {"ws://[::1", ocpp.JSON}, {"ws://%zz", ocpp.JSON},
	{"ws://127.0.0.1:1/\x7f", ocpp.JSON}, {"\x00", ocpp.JSON},
	{"*", ""}, {"*", "JSON"}, {"*", "SOAP"}, {"*", "ws"}, {"*", "websocket"}, {"*", "json "},
}

type c29Server struct {
	addr   string
	mu     sync.Mutex
	answer c29Answer
	ended  chan error // how the connections end that are left open
	hits   int64
	to     string
}

func (s *c29Server) serve(c *net.TCPConn) {
	s.mu.Lock()
	a := s.answer
	s.mu.Unlock()
	if a.Kind == "ok" {
		up, err := net.Dial("tcp", s.to)
		if err != nil {
			c.Close()
			return
		}
		go func() { io.Copy(up, c); up.Close(); c.Close() }()
		io.Copy(c, up)
		up.Close()
		c.Close()
		return
	}
	defer c.Close()
	if a.Kind == "reset" || a.Kind == "readreset" {
		c.SetLinger(0)
	}
	if a.Kind == "close" || a.Kind == "reset" {
		return
	}
	br := bufio.NewReader(c)
	r, err := http.ReadRequest(br)
	if err != nil {
		s.ended <- fmt.Errorf("no handshake: %v", err)
		return
	}
	switch a.Kind {
	case "status":
		loc := ""
		if a.Code/100 == 3 {
			loc = "Location: http://" + s.addr + "/elsewhere\r\n"
		}
		body := fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(a.Body), a.Body)
		if a.Code == 204 || a.Code == 304 {
			body = "\r\n"
		}
		fmt.Fprintf(c, "HTTP/1.1 %d %s\r\nContent-Type: text/plain\r\n%s%s", a.Code, http.StatusText(a.Code), loc, body)
	case "garbage":
		io.WriteString(c, a.Body)
	case "accept", "upgrade", "connection", "half":
		key := acceptKey(r.Header.Get("Sec-Websocket-Key"))
		if a.Kind == "accept" {
			key = acceptKey("another" + r.Header.Get("Sec-Websocket-Key"))
		}
		h := "HTTP/1.1 101 Switching Protocols\r\n"
		if a.Kind != "upgrade" {
			h += "Upgrade: websocket\r\n"
		}
		if a.Kind != "connection" {
			h += "Connection: Upgrade\r\n"
		}
		h += "Sec-WebSocket-Accept: " + key + "\r\nSec-WebSocket-Protocol: ocpp1.6\r\n\r\n"
		if a.Kind == "half" {
			h = h[:1+a.Cut%(len(h)-4)]
			io.WriteString(c, h)
			return
		}
		io.WriteString(c, h)
	}
	if !a.watched() {
		return
	}
	start := time.Now()
	c.SetReadDeadline(start.Add(hx.Patience()))
	n, err := io.Copy(io.Discard, br)
	var ne net.Error
	switch {
	case errors.As(err, &ne) && ne.Timeout():
		s.ended <- errors.Join(hx.Late(start, "the end of the connection of a charge point that was not constructed"), err)
	case n > 0:
		s.ended <- fmt.Errorf("%d bytes came from a charge point whose handshake was not accepted", n)
	default:
		s.ended <- nil
	}
}

func dialGoroutines() int {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	n := 0
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "go-ocpp/cp.") || strings.Contains(g, "go-ocpp/ws.") || strings.Contains(g, "gorilla/websocket.(*Dialer)") {
			n++
		}
	}
	return n
}

func attempt(id, url string, transport ocpp.Transport) (p *fx.Point, err error) {
	type res struct {
		p   *fx.Point
		err error
	}
	ch := make(chan res, 1)
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		var made cp.ChargePoint
		isNil := true
		err := hx.Guarded(func() error {
			p, err := cp.New(ctx, id, url, ocpp.V16, transport, nil, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
				return &csresp.GetDiagnostics{FileName: "of " + id}, nil
			})
			made, isNil = p, p == nil
			return err
		})
		switch {
		case err != nil && !isNil:
			err = unwanted{fmt.Errorf("cp.New returned a charge point and the error %v", err)}
		case err != nil && err.Error() == "":
			err = unwanted{errors.New("cp.New returned an error without a text")}
		case err == nil && isNil:
			err = unwanted{errors.New("cp.New returned neither a charge point nor an error")}
		}
		ch <- res{&fx.Point{CP: made, ID: id, Cancel: cancel}, err}
	}()
	r, late := hx.Recv(ch, "the construction of a charge point at "+url)
	if late != nil {
		return &fx.Point{Cancel: cancel}, unwanted{late}
	}
	return r.p, r.err // the context of one that failed goes on, too
}

// unwanted is an outcome that is wrong in any case.
type unwanted struct{ error }

func (u unwanted) Unwrap() error { return u.error }

func checkC29Dial(c c29Dial) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	id := fx.ID()
	sys.Handle(id, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		return &cpresp.BootNotification{Status: "Accepted", CurrentTime: time.Now(), Interval: 29}, nil
	})
	defer sys.Handle(id, nil)
	var base int
	if err := hx.Eventually("end of the goroutines of the case before", func() error {
		if base = dialGoroutines(); base != 0 {
			return fmt.Errorf("%d goroutines of charge points or connections are left", base)
		}
		return nil
	}); err != nil {
		return err
	}
	quiet := func() error {
		return hx.Eventually("end of whatever belongs to a charge point that was not constructed", func() error {
			if n := dialGoroutines(); n != 0 {
				return fmt.Errorf("%d goroutines are left", n)
			}
			if _, err := sys.Sys.GetServiceOf(id, ocpp.V16, ""); err == nil {
				return errors.New("a service is offered")
			}
			return nil
		})
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return hx.Harness("no port: %v", err)
	}
	s := &c29Server{addr: l.Addr().String(), ended: make(chan error, 16), to: sys.Addr}
	accept := func(l net.Listener) {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			atomic.AddInt64(&s.hits, 1)
			go s.serve(c.(*net.TCPConn))
		}
	}
	go accept(l)
	defer func() { l.Close() }()
	if c.Odd > 0 {
		o := c29Odd[c.Odd-1]
		url := o.url
		if url == "*" {
			url = "ws://" + s.addr
		}
		p, err := attempt(id, url, o.transport)
		defer p.Cancel()
		var u unwanted
		if err == nil {
			return fmt.Errorf("a charge point was made at %q with the transport %q", url, o.transport)
		} else if errors.As(err, &u) {
			return fmt.Errorf("at %q with the transport %q: %w", url, o.transport, err)
		}
		if err := quiet(); err != nil {
			return fmt.Errorf("at %q with the transport %q: %w", url, o.transport, err)
		}
		if n := atomic.LoadInt64(&s.hits); n != 0 {
			return fmt.Errorf("at %q with the transport %q: %d connections were made", url, o.transport, n)
		}
	}
	for i, a := range c.Answers {
		what := fmt.Sprintf("attempt %d (%+v)", i, a)
		if a.Kind == "refuse" {
			l.Close()
			if err := hx.Eventually("closing of a port of the harness", func() error {
				c, err := net.Dial("tcp", s.addr)
				if err == nil {
					c.Close()
					return errors.New("still open")
				}
				return nil
			}); err != nil {
				return err
			}
		}
		s.mu.Lock()
		s.answer = a
		s.mu.Unlock()
		p, err := attempt(id, "ws://"+s.addr, ocpp.JSON)
		defer p.Cancel()
		var u unwanted
		if errors.As(err, &u) {
			return fmt.Errorf("%s: %w", what, err)
		}
		if a.Kind == "ok" {
			if err != nil {
				return fmt.Errorf("%s: no charge point could be made: %v", what, err)
			}
			if err := c29Works(sys, p); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if err := sys.Shutdown(p); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			continue
		}
		if err == nil {
			return fmt.Errorf("%s: a charge point was made", what)
		}
		if a.watched() {
			err, late := hx.Recv(s.ended, what+": the end of the connection")
			if late != nil {
				return late
			}
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
		if err := quiet(); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if a.Kind == "refuse" {
			if l, err = net.Listen("tcp", s.addr); err != nil {
				return hx.Inconclusive("the port of the case was taken by somebody else: %v", err)
			}
			go accept(l)
		}
	}
	if c.Linger {
		n := atomic.LoadInt64(&s.hits)
		time.Sleep(6 * time.Second) // longer than the interval of reconnections
		if m := atomic.LoadInt64(&s.hits); m != n {
			return fmt.Errorf("%d connections were made after the constructions had failed", m-n)
		}
	}
	return nil
}

// c29Works: the charge point that was made at last serves and is served.
func c29Works(sys *fx.CS, p *fx.Point) error {
	type res struct {
		a   interface{}
		err error
	}
	ch := make(chan res, 1)
	go func() {
		a, err := p.CP.Send(&cpreq.BootNotification{ChargePointModel: "m", ChargePointVendor: "v"})
		ch <- res{a, err}
	}()
	r, late := hx.Recv(ch, "answer of the central system")
	if late != nil {
		return late
	}
	if b, ok := r.a.(*cpresp.BootNotification); r.err != nil || !ok || b.Interval != 29 {
		return fmt.Errorf("request to the central system: %s, %v", hx.Quote(r.a), r.err)
	}
	if _, err := hx.Recv(sys.Sys.WaitConnect(p.ID), "WaitConnect"); err != nil {
		return err
	}
	svc, err := sys.Sys.GetServiceOf(p.ID, ocpp.V16, "")
	if err != nil {
		return fmt.Errorf("no service: %v", err)
	}
	go func() { a, err := svc.Send(&csreq.GetDiagnostics{Location: "x"}); ch <- res{a, err} }()
	if r, late = hx.Recv(ch, "answer of the charge point"); late != nil {
		return late
	}
	if g, ok := r.a.(*csresp.GetDiagnostics); r.err != nil || !ok || g.FileName != "of "+p.ID {
		return fmt.Errorf("request to the charge point: %s, %v", hx.Quote(r.a), r.err)
	}
	return nil
}

func drawC29Dial(t *rapid.T) c29Dial {
	var c c29Dial
	kinds := []string{"refuse", "close", "reset", "readclose", "readreset", "status", "status", "garbage", "accept", "upgrade", "connection", "half", "ok"}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
		a := c29Answer{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Keep: rapid.Bool().Draw(t, "keep")}
		switch a.Kind {
		case "status":
			a.Code = rapid.SampledFrom([]int{200, 201, 204, 301, 302, 307, 304, 400, 401, 403, 404, 407, 426, 429, 500, 502, 503, 504}).Draw(t, "code")
			a.Body = strings.Repeat("x", rapid.SampledFrom([]int{0, 1, 100, 2000, 70000}).Draw(t, "len"))
		case "garbage":
			a.Body = rapid.SampledFrom([]string{"", "\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 abc\r\n\r\n", "HTTP/9.9 101 x\r\n\r\n", "SSH-2.0-x\r\n", "\x16\x03\x01\x00\x00", strings.Repeat("HTTP/1.1 101 x\r\nA: b\r\n", 100) + "\r\n\r\n", "HTTP/1.1 101 x\r\nNo colon\r\n\r\n"}).Draw(t, "bytes")
		case "half":
			a.Cut = rapid.IntRange(0, 200).Draw(t, "cut")
		}
		c.Answers = append(c.Answers, a)
	}
	c.Answers = append(c.Answers, c29Answer{Kind: "ok"})
	if rapid.IntRange(0, 2).Draw(t, "odd?") == 0 {
		c.Odd = rapid.IntRange(1, len(c29Odd)).Draw(t, "odd")
	}
	c.Linger = rapid.IntRange(0, 399).Draw(t, "linger") == 253 // rare
	return c
}

func TestC29(t *testing.T) {
	hx.Run(t, hx.Part[c29Dial]{
		Property: "C29", Name: "dial",
		Rule:   "a case is a sequence of constructions of a websocket charge point at one address, where the handshake gets a generated answer each time (nobody there, connection ended before or after the request, HTTP status, other bytes, damaged or partial acceptance, acceptance) and at last an acceptance, maybe after one with an unusable URL or transport; non-trivial if at least one construction has to fail",
		Budget: hx.Budget{Quick: 2000, Thorough: 40000, QuickSecs: 45},
		Draw:   drawC29Dial,
		Classify: func(c c29Dial) (bool, []string) {
			var cl []string
			nt := c.Odd > 0
			for _, a := range c.Answers {
				nt = nt || a.Kind != "ok"
				cl = append(cl, a.Kind)
			}
			if c.Odd > 0 {
				cl = append(cl, "unusable URL or transport")
			}
			return nt, cl
		},
		Check: checkC29Dial,
	})
	hx.Run(t, hx.Part[c29Run]{
		Property: "C29", Name: "run",
		Rule:   "a case is a history of up to eight attempts to run one or more of three central systems at addresses that are in use or cannot be used, of servers and SOAP charge points that take and leave addresses, and of charge points that try to connect, and at last a run of one or more at a free address, which is then used; non-trivial if an attempt has to fail",
		Budget: hx.Budget{Quick: 1200, Thorough: 8000, QuickSecs: 45, ThoroughSecs: 600},
		Draw:   drawC29Run,
		Classify: func(c c29Run) (bool, []string) {
			nt := c.N > 1
			cl := []string{fmt.Sprintf("at last %d at once", c.N)}
			taken := map[int]bool{}
			over := func(s int) bool {
				for i := range taken {
					if c24Overlap(i, s) {
						return true
					}
				}
				return false
			}
			for _, o := range c.Ops {
				switch o.Op {
				case "squat":
					if !over(o.Slot) {
						taken[o.Slot] = true
					}
				case "leave":
					delete(taken, o.Slot)
				case "run":
					if o.Bad > 0 {
						nt = true
						cl = append(cl, "run at an unusable address")
					} else if over(o.Slot) {
						nt = true
						cl = append(cl, "run at an address in use")
					}
				}
			}
			return nt, cl
		},
		Check: checkC29Run,
	})
}

func acceptKey(key string) string {
	sum := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(sum[:])
}
