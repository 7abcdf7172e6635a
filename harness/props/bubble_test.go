package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gorilla/websocket"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"

	"vharness/fx"
	"vharness/hx"
)

// The central system is driven under a virtual clock: its HTTP handler is called with
// connections that are in-memory pipes, inside a synctest bubble. Nothing in the library's code
// path differs, except that time passes only while everything is idle.

var bubbleT *testing.T

// inBubble runs f under a virtual clock. Goroutines that are left at the end are not judged here.
func inBubble(f func() error) (err error) {
	done := false
	var crash interface{}
	over := make(chan struct{})
	// a goroutine of its own, as a report of the race detector ends it
	go func() {
		defer close(over)
		defer func() {
			if r := recover(); r != nil {
				if !strings.Contains(fmt.Sprint(r), "deadlock:") {
					crash = r
				} else if !done {
					err = fmt.Errorf("everything came to a standstill: %v", r)
				}
			}
		}()
		synctest.Test(bubbleT, func(*testing.T) {
			// a panic must not leave the bubble, where nobody could recover it
			err = hx.Guarded(f)
			done = true
		})
	}()
	<-over
	if crash != nil {
		panic(crash)
	}
	return err
}

// hijackable is the response writer of a server whose connections are pipes.
type hijackable struct {
	conn net.Conn
	rw   *bufio.ReadWriter
	h    http.Header
	code int
	body bytes.Buffer
	took bool
}

func (w *hijackable) Header() http.Header { return w.h }
func (w *hijackable) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *hijackable) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	return w.body.Write(b)
}
func (w *hijackable) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	w.took = true
	return w.conn, w.rw, nil
}

// slowConn lets writes be buffered, as a TCP connection does: a pipe's writer would otherwise
// wait for the reader. While it is stalled, as when the peer does not read, there is only room
// for so many bytes and writers wait.
type slowConn struct {
	net.Conn
	mu      sync.Mutex
	queue   [][]byte
	held    int // bytes in queue
	stalled bool
	room    int
	wdl     time.Time
	maxWait time.Duration // the longest time a writer has waited
	waiting bool          // a writer is waiting
	change  chan struct{} // closed and replaced at every change
	closed  bool
	gone    bool
}

func buffered(c net.Conn) *slowConn {
	s := &slowConn{Conn: c, change: make(chan struct{})}
	go func() {
		for {
			s.mu.Lock()
			var b []byte
			if len(s.queue) > 0 && !s.stalled {
				b, s.queue = s.queue[0], s.queue[1:]
				s.held -= len(b)
			}
			closed, gone, ch := s.closed && len(s.queue) == 0, s.gone, s.change
			s.mu.Unlock()
			if gone {
				return
			}
			if b == nil {
				if closed {
					c.Close()
					return
				}
				<-ch
				continue
			}
			if _, err := c.Write(b); err != nil {
				s.mu.Lock()
				s.closed = true
				s.queue = nil
				s.changed()
				s.mu.Unlock()
				c.Close()
				return
			}
		}
	}()
	return s
}

// changed wakes everybody up; the caller holds mu.
func (s *slowConn) changed() {
	close(s.change)
	s.change = make(chan struct{})
}

func (s *slowConn) Write(b []byte) (int, error) {
	n := 0
	began := time.Now()
	s.mu.Lock()
	defer s.mu.Unlock()
	defer func() { s.maxWait = max(s.maxWait, time.Since(began)) }()
	for {
		if s.closed {
			return n, net.ErrClosed
		}
		if !s.wdl.IsZero() && !time.Now().Before(s.wdl) {
			return n, os.ErrDeadlineExceeded
		}
		k := len(b) - n
		if s.stalled {
			k = max(0, min(k, s.room-s.held))
		}
		if k > 0 {
			s.queue = append(s.queue, append([]byte(nil), b[n:n+k]...))
			s.held += k
			n += k
			s.changed()
		}
		if n == len(b) {
			return n, nil
		}
		ch, wdl := s.change, s.wdl
		s.waiting = true
		s.mu.Unlock()
		if wdl.IsZero() {
			<-ch
		} else {
			t := time.NewTimer(time.Until(wdl))
			select {
			case <-ch:
			case <-t.C:
			}
			t.Stop()
		}
		s.mu.Lock()
		s.waiting = false
	}
}

// stall makes the connection hold only room more bytes, until resume.
func (s *slowConn) stall(room int) {
	s.mu.Lock()
	s.stalled, s.room = true, room
	s.mu.Unlock()
}

func (s *slowConn) resume() {
	s.mu.Lock()
	s.stalled = false
	s.changed()
	s.mu.Unlock()
}

// waited is the longest time a writer has waited; over is whether this end was closed.
func (s *slowConn) waited() (d time.Duration, over bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.maxWait, s.closed
}

func (s *slowConn) busy() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.waiting }

// Close flushes what was written, like close(2) on a socket.
func (s *slowConn) Close() error {
	s.mu.Lock()
	was := s.closed
	s.closed = true
	s.changed()
	s.mu.Unlock()
	if was {
		return net.ErrClosed
	}
	// the own reader ends at once
	s.Conn.SetReadDeadline(time.Unix(1, 0))
	return nil
}

func (s *slowConn) SetWriteDeadline(t time.Time) error {
	s.mu.Lock()
	s.wdl = t
	s.changed()
	s.mu.Unlock()
	return nil
}

func (s *slowConn) SetDeadline(t time.Time) error {
	s.SetWriteDeadline(t)
	return s.Conn.SetReadDeadline(t)
}

// reset ends the connection without delivering what is still queued.
func (s *slowConn) reset() {
	s.mu.Lock()
	s.closed, s.gone = true, true
	s.queue = nil
	s.changed()
	s.mu.Unlock()
	s.Conn.Close()
}

// bpeer is a raw charge point inside a bubble.
type bpeer struct {
	id   string
	conn *websocket.Conn
	pipe *slowConn
	far  *slowConn // the central system's end

	mu     sync.Mutex
	frames [][]byte
	ended  error
	news   chan struct{}
	served chan struct{} // closed when the central system is done with the connection
}

// bubbleOpen connects to the central system inside a bubble; nobody reads from the connection.
func bubbleOpen(id string) (*bpeer, error) {
	sys, err := fx.TheCS()
	if err != nil {
		return nil, err
	}
	mux := sys.Handler
	a, b := net.Pipe()
	p := &bpeer{id: id, pipe: buffered(a), far: buffered(b), news: make(chan struct{}, 1), served: make(chan struct{})}
	go func() {
		defer close(p.served)
		conn := p.far
		br := bufio.NewReader(conn)
		req, err := http.ReadRequest(br)
		if err != nil {
			conn.Close()
			return
		}
		req.RemoteAddr = "127.0.0.1:9"
		w := &hijackable{conn: conn, h: http.Header{}, rw: bufio.NewReadWriter(br, bufio.NewWriter(conn))}
		mux.ServeHTTP(w, req)
		if !w.took {
			conn.Close()
		}
	}()
	u := &url.URL{Scheme: "ws", Host: "cs", Path: "/" + id}
	c, _, err := websocket.NewClient(p.pipe, u, http.Header{"Sec-WebSocket-Protocol": {"ocpp1.6"}}, 4096, 4096)
	if err != nil {
		return nil, fmt.Errorf("the central system did not accept a websocket connection: %v", err)
	}
	p.conn = c
	return p, nil
}

// bubbleConnect connects a raw charge point to the central system inside a bubble.
func bubbleConnect(id string) (*bpeer, error) {
	p, err := bubbleOpen(id)
	if err != nil {
		return nil, err
	}
	c := p.conn
	go func() {
		for {
			_, d, err := c.ReadMessage()
			p.mu.Lock()
			if err != nil {
				p.ended = err
			} else {
				p.frames = append(p.frames, d)
			}
			p.mu.Unlock()
			select {
			case p.news <- struct{}{}:
			default:
			}
			if err != nil {
				return
			}
		}
	}()
	synctest.Wait()
	return p, nil
}

// take returns the frames received so far, and forgets them.
func (p *bpeer) take() ([]*frame, error) {
	p.mu.Lock()
	l := p.frames
	p.frames = nil
	p.mu.Unlock()
	var out []*frame
	for _, b := range l {
		f, err := parseFrame(b)
		if err != nil {
			return nil, err
		}
		out = append(out, f)
	}
	return out, nil
}

func (p *bpeer) over() error { p.mu.Lock(); defer p.mu.Unlock(); return p.ended }

func (p *bpeer) send(b []byte) error { return p.conn.WriteMessage(websocket.TextMessage, b) }

// end closes the connection: "handshake", "close" (TCP close) or "reset".
func (p *bpeer) end(how string) {
	switch how {
	case "handshake":
		p.conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, "bye"), time.Now().Add(time.Second))
		synctest.Wait()
		p.conn.Close()
	case "reset":
		p.pipe.reset()
	default:
		p.conn.Close()
	}
	synctest.Wait()
}

// bubbleSender sends through the service the central system offers now.
func bubbleSender(id string) (func(messages.Request) (messages.Response, error), error) {
	sys, err := fx.TheCS()
	if err != nil {
		return nil, err
	}
	svc, err := sys.Sys.GetServiceOf(id, ocpp.V16, "")
	if err != nil {
		return nil, err
	}
	return func(r messages.Request) (messages.Response, error) {
		resp, err := svc.Send(r.(csreq.CentralSystemRequest))
		if resp == nil {
			return nil, err
		}
		return resp, err
	}, nil
}

// bubbleHandler answers every request with a minimal response; barriers included.
func bubbleHandler(id string, also func(cpreq.ChargePointRequest)) {
	sys, _ := fx.TheCS()
	sys.Handle(id, func(r cpreq.ChargePointRequest, _ cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		if also != nil {
			also(r)
		}
		if s, ok := r.(*cpreq.StatusNotification); ok && strings.HasPrefix(s.Info, "fail") {
			return nil, errors.New("as asked")
		}
		k := kindOf(r.Action(), true)
		if k == nil {
			return nil, errors.New("unknown")
		}
		return libResp(minimal(k.Resp.String())).(cpresp.ChargePointResponse), nil
	})
}

// libGoroutines lists the goroutines that are inside the library; with bubble, only those of the
// caller's bubble.
func libGoroutines(bubble bool) []string {
	buf := make([]byte, 1<<24)
	st := string(buf[:runtime.Stack(buf, true)])
	var out []string
	mine := ""
	for i, g := range strings.Split(st, "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if i == 0 {
			if j := strings.Index(head, "synctest bubble "); j >= 0 {
				mine = strings.TrimRight(head[j:], "]:")
			}
			continue
		}
		if !strings.Contains(g, "github.com/voltbras/go-ocpp") {
			continue
		}
		if bubble {
			j := strings.Index(head, "synctest bubble ")
			if j < 0 || strings.TrimRight(head[j:], "]:") != mine {
				continue
			}
		}
		out = append(out, g)
	}
	return out
}
