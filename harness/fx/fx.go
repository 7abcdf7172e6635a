// Package fx holds the endpoints the checks drive: the library's central system and charge
// points, and raw peers speaking the wire protocols without the library.
package fx

import (
	"net/http/httptest"
	"vharness/gen"

	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/hx"
)

// CSHandler is the handler of a central system for one charge point.
type CSHandler func(req cpreq.ChargePointRequest, meta cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error)

// CPHandler is the handler of a charge point.
type CPHandler func(req csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error)

// CS is the central system under test; one per process.
type CS struct {
	Sys  cs.CentralSystem
	Addr string // host:port
	WS   string // ws://host:port
	HTTP string
	// Handler is what serves the port
	Handler http.Handler

	mu sync.Mutex
	// no locks for reading: they would order the goroutines of the library
	handlers sync.Map
	fallback atomic.Pointer[CSHandler]
	conns    map[string]int
	disconns map[string]int
	onEvent  func(id string, connected bool)
}

var (
	csOnce sync.Once
	theCS  *CS
	csErr  error
)

// FreePort finds a free loopback TCP port.
func FreePort() (int, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 0, err
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port, nil
}

// TheCS starts the central system on the first call.
func TheCS() (*CS, error) {
	csOnce.Do(func() { theCS, csErr = startCS() })
	return theCS, csErr
}

func startCS() (*CS, error) {
	var last error
	for try := 0; try < 20; try++ {
		port, err := FreePort()
		if err != nil {
			return nil, hx.Harness("no port: %v", err)
		}
		c := &CS{
			Sys: cs.New(), Addr: fmt.Sprintf("127.0.0.1:%d", port),
			conns: map[string]int{}, disconns: map[string]int{},
		}
		c.WS, c.HTTP = "ws://"+c.Addr, "http://"+c.Addr
		c.Relisten()
		http.DefaultServeMux = http.NewServeMux()
		runErr := make(chan error, 1)
		go func() { runErr <- c.Sys.Run(c.Addr, c.dispatch) }()
		start := time.Now()
		for time.Since(start) < 20*time.Second {
			select {
			case last = <-runErr:
			default:
				last = nil
			}
			if last != nil {
				break
			}
			resp, err := http.Get(c.HTTP + "/")
			if err == nil {
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				select {
				case last = <-runErr:
				case <-time.After(20 * time.Millisecond):
					return c, c.findHandler()
				}
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	return nil, hx.Harness("cannot start a central system: %v", last)
}

// findHandler gets hold of the HTTP handler, to call it under a virtual clock: it is that of the
// default mux, or if there is none, that of the server that serves a request.
func (c *CS) findHandler() error {
	if _, pattern := http.DefaultServeMux.Handler(httptest.NewRequest("GET", "/", nil)); pattern != "" {
		c.Handler = http.DefaultServeMux
		return nil
	}
	found := make(chan http.Handler, 1)
	c.Handle("find-handler", func(_ cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		if srv, ok := m.HTTPRequest.Context().Value(http.ServerContextKey).(*http.Server); ok {
			h := srv.Handler
			if h == nil {
				h = http.DefaultServeMux
			}
			select {
			case found <- h:
			default:
			}
		}
		return &cpresp.Heartbeat{CurrentTime: time.Now()}, nil
	})
	defer c.Handle("find-handler", nil)
	const ns = "urn://Ocpp/Cs/2012/06/"
	doc := gen.Envelope("find-handler", ns, "Heartbeat", `<heartbeatRequest xmlns="`+ns+`"></heartbeatRequest>`, gen.XStyle{})
	_, err := Post(c.HTTP+"/", []byte(doc))
	select {
	case c.Handler = <-found:
		return nil
	default:
		return hx.Harness("the HTTP handler of the central system was not found (%v)", err)
	}
}

// Relisten installs the listeners.
func (c *CS) Relisten() {
	c.Sys.SetChargePointConnectionListener(func(id string) { c.event(id, true) })
	c.Sys.SetChargePointDisconnectionListener(func(id string) { c.event(id, false) })
}

func (c *CS) event(id string, connected bool) {
	c.mu.Lock()
	if connected {
		c.conns[id]++
	} else {
		c.disconns[id]++
	}
	f := c.onEvent
	c.mu.Unlock()
	if f != nil {
		f(id, connected)
	}
}

// OnEvent installs an additional listener.
func (c *CS) OnEvent(f func(id string, connected bool)) {
	c.mu.Lock()
	c.onEvent = f
	c.mu.Unlock()
}

// Events is the number of connection and disconnection notifications of an identity.
func (c *CS) Events(id string) (conns, disconns int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.conns[id], c.disconns[id]
}

// TotalEvents over all identities.
func (c *CS) TotalEvents() (conns, disconns int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, n := range c.conns {
		conns += n
	}
	for _, n := range c.disconns {
		disconns += n
	}
	return
}

// Identities that were reported to the listeners.
func (c *CS) Identities() map[string]bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	out := map[string]bool{}
	for k := range c.conns {
		out[k] = true
	}
	for k := range c.disconns {
		out[k] = true
	}
	return out
}

// Handle sets the handler for the requests of a charge point.
func (c *CS) Handle(id string, h CSHandler) {
	if h == nil {
		c.handlers.Delete(id)
	} else {
		c.handlers.Store(id, h)
	}
}

// Fallback sets the handler for identities without an own one.
func (c *CS) Fallback(h CSHandler) { c.fallback.Store(&h) }

func (c *CS) dispatch(req cpreq.ChargePointRequest, meta cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
	var h CSHandler
	if v, ok := c.handlers.Load(meta.ChargePointID); ok {
		h = v.(CSHandler)
	}
	if f := c.fallback.Load(); h == nil && f != nil {
		h = *f
	}
	if h == nil {
		return nil, errors.New("no handler in the harness for " + meta.ChargePointID)
	}
	return h(req, meta)
}

var serial int64

// ID makes an identity that was not used before in this process.
func ID() string { return fmt.Sprintf("p%d", atomic.AddInt64(&serial, 1)) }

// Point is a charge point of the library.
type Point struct {
	CP     cp.ChargePoint
	ID     string
	Cancel context.CancelFunc
}

// DialCP connects a JSON charge point to a central system.
func DialCP(id, url string, h CPHandler) (*Point, error) {
	ctx, cancel := context.WithCancel(context.Background())
	p, err := cp.New(ctx, id, url, ocpp.V16, ocpp.JSON, nil, cp.CentralSystemMessageHandler(h))
	if err != nil {
		cancel()
		return nil, err
	}
	return &Point{CP: p, ID: id, Cancel: cancel}, nil
}

// Connect connects a charge point to the central system and waits until the latter knows it.
func (c *CS) Connect(id string, h CPHandler) (*Point, error) {
	p, err := DialCP(id, c.WS, h)
	if err != nil {
		return nil, fmt.Errorf("charge point %q could not connect: %v", id, err)
	}
	if _, err := hx.Recv(c.Sys.WaitConnect(id), "WaitConnect of "+id); err != nil {
		p.Cancel()
		return nil, err
	}
	return p, nil
}

// Shutdown cancels the charge point and waits until the central system has seen it go.
func (c *CS) Shutdown(p *Point) error {
	p.Cancel()
	return c.AwaitGone(p.ID)
}

// AwaitGone waits until no service is offered for the identity.
func (c *CS) AwaitGone(id string) error {
	return hx.Eventually("deregistration of "+id, func() error {
		if s, err := c.Sys.GetServiceOf(id, ocpp.V16, ""); err == nil && s != nil {
			return errors.New("a service is still offered")
		}
		return nil
	})
}

// ---- raw websocket peers ----

// Raw is a websocket connection driven without the library.
type Raw struct {
	*websocket.Conn
	wmu    sync.Mutex
	mu     sync.Mutex
	Frames chan RawFrame // everything received; closed on error
	Pongs  chan string   // the pongs received
	Err    error
	Header http.Header // of the upgrade request or response
	Path   string
}

// Gate is a connection whose reading side can be paused: what arrives stays with the system.
type Gate struct {
	net.Conn
	mu     sync.Mutex
	paused chan struct{}
}

func (g *Gate) Read(b []byte) (int, error) {
	g.mu.Lock()
	ch := g.paused
	g.mu.Unlock()
	if ch != nil {
		<-ch
	}
	return g.Conn.Read(b)
}

// Pause stops reading until Resume; what is being read already may still be read.
func (r *Raw) Pause() {
	g := r.UnderlyingConn().(*Gate)
	g.mu.Lock()
	if g.paused == nil {
		g.paused = make(chan struct{})
	}
	g.mu.Unlock()
}

// Resume ends Pause.
func (r *Raw) Resume() {
	g := r.UnderlyingConn().(*Gate)
	g.mu.Lock()
	if g.paused != nil {
		close(g.paused)
		g.paused = nil
	}
	g.mu.Unlock()
}

// Held is how many bytes the system holds for a paused reader.
func (r *Raw) Held() int {
	t, ok := r.UnderlyingConn().(*Gate).Conn.(*net.TCPConn)
	if !ok {
		return 0
	}
	n := 0
	if sc, err := t.SyscallConn(); err == nil {
		sc.Control(func(fd uintptr) {
			var v int32
			syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCINQ, uintptr(unsafe.Pointer(&v)))
			n = int(v)
		})
	}
	return n
}

// AwaitFull waits until the system takes no more for a paused reader.
func (r *Raw) AwaitFull() error {
	last, same := 0, 0
	return hx.Eventually("a connection that takes no more", func() error {
		n := r.Held()
		if n == last && n > 1<<16 {
			same++
		} else {
			same = 0
		}
		last = n
		if same < 3 {
			time.Sleep(20 * time.Millisecond)
			return fmt.Errorf("%d bytes are held", n)
		}
		return nil
	})
}

// gated is a listener of connections that can be paused.
type gated struct{ net.Listener }

func (l gated) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return &Gate{Conn: c}, nil
}

// RawFrame is a received message.
type RawFrame struct {
	Type int
	Data []byte
}

// NewRaw starts reading.
func NewRaw(c *websocket.Conn) *Raw {
	r := &Raw{Conn: c, Frames: make(chan RawFrame, 4096), Pongs: make(chan string, 4096)}
	c.SetPongHandler(func(s string) error {
		select {
		case r.Pongs <- s:
		default:
		}
		return nil
	})
	go func() {
		for {
			t, d, err := c.ReadMessage()
			if err != nil {
				r.mu.Lock()
				r.Err = err
				r.mu.Unlock()
				close(r.Frames)
				return
			}
			r.Frames <- RawFrame{t, d}
		}
	}()
	return r
}

// Send writes a text message.
func (r *Raw) Send(b []byte) error {
	r.wmu.Lock()
	defer r.wmu.Unlock()
	r.Conn.SetWriteDeadline(time.Now().Add(30 * time.Second))
	return r.Conn.WriteMessage(websocket.TextMessage, b)
}

// SendParts writes a message in so many fragments, with a ping after each but the last if asked
// to. A client's frames are masked.
func (r *Raw) SendParts(typ int, b []byte, parts int, client bool, ping []byte) error {
	var out []byte
	add := func(op byte, fin bool, data []byte) {
		if fin {
			op |= 0x80
		}
		out = append(out, op)
		m := byte(0)
		if client {
			m = 0x80
		}
		switch n := len(data); {
		case n < 126:
			out = append(out, m|byte(n))
		case n < 1<<16:
			out = append(out, m|126, byte(n>>8), byte(n))
		default:
			out = append(out, m|127, 0, 0, 0, 0, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		}
		if !client {
			out = append(out, data...)
			return
		}
		key := [4]byte{0x12, 0x34, byte(len(data)), 0x78}
		out = append(out, key[:]...)
		for i, c := range data {
			out = append(out, c^key[i%4])
		}
	}
	for i := 0; i < parts; i++ {
		op := byte(0)
		if i == 0 {
			op = byte(typ)
		}
		lo, hi := len(b)*i/parts, len(b)*(i+1)/parts
		add(op, i == parts-1, b[lo:hi])
		if ping != nil && i < parts-1 {
			add(websocket.PingMessage, true, ping)
		}
	}
	r.wmu.Lock()
	defer r.wmu.Unlock()
	c := r.UnderlyingConn()
	c.SetWriteDeadline(time.Now().Add(30 * time.Second))
	_, err := c.Write(out)
	return err
}

// Next is the next message; an error if the connection ended or nothing comes.
func (r *Raw) Next(what string) ([]byte, error) {
	f, err := hx.Recv(r.Frames, what)
	if err != nil {
		return nil, err
	}
	if f.Data == nil && f.Type == 0 {
		r.mu.Lock()
		defer r.mu.Unlock()
		return nil, fmt.Errorf("the connection ended (%v) while waiting for %s", r.Err, what)
	}
	return f.Data, nil
}

// Ended reports whether the reader saw the end of the connection.
func (r *Raw) Ended() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.Err != nil
}

// Reset closes the TCP connection with a reset.
func (r *Raw) Reset() {
	if g, ok := r.UnderlyingConn().(*Gate); ok {
		if t, ok := g.Conn.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		r.Resume()
	}
	r.Conn.Close()
}

// CloseHandshake starts the websocket closing handshake and closes.
func (r *Raw) CloseHandshake() {
	r.Conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, "bye"), time.Now().Add(5*time.Second))
	// the reader sees the answer or the end; do not wait forever for it
	deadline := time.After(2 * time.Second)
	for {
		select {
		case _, ok := <-r.Frames:
			if !ok {
				r.Conn.Close()
				return
			}
		case <-deadline:
			r.Conn.Close()
			return
		}
	}
}

// DialRaw connects a raw charge point to the central system, under the given path.
func (c *CS) DialRaw(id string, protocols ...string) (*Raw, error) {
	if protocols == nil {
		protocols = []string{"ocpp1.6"}
	}
	return DialRawURL(c.WS+"/"+(&url.URL{Path: id}).EscapedPath(), protocols...)
}

// DialRawURL connects a raw client.
func DialRawURL(u string, protocols ...string) (*Raw, error) {
	d := websocket.Dialer{Subprotocols: protocols, HandshakeTimeout: 20 * time.Second}
	d.NetDial = func(network, addr string) (net.Conn, error) {
		c, err := (&net.Dialer{Timeout: 20 * time.Second}).Dial(network, addr)
		if err != nil {
			return nil, err
		}
		return &Gate{Conn: c}, nil
	}
	conn, resp, err := d.Dial(u, nil)
	if err != nil {
		return nil, err
	}
	r := NewRaw(conn)
	r.Header = resp.Header
	return r, nil
}

// ConnectRaw dials and waits until the central system knows the identity; the identity must not
// be connected already.
func (c *CS) ConnectRaw(id string) (*Raw, error) {
	r, err := c.DialRaw(id)
	if err != nil {
		return nil, hx.Late(time.Now(), fmt.Sprintf("raw connection (%v)", err))
	}
	if _, err := hx.Recv(c.Sys.WaitConnect(id), "WaitConnect of "+id); err != nil {
		r.Close()
		return nil, err
	}
	return r, nil
}

// FakeCS is a websocket server without the library, to test charge points against.
type FakeCS struct {
	Addr  string
	WS    string
	l     net.Listener
	h     http.Handler
	mu    sync.Mutex
	wait  map[string]chan *Raw
	all   []*Raw
	mode  string
	dials []time.Time
	hung  []net.Conn
}

var (
	fakeOnce sync.Once
	fake     *FakeCS
	fakeErr  error
)

// TheFakeCS starts the shared raw server.
func TheFakeCS() (*FakeCS, error) {
	fakeOnce.Do(func() { fake, fakeErr = NewFakeCS("127.0.0.1:0") })
	return fake, fakeErr
}

// NewFakeCSAway starts a raw server on a port that is not given to outgoing connections.
func NewFakeCSAway() (f *FakeCS, err error) {
	for i := 0; i < 200; i++ {
		n := atomic.AddInt64(&serial, 1)
		if f, err = NewFakeCS(fmt.Sprintf("127.0.0.1:%d", 12000+(int64(os.Getpid())*37+n)%18000)); err == nil {
			return
		}
	}
	return
}

// NewFakeCS starts a raw server.
func NewFakeCS(addr string) (*FakeCS, error) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, hx.Harness("no port: %v", err)
	}
	f := &FakeCS{Addr: l.Addr().String(), wait: map[string]chan *Raw{}, l: l}
	f.WS = "ws://" + f.Addr
	up := websocket.Upgrader{Subprotocols: []string{"ocpp1.6"}, CheckOrigin: func(*http.Request) bool { return true }}
	f.h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		f.mu.Lock()
		f.dials = append(f.dials, time.Now())
		mode := f.mode
		f.mu.Unlock()
		switch mode {
		case "503", "404":
			code, _ := strconv.Atoi(mode)
			http.Error(w, "not now", code)
			return
		case "200":
			io.WriteString(w, "<h1>hello</h1>")
			return
		case "hang", "half":
			if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
				if mode == "half" {
					c.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: webso"))
				}
				f.mu.Lock()
				f.hung = append(f.hung, c)
				f.mu.Unlock()
			}
			return
		case "drop":
			if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
				c.Close()
			}
			return
		}
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		raw := NewRaw(c)
		raw.Header = r.Header
		raw.Path = r.URL.Path
		f.mu.Lock()
		f.all = append(f.all, raw)
		f.mu.Unlock()
		f.Conns(r.URL.Path) <- raw
	})
	go (&http.Server{Handler: f.h}).Serve(gated{l})
	return f, nil
}

// CloseHung ends the connections that were not answered.
func (f *FakeCS) CloseHung() {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, c := range f.hung {
		c.Close()
	}
	f.hung = nil
}

// Down closes the port; open connections stay.
func (f *FakeCS) Down() { f.l.Close() }

// Up opens the port again.
func (f *FakeCS) Up() error {
	var err error
	for i := 0; i < 100; i++ {
		var l net.Listener
		if l, err = net.Listen("tcp", f.Addr); err == nil {
			f.l = l
			go (&http.Server{Handler: f.h}).Serve(gated{l})
			return nil
		}
		time.Sleep(20 * time.Millisecond)
	}
	return hx.Harness("cannot reopen a port: %v", err)
}

// SetMode says how requests are answered: "" normally, 503, 404, 200 (a page), drop, hang (not at
// all), half (an unfinished answer).
func (f *FakeCS) SetMode(m string) { f.mu.Lock(); f.mode = m; f.mu.Unlock() }

// DialTimes of all requests.
func (f *FakeCS) DialTimes() []time.Time {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]time.Time(nil), f.dials...)
}

// All connections accepted so far.
func (f *FakeCS) All() []*Raw { f.mu.Lock(); defer f.mu.Unlock(); return append([]*Raw(nil), f.all...) }

// Conns is the channel of accepted connections with the given URL path.
func (f *FakeCS) Conns(path string) chan *Raw {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.wait[path] == nil {
		f.wait[path] = make(chan *Raw, 64)
	}
	return f.wait[path]
}

// Connect connects a library charge point to the raw server.
func (f *FakeCS) Connect(id string, h CPHandler) (*Point, *Raw, error) {
	p, err := DialCP(id, f.WS, h)
	if err != nil {
		return nil, nil, fmt.Errorf("charge point %q could not connect: %v", id, err)
	}
	r, err := hx.Recv(f.Conns("/"+id), "connection of charge point "+id)
	if err != nil {
		p.Cancel()
		return nil, nil, err
	}
	return p, r, nil
}

// Goroutines is the number of goroutines now.
func Goroutines() int { return runtime.NumGoroutine() }
