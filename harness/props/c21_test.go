package props

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
)

// C21: whoever is stuck, stalled or silent delays nobody else.

type c21Case struct {
	// Off are the kinds of the ones that are stuck
	Off []string `json:"off"`
	// Do is what others do meanwhile
	Do []string `json:"do"`
	// Together: the others act at the same time
	Together bool `json:"together,omitempty"`
	// Each of the stuck ones comes that many times, 0 is once
	Times int `json:"times,omitempty"`
}

var (
	c21Offenders = []string{"handler", "handler", "soap handler", "point handler", "soap point handler", "pending", "point pending", "half handshake", "half header",
		"half soap", "half frame", "connect listener", "disconnect listener", "soap call", "soap point call", "point listening nowhere"}
	c21Acts = []string{"peer", "peer", "point", "soap", "soap point", "soap call", "fake point", "page", "lookups", "listeners", "return", "own", "listener sends", "same identity soap", "same soap point"}
)

// mark is the content of the requests whose handler gets stuck.
const stuckMark = "stuck"

// offender is somebody who is stuck.
type offender struct {
	kind string
	id   string
	raw  *fx.Raw
	// finish ends the blockade and tells whether everything that waited for it went on
	finish func() error
}

func isStuck(r messages.Request) bool {
	switch x := r.(type) {
	case *cpreq.StatusNotification:
		return x.Info == stuckMark
	case *csreq.ChangeConfiguration:
		return x.Key == stuckMark
	}
	return false
}

func stuckFrame(atCS bool, id string) []byte {
	if atCS {
		return callFrame(id, "StatusNotification", `{"connectorId":1,"errorCode":"NoError","status":"Available","info":"`+stuckMark+`"}`)
	}
	return callFrame(id, "ChangeConfiguration", `{"key":"`+stuckMark+`","value":"1"}`)
}

// answerTo gives the minimal response, tagged where it can be.
func answerTo(r messages.Request, fromCP bool) messages.Response {
	k := kindOf(r.Action(), fromCP)
	if k == nil {
		return nil
	}
	return libResp(minimal(k.Resp.String()))
}

// gate is what the stuck ones wait for.
type gate struct {
	entered chan struct{}
	release chan struct{}
	once    sync.Once
}

func newGate() *gate { return &gate{entered: make(chan struct{}, 1000), release: make(chan struct{})} }

func (g *gate) wait() {
	g.entered <- struct{}{}
	<-g.release
}
func (g *gate) open() { g.once.Do(func() { close(g.release) }) }

func csHandlerOf(g *gate) fx.CSHandler {
	return func(r cpreq.ChargePointRequest, _ cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		if g != nil && isStuck(r) {
			g.wait()
		}
		if a := answerTo(r, true); a != nil {
			return a.(cpresp.ChargePointResponse), nil
		}
		return nil, errors.New("unknown")
	}
}

func cpHandlerOf(g *gate) fx.CPHandler {
	return func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		if g != nil && isStuck(r) {
			g.wait()
		}
		if a := answerTo(r, false); a != nil {
			return a.(csresp.CentralSystemResponse), nil
		}
		return nil, errors.New("unknown")
	}
}

func csStuckBody(id string) []byte {
	return []byte(gen.Envelope(id, "urn://Ocpp/Cs/2012/06/", "StatusNotification", gen.WriteXML(gen.Msg{T: "cpreq.StatusNotification", V: map[string]interface{}{
		"ConnectorId": float64(1), "ErrorCode": "NoError", "Status": "Available", "Info": stuckMark}}, gen.XStyle{}), gen.XStyle{}))
}

// listenTCP is a server that accepts connections and says nothing.
func listenTCP() (addr string, accepted chan net.Conn, stop func(), err error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", nil, nil, hx.Harness("no port: %v", err)
	}
	accepted = make(chan net.Conn, 100)
	var mu sync.Mutex
	var all []net.Conn
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			all = append(all, c)
			mu.Unlock()
			accepted <- c
		}
	}()
	return l.Addr().String(), accepted, func() {
		l.Close()
		mu.Lock()
		defer mu.Unlock()
		for _, c := range all {
			c.Close()
		}
	}, nil
}

// c21World is what the participants share.
type c21World struct {
	sys      *fx.CS
	soap     *fx.SoapCP
	fake     *fx.FakeCS
	soapGate *gate

	mu      sync.Mutex
	returns bool // some offender connects anew
	// what the listeners do
	hooks map[string]func()
}

func (w *c21World) hook(id string, connected bool, f func()) {
	w.mu.Lock()
	w.hooks[fmt.Sprint(id, connected)] = f
	w.mu.Unlock()
}

// offend makes somebody get stuck.
func (w *c21World) offend(kind string) (*offender, error) {
	id := fx.ID()
	o := &offender{kind: kind, id: id}
	g := newGate()
	entered := func() error {
		_, err := hx.Recv(g.entered, "the run of a handler")
		return err
	}
	connect := func() (err error) {
		w.sys.Handle(id, csHandlerOf(g))
		o.raw, err = w.sys.ConnectRaw(id)
		return
	}
	// gone ends the offender's connection
	gone := func() error {
		o.raw.Reset()
		err := w.sys.AwaitGone(id)
		w.sys.Handle(id, nil)
		return err
	}
	answered := func(raw *fx.Raw, cid string) error {
		b, err := raw.Next("the answer of a handler that was stuck")
		if err != nil {
			return err
		}
		f, err := parseFrame(b)
		if err != nil {
			return err
		}
		if f.Type != 3 || f.ID != cid {
			return fmt.Errorf("when a handler went on, its call was answered with %s", hx.Quote(f.Raw))
		}
		return nil
	}
	service := func() (func() (messages.Response, error), error) {
		svc, err := w.sys.Sys.GetServiceOf(id, ocpp.V16, "")
		if err != nil {
			return nil, fmt.Errorf("no service for a connected charge point: %v", err)
		}
		return func() (messages.Response, error) { return svc.Send(&csreq.ClearCache{}) }, nil
	}
	switch kind {
	case "handler":
		if err := connect(); err != nil {
			return nil, err
		}
		cid := wireID()
		if err := o.raw.Send(stuckFrame(true, cid)); err != nil {
			return nil, err
		}
		o.finish = func() error {
			g.open()
			if err := answered(o.raw, cid); err != nil {
				return err
			}
			return gone()
		}
		return o, entered()
	case "pending":
		if err := connect(); err != nil {
			return nil, err
		}
		send, err := service()
		if err != nil {
			return nil, err
		}
		out := make(chan error, 1)
		go func() {
			_, err := send()
			out <- err
		}()
		b, err := o.raw.Next("the call of a request")
		if err != nil {
			return nil, err
		}
		f, err := parseFrame(b)
		if err != nil {
			return nil, err
		}
		o.finish = func() error {
			if err := o.raw.Send(resultFrame(f.ID, `{"status":"Accepted"}`)); err != nil {
				return err
			}
			err, late := hx.Recv(out, "the return of an answered request")
			if late != nil {
				return late
			}
			if err != nil {
				return fmt.Errorf("an answered request failed: %v", err)
			}
			return gone()
		}
		return o, nil
	case "half frame":
		if err := connect(); err != nil {
			return nil, err
		}
		if _, err := o.raw.UnderlyingConn().Write([]byte{0x81, 0xfe, 0x10, 0, 1, 2, 3, 4, 'x', 'y'}); err != nil {
			return nil, err
		}
		o.finish = gone
		return o, nil
	case "connect listener", "disconnect listener":
		on := kind == "connect listener"
		w.hook(id, on, g.wait)
		if err := connect(); err != nil {
			return nil, err
		}
		o.finish = gone
		if !on {
			raw := o.raw
			raw.Reset()
			if err := w.sys.AwaitGone(id); err != nil {
				return nil, err
			}
			o.finish = func() error { return nil }
			o.raw = nil
		}
		if err := entered(); err != nil {
			return nil, err
		}
		f := o.finish
		o.finish = func() error { g.open(); return f() }
		return o, nil
	case "soap handler":
		w.sys.Handle(id, csHandlerOf(g))
		out := make(chan error, 1)
		go func() {
			r, err := fx.Post(w.sys.HTTP+"/", csStuckBody(id))
			if err == nil && !fx.IsSuccess(r) {
				err = fmt.Errorf("when a handler went on, the request was answered with %s", hx.Quote(string(r.Body)))
			}
			out <- err
		}()
		o.finish = func() error {
			g.open()
			err, late := hx.Recv(out, "the answer of a handler that was stuck")
			w.sys.Handle(id, nil)
			return errors.Join(err, late)
		}
		return o, entered()
	case "point handler":
		p, raw, err := w.fake.Connect(id, cpHandlerOf(g))
		if err != nil {
			return nil, err
		}
		cid := wireID()
		if err := raw.Send(stuckFrame(false, cid)); err != nil {
			return nil, err
		}
		o.finish = func() error {
			g.open()
			err := answered(raw, cid)
			p.Cancel()
			raw.Reset()
			return err
		}
		return o, entered()
	case "point pending":
		p, raw, err := w.fake.Connect(id, cpHandlerOf(nil))
		if err != nil {
			return nil, err
		}
		out := make(chan error, 1)
		go func() {
			_, err := p.CP.Send(&cpreq.Heartbeat{})
			out <- err
		}()
		b, err := raw.Next("the call of a request")
		if err != nil {
			return nil, err
		}
		f, err := parseFrame(b)
		if err != nil {
			return nil, err
		}
		o.finish = func() error {
			if err := raw.Send(resultFrame(f.ID, `{"currentTime":"2024-05-06T07:08:09Z"}`)); err != nil {
				return err
			}
			err, late := hx.Recv(out, "the return of an answered request")
			p.Cancel()
			raw.Reset()
			return errors.Join(err, late)
		}
		return o, nil
	case "soap point handler":
		w.mu.Lock()
		if w.soapGate == nil {
			w.soapGate = g
		} else {
			g = w.soapGate
		}
		w.mu.Unlock()
		out := make(chan error, 1)
		go func() {
			svc, err := w.sys.Sys.GetServiceOf("soap-cp", ocpp.V15, w.soap.URL)
			if err == nil {
				_, err = svc.Send(&csreq.ChangeConfiguration{Key: stuckMark, Value: "1"})
			}
			out <- err
		}()
		o.finish = func() error {
			g.open()
			err, late := hx.Recv(out, "the answer of a handler that was stuck")
			return errors.Join(err, late)
		}
		_, err := hx.Recv(g.entered, "the run of a handler")
		return o, err
	case "half handshake", "half header", "half soap":
		c, err := net.DialTimeout("tcp", w.sys.Addr, 20*time.Second)
		if err != nil {
			return nil, hx.Late(time.Now(), fmt.Sprintf("connection (%v)", err))
		}
		text := map[string]string{
			"half handshake": "GET /" + id + " HTTP/1.1\r\nHost: cs\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: AAAA",
			"half header":    "POS",
			"half soap":      "POST / HTTP/1.1\r\nHost: cs\r\nContent-Type: application/soap+xml\r\nContent-Length: 1000\r\n\r\n<?xml version=\"1.0\"?><S:Env",
		}[kind]
		if _, err := io.WriteString(c, text); err != nil {
			return nil, fmt.Errorf("the central system does not take a request: %v", err)
		}
		time.Sleep(2 * time.Millisecond)
		o.finish = func() error { c.Close(); return nil }
		return o, nil
	case "soap call", "soap point call":
		addr, accepted, stop, err := listenTCP()
		if err != nil {
			return nil, err
		}
		var send func() error
		if kind == "soap call" {
			svc, err := w.sys.Sys.GetServiceOf(id, ocpp.V15, "http://"+addr+"/")
			if err != nil {
				return nil, fmt.Errorf("no service for a SOAP charge point: %v", err)
			}
			send = func() error { _, err := svc.Send(&csreq.ClearCache{}); return err }
		} else {
			p, err := fx.NewSoapCP(id, "http://"+addr+"/")
			if err != nil {
				return nil, err
			}
			defer func() {
				f := o.finish
				o.finish = func() error { p.Cancel(); return f() }
			}()
			send = func() error { _, err := p.CP.Send(&cpreq.Heartbeat{}); return err }
		}
		out := make(chan error, 1)
		go func() { out <- send() }()
		o.finish = func() error {
			stop()
			err, late := hx.Recv(out, "the return of a SOAP request whose connection ended")
			if late != nil {
				return late
			}
			if err == nil {
				return errors.New("a SOAP request without an answer succeeded")
			}
			return nil
		}
		_, err = hx.Recv(accepted, "the connection of a SOAP request")
		return o, err
	case "point listening nowhere":
		// a charge point that cannot reach its central system any more
		f, err := fx.NewFakeCSAway()
		if err != nil {
			return nil, err
		}
		p, raw, err := f.Connect(id, cpHandlerOf(nil))
		if err != nil {
			return nil, err
		}
		f.SetMode("hang")
		raw.Reset()
		o.finish = func() error {
			p.Cancel()
			f.CloseHung()
			f.Down()
			return nil
		}
		_, err = hx.Recv(p.CP.WaitDisconnect(), "the wait for disconnection")
		return o, err
	case "unread":
		if err := connect(); err != nil {
			return nil, err
		}
		svc, err := w.sys.Sys.GetServiceOf(id, ocpp.V16, "")
		if err != nil {
			return nil, fmt.Errorf("no service for a connected charge point: %v", err)
		}
		o.raw.Pause()
		out := make(chan error, 2)
		go func() {
			_, err := svc.Send(&csreq.DataTransfer{VendorId: "v", Data: strings.Repeat("x", 14<<20)})
			out <- err
		}()
		if err := o.raw.AwaitFull(); err != nil {
			return nil, err
		}
		go func() {
			_, err := svc.Send(&csreq.ClearCache{})
			out <- err
		}()
		o.finish = func() error {
			go func() {
				for b := range o.raw.Frames {
					if f, err := parseFrame(b.Data); err == nil && f.Type == 2 {
						o.raw.Send(resultFrame(f.ID, `{"status":"Accepted"}`))
					}
				}
			}()
			o.raw.Resume()
			for i := 0; i < 2; i++ {
				err, late := hx.Recv(out, "the return of an answered request")
				if late != nil {
					return late
				}
				if err != nil {
					return fmt.Errorf("when the peer read again, an answered request failed: %v", err)
				}
			}
			return gone()
		}
		return o, nil
	}
	return nil, hx.Harness("unknown offender %s", kind)
}

// both checks an exchange in each direction over a raw peer's connection.
func (w *c21World) both(id string, raw *fx.Raw) error {
	cid := wireID()
	if err := raw.Send(callFrame(cid, "Heartbeat", "{}")); err != nil {
		return err
	}
	b, err := raw.Next("the answer to a well-formed call")
	if err != nil {
		return err
	}
	f, err := parseFrame(b)
	if err != nil {
		return err
	}
	if f.Type != 3 || f.ID != cid {
		return fmt.Errorf("a well-formed call was answered with %s", hx.Quote(f.Raw))
	}
	svc, err := w.sys.Sys.GetServiceOf(id, ocpp.V16, "")
	if err != nil {
		return fmt.Errorf("no service for a connected charge point: %v", err)
	}
	out := make(chan error, 1)
	go func() {
		_, err := svc.Send(&csreq.ClearCache{})
		out <- err
	}()
	if b, err = raw.Next("the call of a request"); err != nil {
		return err
	}
	if f, err = parseFrame(b); err != nil {
		return err
	}
	if f.Type != 2 || f.Action != "ClearCache" {
		return fmt.Errorf("the library sent %s", hx.Quote(f.Raw))
	}
	if err := raw.Send(resultFrame(f.ID, `{"status":"Accepted"}`)); err != nil {
		return err
	}
	err, late := hx.Recv(out, "the return of an answered request")
	if late != nil {
		return late
	}
	if err != nil {
		return fmt.Errorf("an answered request failed: %v", err)
	}
	return nil
}

// timely runs f, which must return.
func timely(what string, f func() error) error {
	out := make(chan error, 1)
	go func() { out <- f() }()
	err, late := hx.Recv(out, what)
	if late != nil {
		return late
	}
	return err
}

// act does something others than the offenders do.
func (w *c21World) act(kind string, offs []*offender) error {
	id := fx.ID()
	switch kind {
	case "peer":
		w.sys.Handle(id, csHandlerOf(nil))
		defer w.sys.Handle(id, nil)
		wait := w.sys.Sys.WaitConnect(id)
		raw, err := w.sys.DialRaw(id)
		if err != nil {
			return hx.Late(time.Now(), fmt.Sprintf("raw connection (%v)", err))
		}
		defer raw.Reset()
		if _, err := hx.Recv(wait, "the wait for connection"); err != nil {
			return err
		}
		if err := w.both(id, raw); err != nil {
			return err
		}
		if err := hx.Eventually("the notification of a connection", func() error {
			if n, _ := w.sys.Events(id); n != 1 {
				return fmt.Errorf("%d notifications", n)
			}
			return nil
		}); err != nil {
			return err
		}
		wait = w.sys.Sys.WaitDisconnect(id)
		if isClosed(wait) {
			return errors.New("a wait for disconnection of a connected charge point is over")
		}
		raw.Reset()
		if _, err := hx.Recv(wait, "the wait for disconnection"); err != nil {
			return err
		}
		return hx.Eventually("the notification of a disconnection", func() error {
			if _, n := w.sys.Events(id); n != 1 {
				return fmt.Errorf("%d notifications", n)
			}
			return nil
		})
	case "listener sends":
		// a connection listener sends a request to the charge point that has just connected, a
		// disconnection listener looks around
		w.sys.Handle(id, csHandlerOf(nil))
		defer w.sys.Handle(id, nil)
		result := make(chan error, 2)
		w.hook(id, true, func() {
			svc, err := w.sys.Sys.GetServiceOf(id, ocpp.V16, "")
			if err == nil {
				_, err = svc.Send(&csreq.ClearCache{})
			}
			result <- err
		})
		w.hook(id, false, func() {
			if _, err := w.sys.Sys.GetServiceOf(id, ocpp.V16, ""); err == nil {
				result <- errors.New("a service for a charge point that has disconnected")
				return
			}
			w.sys.Sys.WaitConnect(id)
			_, err := hx.Recv(w.sys.Sys.WaitDisconnect(id), "the wait for disconnection of a charge point that has disconnected")
			result <- err
		})
		raw, err := w.sys.DialRaw(id)
		if err != nil {
			return hx.Late(time.Now(), fmt.Sprintf("raw connection (%v)", err))
		}
		defer raw.Reset()
		b, err := raw.Next("the call of a request sent by a listener")
		if err != nil {
			return err
		}
		f, err := parseFrame(b)
		if err != nil {
			return err
		}
		if err := raw.Send(resultFrame(f.ID, `{"status":"Accepted"}`)); err != nil {
			return err
		}
		for i, what := range []string{"the return of an answered request sent by a listener", "the end of a disconnection listener"} {
			if i == 1 {
				raw.Reset()
			}
			err, late := hx.Recv(result, what)
			if late != nil {
				return late
			}
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		}
		return nil
	case "own":
		// connections whose listener is stuck, or with a request that is not answered, work
		for _, o := range offs {
			if o.raw != nil && (o.kind == "connect listener" || o.kind == "pending") {
				return w.both(o.id, o.raw)
			}
		}
		return nil
	case "point":
		w.sys.Handle(id, csHandlerOf(nil))
		defer w.sys.Handle(id, nil)
		return timely("the life of a charge point", func() error {
			p, err := w.sys.Connect(id, cpHandlerOf(nil))
			if err != nil {
				return err
			}
			if _, err := p.CP.Send(&cpreq.Heartbeat{}); err != nil {
				return fmt.Errorf("a request of a charge point failed: %v", err)
			}
			svc, err := w.sys.Sys.GetServiceOf(id, ocpp.V16, "")
			if err != nil {
				return fmt.Errorf("no service for a connected charge point: %v", err)
			}
			if _, err := svc.Send(&csreq.ClearCache{}); err != nil {
				return fmt.Errorf("a request to a charge point failed: %v", err)
			}
			return w.sys.Shutdown(p)
		})
	case "fake point":
		return timely("the life of a charge point", func() error {
			p, raw, err := w.fake.Connect(id, cpHandlerOf(nil))
			if err != nil {
				return err
			}
			defer func() { p.Cancel(); raw.Reset() }()
			s := &side{id: id, raw: raw}
			cid := wireID()
			if err := raw.Send(s.barrierFrame(cid)); err != nil {
				return err
			}
			f, err := s.next("the answer to a well-formed call")
			if err != nil {
				return err
			}
			if f.Type != 3 || f.ID != cid {
				return fmt.Errorf("a well-formed call was answered with %s", hx.Quote(f.Raw))
			}
			return nil
		})
	case "soap", "same identity soap":
		if kind != "soap" && len(offs) > 0 {
			id = offs[0].id
		}
		if kind == "soap" || len(offs) == 0 {
			w.sys.Handle(id, csHandlerOf(nil))
			defer w.sys.Handle(id, nil)
		} else if o := offs[0]; !(o.raw != nil || o.kind == "soap handler") {
			return nil // no handler for it
		}
		k := kindOf("Heartbeat", true)
		r, err := fx.Post(w.sys.HTTP+"/", []byte(gen.Envelope(id, k.NS(), k.Action, gen.WriteXML(minimal(k.Req.String()), gen.XStyle{}), gen.XStyle{})))
		if err != nil {
			return err
		}
		if !fx.IsSuccess(r) {
			return fmt.Errorf("a SOAP request was answered with %s", hx.Quote(string(r.Body)))
		}
		return nil
	case "soap point", "same soap point":
		// a request to the SOAP charge point, which may have a stuck handler
		return timely("a request to a SOAP charge point", func() error {
			p := w.soap
			if kind == "soap point" {
				var err error
				if p, err = fx.NewSoapCP(id, w.sys.HTTP+"/"); err != nil {
					return err
				}
				defer p.Cancel()
				p.SetHandler(cpHandlerOf(nil))
			}
			svc, err := w.sys.Sys.GetServiceOf(id, ocpp.V15, p.URL)
			if err != nil {
				return fmt.Errorf("no service for a SOAP charge point: %v", err)
			}
			if _, err := svc.Send(&csreq.ClearCache{}); err != nil {
				return fmt.Errorf("a request to a SOAP charge point failed: %v", err)
			}
			return nil
		})
	case "soap call":
		w.sys.Handle("soap-cp", csHandlerOf(nil))
		return timely("a request of a SOAP charge point", func() error {
			if _, err := w.soap.CP.Send(&cpreq.Heartbeat{}); err != nil {
				return fmt.Errorf("a request of a SOAP charge point failed: %v", err)
			}
			return nil
		})
	case "page":
		r, err := fx.Do("GET", w.sys.HTTP+"/", nil, nil)
		if err != nil {
			return err
		}
		if r.Status != http.StatusOK {
			return fmt.Errorf("the status page was answered with %d", r.Status)
		}
		return nil
	case "lookups":
		return timely("lookups and waits", func() error {
			for _, o := range offs {
				if o.raw == nil {
					continue
				}
				if _, err := w.sys.Sys.GetServiceOf(o.id, ocpp.V16, ""); err != nil {
					return fmt.Errorf("no service for a connected charge point (%s): %v", o.kind, err)
				}
				if !isClosed(w.sys.Sys.WaitConnect(o.id)) {
					return fmt.Errorf("a connected charge point (%s) is not seen as connected", o.kind)
				}
				// with another connection that ends at this moment, this may be its end
				if !w.returns && isClosed(w.sys.Sys.WaitDisconnect(o.id)) {
					return fmt.Errorf("a connected charge point (%s) is seen as disconnected", o.kind)
				}
			}
			if _, err := w.sys.Sys.GetServiceOf(id, ocpp.V16, ""); err == nil {
				return errors.New("a service for an unknown charge point")
			}
			return nil
		})
	case "listeners":
		return timely("setting the listeners", func() error { w.sys.Relisten(); return nil })
	case "return":
		// an offender connects anew, while its former connection is stuck
		for _, o := range offs {
			if o.raw == nil || o.kind == "connect listener" || o.kind == "disconnect listener" || o.kind == "pending" {
				continue
			}
			raw, err := w.sys.DialRaw(o.id)
			if err != nil {
				return hx.Late(time.Now(), fmt.Sprintf("raw connection (%v)", err))
			}
			defer raw.Reset()
			// its call is answered when it is registered
			cid := wireID()
			if err := raw.Send(callFrame(cid, "Heartbeat", "{}")); err != nil {
				return err
			}
			if _, err := raw.Next("the answer to a well-formed call"); err != nil {
				return err
			}
			return w.both(o.id, raw)
		}
		return nil
	}
	return hx.Harness("unknown act %s", kind)
}

func checkC21(c c21Case) (err error) {
	w := &c21World{hooks: map[string]func(){}}
	for _, a := range c.Do {
		w.returns = w.returns || a == "return"
	}
	if w.sys, err = fx.TheCS(); err != nil {
		return err
	}
	if w.soap, err = fx.TheSoapCP(); err != nil {
		return err
	}
	if w.fake, err = fx.TheFakeCS(); err != nil {
		return err
	}
	w.sys.OnEvent(func(id string, connected bool) {
		w.mu.Lock()
		f := w.hooks[fmt.Sprint(id, connected)]
		w.mu.Unlock()
		if f != nil {
			f()
		}
	})
	defer w.sys.OnEvent(nil)
	w.soap.SetHandler(func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		w.mu.Lock()
		g := w.soapGate
		w.mu.Unlock()
		return cpHandlerOf(g)(r)
	})
	defer w.soap.SetHandler(nil)
	var offs []*offender
	finished := false
	defer func() {
		if !finished {
			for _, o := range offs {
				go o.finish()
			}
		}
	}()
	var all []string
	for _, k := range c.Off {
		all = append(all, k)
		if k == "unread" || k == "point listening nowhere" || k == "soap point call" { // expensive
			continue
		}
		for i := 1; i < c.Times; i++ {
			all = append(all, k)
		}
	}
	c.Off = all
	for i, k := range c.Off {
		var o *offender
		err := timely("getting stuck", func() (err error) { o, err = w.offend(k); return })
		if err != nil {
			return fmt.Errorf("with %v stuck, at the start of %q: %w", c.Off[:i], k, err)
		}
		offs = append(offs, o)
	}
	failed := func(i int, err error) error {
		return fmt.Errorf("with %v stuck, %q: %w", c.Off, c.Do[i], err)
	}
	if c.Together {
		errs := make([]error, len(c.Do))
		var wg sync.WaitGroup
		returned := false
		for i, a := range c.Do {
			if a == "return" || a == "own" { // one at a time
				if returned {
					continue
				}
				returned = true
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = w.act(a, offs)
			}()
		}
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				return failed(i, err)
			}
		}
	} else {
		for i, a := range c.Do {
			if err := w.act(a, offs); err != nil {
				return failed(i, err)
			}
		}
	}
	finished = true
	for i, o := range offs {
		if err := o.finish(); err != nil {
			for _, p := range offs[i+1:] {
				go p.finish()
			}
			return fmt.Errorf("when %q (of %v) went on: %w", o.kind, c.Off, err)
		}
	}
	return nil
}

func TestC21(t *testing.T) {
	hx.Run(t, hx.Part[c21Case]{
		Property: "C21", Name: "bystanders",
		Rule:   "a case has 1-5 kinds of participants that are stuck, in one of eight cases up to 140 in all (a handler or listener that does not return, a request nobody answers, a peer that does not read, half a handshake, request or frame, a server that does not answer), while 1-6 others connect, exchange messages in both directions and over both transports, are looked up and waited for, one after another or at once, the stuck ones' own identities included; then the stuck ones go on and must complete; always non-trivial",
		Budget: hx.Budget{Quick: 1500, Thorough: 30000, QuickSecs: 40, ThoroughSecs: 900},
		Draw: func(rt *rapid.T) c21Case {
			c := c21Case{Together: rapid.Bool().Draw(rt, "together")}
			for i := rapid.IntRange(1, 5).Draw(rt, "stuck"); i > 0; i-- {
				c.Off = append(c.Off, rapid.SampledFrom(c21Offenders).Draw(rt, "offender"))
			}
			if rapid.IntRange(0, 49).Draw(rt, "unread") == 0 {
				c.Off = append(c.Off, "unread")
			}
			if rapid.IntRange(0, 7).Draw(rt, "many") == 0 {
				c.Times = rapid.IntRange(2, 140/len(c.Off)).Draw(rt, "times")
			}
			for i := rapid.IntRange(1, 6).Draw(rt, "acts"); i > 0; i-- {
				c.Do = append(c.Do, rapid.SampledFrom(c21Acts).Draw(rt, "act"))
			}
			return c
		},
		Classify: func(c c21Case) (bool, []string) {
			var cl []string
			for _, o := range c.Off {
				cl = append(cl, "stuck "+o)
			}
			for _, a := range c.Do {
				cl = append(cl, "does "+a)
			}
			if c.Times > 1 {
				cl = append(cl, "many")
			}
			return true, cl
		},
		Check: checkC21,
	})
}
