package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gorilla/websocket"
	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
)

// c19Op is one use of the API; what it does to which endpoint.
type c19Op struct {
	Op string `json:"op"`
	I  int    `json:"i,omitempty"`
}

type c19Case struct {
	Stable  int       `json:"stable"`
	Churn   int       `json:"churn"`
	Workers [][]c19Op `json:"workers"`
}

var c19BubbleOps = []string{"send", "send", "send", "call", "call", "call", "slow", "lookup", "waitc", "waitd", "status", "churn", "churn", "churn", "csend", "listen", "soap", "bad"}
var c19SocketOps = []string{"cssend", "cssend", "cpsend", "cpsend", "info", "lookup", "waitc", "waitd", "status", "churn", "cpchurn", "drop", "drop", "rsend", "rsend", "rinfo", "soapcp", "soapcs", "listen"}

func drawC19(ops []string) func(rt *rapid.T) c19Case {
	return func(rt *rapid.T) c19Case {
		c := c19Case{Stable: rapid.IntRange(1, 3).Draw(rt, "stable"), Churn: rapid.IntRange(1, 2).Draw(rt, "churn")}
		// some cases concentrate on a few uses
		some := rapid.SliceOfNDistinct(rapid.SampledFrom(ops), 2, 5, rapid.ID[string]).Draw(rt, "some")
		if rapid.Bool().Draw(rt, "all") {
			some = ops
		}
		for n := rapid.IntRange(2, 12).Draw(rt, "workers"); n > 0; n-- {
			c.Workers = append(c.Workers, rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) c19Op {
				return c19Op{rapid.SampledFrom(some).Draw(rt, "op"), rapid.IntRange(0, 5).Draw(rt, "i")}
			}), 1, 12).Draw(rt, "list"))
		}
		return c
	}
}

func classifyC19(c c19Case) (bool, []string) {
	kinds := map[string]bool{}
	var cl []string
	for _, w := range c.Workers {
		for _, op := range w {
			kinds[op.Op] = true
			cl = append(cl, op.Op)
		}
	}
	return len(c.Workers) >= 2 && len(kinds) >= 2, cl
}

// sink is a logger that formats everything, like a real one.
type sink struct{}

func (sink) Printf(format string, v ...interface{}) { fmt.Fprintf(io.Discard, format, v...) }

// ---- reports of the race detector ----

var raceSeen int64

// libraryRaces returns what the race detector has reported since the last call, if the library
// takes part in it.
func libraryRaces() string {
	name := os.Getenv("VERIF_RACELOG")
	if name == "" {
		return ""
	}
	f, err := os.Open(fmt.Sprintf("%s.%d", name, os.Getpid()))
	if err != nil {
		return ""
	}
	defer f.Close()
	f.Seek(raceSeen, io.SeekStart)
	b, _ := io.ReadAll(f)
	raceSeen += int64(len(b))
	for _, blk := range strings.Split(string(b), "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		hx.Note("race_reports", 1)
		// the accesses; what follows is where the goroutines come from
		access, _, _ := strings.Cut(blk, "\nGoroutine ")
		for _, st := range strings.Split(access, "\n\n") {
			if innermost(st) == "library" {
				return strings.TrimSpace(blk)
			}
		}
	}
	return ""
}

// innermost says to whom the innermost function of a stack belongs that is no dependency.
func innermost(st string) string {
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "github.com/voltbras/go-ocpp"):
			return "library"
		case strings.HasPrefix(l, "vharness/props.sink.") || strings.HasPrefix(l, "vharness/props.(*sink)."):
			// the logger formats what the library gave to it
		case strings.HasPrefix(l, "vharness/"):
			return "harness"
		}
	}
	return ""
}

// ---- strict peers ----

// strict is a raw charge point or central system that checks every frame it gets.
type strict struct {
	conn *websocket.Conn
	wmu  sync.Mutex
	mu   sync.Mutex
	wait map[string]chan *frame
	bad  error
	done chan struct{}
}

func newStrict(c *websocket.Conn) *strict {
	s := &strict{conn: c, wait: map[string]chan *frame{}, done: make(chan struct{})}
	go func() {
		defer close(s.done)
		for {
			_, b, err := c.ReadMessage()
			if err != nil {
				return
			}
			if err := s.frame(b); err != nil {
				s.mu.Lock()
				if s.bad == nil {
					s.bad = err
				}
				s.mu.Unlock()
			}
		}
	}()
	return s
}

func (s *strict) write(b []byte) error {
	s.wmu.Lock()
	defer s.wmu.Unlock()
	return s.conn.WriteMessage(websocket.TextMessage, b)
}

func (s *strict) frame(b []byte) error {
	f, err := parseFrame(b)
	if err != nil {
		return err
	}
	if f.Type != 2 {
		s.mu.Lock()
		ch := s.wait[f.ID]
		delete(s.wait, f.ID)
		s.mu.Unlock()
		if ch == nil {
			return fmt.Errorf("an answer to no call, or a second one: %s", hx.Quote(b))
		}
		ch <- f
		return nil
	}
	switch f.Action {
	case "GetConfiguration":
		p := f.Payload.(map[string]interface{})
		l, _ := p["key"].([]interface{})
		if len(l) != 1 {
			return fmt.Errorf("corrupted request: %s", hx.Quote(b))
		}
		tag, _ := l[0].(string)
		answer := resultFrame(f.ID, `{"unknownKey":[`+jq(tag)+`]}`)
		if strings.HasPrefix(tag, "slow") {
			go func() {
				// when the sender gives up
				time.Sleep(60 * time.Second)
				s.write(answer)
			}()
			return nil
		}
		s.write(answer)
	case "StartTransaction":
		p := f.Payload.(map[string]interface{})
		s.write(resultFrame(f.ID, fmt.Sprintf(`{"transactionId":%v,"idTagInfo":{"status":"Accepted"}}`, p["meterStart"])))
	default:
		return fmt.Errorf("a request nobody made: %s", hx.Quote(b))
	}
	return nil
}

// call makes a call; n comes back in the answer.
func (s *strict) call(id string, n int) error {
	ch := make(chan *frame, 1)
	s.mu.Lock()
	s.wait[id] = ch
	s.mu.Unlock()
	if err := s.write(callFrame(id, "StartTransaction", fmt.Sprintf(`{"connectorId":1,"idTag":"t","meterStart":%d,"timestamp":"2020-01-01T00:00:00Z"}`, n))); err != nil {
		return fmt.Errorf("a call could not be written: %w", err)
	}
	var f *frame
	select {
	case f = <-ch:
	case <-s.done:
		return errors.New("the connection ended before a call was answered")
	case <-time.After(100 * time.Second):
		return errors.New("a call was not answered")
	}
	p, _ := f.Payload.(map[string]interface{})
	if v, ok := p["transactionId"].(json.Number); f.Type != 3 || !ok || v.String() != fmt.Sprint(n) {
		return fmt.Errorf("the call with %d was answered with %s", n, hx.Quote(f.Raw))
	}
	return nil
}

func (s *strict) fault() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.bad
}

// bubbleDial connects to the central system over a pipe.
func bubbleDial(id string) (*strict, *slowConn, error) {
	p, err := bubbleOpen(id)
	if err != nil {
		return nil, nil, err
	}
	return newStrict(p.conn), p.pipe, nil
}

// c19Handler echoes a number.
func c19Handler(r cpreq.ChargePointRequest, _ cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
	if s, ok := r.(*cpreq.StartTransaction); ok {
		return &cpresp.StartTransaction{TransactionId: int32(s.MeterStart), IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted"}}, nil
	}
	return libResp(minimal(kindOf(r.Action(), true).Resp.String())).(cpresp.ChargePointResponse), nil
}

func c19CPHandler(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
	if g, ok := r.(*csreq.GetConfiguration); ok {
		return &csresp.GetConfiguration{UnknownKey: g.Key}, nil
	}
	return nil, errors.New("unexpected")
}

func c19Start(n int) *cpreq.StartTransaction {
	r := libReq(minimal("cpreq.StartTransaction")).(*cpreq.StartTransaction)
	r.MeterStart = n
	return r
}

func startedAs(resp cpresp.ChargePointResponse, err error, n int) error {
	if err != nil {
		return fmt.Errorf("Send failed: %v", err)
	}
	s, ok := resp.(*cpresp.StartTransaction)
	if !ok || int(s.TransactionId) != n {
		return fmt.Errorf("Send(%d) returned %s", n, hx.Quote(resp))
	}
	return nil
}

func configuredAs(resp csresp.CentralSystemResponse, err error, tag string) error {
	if err != nil {
		return fmt.Errorf("Send failed: %v", err)
	}
	return tagged(outcome{resp, nil}, tag)
}

// together runs the workers at once.
func together(c c19Case, do func(w, n int, op c19Op) error) error {
	errs := make([]error, len(c.Workers))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w, l := range c.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n, op := range l {
				err := func() (err error) {
					defer func() {
						if r := recover(); r != nil {
							err = fmt.Errorf("panic: %v", r)
						}
					}()
					return do(w, n, op)
				}()
				if err != nil && errs[w] == nil {
					errs[w] = fmt.Errorf("worker %d, step %d (%s): %w", w, n, op.Op, err)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	return errors.Join(errs...)
}

func judgeC19(err error) error {
	if r := libraryRaces(); r != "" {
		return fmt.Errorf("unsynchronised access in the library:\n%s", r)
	}
	return err
}

func checkC19(c c19Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	if err := judgeC19(nil); err != nil {
		return fmt.Errorf("at the end of the case before: %w", err)
	}
	sys.Fallback(c19Handler)
	err = inBubble(func() error { return playC19(c, sys) })
	return judgeC19(err)
}

func playC19(c c19Case, sys *fx.CS) error {
	ids := make([]string, c.Stable)
	peers := make([]*strict, c.Stable)
	for i := range ids {
		ids[i] = fx.ID()
		p, _, err := bubbleDial(ids[i])
		if err != nil {
			return err
		}
		defer p.conn.Close()
		peers[i] = p
	}
	churn := make([]string, c.Churn)
	for i := range churn {
		churn[i] = fx.ID()
	}
	any := append(append([]string{}, ids...), churn...)
	synctest.Wait()
	err := together(c, func(w, n int, op c19Op) error {
		i := op.I % c.Stable
		j := op.I % c.Churn
		tag := fmt.Sprintf("w%d-%d", w, n)
		switch op.Op {
		case "send", "slow":
			if op.Op == "slow" {
				tag = "slow" + tag
			}
			svc, err := sys.Sys.GetServiceOf(ids[i], ocpp.V16, "")
			if err != nil {
				return err
			}
			resp, err := svc.Send(&csreq.GetConfiguration{Key: []string{tag}})
			if op.Op == "slow" && err != nil {
				return nil
			}
			return configuredAs(resp, err, tag)
		case "call":
			return peers[i].call(tag, w*100+n)
		case "bad":
			// something that is no message, and an answer to nothing
			peers[i].write([]byte(`[3,"nothing",{}]`))
			return peers[i].write([]byte(`{`))
		case "lookup":
			sys.Sys.GetServiceOf(any[op.I%len(any)], ocpp.V16, "")
		case "waitc":
			if !isClosed(sys.Sys.WaitConnect(ids[i])) {
				return errors.New("the wait for a connected charge point is not over")
			}
			sys.Sys.WaitConnect(churn[j])
		case "waitd":
			if isClosed(sys.Sys.WaitDisconnect(ids[i])) {
				return errors.New("the wait for the disconnection of a connected charge point is over")
			}
			isClosed(sys.Sys.WaitDisconnect(churn[j]))
		case "status":
			got, err := bubbleStatus()
			if err == nil && (got < c.Stable || got > c.Stable+c.Churn) {
				err = fmt.Errorf("the status page counts %d charge points", got)
			}
			return err
		case "listen":
			// the same functions again
			sys.Relisten()
		case "churn":
			p, pipe, err := bubbleDial(churn[j])
			if err != nil {
				return err
			}
			if op.I%2 == 0 {
				if err := p.call(tag, w*100+n); err != nil {
					return err
				}
			}
			if op.I > 2 {
				pipe.reset()
			} else {
				p.conn.Close()
			}
			return p.fault()
		case "csend":
			svc, err := sys.Sys.GetServiceOf(churn[j], ocpp.V16, "")
			if err != nil {
				return nil
			}
			if resp, err := svc.Send(&csreq.GetConfiguration{Key: []string{tag}}); err == nil {
				return configuredAs(resp, err, tag)
			}
		case "soap":
			m := minimal("cpreq.StartTransaction")
			m.V["MeterStart"] = w*100 + n
			k := kindOf("StartTransaction", true)
			st := gen.XStyle{}
			body := gen.Envelope(ids[i], k.NS(), k.Action, gen.WriteXMLAs(k.XMLName(false), k.NS(), k.XMLReq, m.V, st), st)
			rec := httptest.NewRecorder()
			sys.Handler.ServeHTTP(rec, httptest.NewRequest("POST", "/", strings.NewReader(body)))
			if !strings.Contains(rec.Body.String(), fmt.Sprintf("transactionId>%d<", w*100+n)) {
				return fmt.Errorf("the SOAP request with %d was answered with %s", w*100+n, hx.Quote(rec.Body.Bytes()))
			}
		default:
			return hx.Harness("unknown op %s", op.Op)
		}
		return nil
	})
	for i, p := range peers {
		if e := p.fault(); e != nil {
			return fmt.Errorf("frames to charge point %d: %w", i, e)
		}
	}
	return err
}

// ---- library charge points over TCP ----

func checkC19Real(c c19Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	soap, err := fx.TheSoapCP()
	if err != nil {
		return err
	}
	if err := judgeC19(nil); err != nil {
		return fmt.Errorf("at the end of the case before: %w", err)
	}
	sys.Fallback(c19Handler)
	soap.SetHandler(c19CPHandler)
	before := runtime.NumGoroutine()
	err = playC19Real(c, sys, soap)
	// what goes on in the background belongs to this case
	for end := time.Now().Add(100 * time.Millisecond); runtime.NumGoroutine() > before && time.Now().Before(end); {
		time.Sleep(time.Millisecond)
	}
	return judgeC19(err)
}

func playC19Real(c c19Case, sys *fx.CS, soap *fx.SoapCP) error {
	ids := make([]string, c.Stable)
	points := make([]*fx.Point, c.Stable)
	var err error
	for i := range ids {
		ids[i] = fx.ID()
		if points[i], err = sys.Connect(ids[i], c19CPHandler); err != nil {
			return err
		}
		defer points[i].Cancel()
	}
	churn := make([]string, c.Churn)
	for i := range churn {
		churn[i] = fx.ID()
	}
	any := append(append([]string{}, ids...), churn...)
	// a charge point whose connection is lost again and again
	fake, err := newDropping()
	if err != nil {
		return err
	}
	defer fake.srv.Close()
	lost, err := fx.DialCP(fx.ID(), fake.url, c19CPHandler)
	if err != nil {
		return fmt.Errorf("the charge point could not connect: %w", err)
	}
	defer lost.Cancel()
	svcs := make([]func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error), c.Stable)
	for i := range svcs {
		s, err := sys.Sys.GetServiceOf(ids[i], ocpp.V16, "")
		if err != nil {
			return err
		}
		svcs[i] = s.Send
	}
	err = together(c, func(w, n int, op c19Op) error {
		i := op.I % c.Stable
		j := op.I % c.Churn
		tag := fmt.Sprintf("w%d-%d", w, n)
		num := w*100 + n
		switch op.Op {
		case "cssend":
			resp, err := svcs[i](&csreq.GetConfiguration{Key: []string{tag}})
			return configuredAs(resp, err, tag)
		case "cpsend":
			resp, err := points[i].CP.Send(c19Start(num))
			return startedAs(resp, err, num)
		case "info":
			if points[i].CP.Identity() != ids[i] {
				return errors.New("wrong identity")
			}
			if !isClosed(points[i].CP.WaitConnect()) {
				return errors.New("the wait of a connected charge point is not over")
			}
			if isClosed(points[i].CP.WaitDisconnect()) {
				return errors.New("the wait for disconnection of a connected charge point is over")
			}
			points[i].CP.Connection()
		case "rinfo":
			lost.CP.WaitConnect()
			lost.CP.WaitDisconnect()
			lost.CP.Connection()
			lost.CP.Identity()
		case "rsend":
			// nobody waits for it: it may be lost together with its connection
			go lost.CP.Send(c19Start(num))
		case "drop":
			fake.drop()
		case "lookup":
			sys.Sys.GetServiceOf(any[op.I%len(any)], ocpp.V16, "")
		case "waitc":
			if !isClosed(sys.Sys.WaitConnect(ids[i])) {
				return errors.New("the wait for a connected charge point is not over")
			}
			sys.Sys.WaitConnect(churn[j])
		case "waitd":
			if isClosed(sys.Sys.WaitDisconnect(ids[i])) {
				return errors.New("the wait for the disconnection of a connected charge point is over")
			}
			isClosed(sys.Sys.WaitDisconnect(churn[j]))
		case "status":
			_, err := realStatus()
			return err
		case "listen":
			sys.Relisten()
		case "churn":
			r, err := dialStrict(sys.WS + "/" + churn[j])
			if err != nil {
				return err
			}
			defer r.conn.Close()
			if err := r.call(tag, num); err != nil {
				return err
			}
			return r.fault()
		case "cpchurn":
			ctx, cancel := context.WithCancel(context.Background())
			p, err := cp.New(ctx, churn[j], sys.WS, ocpp.V16, ocpp.JSON, nil, c19CPHandler)
			if err != nil {
				cancel()
				return fmt.Errorf("the charge point could not connect: %w", err)
			}
			if op.I%2 == 0 {
				resp, err := p.Send(c19Start(num))
				if err := startedAs(resp, err, num); err != nil {
					cancel()
					return err
				}
			}
			if op.I > 3 {
				go func() {
					if s, err := sys.Sys.GetServiceOf(churn[j], ocpp.V16, ""); err == nil {
						s.Send(&csreq.GetConfiguration{Key: []string{tag}})
					}
				}()
			}
			cancel()
		case "soapcp":
			resp, err := soap.CP.Send(c19Start(num))
			return startedAs(resp, err, num)
		case "soapcs":
			s, err := sys.Sys.GetServiceOf(soap.ID, ocpp.V15, soap.URL)
			if err != nil {
				return err
			}
			resp, err := s.Send(&csreq.GetConfiguration{Key: []string{tag}})
			return configuredAs(resp, err, tag)
		default:
			return hx.Harness("unknown op %s", op.Op)
		}
		return nil
	})
	if err == nil {
		err = fake.fault()
	}
	return err
}

func dialStrict(u string) (*strict, error) {
	d := websocket.Dialer{Subprotocols: []string{"ocpp1.6"}, HandshakeTimeout: 20 * time.Second}
	c, _, err := d.Dial(u, nil)
	if err != nil {
		return nil, hx.Late(time.Now(), fmt.Sprintf("connection (%v)", err))
	}
	return newStrict(c), nil
}

// dropping is a strict central system that ends connections.
type dropping struct {
	url string
	srv *httptest.Server
	mu  sync.Mutex
	all []*strict
}

func newDropping() (*dropping, error) {
	d := &dropping{}
	up := websocket.Upgrader{Subprotocols: []string{"ocpp1.6"}}
	d.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		s := newStrict(c)
		d.mu.Lock()
		d.all = append(d.all, s)
		d.mu.Unlock()
	}))
	u, err := url.Parse(d.srv.URL)
	if err != nil {
		return nil, err
	}
	d.url = "ws://" + u.Host
	return d, nil
}

func (d *dropping) drop() {
	d.mu.Lock()
	defer d.mu.Unlock()
	if n := len(d.all); n > 0 {
		d.all[n-1].conn.Close()
	}
}

func (d *dropping) fault() error {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, s := range d.all {
		if err := s.fault(); err != nil {
			return fmt.Errorf("frames of a charge point: %w", err)
		}
	}
	return nil
}

func TestC19(t *testing.T) {
	bubbleT = t
	ocpp.SetDebugLogger(sink{})
	ocpp.SetErrorLogger(sink{})
	rule := "a case is 2-12 goroutines making 1-12 uses each of the API at once, with debug and error logging on, in a process built with the race detector: %s; no race with an access by the library, no crash, every frame well-formed, every call and request answered with its own number or tag; non-trivial if at least two goroutines make two different uses"
	hx.Run(t, hx.Part[c19Case]{
		Property: "C19", Name: "pipes",
		Rule:     fmt.Sprintf(rule, "requests to and calls from 1-3 connected charge points, some answered when they time out, charge points coming and going under the same identity, requests to these, lookups, waits, status page, SOAP requests, listeners being set, and malformed messages; under a virtual clock, over pipes"),
		Budget:   hx.Budget{Quick: 1500, Thorough: 60000, QuickSecs: 60},
		Draw:     drawC19(c19BubbleOps),
		Classify: classifyC19,
		Check:    checkC19,
	})
	hx.Run(t, hx.Part[c19Case]{
		Property: "C19", Name: "sockets",
		Rule:     fmt.Sprintf(rule, "requests between the central system and 1-3 library charge points in both directions, charge points coming and being cancelled, one whose connection is lost again and again, their waits and connections, lookups, status page, and SOAP in both directions; over TCP"),
		Budget:   hx.Budget{Quick: 500, Thorough: 15000, QuickSecs: 60},
		Draw:     drawC19(c19SocketOps),
		Classify: classifyC19,
		Check:    checkC19Real,
	})
}
