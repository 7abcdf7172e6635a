package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
)

// side is a library endpoint whose peer is a raw websocket.
type side struct {
	atCS bool // the library endpoint is the central system
	id   string
	raw  *fx.Raw
	send func(messages.Request) (messages.Response, error)

	mu      sync.Mutex
	handler func(messages.Request) (messages.Response, error)
	calls   []messages.Request
	cp      *fx.Point
}

// handle is what the library's handler does.
func (s *side) handle(r messages.Request) (messages.Response, error) {
	s.mu.Lock()
	s.calls = append(s.calls, r)
	h := s.handler
	s.mu.Unlock()
	if isBarrier(r) {
		if s.atCS {
			return &cpresp.StatusNotification{}, nil
		}
		return &csresp.ChangeConfiguration{Status: "Accepted"}, nil
	}
	if h == nil {
		return nil, errors.New("no handler set by the harness")
	}
	return h(r)
}

func (s *side) setHandler(h func(messages.Request) (messages.Response, error)) {
	s.mu.Lock()
	s.handler = h
	s.calls = nil
	s.mu.Unlock()
}

// taken returns the requests the handler saw (barriers excluded) and forgets them.
func (s *side) taken() []messages.Request {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []messages.Request
	for _, r := range s.calls {
		if !isBarrier(r) {
			out = append(out, r)
		}
	}
	s.calls = nil
	return out
}

const barrierMark = "vharness-barrier"

func isBarrier(r messages.Request) bool {
	switch x := r.(type) {
	case *cpreq.StatusNotification:
		return x != nil && x.ErrorCode == barrierMark
	case *csreq.ChangeConfiguration:
		return x != nil && x.Key == barrierMark
	}
	return false
}

func (s *side) close() {
	s.raw.Reset()
	if s.cp != nil {
		s.cp.Cancel()
	}
	if s.atCS {
		if sys, err := fx.TheCS(); err == nil {
			sys.Handle(s.id, nil)
		}
	}
}

// newSideCS connects a raw charge point to the library's central system.
func newSideCS(id string) (*side, error) {
	sys, err := fx.TheCS()
	if err != nil {
		return nil, err
	}
	s := &side{atCS: true, id: id}
	sys.Handle(id, func(r cpreq.ChargePointRequest, _ cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		resp, err := s.handle(r)
		if resp == nil {
			return nil, err
		}
		return resp.(cpresp.ChargePointResponse), err
	})
	if s.raw, err = sys.ConnectRaw(id); err != nil {
		return nil, err
	}
	return s, s.serveCS()
}

// serveCS sends through the service the central system offers now.
func (s *side) serveCS() error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	svc, err := sys.Sys.GetServiceOf(s.id, ocpp.V16, "")
	if err != nil {
		return fmt.Errorf("no service for a connected charge point: %v", err)
	}
	s.send = func(r messages.Request) (messages.Response, error) {
		resp, err := svc.Send(r.(csreq.CentralSystemRequest))
		if resp == nil {
			return nil, err
		}
		return resp, err
	}
	return nil
}

// newSideCP connects a library charge point to the raw central system.
func newSideCP(id string) (*side, error) {
	f, err := fx.TheFakeCS()
	if err != nil {
		return nil, err
	}
	s := &side{id: id}
	s.cp, s.raw, err = f.Connect(id, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		resp, err := s.handle(r)
		if resp == nil {
			return nil, err
		}
		return resp.(csresp.CentralSystemResponse), err
	})
	if err != nil {
		return nil, err
	}
	s.send = func(r messages.Request) (messages.Response, error) {
		resp, err := s.cp.CP.Send(r.(cpreq.ChargePointRequest))
		if resp == nil {
			return nil, err
		}
		return resp, err
	}
	return s, nil
}

func newSide(atCS bool) (*side, error) {
	if atCS {
		return newSideCS(fx.ID())
	}
	return newSideCP(fx.ID())
}

var rig struct{ cs, cp *side }

// getSide is the shared connection of the given kind.
func getSide(atCS bool) (*side, error) {
	p := &rig.cp
	if atCS {
		p = &rig.cs
	}
	if *p == nil {
		s, err := newSide(atCS)
		if err != nil {
			return nil, err
		}
		*p = s
	}
	return *p, nil
}

// dropSides is called when a case failed: the connections may be in any state.
func dropSides() {
	for _, p := range []**side{&rig.cs, &rig.cp} {
		if *p != nil {
			(*p).close()
			*p = nil
		}
	}
}

// frame is a parsed OCPP-J message.
type frame struct {
	Type    int
	ID      string
	Action  string      // call
	Payload interface{} // call, result
	Code    string      // error
	Desc    string
	Details interface{}
	Raw     string
}

func parseFrame(b []byte) (*frame, error) {
	bad := func(why string) (*frame, error) {
		return nil, fmt.Errorf("the library sent a malformed frame (%s): %s", why, hx.Quote(b))
	}
	v, err := gen.ParseJSON(b)
	if err != nil {
		return bad(err.Error())
	}
	l, ok := v.([]interface{})
	if !ok || len(l) < 3 {
		return bad("not an array of at least 3")
	}
	t, ok := l[0].(json.Number)
	if !ok {
		return bad("type")
	}
	f := &frame{Raw: string(b)}
	if f.ID, ok = l[1].(string); !ok || f.ID == "" {
		return bad("id")
	}
	switch t {
	case "2":
		f.Type = 2
		if len(l) != 4 {
			return bad("length")
		}
		if f.Action, ok = l[2].(string); !ok {
			return bad("action")
		}
		f.Payload = l[3]
	case "3":
		f.Type = 3
		if len(l) != 3 {
			return bad("length")
		}
		f.Payload = l[2]
	case "4":
		f.Type = 4
		if len(l) != 5 {
			return bad("length")
		}
		c, ok1 := l[2].(string)
		d, ok2 := l[3].(string)
		if !ok1 || !ok2 {
			return bad("error fields")
		}
		if _, ok := l[4].(map[string]interface{}); !ok {
			return bad("details")
		}
		f.Code, f.Desc, f.Details = c, d, l[4]
		return f, nil
	default:
		return bad("type")
	}
	if _, ok := f.Payload.(map[string]interface{}); !ok {
		return bad("payload is not an object")
	}
	return f, nil
}

// next frame the library sent.
func (s *side) next(what string) (*frame, error) {
	b, err := s.raw.Next(what)
	if err != nil {
		return nil, err
	}
	return parseFrame(b)
}

var wireSerial int64

// wireID makes a message id.
func wireID() string { return fmt.Sprintf("h-%d", atomic.AddInt64(&wireSerial, 1)) }

func jq(s string) string { b, _ := json.Marshal(s); return string(b) }

func callFrame(id, action, payload string) []byte {
	return []byte("[2," + jq(id) + "," + jq(action) + "," + payload + "]")
}
func resultFrame(id, payload string) []byte { return []byte("[3," + jq(id) + "," + payload + "]") }
func errorFrame(id, code, desc, details string) []byte {
	return []byte("[4," + jq(id) + "," + jq(code) + "," + jq(desc) + "," + details + "]")
}

// barrierFrame is a well-formed call the harness always answers.
func (s *side) barrierFrame(id string) []byte {
	if s.atCS {
		return callFrame(id, "StatusNotification", `{"connectorId":1,"errorCode":"`+barrierMark+`","status":"Available"}`)
	}
	return callFrame(id, "ChangeConfiguration", `{"key":"`+barrierMark+`","value":"1"}`)
}

// barrier makes a well-formed call and requires its answer to be the very next thing the
// library sends, apart from frames accepted by also.
func (s *side) barrier(also func(*frame) bool) error {
	return s.barrierVia(s.raw.Send, also)
}

// barrierVia makes the call by send.
func (s *side) barrierVia(send func([]byte) error, also func(*frame) bool) error {
	id := "barrier-" + wireID()
	if err := send(s.barrierFrame(id)); err != nil {
		return fmt.Errorf("a well-formed call could not be sent, the connection is gone: %v", err)
	}
	for {
		f, err := s.next("the answer to a well-formed call")
		if err != nil {
			return err
		}
		if f.ID == id {
			if f.Type != 3 {
				return fmt.Errorf("a well-formed call was answered with %s", hx.Quote(f.Raw))
			}
			return nil
		}
		if also == nil || !also(f) {
			return fmt.Errorf("the library sent an unexpected message: %s", hx.Quote(f.Raw))
		}
	}
}

type outcome struct {
	resp messages.Response
	err  error
}

// start sends a request through the library in the background.
func (s *side) start(r messages.Request) chan outcome {
	ch := make(chan outcome, 1)
	go func() {
		resp, err := s.send(r)
		ch <- outcome{resp, err}
	}()
	return ch
}

func libReq(m gen.Msg) messages.Request   { return gen.Build(m).(messages.Request) }
func libResp(m gen.Msg) messages.Response { return gen.Build(m).(messages.Response) }

func refPayload(m gen.Msg) string {
	b, err := json.Marshal(gen.ToJSON(m))
	if err != nil {
		panic(err)
	}
	return string(b)
}

func contains(s, sub string) bool { return strings.Contains(s, sub) }

var _ = time.Second
