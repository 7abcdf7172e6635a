package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// ledger is a logger that remembers.
type ledger struct {
	mu sync.Mutex
	l  []string
}

func (l *ledger) Printf(format string, v ...interface{}) {
	s := fmt.Sprintf(format, v...)
	l.mu.Lock()
	l.l = append(l.l, s)
	l.mu.Unlock()
}

func (l *ledger) since(n int) []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.l[n:]...)
}

func (l *ledger) reset() { l.mu.Lock(); l.l = nil; l.mu.Unlock() }

// has says whether an entry contains one of the texts.
func (l *ledger) has(texts ...string) bool {
	for _, e := range l.since(0) {
		for _, t := range texts {
			if strings.Contains(e, t) {
				return true
			}
		}
	}
	return false
}

var debugLedger, errorLedger ledger

// What can happen in a lane.
const (
	c27Call     = "call"       // the library is called and answers
	c27Fail     = "fail"       // the library is called, its handler fails
	c27Mute     = "unencoded"  // the library is called, the answer of its handler cannot be encoded
	c27Send     = "send"       // the library calls
	c27SendFail = "send fail"  // the library calls and gets an error
	c27Scrap    = "scrap"      // something that is no message
	c27Foreign  = "foreign"    // a request of the other direction
	c27Shake    = "handshake"  // an upgrade that is none
	c27Lost     = "lost"       // a charge point loses its connection and finds no other
	c27Come     = "come"       // a connection is made
	c27Go       = "go"         // a connection is closed as it should be
	c27Lanes    = 4            // websocket and SOAP, central system and charge point
	c27Percents = "%!d(string" // looks like a failure of formatting
)

type c27Op struct {
	Lane  int        `json:"lane"` // 0, 1 websocket, 2, 3 SOAP; even: central system
	Kind  string     `json:"kind"`
	Type  string     `json:"type,omitempty"`
	Req   gen.Msg    `json:"req"`
	Resp  gen.Msg    `json:"resp"`
	Text  string     `json:"text,omitempty"` // of an error, or no message at all
	Style gen.XStyle `json:"style"`
	Space string     `json:"space,omitempty"` // around and in a websocket message
	Mode  int        `json:"mode,omitempty"`
}

// labelled, if its failure can be told from others; quiet, if nothing has failed.
func (o *c27Op) labelled() bool { return o.Kind == c27Fail && o.Lane >= 2 }
func (o *c27Op) quiet() bool {
	switch o.Kind {
	case c27Call, c27Send, c27Come, c27Go:
		return true
	}
	return false
}

// failing, if the error logger must be told something.
func (o *c27Op) failing() bool {
	switch o.Kind {
	case c27Mute, c27Foreign, c27Shake, c27Lost:
		return true
	case c27Scrap, c27Fail:
		return o.Lane >= 2
	}
	return false
}

// alone, if it has to be the only one of its step.
func (o *c27Op) alone() bool { return o.failing() && !o.labelled() }

type c27Case struct {
	Steps [][]c27Op `json:"steps"`
}

var c27Texts = []string{"100% sure", "%", "%%", "%s", "%d items", "%v%v", "50%\nmore", "%[1]s", "%w", "a%20b", "%*d", "tail %", "%.3f", "%!", "%n", c27Percents}

func drawC27Text(rt *rapid.T, xml bool) string {
	if rapid.Bool().Draw(rt, "percent") {
		return rapid.SampledFrom(c27Texts).Draw(rt, "text") + rapid.SampledFrom(append([]string{"", "", " "}, c27Texts...)).Draw(rt, "text 2")
	}
	return gen.Text(rt, "text", xml, 5000, false)
}

func drawC27(rt *rapid.T) c27Case {
	var c c27Case
	for n := rapid.IntRange(1, 6).Draw(rt, "steps"); n > 0; n-- {
		var st []c27Op
		used := map[int]bool{}
		for m := rapid.IntRange(1, 4).Draw(rt, "at once"); m > 0; m-- {
			o := c27Op{Lane: rapid.IntRange(0, c27Lanes-1).Draw(rt, "lane")}
			kinds := []string{c27Call, c27Call, c27Fail, c27Fail, c27Mute, c27Send, c27Send, c27SendFail, c27Scrap, c27Foreign}
			if o.Lane < 2 {
				kinds = append(kinds, c27Come, c27Go)
			}
			switch o.Lane {
			case 0:
				kinds = append(kinds, c27Shake)
			case 1:
				kinds = append(kinds, c27Lost)
			case 3:
				kinds = []string{c27Call, c27Call, c27Fail, c27Fail, c27Send, c27Send, c27SendFail, c27Scrap, c27Foreign}
			}
			o.Kind = rapid.SampledFrom(kinds).Draw(rt, "what")
			if o.alone() && len(st) > 0 || used[o.Lane] {
				continue
			}
			used[o.Lane] = true
			atCS, soap := o.Lane%2 == 0, o.Lane >= 2
			own := atCS
			if o.Kind == c27Send || o.Kind == c27SendFail || o.Kind == c27Foreign {
				own = !own
			}
			o.Mode = rapid.IntRange(0, 3).Draw(rt, "mode")
			o.Text = drawC27Text(rt, soap)
			switch o.Kind {
			case c27Shake, c27Lost, c27Come, c27Go, c27Scrap:
			default:
				ks, g := jsonKinds, gen.Opts{Legal: true}
				if soap {
					ks, g = soapKinds, gen.Opts{Legal: true, XML: true}
					o.Style = gen.DrawStyle(rt)
				}
				var pool []*spec.Kind
				for _, k := range ks {
					if k.FromCP == own && (k.Action != "DataTransfer" || !soap) {
						pool = append(pool, k)
					}
				}
				k := rapid.SampledFrom(pool).Draw(rt, "kind")
				if o.Kind == c27Mute {
					for _, x := range pool {
						if !soap && atCS && x.Action == "Authorize" || !soap && !atCS && x.Action == "GetCompositeSchedule" || soap && x.Action == "Heartbeat" {
							k = x
						}
					}
				}
				o.Type = k.Req.String()
				o.Req, o.Resp = gen.Draw(rt, o.Type, g), gen.Draw(rt, k.Resp.String(), g)
				if !soap {
					o.Space = rapid.SampledFrom([]string{"", "", " ", "\n", "\r\n", "\n\n", "\t", " \n "}).Draw(rt, "space")
				}
			}
			alone := o.alone()
			st = append(st, o)
			if alone {
				break
			}
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

// c27Run collects what must be in the logs.
type c27Run struct {
	mu     sync.Mutex
	wire   []string // texts of messages
	errors []string
}

func (r *c27Run) saw(text string) { r.mu.Lock(); r.wire = append(r.wire, text); r.mu.Unlock() }

var c27Away struct {
	once sync.Once
	f    *fx.FakeCS
	err  error
}

func checkC27(c c27Case) (err error) {
	defer func() {
		if err != nil {
			dropSides()
		}
	}()
	for i, st := range c.Steps {
		for _, o := range st { // connections that are needed
			if o.Lane < 2 {
				if _, err := getSide(o.Lane == 0); err != nil {
					return err
				}
			}
		}
		debugLedger.reset()
		errorLedger.reset()
		run := &c27Run{}
		errs := make(chan error, len(st))
		quiet, failing := true, false
		for j := range st {
			o := &st[j]
			quiet = quiet && o.quiet()
			failing = failing || o.alone()
			go func() {
				errs <- hx.Guarded(func() error {
					if err := c27Do(run, o); err != nil {
						return fmt.Errorf("with loggers set, step %d: %s in lane %d: %w", i, o.Kind, o.Lane, err)
					}
					return nil
				})
			}()
		}
		var first error
		for range st {
			if err := <-errs; err != nil && first == nil {
				first = err
			}
		}
		if first != nil {
			return first
		}
		for _, text := range run.wire {
			err := hx.Eventually("an entry of the debug logger", func() error {
				flat := strings.TrimSpace(strings.ReplaceAll(text, "\n", " "))
				if !debugLedger.has(text, flat) {
					return fmt.Errorf("step %d: no entry of the debug logger contains the message %s", i, hx.Quote(text))
				}
				return nil
			})
			if err != nil {
				return err
			}
		}
		for _, text := range run.errors {
			err := hx.Eventually("an entry of the error logger", func() error {
				if !errorLedger.has(text) {
					return fmt.Errorf("step %d: no entry of the error logger contains %s, there are %s", i, hx.Quote(text), hx.Quote(fmt.Sprintf("%q", errorLedger.since(0))))
				}
				return nil
			})
			if err != nil {
				return err
			}
		}
		if failing {
			err := hx.Eventually("an entry of the error logger", func() error {
				if len(errorLedger.since(0)) == 0 {
					return fmt.Errorf("step %d: the error logger is not told about %s in lane %d", i, st[0].Kind, st[0].Lane)
				}
				return nil
			})
			if err != nil {
				return err
			}
		}
		for _, e := range errorLedger.since(0) {
			if quiet {
				return fmt.Errorf("step %d: nothing has failed, the error logger is told %q", i, e)
			}
			if strings.Contains(e, "%!") && !c27Explains(st, e) {
				return fmt.Errorf("step %d: an entry of the error logger was formatted badly: %q", i, e)
			}
		}
	}
	return nil
}

// c27Explains says whether a text of the step has the signs of bad formatting itself.
func c27Explains(st []c27Op, e string) bool {
	for _, o := range st {
		if strings.Contains(o.Text, "%!") || strings.Contains(fmt.Sprint(o.Req, o.Resp), "%!") {
			return true
		}
	}
	return false
}

func c27Do(run *c27Run, o *c27Op) error {
	switch {
	case o.Kind == c27Shake:
		return c27HandshakeFails(run, o)
	case o.Kind == c27Lost:
		return c27Loses(o)
	case o.Lane >= 2:
		return c27Soap(run, o)
	}
	return c27Socket(run, o)
}

// c27HandshakeFails asks for a websocket connection in a way that cannot work.
func c27HandshakeFails(run *c27Run, o *c27Op) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	conn, err := net.DialTimeout("tcp", sys.Addr, hx.Patience())
	if err != nil {
		return hx.Harness("%v", err)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	h := []string{"Connection: Upgrade", "Upgrade: websocket", "Sec-WebSocket-Protocol: ocpp1.6"}
	switch o.Mode {
	case 0:
		h = append(h, "Sec-WebSocket-Version: 13")
	case 1:
		h = append(h, "Sec-WebSocket-Version: 7", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==")
	case 2:
		h = append(h, "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==")
	case 3:
		h = append(h, "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: ")
	}
	fmt.Fprintf(conn, "GET /%s HTTP/1.1\r\nHost: x\r\n%s\r\n\r\n", fx.ID(), strings.Join(h, "\r\n"))
	resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: "GET"})
	if err != nil {
		return fmt.Errorf("no answer to an upgrade request: %v", err)
	}
	if resp.StatusCode < 400 {
		return fmt.Errorf("an upgrade request that is not valid was answered with %s", resp.Status)
	}
	return nil
}

// c27Loses lets a charge point lose its central system.
func c27Loses(o *c27Op) error {
	c27Away.once.Do(func() { c27Away.f, c27Away.err = fx.NewFakeCSAway() })
	f, err := c27Away.f, c27Away.err
	if err != nil {
		return err
	}
	p, raw, err := f.Connect(fx.ID(), func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		return nil, errors.New("not mine")
	})
	if err != nil {
		return err
	}
	defer p.Cancel()
	if o.Mode == 0 {
		f.Down()
		defer f.Up()
	} else {
		f.SetMode([]string{"", "404", "drop", "503"}[o.Mode])
		defer f.SetMode("")
	}
	raw.Reset()
	return hx.Eventually("an entry of the error logger", func() error {
		if len(errorLedger.since(0)) == 0 {
			return errors.New("the error logger is not told that a charge point cannot reconnect")
		}
		return nil
	})
}

// c27Spaced puts white space between the parts of a message and around it.
func c27Spaced(frame []byte, space string) []byte {
	s := string(frame)
	s = strings.Replace(s, "[", "["+space, 1)
	return []byte(space + s[:len(s)-1] + space + "]" + space)
}

func c27Socket(run *c27Run, o *c27Op) error {
	s, err := getSide(o.Lane == 0)
	if err != nil {
		return err
	}
	k, _ := spec.ByType(o.Type)
	switch o.Kind {
	case c27Come:
		s, err := newSide(o.Lane == 0)
		if err != nil {
			return err
		}
		err = c27Barrier(run, s)
		return errors.Join(err, c27Closes(s))
	case c27Go:
		if s.atCS {
			rig.cs = nil
		} else {
			rig.cp = nil
		}
		return c27Closes(s)
	case c27Scrap:
		text := "{" + wireID() + o.Text
		run.saw(text)
		if err := s.raw.Send([]byte(text)); err != nil {
			return fmt.Errorf("a message could not be sent: %v", err)
		}
		return c27Barrier(run, s)
	case c27Send, c27SendFail:
		ch := s.start(libReq(o.Req))
		f, err := s.next("the request")
		if err != nil {
			return err
		}
		run.saw(f.Raw)
		b := resultFrame(f.ID, refPayload(o.Resp))
		if o.Kind == c27SendFail {
			b = errorFrame(f.ID, "GenericError", o.Text, "{}")
		}
		b = c27Spaced(b, o.Space)
		run.saw(string(b))
		if err := s.raw.Send(b); err != nil {
			return fmt.Errorf("the answer could not be sent: %v", err)
		}
		out, err := hx.Recv(ch, "the end of a request that was answered")
		if err != nil {
			return err
		}
		if (out.err != nil) != (o.Kind == c27SendFail) {
			return fmt.Errorf("answered with %s, the request ends with error %v", hx.Quote(b), out.err)
		}
		if out.err == nil {
			return gen.Same(o.Resp, out.resp)
		}
		return nil
	}
	s.setHandler(func(messages.Request) (messages.Response, error) {
		switch {
		case o.Kind == c27Fail:
			return nil, errors.New(o.Text)
		case o.Kind == c27Mute:
			return badResponse(k), nil
		}
		return libResp(o.Resp), nil
	})
	id := wireID()
	b := c27Spaced(callFrame(id, k.Action, refPayload(o.Req)), o.Space)
	run.saw(string(b))
	if err := s.raw.Send(b); err != nil {
		return fmt.Errorf("a message could not be sent: %v", err)
	}
	f, err := s.next("the answer")
	if err != nil {
		return err
	}
	run.saw(f.Raw)
	if f.ID != id || (f.Type == 3) != (o.Kind == c27Call) {
		return fmt.Errorf("%s was answered with %s", hx.Quote(b), hx.Quote(f.Raw))
	}
	return nil
}

// c27Closes ends a connection as it should be.
func c27Closes(s *side) error {
	if !s.atCS {
		s.cp.Cancel()
		if err := hx.Eventually("end of the connection of a cancelled charge point", func() error {
			if !s.raw.Ended() {
				return errors.New("it is open")
			}
			return nil
		}); err != nil {
			return err
		}
		s.raw.Reset()
		return nil
	}
	s.raw.CloseHandshake()
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	sys.Handle(s.id, nil)
	return sys.AwaitGone(s.id)
}

// c27Barrier is a call and its answer.
func c27Barrier(run *c27Run, s *side) error {
	id := wireID()
	b := s.barrierFrame(id)
	run.saw(string(b))
	if err := s.raw.Send(b); err != nil {
		return fmt.Errorf("a message could not be sent: %v", err)
	}
	for {
		f, err := s.next("the answer to a well-formed call")
		if err != nil {
			return err
		}
		run.saw(f.Raw)
		if f.ID == id {
			return nil
		}
	}
}

func c27Soap(run *c27Run, o *c27Op) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	atCS := o.Lane == 2
	k, _ := spec.ByType(o.Type)
	ident := fx.ID()
	if !atCS { // the charge point does not look at it
		ident += o.Text
	}
	switch o.Kind {
	case c27Send, c27SendFail:
		srv, err := fx.NewFakeHTTP()
		if err != nil {
			return err
		}
		defer srv.Close()
		op := c13Op{Type: o.Type, Ident: ident, Req: o.Req, Resp: o.Resp, Fail: o.Kind == c27SendFail, Text: o.Text, Style: o.Style}
		srv.Serve(func(w http.ResponseWriter, r *http.Request) {
			b, _ := io.ReadAll(r.Body)
			// the declaration of the document is not always sent
			if i := bytes.Index(b, []byte("?>")); bytes.HasPrefix(b, []byte("<?xml")) && i > 0 {
				b = bytes.TrimSpace(b[i+2:])
			}
			run.saw(string(b))
			w.Header().Set("Content-Type", "application/soap+xml")
			if op.Fail {
				w.WriteHeader(500)
			}
			io.WriteString(w, fakeReply(op, k))
		})
		got, err := soapSend(sys, k, op, srv.URL+"/")
		if (err != nil) != op.Fail {
			return fmt.Errorf("answered with %s, the request ends with error %v", hx.Quote(fakeReply(op, k)), err)
		}
		if err == nil {
			return gen.Same(o.Resp, got)
		}
		return nil
	case c27Scrap:
		url, done, err := armSoap(atCS, ident, &soapRig{})
		if err != nil {
			return err
		}
		defer done()
		text := "<" + wireID() + ">" + o.Text
		run.saw(text)
		rep, err := fx.Post(url, []byte(text))
		if err == nil && fx.IsSuccess(rep) {
			err = fmt.Errorf("%s got a successful answer", hx.Quote(text))
		}
		return err
	}
	r := &soapRig{}
	text := ident + ":" + o.Text
	switch o.Kind {
	case c27Call:
		r.resp = libResp(o.Resp)
	case c27Fail:
		r.err = errors.New(text)
		run.mu.Lock()
		run.errors = append(run.errors, text)
		run.mu.Unlock()
	case c27Mute:
		r.resp = &cpresp.Heartbeat{CurrentTime: time.Date(10001, 2, 3, 4, 5, 6, 0, time.UTC)}
	default:
		r.err = errors.New("not mine")
	}
	url, done, err := armSoap(atCS, ident, r)
	if err != nil {
		return err
	}
	defer done()
	doc := gen.Envelope(ident, k.NS(), k.Action, gen.WriteXMLAs(k.XMLName(false), k.NS(), k.XMLReq, o.Req.V, o.Style), o.Style)
	run.saw(doc)
	rep, err := fx.Post(url, []byte(doc))
	if err != nil {
		return err
	}
	if fx.IsSuccess(rep) != (o.Kind == c27Call) {
		return fmt.Errorf("%s was answered with %d %s", hx.Quote(doc), rep.Status, hx.Quote(rep.Body))
	}
	if len(rep.Body) > 0 && (o.Kind == c27Call || o.Kind == c27Fail) {
		run.saw(string(rep.Body))
	}
	return nil
}

func TestC27(t *testing.T) {
	ocpp.SetDebugLogger(&debugLedger)
	ocpp.SetErrorLogger(&errorLedger)
	hx.Run(t, hx.Part[c27Case]{
		Property: "C27", Name: "entries",
		Rule:   "a case is 1-6 steps of messages, failures and connections, up to four at once, websocket and SOAP, at the central system and at charge points, with debug and error loggers set that remember; non-trivial if something fails that no caller is told of, or at least two messages are exchanged at once",
		Budget: hx.Budget{Quick: 6000, Thorough: 120000, QuickSecs: 60},
		Draw:   drawC27,
		Classify: func(c c27Case) (bool, []string) {
			nt := false
			var cl []string
			for _, st := range c.Steps {
				nt = nt || len(st) > 1
				for _, o := range st {
					nt = nt || o.failing()
					cl = append(cl, fmt.Sprintf("%s lane %d", o.Kind, o.Lane))
				}
			}
			return nt, cl
		},
		Check: checkC27,
	})
}
