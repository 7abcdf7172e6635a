package props

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cpstatus"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/soap"
	"github.com/voltbras/go-ocpp/ws"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
)

// ---- connections driven by the program ----

// c28End is how a program drives its end of a connection.
type c28End struct {
	Async   bool `json:"async"`   // reads with ReadMessageAsync
	Workers int  `json:"workers"` // that handle requests
	Senders int  `json:"senders"` // at most so many requests at once
}

type c28Send struct {
	From  int    `json:"from"` // which end
	Type  int    `json:"type"`
	Fail  bool   `json:"fail,omitempty"`
	Text  string `json:"text"`
	Order int    `json:"order"` // in which the handlers of a wave return
}

type c28Case struct {
	Identity string      `json:"identity"`
	Version  int         `json:"version"`
	Listed   []int       `json:"listed"` // versions the server supports, best first
	Offer    []int       `json:"offer"`  // versions that a raw client offers
	Ends     [2]c28End   `json:"ends"`
	Waves    [][]c28Send `json:"waves"`
	Closer   int         `json:"closer"` // which end closes
}

var c28Versions = []ocpp.Version{ocpp.V15, ocpp.V16}
var c28Protocols = []string{"ocpp1.5", "ocpp1.6", "ocpp2.0", ""}

func drawC28(rt *rapid.T) c28Case {
	c := c28Case{Identity: drawIdentity(rt), Version: rapid.IntRange(0, 1).Draw(rt, "version"), Closer: rapid.IntRange(0, 1).Draw(rt, "closer")}
	if !pathSafe("x" + c.Identity) {
		c.Identity = ""
	}
	c.Listed = rapid.SampledFrom([][]int{{0}, {1}, {0, 1}, {1, 0}}).Draw(rt, "supported")
	c.Offer = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 4).Draw(rt, "offered")
	for i := range c.Ends {
		c.Ends[i] = c28End{rapid.Bool().Draw(rt, "async"), rapid.IntRange(1, 6).Draw(rt, "workers"), 0}
	}
	for n := rapid.IntRange(1, 4).Draw(rt, "waves"); n > 0; n-- {
		var w []c28Send
		var per [2]int
		for m := rapid.IntRange(1, 10).Draw(rt, "at once"); m > 0; m-- {
			s := c28Send{From: rapid.IntRange(0, 1).Draw(rt, "from"), Type: rapid.IntRange(0, 3).Draw(rt, "type"), Fail: rapid.IntRange(0, 3).Draw(rt, "fail") == 0,
				Text: gen.Text(rt, "text", false, 300, false), Order: rapid.IntRange(0, 99).Draw(rt, "order")}
			per[s.From]++
			w = append(w, s)
		}
		c.Waves = append(c.Waves, w)
	}
	return c
}

// c28Msg is a request with its tag, the response with the text, and what reads them.
func c28Msg(typ int, tag, text string) (messages.Request, messages.Response) {
	switch typ {
	case 0:
		return &cpreq.Authorize{IdTag: tag}, &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: text}}
	case 1:
		return &csreq.ChangeConfiguration{Key: tag, Value: text}, &csresp.ChangeConfiguration{Status: text}
	case 2:
		return &csreq.GetDiagnostics{Location: tag}, &csresp.GetDiagnostics{FileName: text}
	}
	return &cpreq.StatusNotification{ConnectorId: 1, ErrorCode: cpstatus.ErrorCode(tag), Status: text}, &cpresp.StatusNotification{}
}

func c28Tag(r messages.Request) string {
	switch r := r.(type) {
	case *cpreq.Authorize:
		return r.IdTag
	case *csreq.ChangeConfiguration:
		return r.Key
	case *csreq.GetDiagnostics:
		return r.Location
	case *cpreq.StatusNotification:
		return string(r.ErrorCode)
	}
	return fmt.Sprintf("%T", r)
}

// c28Drive is an end of a connection with the program that drives it.
type c28Drive struct {
	conn *ws.Conn
	end  c28End

	mu    sync.Mutex
	seen  []messages.Request
	ids   map[ws.MessageID]bool
	again error
	turn  map[string]*c28Turn // by tag
	read  chan error          // the end of the reader
	stop  chan struct{}
	wg    sync.WaitGroup
}

// c28Turn says when and how a request is answered.
type c28Turn struct {
	ready chan struct{}
	next  chan struct{} // closed after it
	resp  messages.Response
	err   error
}

func newC28Drive(conn *ws.Conn, end c28End) *c28Drive {
	d := &c28Drive{conn: conn, end: end, ids: map[ws.MessageID]bool{}, turn: map[string]*c28Turn{}, read: make(chan error, 1), stop: make(chan struct{})}
	d.wg.Add(1 + end.Workers)
	go func() {
		defer d.wg.Done()
		for {
			var err error
			if end.Async {
				err = <-conn.ReadMessageAsync()
			} else {
				err = conn.ReadMessage()
			}
			if err != nil {
				d.read <- err
				return
			}
		}
	}()
	for i := 0; i < end.Workers; i++ {
		go func() {
			defer d.wg.Done()
			for {
				select {
				case q := <-conn.Requests():
					// the answer may have to wait, others must not wait for this worker
					go d.answer(q.Request, q.MessageID)
				case <-d.stop:
					return
				}
			}
		}()
	}
	return d
}

func (d *c28Drive) answer(r messages.Request, id ws.MessageID) {
	d.mu.Lock()
	d.seen = append(d.seen, r)
	if d.ids[id] || id == "" {
		d.again = fmt.Errorf("two requests have the message id %q", id)
	}
	d.ids[id] = true
	t := d.turn[c28Tag(r)]
	d.mu.Unlock()
	if t == nil {
		d.conn.SendResponse(id, nil, errors.New("no such request was sent"))
		return
	}
	if _, err := hx.Recv(t.ready, "the answer to a request that was sent at the same time"); err != nil {
		d.mu.Lock()
		d.again = err
		d.mu.Unlock()
	}
	err := d.conn.SendResponse(id, t.resp, t.err)
	if err != nil {
		d.mu.Lock()
		d.again = fmt.Errorf("an answer could not be sent: %v", err)
		d.mu.Unlock()
	}
	select {
	case <-t.next:
	default:
		close(t.next)
	}
}

func checkC28(c c28Case) error {
	id := fx.ID() + c.Identity
	listed := make([]ocpp.Version, len(c.Listed))
	for i, v := range c.Listed {
		listed[i] = c28Versions[v]
	}
	type hello struct {
		conn *ws.Conn
		err  error
		path string
	}
	came := make(chan hello, 4)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		conn, err := ws.Handshake(w, r, listed)
		came <- hello{conn, err, r.URL.Path}
	}))
	defer srv.Close()
	url := "ws" + strings.TrimPrefix(srv.URL, "http")
	// whom a client that offers several versions gets
	var offers []string
	for _, o := range c.Offer {
		if c28Protocols[o] != "" {
			offers = append(offers, c28Protocols[o])
		}
	}
	want := ""
	for _, v := range c.Listed {
		for _, o := range offers {
			if want == "" && o == c28Protocols[v] {
				want = o
			}
		}
	}
	raw, err := fx.DialRawURL(url+"/raw", offers...)
	if want != "" && err != nil {
		return fmt.Errorf("a client that offers %q found no server that supports %v: %v", offers, listed, err)
	}
	if err == nil {
		h := <-came
		defer h.conn.Close()
		defer raw.Reset()
		if got := raw.Conn.Subprotocol(); got != want {
			return fmt.Errorf("a server that supports %v and a client that offers %q agree on %q", listed, offers, got)
		}
	} else {
		select {
		case h := <-came:
			if h.err == nil {
				h.conn.Close()
			}
		default:
		}
	}

	client, err := ws.Dial(id, url, c28Versions[c.Version])
	supported := false
	for _, v := range c.Listed {
		supported = supported || v == c.Version
	}
	if !supported {
		// whether there is a connection without a protocol is not judged
		if err == nil {
			client.Close()
			(<-came).conn.Close()
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("a server that supports %v cannot be dialled with %v: %v", listed, c28Versions[c.Version], err)
	}
	defer client.Close()
	h, err := hx.Recv(came, "the handshake of a connection that was dialled")
	if err != nil {
		return err
	}
	if h.err != nil {
		return fmt.Errorf("the handshake of a connection that was dialled failed: %v", h.err)
	}
	defer h.conn.Close()
	if h.path != "/"+id {
		return fmt.Errorf("%q was dialled as %q", id, h.path)
	}
	if p := c28Protocols[c.Version]; client.Subprotocol() != p || h.conn.Subprotocol() != p {
		return fmt.Errorf("dialled as %v the ends agree on %q and %q", c28Versions[c.Version], client.Subprotocol(), h.conn.Subprotocol())
	}
	ends := [2]*c28Drive{newC28Drive(client, c.Ends[0]), newC28Drive(h.conn, c.Ends[1])}
	over := func() {
		for _, d := range ends {
			select {
			case <-d.stop:
			default:
				close(d.stop)
			}
		}
	}
	defer over()
	for i, w := range c.Waves {
		if err := c28Wave(ends, w, fmt.Sprintf("%s/%d", id, i)); err != nil {
			return fmt.Errorf("wave %d: %w", i, err)
		}
	}
	// the end
	for _, d := range ends {
		select {
		case <-d.conn.WaitClose():
			return errors.New("an open connection is said to be closed")
		default:
		}
	}
	ends[c.Closer].conn.Close()
	for i, d := range ends {
		who := "the end that was closed"
		if i != c.Closer {
			who = "the other end"
		}
		if _, err := hx.Recv(d.conn.WaitClose(), "WaitClose of "+who); err != nil {
			return err
		}
		if err, e := hx.Recv(d.read, "the end of the reader of "+who); e != nil {
			return e
		} else if err == nil {
			return fmt.Errorf("the reader of %s ended without error", who)
		}
		out := make(chan outcome, 1)
		go func() {
			r, err := d.conn.SendRequest(&cpreq.Heartbeat{})
			out <- outcome{r, err}
		}()
		o, err := hx.Recv(out, "the end of a request over a closed connection")
		if err != nil {
			return err
		}
		if o.err == nil {
			return fmt.Errorf("a request over a closed connection got %s", hx.Quote(o.resp))
		}
	}
	over()
	for _, d := range ends {
		done := make(chan struct{})
		go func() { d.wg.Wait(); close(done) }()
		if _, err := hx.Recv(done, "the end of everything that reads a closed connection"); err != nil {
			return err
		}
	}
	return nil
}

func c28Wave(ends [2]*c28Drive, w []c28Send, base string) error {
	tags := make([]string, len(w))
	reqs := make([]messages.Request, len(w))
	turns := make([]*c28Turn, len(w))
	for i, s := range w {
		tags[i] = fmt.Sprintf("%s.%d", base, i)
		t := &c28Turn{ready: make(chan struct{}), next: make(chan struct{})}
		reqs[i], t.resp = c28Msg(s.Type, tags[i], s.Text)
		if s.Fail {
			t.resp, t.err = nil, errors.New(s.Text)
		}
		turns[i] = t
		d := ends[1-s.From]
		d.mu.Lock()
		d.turn[tags[i]] = t
		d.mu.Unlock()
	}
	// the order of the answers, over both directions
	order := make([]int, len(w))
	for i := range order {
		order[i] = i
	}
	for i := range order {
		for j := i; j > 0 && w[order[j]].Order < w[order[j-1]].Order; j-- {
			order[j], order[j-1] = order[j-1], order[j]
		}
	}
	for i, k := range order {
		if i == 0 {
			close(turns[k].ready)
		} else {
			turns[k].ready = turns[order[i-1]].next
		}
	}
	outs := make([]chan outcome, len(w))
	for i, s := range w {
		ch := make(chan outcome, 1)
		outs[i] = ch
		go func() {
			r, err := ends[s.From].conn.SendRequest(reqs[i])
			ch <- outcome{r, err}
		}()
	}
	for i, s := range w {
		o, err := hx.Recv(outs[i], fmt.Sprintf("the end of request %d", i))
		if err != nil {
			return err
		}
		for _, d := range ends {
			d.mu.Lock()
			err := d.again
			d.mu.Unlock()
			if err != nil {
				return err
			}
		}
		if err := c28Outcome(s.Fail, s.Text, turns[i].resp, o); err != nil {
			return fmt.Errorf("request %d (%T): %w", i, reqs[i], err)
		}
	}
	for i, d := range ends {
		d.mu.Lock()
		seen, again := d.seen, d.again
		d.seen = nil
		d.mu.Unlock()
		if again != nil {
			return again
		}
		n := 0
		for j, s := range w {
			if s.From == i {
				continue
			}
			n++
			k := 0
			for _, r := range seen {
				if reflect.DeepEqual(r, reqs[j]) {
					k++
				}
			}
			if k != 1 {
				return fmt.Errorf("request %d was sent once, the other end got it %d times, got %s", j, k, hx.Quote(seen))
			}
		}
		if n != len(seen) {
			return fmt.Errorf("%d requests were sent to end %d, it got %d", n, i, len(seen))
		}
	}
	return nil
}

func c28Outcome(fail bool, text string, resp messages.Response, o outcome) error {
	switch {
	case fail && o.err == nil:
		return fmt.Errorf("refused with %q, it ends with %s", text, hx.Quote(o.resp))
	case fail && !strings.Contains(o.err.Error(), text):
		return fmt.Errorf("refused with %q, it ends with the error %q", text, o.err)
	case !fail && o.err != nil:
		return fmt.Errorf("answered with %s, it ends with the error %v", hx.Quote(resp), o.err)
	case !fail && !reflect.DeepEqual(o.resp, resp):
		return fmt.Errorf("answered with %s, it ends with %s", hx.Quote(resp), hx.Quote(o.resp))
	}
	return nil
}

// ---- messages ----

type c28Codec struct {
	Kind    int             `json:"kind"`
	ID      string          `json:"id"`
	Word    string          `json:"word"` // action or error code
	Desc    string          `json:"desc"`
	Payload json.RawMessage `json:"payload"`
	Data    []byte          `json:"data"` // something else to read
}

func drawC28Codec(rt *rapid.T) c28Codec {
	c := c28Codec{Kind: rapid.IntRange(2, 4).Draw(rt, "kind"), ID: gen.Text(rt, "id", false, 300, false), Word: gen.Text(rt, "word", false, 60, false),
		Desc: gen.Text(rt, "description", false, 3000, false)}
	m := map[string]interface{}{}
	for n := rapid.IntRange(0, 4).Draw(rt, "fields"); n > 0; n-- {
		m[gen.Text(rt, "name", false, 20, false)] = drawJSON(rt, 3)
	}
	c.Payload, _ = json.Marshal(m)
	c.Data = drawGarbage(rt, rapid.Bool().Draw(rt, "atCS")).Data
	if rapid.Bool().Draw(rt, "nearly") { // a message with something about it changed
		l := []interface{}{c.Kind, c.ID, c.Word, c.Desc, m}
		switch c.Kind {
		case 2:
			l = []interface{}{c.Kind, c.ID, c.Word, m}
		case 3:
			l = []interface{}{c.Kind, c.ID, m}
		}
		switch i := rapid.IntRange(0, len(l)-1).Draw(rt, "at"); rapid.IntRange(0, 4).Draw(rt, "how") {
		case 0:
			l[i] = drawJSON(rt, 1)
		case 1:
			l = append(l[:i], l[i+1:]...)
		case 2:
			l = append(l, drawJSON(rt, 1))
		case 3:
			l[0] = rapid.SampledFrom([]interface{}{0, 1, 5, -2, "2", nil, true, 2.5}).Draw(rt, "type")
		}
		c.Data, _ = json.Marshal(l)
	}
	return c
}

func sameJSONValue(a, b []byte) bool {
	var x, y interface{}
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

func checkC28Codec(c c28Codec) error {
	var payload map[string]interface{}
	if err := json.Unmarshal(c.Payload, &payload); err != nil {
		return hx.Harness("%v", err)
	}
	var m ws.Message
	var want string
	switch c.Kind {
	case 2:
		m = ws.NewCallMessage(ws.MessageID(c.ID), ws.Action(c.Word), payload)
		want = string(callFrame(c.ID, c.Word, string(c.Payload)))
	case 3:
		m = ws.NewCallResult(ws.MessageID(c.ID), payload)
		want = string(resultFrame(c.ID, string(c.Payload)))
	case 4:
		m = ws.NewCallErrorMessage(ws.MessageID(c.ID), ws.ErrorCode(c.Word), c.Desc)
		want = string(errorFrame(c.ID, c.Word, c.Desc, "{}"))
	}
	is := func(m ws.Message, what string) error {
		if float64(m.Type()) != float64(c.Kind) || string(m.ID()) != c.ID {
			return fmt.Errorf("%s has type %v and id %q instead of %d and %q", what, m.Type(), m.ID(), c.Kind, c.ID)
		}
		b, err := json.Marshal(m)
		if err != nil {
			return fmt.Errorf("%s cannot be encoded: %v", what, err)
		}
		if !sameJSONValue(b, []byte(want)) {
			return fmt.Errorf("%s is encoded as %s instead of %s", what, hx.Quote(b), hx.Quote(want))
		}
		switch m := m.(type) {
		case *ws.CallMessage:
			if string(m.Action) != c.Word || !reflect.DeepEqual(m.Payload, payload) {
				return fmt.Errorf("%s has action %q and payload %s", what, m.Action, hx.Quote(m.Payload))
			}
		case *ws.CallResultMessage:
			if !reflect.DeepEqual(m.Payload, interface{}(payload)) {
				return fmt.Errorf("%s has payload %s", what, hx.Quote(m.Payload))
			}
		case *ws.CallErrorMessage:
			if e := m.Error(); !strings.Contains(e, c.Word) || !strings.Contains(e, c.Desc) {
				return fmt.Errorf("%s is the error %q", what, e)
			}
		}
		return nil
	}
	if err := is(m, "a new message"); err != nil {
		return err
	}
	got, err := ws.UnmarshalMessage([]byte(want))
	if err != nil {
		return fmt.Errorf("%s cannot be read: %v", hx.Quote(want), err)
	}
	if reflect.TypeOf(got) != reflect.TypeOf(m) {
		return fmt.Errorf("%s is read as %T", hx.Quote(want), got)
	}
	if err := is(got, "what is read"); err != nil {
		return err
	}
	// an error that was read says what its sender said, its details too
	if c.Kind == 4 {
		full := string(errorFrame(c.ID, c.Word, c.Desc, string(c.Payload)))
		got, err := ws.UnmarshalMessage([]byte(full))
		if err != nil {
			return fmt.Errorf("%s cannot be read: %v", hx.Quote(full), err)
		}
		b, err := json.Marshal(got)
		if err != nil || !sameJSONValue(b, []byte(full)) {
			return fmt.Errorf("%s is read, but encoded as %s (%v)", hx.Quote(full), hx.Quote(b), err)
		}
	}
	class, id := classifyFrame(c.Data)
	got, err = ws.UnmarshalMessage(c.Data)
	switch {
	case class == isUnclear:
	case class == isMalformed && err == nil:
		return fmt.Errorf("%s is no message, it is read as %s", hx.Quote(c.Data), hx.Quote(got))
	case class != isMalformed && err != nil:
		return fmt.Errorf("%s cannot be read: %v", hx.Quote(c.Data), err)
	case class != isMalformed:
		if string(got.ID()) != id || (got.Type() == ws.Call) != (class == isCall) {
			return fmt.Errorf("%s is read as a message of type %v with id %q", hx.Quote(c.Data), got.Type(), got.ID())
		}
		b, err := json.Marshal(got)
		if err != nil || !sameJSONValue(b, c.Data) {
			return fmt.Errorf("%s is read, but encoded as %s (%v)", hx.Quote(c.Data), hx.Quote(b), err)
		}
	}
	return nil
}

// ---- SOAP calls by the program ----

type c28Call struct {
	Type   string     `json:"type"`
	Req    gen.Msg    `json:"req"`
	Resp   gen.Msg    `json:"resp"`
	Fail   bool       `json:"fail,omitempty"`
	Text   string     `json:"text"`
	Ident  string     `json:"ident"`
	From   string     `json:"from"`
	Nil    bool       `json:"nil,omitempty"`   // no options
	Stale  bool       `json:"stale,omitempty"` // the response object has been used before
	Wrong  bool       `json:"wrong,omitempty"` // it is of another type
	Action string     `json:"action"`
	Style  gen.XStyle `json:"style"`
}

type c28Soap struct {
	Path  string    `json:"path"`
	Calls []c28Call `json:"calls"` // at once, over one client
}

func drawC28Soap(rt *rapid.T) c28Soap {
	c := c28Soap{Path: drawPath(rt)}
	o := gen.Opts{Legal: true, XML: true}
	anonymous := false
	for n := rapid.IntRange(1, 6).Draw(rt, "calls"); n > 0; n-- {
		k, req := gen.DrawReq(rt, soapKinds, o)
		c.Calls = append(c.Calls, c28Call{Type: k.Req.String(), Req: req, Resp: gen.Draw(rt, k.Resp.String(), o), Fail: rapid.IntRange(0, 3).Draw(rt, "fail") == 0,
			Text: gen.Text(rt, "text", true, 200, false), Ident: gen.Text(rt, "identity", true, 30, false), From: gen.Text(rt, "from", true, 60, false),
			Nil: rapid.IntRange(0, 5).Draw(rt, "no options") == 0, Stale: rapid.Bool().Draw(rt, "used"), Wrong: rapid.IntRange(0, 7).Draw(rt, "other type") == 0,
			Action: rapid.SampledFrom([]string{k.Action, k.Action, "Other", "a/b"}).Draw(rt, "action")})
		// of several these could not be told apart
		last := &c.Calls[len(c.Calls)-1]
		last.Nil = last.Nil && !anonymous
		anonymous = anonymous || last.Nil
	}
	return c
}

func checkC28Soap(c c28Soap) error {
	type arrival struct {
		ident string
		req   messages.Request
		raw   string
		head  http.Header
	}
	var mu sync.Mutex
	var got []arrival
	var results []error
	find := func(ident string, req messages.Request) int {
		for i, cl := range c.Calls {
			if (cl.Nil && ident == "" || !cl.Nil && ident == fmt.Sprint(i, ":", cl.Ident)) && gen.Same(cl.Req, req) == nil {
				return i
			}
		}
		return -1
	}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		raw, _ := io.ReadAll(r.Body)
		r.Body = io.NopCloser(strings.NewReader(string(raw)))
		err := soap.Handle(w, r, func(req messages.Request, cpID string) (messages.Response, error) {
			mu.Lock()
			got = append(got, arrival{cpID, req, string(raw), r.Header.Clone()})
			mu.Unlock()
			i := find(cpID, req)
			if i < 0 {
				return nil, errors.New("no such call")
			}
			if c.Calls[i].Fail {
				return nil, errors.New(c.Calls[i].Text)
			}
			return libResp(c.Calls[i].Resp), nil
		})
		mu.Lock()
		results = append(results, err)
		mu.Unlock()
	}))
	defer srv.Close()
	url := srv.URL + c.Path
	client := soap.NewClient(url)
	outs := make([]chan error, len(c.Calls))
	resps := make([]messages.Response, len(c.Calls))
	reqs := make([]messages.Request, len(c.Calls))
	opts := make([]*soap.CallOptions, len(c.Calls))
	for i, cl := range c.Calls {
		reqs[i] = libReq(cl.Req)
		resps[i] = reqs[i].GetResponse()
		if cl.Wrong {
			resps[i] = otherResponse(resps[i])
		} else if cl.Stale {
			// what is in the object before must not matter
			stale(reflect.ValueOf(resps[i]).Elem())
		}
		if !cl.Nil {
			opts[i] = &soap.CallOptions{From: soap.CallOptionsFrom{Address: cl.From}, ChargeBoxIdentity: fmt.Sprint(i, ":", cl.Ident)}
		}
		ch := make(chan error, 1)
		outs[i] = ch
		go func() { ch <- client.Call(cl.Action, reqs[i], resps[i], opts[i]) }()
	}
	errs := make([]error, len(c.Calls))
	for i := range c.Calls {
		e, err := hx.Recv(outs[i], fmt.Sprintf("the end of call %d", i))
		if err != nil {
			return err
		}
		errs[i] = e
	}
	mu.Lock()
	defer mu.Unlock()
	seen := make([]int, len(c.Calls))
	ids := map[string]bool{}
	for _, a := range got {
		i := find(a.ident, a.req)
		if i < 0 {
			return fmt.Errorf("the handler got %s of %q, which nobody sent", hx.Quote(a.req), a.ident)
		}
		seen[i]++
		cl := c.Calls[i]
		doc, err := gen.ParseXML([]byte(a.raw))
		if err != nil {
			return fmt.Errorf("call %d is not XML: %v", i, err)
		}
		h := doc.Kid("Header")
		if h == nil {
			return fmt.Errorf("call %d has no header", i)
		}
		text := func(name string) string {
			if k := h.Kid(name); k != nil {
				return k.Text
			}
			return "(missing)"
		}
		if text("To") != url || text("Action") != "/"+cl.Action {
			return fmt.Errorf("call %d of %s at %s has the action %q and goes to %q", i, cl.Action, url, text("Action"), text("To"))
		}
		from := ""
		if f := h.Kid("From"); f != nil && f.Kid("Address") != nil {
			from = f.Kid("Address").Text
		}
		if !cl.Nil && from != cl.From {
			return fmt.Errorf("call %d is from %q instead of %q", i, from, cl.From)
		}
		if id := text("MessageID"); id == "" || ids[id] {
			return fmt.Errorf("call %d has the message id %q, as another", i, id)
		} else {
			ids[id] = true
		}
	}
	for i, n := range seen {
		if n != 1 {
			return fmt.Errorf("call %d reached the handler %d times (it ended with %v)", i, n, errs[i])
		}
		cl := c.Calls[i]
		switch {
		case cl.Fail && (errs[i] == nil || errs[i].Error() != cl.Text):
			return fmt.Errorf("call %d was refused with %q and ended with %v", i, cl.Text, errs[i])
		case cl.Fail:
		case cl.Wrong && errs[i] == nil:
			return fmt.Errorf("call %d ended without error, a %s was asked for in an object of type %T", i, cl.Resp.T, resps[i])
		case cl.Wrong:
		case errs[i] != nil:
			return fmt.Errorf("call %d was answered with %s and ended with error %v", i, hx.Quote(cl.Resp), errs[i])
		default:
			if err := gen.Same(cl.Resp, resps[i]); err != nil {
				return fmt.Errorf("call %d: %w", i, err)
			}
		}
		if err := gen.Same(cl.Req, reqs[i]); err != nil {
			return fmt.Errorf("call %d has changed its request: %w", i, err)
		}
		if o := opts[i]; o != nil && (o.From.Address != cl.From || o.From.XMLName != (xml.Name{}) || o.ChargeBoxIdentity != fmt.Sprint(i, ":", cl.Ident)) {
			return fmt.Errorf("call %d has changed its options to %v", i, *o)
		}
	}
	for _, err := range results {
		if err != nil {
			return fmt.Errorf("a request was answered, but Handle returned the error %v", err)
		}
	}
	return nil
}

// otherResponse is a response of another type.
func otherResponse(r messages.Response) messages.Response {
	if _, ok := r.(*csresp.Reset); ok {
		return &csresp.ClearCache{}
	}
	return &csresp.Reset{}
}

// stale puts something into an object.
func stale(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		switch f.Kind() {
		case reflect.String:
			f.SetString("stale")
		case reflect.Int, reflect.Int32, reflect.Int64:
			f.SetInt(77)
		case reflect.Slice:
			f.Set(reflect.MakeSlice(f.Type(), 1, 1))
		case reflect.Ptr:
			f.Set(reflect.New(f.Type().Elem()))
		}
	}
}

func TestC28(t *testing.T) {
	hx.Run(t, hx.Part[c28Case]{
		Property: "C28", Name: "driven",
		Rule:   "a case is a connection made with ws.Dial and ws.Handshake that two programs drive in a way of their own (reading, workers, order of answers), with 1-4 waves of up to ten requests at once in either direction, refused or not, and then closed by one of them; also an offer of versions by another client; non-trivial if at least two requests are under way at once",
		Budget: hx.Budget{Quick: 5000, Thorough: 100000, QuickSecs: 40},
		Draw:   drawC28,
		Classify: func(c c28Case) (bool, []string) {
			nt := false
			for _, w := range c.Waves {
				nt = nt || len(w) > 1
			}
			sup := false
			for _, v := range c.Listed {
				sup = sup || v == c.Version
			}
			return nt && sup, []string{fmt.Sprintf("async %v %v", c.Ends[0].Async, c.Ends[1].Async), fmt.Sprintf("version supported: %v", sup), fmt.Sprintf("closer %d", c.Closer)}
		},
		Check: checkC28,
	})
	hx.Run(t, hx.Part[c28Codec]{
		Property: "C28", Name: "messages",
		Rule:   "a case is a call, result or error with generated id, action or code, description and payload, made with the constructors and read from its reference encoding, and some other bytes; non-trivial if these are not a scrap of less than four bytes",
		Budget: hx.Budget{Quick: 25000, Thorough: 1500000, QuickSecs: 40},
		Draw:   drawC28Codec,
		Classify: func(c c28Codec) (bool, []string) {
			class, _ := classifyFrame(c.Data)
			return len(c.Data) > 3, []string{fmt.Sprintf("kind %d", c.Kind), "other bytes: " + class}
		},
		Check: checkC28Codec,
	})
	hx.Run(t, hx.Part[c28Soap]{
		Property: "C28", Name: "calls",
		Rule:   "a case is up to six SOAP calls at once over one soap.Client to a server of the program that answers with soap.Handle, with generated messages, options (or none), actions and response objects (used before, of another type); non-trivial if there are at least two calls",
		Budget: hx.Budget{Quick: 6000, Thorough: 120000, QuickSecs: 40},
		Draw:   drawC28Soap,
		Classify: func(c c28Soap) (bool, []string) {
			var cl []string
			for _, x := range c.Calls {
				cl = append(cl, fmt.Sprintf("fail=%v", x.Fail), fmt.Sprintf("options=%v", !x.Nil), fmt.Sprintf("other type=%v", x.Wrong))
			}
			return len(c.Calls) > 1, cl
		},
		Check: checkC28Soap,
	})
}
