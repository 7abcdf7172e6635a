package props

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"context"
	"errors"
	"fmt"
	"io"
	"mime"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

type c13Op struct {
	Mode  int        `json:"mode"` // 0 library to library, 1 raw client to library, 2 library to raw server
	Type  string     `json:"type"`
	Ident string     `json:"ident"`
	Fail  bool       `json:"fail"`
	Text  string     `json:"text"` // of the error
	Req   gen.Msg    `json:"req"`
	Resp  gen.Msg    `json:"resp"`
	Style gen.XStyle `json:"style"`
	Extra int        `json:"extra"` // of a raw server's fault: details it adds
}

type c13Case struct {
	Ops []c13Op `json:"ops"`
}

// soapCaller is a library charge point that is only used to send.
func soapCaller(id, url string) (cp.ChargePoint, func(), error) {
	ctx, cancel := context.WithCancel(context.Background())
	any := "127.0.0.1:0"
	p, err := cp.New(ctx, id, url, ocpp.V15, ocpp.SOAP, &any, func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		return nil, errors.New("not the receiver")
	})
	if err != nil {
		cancel()
		return nil, nil, fmt.Errorf("a SOAP charge point could not be made: %v", err)
	}
	return p, cancel, nil
}

// soapBody undoes the content encoding a reply announces and finds the only child of the body.
func soapBody(r *fx.Reply) (*gen.Node, error) {
	b := r.Body
	for _, enc := range r.Header["Content-Encoding"] {
		var rd io.Reader
		var err error
		switch strings.ToLower(enc) {
		case "identity", "":
			continue
		case "gzip":
			rd, err = gzip.NewReader(bytes.NewReader(b))
		case "deflate":
			rd, err = zlib.NewReader(bytes.NewReader(b))
			if err != nil {
				rd, err = flate.NewReader(bytes.NewReader(b)), nil
			}
		default:
			err = errors.New("unknown encoding")
		}
		if err == nil {
			b, err = io.ReadAll(rd)
		}
		if err != nil {
			return nil, fmt.Errorf("the body is not encoded as its header Content-Encoding: %s says: %v", enc, err)
		}
	}
	if ct := r.Header.Get("Content-Type"); ct != "" {
		mt, par, err := mime.ParseMediaType(ct)
		if err != nil {
			return nil, fmt.Errorf("bad Content-Type %q", ct)
		}
		if !strings.HasSuffix(mt, "xml") {
			return nil, fmt.Errorf("XML is announced as %s", mt)
		}
		if c := strings.ToLower(par["charset"]); c != "" && c != "utf-8" {
			return nil, fmt.Errorf("UTF-8 is announced as %s", c)
		}
	}
	doc, err := gen.ParseXML(b)
	if err != nil {
		return nil, fmt.Errorf("the reply is not XML: %v", err)
	}
	if doc.Name.Space != gen.SOAPNS || doc.Name.Local != "Envelope" {
		return nil, fmt.Errorf("the reply is a %v", doc.Name)
	}
	body := doc.Kid("Body")
	if body == nil || body.Name.Space != gen.SOAPNS {
		return nil, errors.New("the reply has no body")
	}
	if len(body.Kids) != 1 {
		return nil, fmt.Errorf("the body of the reply has %d elements", len(body.Kids))
	}
	return body.Kids[0], nil
}

// faultText reads a SOAP 1.2 fault.
func faultText(n *gen.Node) (string, error) {
	if n.Name.Local != "Fault" || n.Name.Space != gen.SOAPNS {
		return "", fmt.Errorf("expected a fault, got %v", n.Name)
	}
	code, reason := n.Kid("Code"), n.Kid("Reason")
	if code == nil || code.Kid("Value") == nil {
		return "", errors.New("the fault has no code value")
	}
	if reason == nil || reason.Name.Space != gen.SOAPNS || reason.Kid("Text") == nil {
		return "", errors.New("the fault has no reason text")
	}
	return reason.Kid("Text").Text, nil
}

func checkReply(op c13Op, k *spec.Kind, rep *fx.Reply) error {
	el, err := soapBody(rep)
	if err != nil {
		return fmt.Errorf("%w (reply %d %v %s)", err, rep.Status, rep.Header, hx.Quote(rep.Body))
	}
	if op.Fail {
		t, err := faultText(el)
		if err != nil {
			return err
		}
		if t != op.Text {
			return fmt.Errorf("the fault says %q, the handler's error is %q", t, op.Text)
		}
		return nil
	}
	if want := k.XMLName(true); el.Name.Local != want || el.Name.Space != k.NS() {
		return fmt.Errorf("the reply is %v instead of a %s", el.Name, want)
	}
	v, err := gen.ReadXML(k.XMLResp, el, k.NS(), want(k))
	if err != nil {
		return err
	}
	return gen.Same(gen.Msg{T: op.Resp.T, V: v.(map[string]interface{})}, gen.Build(op.Resp))
}

func want(k *spec.Kind) string { return k.XMLName(true) }

// checkOutcome judges what a caller got.
func checkOutcome(op c13Op, got interface{}, err error) error {
	if op.Fail {
		if err == nil {
			return fmt.Errorf("the call succeeded although the handler failed with %q", op.Text)
		}
		if err.Error() != op.Text {
			return fmt.Errorf("the handler's error is %q, the caller got %q", op.Text, err.Error())
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("the call failed: %v", err)
	}
	return gen.Same(op.Resp, got)
}

func checkC13(c c13Case) error {
	for i, op := range c.Ops {
		if err := c13One(op); err != nil {
			return fmt.Errorf("call %d (%s, mode %d): %w", i, op.Type, op.Mode, err)
		}
	}
	return nil
}

func c13One(op c13Op) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	k, _ := spec.ByType(op.Type)
	r := &soapRig{}
	if op.Fail {
		r.err = errors.New(op.Text)
	} else {
		r.resp = libResp(op.Resp)
	}
	calls := func() error {
		if len(r.got) != 1 {
			return fmt.Errorf("the handler ran %d times", len(r.got))
		}
		if err := gen.Same(op.Req, r.got[0]); err != nil {
			return err
		}
		if k.FromCP && r.ids[0] != op.Ident {
			return fmt.Errorf("the caller is %q, the handler was told %q", op.Ident, r.ids[0])
		}
		return nil
	}
	switch op.Mode {
	case 0, 1:
		url, done, err := armSoap(k.FromCP, op.Ident, r)
		if err != nil {
			return err
		}
		defer done()
		if op.Mode == 1 {
			body := gen.WriteXMLAs(k.XMLName(false), k.NS(), k.XMLReq, op.Req.V, op.Style)
			rep, err := fx.Post(url, []byte(gen.Envelope(op.Ident, k.NS(), k.Action, body, op.Style)))
			if err != nil {
				return fmt.Errorf("no reply: %w", err)
			}
			if err := calls(); err != nil {
				return err
			}
			return checkReply(op, k, rep)
		}
		got, err := soapSend(sys, k, op, url)
		if e := calls(); e != nil {
			return fmt.Errorf("%w (the call returned: %v)", e, err)
		}
		return checkOutcome(op, got, err)
	default:
		f, err := theFakeHTTP()
		if err != nil {
			return err
		}
		n := 0
		var raw []byte
		var hdr http.Header
		f.Serve(func(w http.ResponseWriter, rq *http.Request) {
			b, _ := io.ReadAll(rq.Body)
			n++
			raw, hdr = b, rq.Header
			w.Header().Set("Content-Type", "application/soap+xml")
			if op.Fail {
				w.WriteHeader(500)
			}
			io.WriteString(w, fakeReply(op, k))
		})
		defer f.Serve(nil)
		got, err := soapSend(sys, k, op, f.URL+"/x")
		if n != 1 {
			return fmt.Errorf("the server got %d requests (%v)", n, err)
		}
		if err := c13Request(op, k, raw, hdr); err != nil {
			return fmt.Errorf("%w (sent %s)", err, hx.Quote(raw))
		}
		return checkOutcome(op, got, err)
	}
}

var (
	fakeHTTPOnce sync.Once
	fakeHTTP     *fx.FakeHTTP
	fakeHTTPErr  error
)

func theFakeHTTP() (*fx.FakeHTTP, error) {
	fakeHTTPOnce.Do(func() { fakeHTTP, fakeHTTPErr = fx.NewFakeHTTP() })
	return fakeHTTP, fakeHTTPErr
}

// soapSend makes a call of the library.
func soapSend(sys *fx.CS, k *spec.Kind, op c13Op, url string) (interface{}, error) {
	if k.FromCP {
		p, done, err := soapCaller(op.Ident, url)
		if err != nil {
			return nil, err
		}
		defer done()
		r, err := p.Send(gen.Build(op.Req).(cpreq.ChargePointRequest))
		if r == nil {
			return nil, err
		}
		return r, err
	}
	svc, err := sys.Sys.GetServiceOf(op.Ident, ocpp.V15, url)
	if err != nil {
		return nil, err
	}
	r, err := svc.Send(gen.Build(op.Req).(csreq.CentralSystemRequest))
	if r == nil {
		return nil, err
	}
	return r, err
}

func fakeReply(op c13Op, k *spec.Kind) string {
	if !op.Fail {
		return gen.SoapReply(gen.WriteXMLAs(k.XMLName(true), k.NS(), k.XMLResp, op.Resp.V, op.Style))
	}
	sub, det := "", ""
	if op.Extra&1 != 0 {
		sub = `<S:Subcode><S:Value>ocpp:InternalError</S:Value></S:Subcode>`
	}
	if op.Extra&2 != 0 {
		det = `<S:Node>http://x</S:Node><S:Detail><x:info xmlns:x="urn:x"><x:Text>other</x:Text></x:info></S:Detail>`
	}
	lang := ` xml:lang="en"`
	return gen.SoapReply(`<S:Fault><S:Code><S:Value>S:Receiver</S:Value>` + sub + `</S:Code><S:Reason><S:Text` + lang + `>` + gen.Esc(op.Text, op.Style.Text) + `</S:Text></S:Reason>` + det + `</S:Fault>`)
}

// c13Request checks the envelope a library caller sent.
func c13Request(op c13Op, k *spec.Kind, raw []byte, hdr http.Header) error {
	doc, err := gen.ParseXML(raw)
	if err != nil {
		return fmt.Errorf("the request is not XML: %v", err)
	}
	h := doc.Kid("Header")
	if h == nil || h.Kid("chargeBoxIdentity") == nil {
		return errors.New("the request has no chargeBoxIdentity header")
	}
	if got := h.Kid("chargeBoxIdentity").Text; got != op.Ident {
		return fmt.Errorf("the identity is sent as %q instead of %q", got, op.Ident)
	}
	if enc := hdr.Get("Content-Encoding"); enc != "" && enc != "identity" {
		return fmt.Errorf("the request is announced as %s", enc)
	}
	return nil
}

// ---- concurrency ----

type c13Call struct {
	FromCP bool   `json:"fromCP"`
	Point  int    `json:"point"` // which of the callers
	Fail   bool   `json:"fail"`
	Resp   int32  `json:"resp"`
	Text   string `json:"text"`
	Order  int    `json:"order"` // position in which the handler returns
}

type c13Conc struct {
	Points int       `json:"points"`
	Calls  []c13Call `json:"calls"`
}

// each call carries its number; all handlers run at the same time and return in a given order
func checkC13Conc(c c13Conc) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	scp, err := fx.TheSoapCP()
	if err != nil {
		return err
	}
	base := fx.ID()
	n := len(c.Calls)
	turn := make([]chan struct{}, n+1)
	for i := range turn {
		turn[i] = make(chan struct{})
	}
	var mu sync.Mutex
	runs := make([]int, n)
	arrived := 0
	all := make(chan struct{})
	var bad error
	serve := func(tag string, ident string, fromCP bool) (int32, error) {
		var i int
		if _, err := fmt.Sscanf(tag, base+"-%d", &i); err != nil || i < 0 || i >= n || tag != fmt.Sprintf("%s-%d", base, i) {
			mu.Lock()
			bad = fmt.Errorf("a handler got a request tagged %q", tag)
			mu.Unlock()
			return 0, errors.New("unknown tag")
		}
		op := c.Calls[i]
		mu.Lock()
		runs[i]++
		if fromCP && ident != fmt.Sprintf("%s.%d", base, op.Point) {
			bad = fmt.Errorf("call %d of %s.%d was attributed to %q", i, base, op.Point, ident)
		}
		if op.FromCP != fromCP {
			bad = fmt.Errorf("call %d came to the wrong side", i)
		}
		arrived++
		if arrived == n {
			close(all)
		}
		mu.Unlock()
		// meet, then return in the given order; never wait for ever
		t := time.After(3 * time.Second)
		select {
		case <-all:
		case <-t:
			hx.Note("handlers did not all overlap", 1)
		}
		select {
		case <-turn[op.Order]:
		case <-t:
		}
		defer func() {
			defer func() { recover() }() // closed twice if a handler ran twice
			close(turn[op.Order+1])
		}()
		if op.Fail {
			return 0, fmt.Errorf("%s %s", tag, op.Text)
		}
		return op.Resp, nil
	}
	close(turn[0])
	var pts []cp.ChargePoint
	for i := 0; i < c.Points; i++ {
		id := fmt.Sprintf("%s.%d", base, i)
		p, done, err := soapCaller(id, sys.HTTP+"/")
		if err != nil {
			return err
		}
		defer done()
		pts = append(pts, p)
		sys.Handle(id, func(r cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			q, ok := r.(*cpreq.StartTransaction)
			if !ok {
				return nil, fmt.Errorf("got a %T", r)
			}
			v, err := serve(q.IdTag, m.ChargePointID, true)
			if err != nil {
				return nil, err
			}
			return &cpresp.StartTransaction{TransactionId: v, IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: q.IdTag}}, nil
		})
		defer sys.Handle(id, nil)
	}
	scp.SetHandler(func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		q, ok := r.(*csreq.DataTransfer)
		if !ok {
			return nil, fmt.Errorf("got a %T", r)
		}
		v, err := serve(q.VendorId, "", false)
		if err != nil {
			return nil, err
		}
		return &csresp.DataTransfer{Status: "Accepted", Data: fmt.Sprintf("%s %d", q.VendorId, v)}, nil
	})
	defer scp.SetHandler(nil)
	start := time.Now()
	errs := make(chan error, n)
	for i, op := range c.Calls {
		go func(i int, op c13Call) {
			tag := fmt.Sprintf("%s-%d", base, i)
			var got string
			var err error
			if op.FromCP {
				var r cpresp.ChargePointResponse
				r, err = pts[op.Point].Send(&cpreq.StartTransaction{IdTag: tag, Timestamp: time.Unix(0, 0)})
				if err == nil {
					x, ok := r.(*cpresp.StartTransaction)
					if !ok || x.IdTagInfo == nil {
						errs <- fmt.Errorf("call %d got %v", i, hx.Quote(r))
						return
					}
					got = fmt.Sprintf("%s %d", x.IdTagInfo.ParentIdTag, x.TransactionId)
				}
			} else {
				svc, e := sys.Sys.GetServiceOf(fmt.Sprintf("%s.%d", base, op.Point), ocpp.V15, scp.URL)
				if e != nil {
					errs <- e
					return
				}
				var r csresp.CentralSystemResponse
				r, err = svc.Send(&csreq.DataTransfer{VendorId: tag})
				if err == nil {
					x, ok := r.(*csresp.DataTransfer)
					if !ok {
						errs <- fmt.Errorf("call %d got %v", i, hx.Quote(r))
						return
					}
					got = x.Data
				}
			}
			switch {
			case op.Fail && (err == nil || err.Error() != fmt.Sprintf("%s %s", tag, op.Text)):
				errs <- fmt.Errorf("call %d should have failed with %q, got %q, %v", i, tag+" "+op.Text, got, err)
			case !op.Fail && err != nil:
				errs <- fmt.Errorf("call %d failed: %v", i, err)
			case !op.Fail && got != fmt.Sprintf("%s %d", tag, op.Resp):
				errs <- fmt.Errorf("call %d should have got %q, got %q", i, fmt.Sprintf("%s %d", tag, op.Resp), got)
			default:
				errs <- nil
			}
		}(i, op)
	}
	var first error
	for range c.Calls {
		e, err := hx.Recv(errs, "the end of all concurrent SOAP calls")
		if err != nil {
			return err
		}
		if e != nil && first == nil {
			first = e
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return bad
	}
	if first != nil {
		if d := time.Since(start); d > 5*time.Second {
			return errors.Join(hx.Late(start, "the calls"), first)
		}
		return first
	}
	for i, k := range runs {
		if k != 1 {
			return fmt.Errorf("the handler of call %d ran %d times", i, k)
		}
	}
	return nil
}

// ---- lost exchanges ----

type c13Lost struct {
	Op    c13Op     `json:"op"`
	Links []fx.Link `json:"links"`
}

// The connection of a call is cut in the middle of its request or response. The handler must not run
// for what did not arrive, nor run again, and the caller must not be told of a success it can't know.
func checkC13Lost(c c13Lost) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	op := c.Op
	k, _ := spec.ByType(op.Type)
	r := &soapRig{}
	if op.Fail {
		r.err = errors.New(op.Text)
	} else {
		r.resp = libResp(op.Resp)
	}
	to, done, err := armSoap(k.FromCP, op.Ident, r)
	if err != nil {
		return err
	}
	defer done()
	addr := strings.TrimSuffix(strings.TrimPrefix(to, "http://"), "/")
	rel, err := fx.NewRelay(addr, c.Links...)
	if err != nil {
		return err
	}
	defer rel.Close()
	start := time.Now()
	got, err := soapSend(sys, k, op, "http://"+rel.Addr+"/")
	if d := time.Since(start); d > 20*time.Second {
		return hx.Late(start, "the end of a call whose connection is cut")
	}
	first := c.Links[0]
	conns, whole := rel.Seen()
	if conns == 0 {
		return fmt.Errorf("no connection was made (%v)", err)
	}
	if len(r.got) > 1 {
		return fmt.Errorf("the handler ran %d times for one call (%d connections, %d requests delivered; the call returned: %v)", len(r.got), conns, whole, err)
	}
	if len(r.got) > whole {
		return fmt.Errorf("the handler ran for a request that was cut off, with %s", hx.Quote(r.got[0]))
	}
	if len(r.got) == 1 {
		if err := gen.Same(op.Req, r.got[0]); err != nil {
			return err
		}
	}
	if first.Request == 1000 && first.Response == 1000 {
		if len(r.got) != 1 {
			return fmt.Errorf("the handler did not run (the call returned: %v)", err)
		}
		return checkOutcome(op, got, err)
	}
	if err == nil {
		if op.Fail || len(r.got) == 0 {
			return fmt.Errorf("the call succeeded, with %s (handler ran %d times, failing %v)", hx.Quote(got), len(r.got), op.Fail)
		}
		return gen.Same(op.Resp, got)
	}
	return nil
}

func TestC13(t *testing.T) {
	hx.Run(t, hx.Part[c13Case]{
		Property: "C13", Name: "outcomes",
		Rule:   "a case is 1-4 SOAP calls between library and library, raw HTTP client and library, or library and raw HTTP server, with generated identity, payload and outcome; non-trivial if an identity or error text is not plain ASCII or a call fails",
		Budget: hx.Budget{Quick: 3000, Thorough: 60000, QuickSecs: 45},
		Draw: func(rt *rapid.T) c13Case {
			var c c13Case
			for n := rapid.IntRange(1, 4).Draw(rt, "n"); n > 0; n-- {
				k := rapid.SampledFrom(soapKinds).Draw(rt, "kind")
				o := gen.Opts{Legal: true, XML: true}
				op := c13Op{Mode: rapid.IntRange(0, 2).Draw(rt, "mode"), Type: k.Req.String(), Fail: rapid.Bool().Draw(rt, "fail"), Style: gen.DrawStyle(rt), Extra: rapid.IntRange(0, 3).Draw(rt, "extra")}
				op.Ident = gen.Text(rt, "ident", true, 0, false)
				if op.Fail {
					op.Text = gen.Text(rt, "error", true, 0, true)
				}
				op.Req, op.Resp = gen.Draw(rt, op.Type, o), gen.Draw(rt, k.Resp.String(), o)
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Classify: func(c c13Case) (bool, []string) {
			nt := false
			var cl []string
			for _, o := range c.Ops {
				k, _ := spec.ByType(o.Type)
				nt = nt || o.Fail || strings.IndexFunc(o.Ident+o.Text, func(r rune) bool { return r > 126 || r < 32 || r == '<' || r == '&' }) >= 0
				cl = append(cl, fmt.Sprintf("mode=%d fail=%v fromCP=%v", o.Mode, o.Fail, k.FromCP))
			}
			return nt, cl
		},
		Check: checkC13,
	})
	hx.Run(t, hx.Part[c13Conc]{
		Property: "C13", Name: "concurrent",
		Rule:   "a case is 2-24 SOAP calls in both directions from 1-6 callers, all being handled at the same time and returning in a generated order, each with its own outcome; non-trivial if there are at least 3 calls",
		Budget: hx.Budget{Quick: 400, Thorough: 6000, QuickSecs: 30},
		Draw: func(rt *rapid.T) c13Conc {
			c := c13Conc{Points: rapid.IntRange(1, 6).Draw(rt, "points")}
			n := rapid.IntRange(2, 24).Draw(rt, "n")
			idx := make([]int, n)
			for i := range idx {
				idx[i] = i
			}
			ord := rapid.Permutation(idx).Draw(rt, "order")
			for i := 0; i < n; i++ {
				c.Calls = append(c.Calls, c13Call{
					FromCP: rapid.Bool().Draw(rt, "fromCP"), Point: rapid.IntRange(0, c.Points-1).Draw(rt, "point"),
					Fail: rapid.IntRange(0, 2).Draw(rt, "fail") == 0, Resp: rapid.Int32().Draw(rt, "resp"),
					Text: rapid.StringMatching(`[a-z<&é]{0,5}`).Draw(rt, "text"), Order: ord[i],
				})
			}
			return c
		},
		Classify: func(c c13Conc) (bool, []string) {
			return len(c.Calls) >= 3, []string{fmt.Sprintf("calls=%d-", len(c.Calls)/8*8), fmt.Sprintf("points=%d", c.Points)}
		},
		Check: checkC13Conc,
	})
	hx.Run(t, hx.Part[c13Lost]{
		Property: "C13", Name: "lost",
		Rule:   "a case is a SOAP call between library and library whose first connection is cut (closed or reset) at a generated point of its request or response, or only broken into small pieces, any further connection working well; the handler runs at most once and never for a truncated request, the caller gets no success it can't know of; non-trivial if the connection is cut",
		Budget: hx.Budget{Quick: 2500, Thorough: 40000, QuickSecs: 30},
		Draw: func(rt *rapid.T) c13Lost {
			k := rapid.SampledFrom(soapKinds).Draw(rt, "kind")
			o := gen.Opts{Legal: true, XML: true}
			op := c13Op{Type: k.Req.String(), Fail: rapid.IntRange(0, 3).Draw(rt, "fail") == 0, Ident: "soap-lost"}
			if op.Fail {
				op.Text = gen.Text(rt, "error", true, 0, true)
			}
			op.Req, op.Resp = gen.Draw(rt, op.Type, o), gen.Draw(rt, k.Resp.String(), o)
			l := fx.Link{Request: 1000, Response: 1000, Abort: rapid.Bool().Draw(rt, "abort"), Piece: rapid.SampledFrom([]int{0, 0, 1, 7, 100}).Draw(rt, "piece")}
			cut := rapid.OneOf(rapid.SampledFrom([]int{0, 999, 990, 950}), rapid.IntRange(0, 999))
			switch rapid.IntRange(0, 5).Draw(rt, "cut") {
			case 0, 1:
				l.Request = cut.Draw(rt, "request")
			case 2, 3, 4:
				l.Response = cut.Draw(rt, "response")
			}
			return c13Lost{op, []fx.Link{l}}
		},
		Classify: func(c c13Lost) (bool, []string) {
			l := c.Links[0]
			cl := "whole"
			if l.Request < 1000 {
				cl = "request cut"
			} else if l.Response < 1000 {
				cl = "response cut"
			}
			return cl != "whole", []string{fmt.Sprintf("%s abort=%v", cl, l.Abort), fmt.Sprintf("piece=%d", l.Piece)}
		},
		Check: checkC13Lost,
	})
	scaleParts(t, "C13")
}

var _ = reflect.TypeOf
var _ messages.Request
