package props

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"slices"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// ---- relays: handlers that pass on what they get ----

// kinds that both OCPP versions have and that both sides dispatch over both transports
var commonKinds = spec.Filter(func(k *spec.Kind) bool { return k.XMLReq != nil && k.Action != "DataTransfer" })

type c30Ex struct {
	exchange
	Fail string `json:"fail,omitempty"` // the last handler's error
}

type c30Case struct {
	Hops []string `json:"hops"` // transport of each link of the chain
	List []c30Ex  `json:"list"`
	Conc bool     `json:"concurrent"` // all exchanges at once
	Twin bool     `json:"twice"`      // every exchange is made a second time with the same objects
}

var (
	c30Mu    sync.Mutex
	c30Soaps []*fx.SoapCP
)

// c30Soap is one of a few SOAP charge points that stay up.
func c30Soap(i int) (*fx.SoapCP, error) {
	c30Mu.Lock()
	defer c30Mu.Unlock()
	sys, err := fx.TheCS()
	if err != nil {
		return nil, err
	}
	for len(c30Soaps) <= i {
		p, err := fx.NewSoapCP(fmt.Sprintf("relay-%d", len(c30Soaps)), sys.HTTP+"/")
		if err != nil {
			return nil, err
		}
		c30Soaps = append(c30Soaps, p)
	}
	return c30Soaps[i], nil
}

// c30Link is one link of the chain: a charge point and the central system's service for it.
type c30Link struct {
	id     string
	sendCP func(cpreq.ChargePointRequest) (cpresp.ChargePointResponse, error)
	sendCS func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error)
}

type c30Chain struct {
	c     c30Case
	links []c30Link
	mu    sync.Mutex
	bad   error
	seen  map[string]int // exchange and place -> times
}

func (ch *c30Chain) fail(format string, a ...interface{}) {
	ch.mu.Lock()
	if ch.bad == nil {
		ch.bad = fmt.Errorf(format, a...)
	}
	ch.mu.Unlock()
}

func (ch *c30Chain) failed() bool { ch.mu.Lock(); defer ch.mu.Unlock(); return ch.bad != nil }

// which exchange the request that arrived at a link belongs to.
func (ch *c30Chain) which(link int, fromCP bool, got interface{}) int {
	if rv := reflect.ValueOf(got); got == nil || rv.Kind() != reflect.Ptr || rv.IsNil() {
		ch.fail("the handler behind link %d got %T", link, got)
		return -1
	}
	best := -1
	have := gen.CanonOf(got)
	typ := reflect.TypeOf(got).Elem().String()
	for i, e := range ch.c.List {
		if e.FromCP != fromCP || e.Req.T != typ {
			continue
		}
		if reflect.DeepEqual(have, gen.Canon(e.Req)) {
			ch.mu.Lock()
			ch.seen[fmt.Sprint(i, "@", link)]++
			ch.mu.Unlock()
			return i
		}
		best = i
	}
	if best >= 0 {
		ch.fail("behind link %d (%s): %v", link, ch.c.Hops[link], gen.Same(ch.c.List[best].Req, got))
	} else {
		ch.fail("the handler behind link %d got a %s that nobody sent", link, typ)
	}
	return -1
}

// outcome checks what a relay's Send gave for the exchange.
func (ch *c30Chain) outcome(i, link int, resp interface{}, err error) {
	e := ch.c.List[i]
	where := fmt.Sprintf("exchange %d (%s) after link %d (%s)", i, e.Req.T, link, ch.c.Hops[link])
	switch {
	case e.Fail != "" && err == nil:
		ch.fail("%s: success although the last handler failed with %q", where, e.Fail)
	case e.Fail != "" && !strings.Contains(err.Error(), e.Fail):
		ch.fail("%s: the last handler's error is %q, the caller got %q", where, e.Fail, err.Error())
	case e.Fail == "" && err != nil:
		ch.fail("%s: Send failed: %v", where, err)
	case e.Fail == "":
		if d := gen.Same(e.Resp, resp); d != nil {
			ch.fail("%s: response: %v", where, d)
		}
	}
}

var errLost = errors.New("not a request of this case")

// onCP handles what the central system gets over link i.
func (ch *c30Chain) onCP(i int) func(cpreq.ChargePointRequest, cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
	return func(r cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		n := ch.which(i, true, r)
		if n < 0 {
			return nil, errLost
		}
		if m.ChargePointID != ch.links[i].id {
			ch.fail("link %d belongs to %q, the handler was told %q", i, ch.links[i].id, m.ChargePointID)
		}
		if i+1 < len(ch.links) {
			resp, err := ch.links[i+1].sendCP(r)
			ch.outcome(n, i+1, resp, err)
			return resp, err
		}
		if f := ch.c.List[n].Fail; f != "" {
			return nil, errors.New(f)
		}
		return gen.Build(ch.c.List[n].Resp).(cpresp.ChargePointResponse), nil
	}
}

// onCS handles what the charge point gets over link i.
func (ch *c30Chain) onCS(i int) func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
	return func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		n := ch.which(i, false, r)
		if n < 0 {
			return nil, errLost
		}
		if i+1 < len(ch.links) {
			resp, err := ch.links[i+1].sendCS(r)
			ch.outcome(n, i+1, resp, err)
			return resp, err
		}
		if f := ch.c.List[n].Fail; f != "" {
			return nil, errors.New(f)
		}
		return gen.Build(ch.c.List[n].Resp).(csresp.CentralSystemResponse), nil
	}
}

func checkC30(c c30Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	ch := &c30Chain{c: c, seen: map[string]int{}}
	ch.links = make([]c30Link, len(c.Hops))
	for i, h := range c.Hops {
		l := &ch.links[i]
		if h == "soap" {
			p, err := c30Soap(i)
			if err != nil {
				return err
			}
			l.id = p.ID
			p.SetHandler(ch.onCS(i))
			defer p.SetHandler(nil)
			svc, err := sys.Sys.GetServiceOf(p.ID, ocpp.V15, p.URL)
			if err != nil {
				return fmt.Errorf("no service for a SOAP charge point: %v", err)
			}
			l.sendCP, l.sendCS = p.CP.Send, svc.Send
		} else {
			l.id = fx.ID()
			p, err := sys.Connect(l.id, ch.onCS(i))
			if err != nil {
				return err
			}
			defer p.Cancel()
			svc, err := sys.Sys.GetServiceOf(l.id, ocpp.V16, "")
			if err != nil {
				return fmt.Errorf("no service for the connected charge point: %v", err)
			}
			l.sendCP, l.sendCS = p.CP.Send, svc.Send
		}
		sys.Handle(l.id, ch.onCP(i))
		defer sys.Handle(l.id, nil)
	}
	times := 1
	if c.Twin {
		times = 2
	}
	one := func(i int) {
		e := c.List[i]
		req := gen.Build(e.Req)
		for t := 0; t < times; t++ {
			if e.FromCP {
				resp, err := ch.links[0].sendCP(req.(cpreq.ChargePointRequest))
				ch.outcome(i, 0, resp, err)
			} else {
				resp, err := ch.links[0].sendCS(req.(csreq.CentralSystemRequest))
				ch.outcome(i, 0, resp, err)
			}
			if ch.failed() {
				return
			}
			if d := gen.Same(e.Req, req); d != nil {
				ch.fail("exchange %d: the sender's own object has changed: %v", i, d)
			}
		}
	}
	if c.Conc {
		var wg sync.WaitGroup
		for i := range c.List {
			wg.Add(1)
			go func(i int) { defer wg.Done(); one(i) }(i)
		}
		wg.Wait()
	} else {
		for i := range c.List {
			if one(i); ch.failed() {
				break
			}
		}
	}
	ch.mu.Lock()
	defer ch.mu.Unlock()
	if ch.bad != nil {
		return ch.bad
	}
	for i := range c.List {
		for j := range c.Hops {
			if n := ch.seen[fmt.Sprint(i, "@", j)]; n != times {
				return fmt.Errorf("exchange %d was handled %d times behind link %d instead of %d", i, n, j, times)
			}
		}
	}
	return nil
}

// c30Distinct drops the exchanges whose request cannot be told from an earlier one's.
func c30Distinct(l []c30Ex) (out []c30Ex) {
	for _, e := range l {
		dup := false
		for _, f := range out {
			dup = dup || f.FromCP == e.FromCP && f.Req.T == e.Req.T && reflect.DeepEqual(gen.Canon(f.Req), gen.Canon(e.Req))
		}
		if !dup {
			out = append(out, e)
		}
	}
	return
}

// ---- relays between peers of other make ----

type c30Wire struct {
	exchange
	In    string     `json:"in"`  // transport the request comes over
	Out   string     `json:"out"` // and is passed on over
	Style gen.XStyle `json:"style"`
	Fail  string     `json:"fail,omitempty"` // the receiver's error
}

type c30WireCase struct {
	List []c30Wire `json:"list"`
}

func checkC30Wire(c c30WireCase) (err error) {
	defer func() {
		if err != nil {
			dropSides()
		}
	}()
	for i, w := range c.List {
		if err := c30Pass(w); err != nil {
			return fmt.Errorf("message %d (%s from %s to %s): %w", i, w.Req.T, w.In, w.Out, err)
		}
	}
	return nil
}

func c30Pass(w c30Wire) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	k, _ := spec.ByType(w.Req.T)
	op := c13Op{Ident: fx.ID(), Req: w.Req, Resp: w.Resp, Style: w.Style, Fail: w.Fail != "", Text: w.Fail}
	// the receiver, which is not the library
	var send func(messages.Request) (messages.Response, error)
	var passed func() error // what the receiver got was right
	if w.Out == "ws" {
		s, err := getSide(!w.FromCP)
		if err != nil {
			return err
		}
		send = s.send
		res := make(chan error, 1)
		passed = func() error {
			err, late := hx.Recv(res, "the request that is passed on")
			if late != nil {
				return late
			}
			return err
		}
		stop := make(chan struct{})
		defer close(stop)
		go func() {
			var fr fx.RawFrame
			var open bool
			select {
			case fr, open = <-s.raw.Frames:
			case <-stop:
				return
			}
			if !open {
				res <- errors.New("the connection to the receiver ended")
				return
			}
			f, err := parseFrame(fr.Data)
			if err == nil && (f.Type != 2 || f.Action != w.Action) {
				err = fmt.Errorf("%s was passed on as %s", w.Action, hx.Quote(f.Raw))
			}
			if err != nil {
				res <- err
				return
			}
			answer := resultFrame(f.ID, refPayload(w.Resp))
			if w.Fail != "" {
				answer = errorFrame(f.ID, "InternalError", w.Fail, "{}")
			}
			err = conforms(w.Req, f)
			if e := s.raw.Send(answer); err == nil && e != nil {
				err = fmt.Errorf("the answer could not be sent: %v", e)
			}
			res <- err
		}()
	} else {
		f, err := theFakeHTTP()
		if err != nil {
			return err
		}
		var mu sync.Mutex
		var raws [][]byte
		f.Serve(func(rw http.ResponseWriter, rq *http.Request) {
			b, _ := io.ReadAll(rq.Body)
			mu.Lock()
			raws = append(raws, b)
			mu.Unlock()
			rw.Header().Set("Content-Type", "application/soap+xml")
			if op.Fail {
				rw.WriteHeader(500)
			}
			io.WriteString(rw, fakeReply(op, k))
		})
		defer f.Serve(nil)
		url := f.URL + "/relay"
		send = func(r messages.Request) (messages.Response, error) {
			if w.FromCP {
				p, done, err := soapCaller(op.Ident, url)
				if err != nil {
					return nil, err
				}
				defer done()
				resp, err := p.Send(r.(cpreq.ChargePointRequest))
				if resp == nil {
					return nil, err
				}
				return resp, err
			}
			svc, err := sys.Sys.GetServiceOf(op.Ident, ocpp.V15, url)
			if err != nil {
				return nil, err
			}
			resp, err := svc.Send(r.(csreq.CentralSystemRequest))
			if resp == nil {
				return nil, err
			}
			return resp, err
		}
		passed = func() error {
			mu.Lock()
			defer mu.Unlock()
			if len(raws) != 1 {
				return fmt.Errorf("the receiver got %d requests", len(raws))
			}
			doc, err := gen.ParseXML(raws[0])
			if err == nil {
				err = validDoc(k, c15Doc{Type: w.Req.T, Msg: w.Req}, doc)
			}
			if err != nil {
				return fmt.Errorf("%w (%s)", err, hx.Quote(raws[0]))
			}
			return nil
		}
	}
	relay := func(r messages.Request) (messages.Response, error) { return send(r) }
	if w.In == "ws" {
		s, err := getSide(w.FromCP)
		if err != nil {
			return err
		}
		s.setHandler(relay)
		defer s.setHandler(nil)
		id := wireID()
		if err := s.raw.Send(callFrame(id, w.Action, refPayload(w.Req))); err != nil {
			return fmt.Errorf("sending a call: %v", err)
		}
		if w.Out == "ws" {
			if err := passed(); err != nil {
				return err
			}
		}
		f, err := s.next("the answer to " + w.Action)
		if err != nil {
			return err
		}
		if w.Out == "soap" {
			if err := passed(); err != nil {
				return err
			}
		}
		if f.ID != id || f.Type != 3 && f.Type != 4 {
			return fmt.Errorf("%s was answered with %s", w.Action, hx.Quote(f.Raw))
		}
		if w.Fail != "" {
			if f.Type != 4 || f.Code != "InternalError" || !contains(f.Desc, w.Fail) {
				return fmt.Errorf("the receiver's error %q came back as %s", w.Fail, hx.Quote(f.Raw))
			}
			return nil
		}
		if f.Type != 3 {
			return fmt.Errorf("the receiver answered, the sender was told %s", hx.Quote(f.Raw))
		}
		return conforms(w.Resp, f)
	}
	var url string
	if w.FromCP {
		url = sys.HTTP + "/"
		sys.Handle(op.Ident, func(r cpreq.ChargePointRequest, _ cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			resp, err := relay(r)
			if resp == nil {
				return nil, err
			}
			return resp.(cpresp.ChargePointResponse), err
		})
		defer sys.Handle(op.Ident, nil)
	} else {
		p, err := c30Soap(0)
		if err != nil {
			return err
		}
		url = p.URL
		p.SetHandler(func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			resp, err := relay(r)
			if resp == nil {
				return nil, err
			}
			return resp.(csresp.CentralSystemResponse), err
		})
		defer p.SetHandler(nil)
	}
	rep, err := fx.Post(url, []byte(gen.Envelope(op.Ident, k.NS(), k.Action, gen.WriteXMLAs(k.XMLName(false), k.NS(), k.XMLReq, w.Req.V, w.Style), w.Style)))
	if err != nil {
		return fmt.Errorf("no reply: %w", err)
	}
	if err := passed(); err != nil {
		return err
	}
	el, err := soapBody(rep)
	if err != nil {
		return err
	}
	if w.Fail != "" {
		t, err := faultText(el)
		if err == nil && !contains(t, w.Fail) {
			err = fmt.Errorf("the receiver's error is %q, the sender was told %q", w.Fail, t)
		}
		return err
	}
	doc, err := gen.ParseXML(rep.Body)
	if err == nil {
		err = validDoc(k, c15Doc{Type: w.Req.T, Resp: true, Msg: w.Resp}, doc)
	}
	if err != nil {
		return fmt.Errorf("%w (%s)", err, hx.Quote(rep.Body))
	}
	return nil
}

func TestC30(t *testing.T) {
	hx.Run(t, hx.Part[c30WireCase]{
		Property: "C30", Name: "wire",
		Rule:   "a case is 1-4 messages of kinds of both OCPP versions, legal in both, sent by a raw peer over one transport to a handler of the library that passes on the object it gets to a raw peer at the other end, whose answer or error it returns; the bytes are judged at both ends by the schemas and service descriptions; non-trivial if a message carries a field and changes the transport",
		Budget: hx.Budget{Quick: 3000, Thorough: 60000, QuickSecs: 40},
		Draw: func(rt *rapid.T) c30WireCase {
			o := gen.Opts{XML: true, Both: true, Legal: true}
			// no status of UnlockConnector is legal in both versions
			ks := richKinds(spec.Filter(func(k *spec.Kind) bool { return slices.Contains(commonKinds, k) && k.Action != "UnlockConnector" }))
			way := rapid.SampledFrom([]string{"soap", "ws"})
			return c30WireCase{rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) c30Wire {
				w := c30Wire{exchange: drawExchange(rt, ks, o), In: way.Draw(rt, "in"), Style: gen.DrawStyle(rt)}
				w.Out = map[string]string{"ws": "soap", "soap": "ws"}[w.In]
				if rapid.IntRange(0, 5).Draw(rt, "same") == 0 {
					w.Out = w.In
				}
				if rapid.IntRange(0, 7).Draw(rt, "fails") == 0 {
					w.Fail = "E" + gen.Text(rt, "error", true, 0, false)
				}
				return w
			}), 1, 4).Draw(rt, "list")}
		},
		Classify: func(c c30WireCase) (bool, []string) {
			nt := false
			var l []exchange
			var cl []string
			for _, w := range c.List {
				l = append(l, w.exchange)
				cl = append(cl, w.In+"->"+w.Out)
				if w.Fail != "" {
					cl = append(cl, "error")
				}
				nt = nt || w.In != w.Out && gen.Weight(w.Req)+gen.Weight(w.Resp) > 0
			}
			_, k := classifyExchanges(l)
			return nt, append(cl, k...)
		},
		Check: checkC30Wire,
	})

	hx.Run(t, hx.Part[c30Case]{
		Property: "C30", Name: "relay",
		Rule:   "a case is a chain of 1-4 links (mostly 2-4), each a websocket or SOAP charge point, whose handlers pass on the very object they get over the next link and return what its Send returns, and 1-4 exchanges of any message kind of both OCPP versions in either direction (generated field values, an answer or an error at the end), one after another or at once; non-trivial if the chain has links of both transports and some message carries a field",
		Budget: hx.Budget{Quick: 2500, Thorough: 60000, QuickSecs: 45},
		Draw: func(rt *rapid.T) c30Case {
			o := gen.Opts{XML: true, Both: true, Big: rapid.IntRange(0, 4).Draw(rt, "big") == 0}
			ks := richKinds(commonKinds)
			hop := rapid.SampledFrom([]string{"soap", "ws"})
			c := c30Case{Hops: rapid.SliceOfN(hop, rapid.SampledFrom([]int{1, 2, 2, 3}).Draw(rt, "at least"), 4).Draw(rt, "hops"), Conc: rapid.Bool().Draw(rt, "concurrent"), Twin: rapid.IntRange(0, 3).Draw(rt, "twice") == 0}
			c.List = c30Distinct(rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) c30Ex {
				e := c30Ex{exchange: drawExchange(rt, ks, o)}
				if rapid.IntRange(0, 5).Draw(rt, "fails") == 0 {
					e.Fail = "E" + gen.Text(rt, "error", true, 0, false)
				}
				return e
			}), 1, 4).Draw(rt, "list"))
			return c
		},
		Classify: func(c c30Case) (bool, []string) {
			has := map[string]bool{}
			cl := []string{fmt.Sprintf("links:%d", len(c.Hops))}
			for i, h := range c.Hops {
				has[h] = true
				if i > 0 && h != c.Hops[i-1] {
					cl = append(cl, c.Hops[i-1]+"->"+h)
				}
			}
			var l []exchange
			for _, e := range c.List {
				l = append(l, e.exchange)
				if e.Fail != "" {
					cl = append(cl, "error")
				}
			}
			if c.Conc && len(c.List) > 1 {
				cl = append(cl, "at once")
			}
			nt, k := classifyExchanges(l)
			return nt && len(has) == 2, append(cl, k...)
		},
		Check: checkC30,
	})
}
