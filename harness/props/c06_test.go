package props

import (
	"fmt"
	"reflect"
	"testing"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

type c06Step struct {
	Soap  bool       `json:"soap"`
	Wrong bool       `json:"wrong"` // an action of the other direction
	Type  string     `json:"type"`
	Req   gen.Msg    `json:"req"`
	Resp  gen.Msg    `json:"resp"`  // what the handler answers if it is called
	Style gen.XStyle `json:"style"` // of the document
	Ident string     `json:"ident"` // SOAP identity
	NS    int        `json:"ns"`    // wrong SOAP requests: 0 own namespace, 1 that of the endpoint
	AsIs  bool       `json:"asis"`  // SOAP: a response document is posted instead of a request
}

type c06Case struct {
	AtCS  bool      `json:"atCS"`
	Steps []c06Step `json:"steps"`
}

func absent(r interface{}) bool {
	return r == nil || reflect.ValueOf(r).Kind() == reflect.Ptr && reflect.ValueOf(r).IsNil()
}

// soapRig answers SOAP requests of the endpoints with a script.
type soapRig struct {
	got  []messages.Request
	ids  []string
	resp messages.Response
	err  error
}

func armSoap(atCS bool, ident string, r *soapRig) (url string, done func(), err error) {
	if atCS {
		sys, err := fx.TheCS()
		if err != nil {
			return "", nil, err
		}
		sys.Handle(ident, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			r.got, r.ids = append(r.got, q), append(r.ids, m.ChargePointID)
			if r.resp == nil {
				return nil, r.err
			}
			return r.resp.(cpresp.ChargePointResponse), r.err
		})
		return sys.HTTP + "/", func() { sys.Handle(ident, nil) }, nil
	}
	p, err := fx.TheSoapCP()
	if err != nil {
		return "", nil, err
	}
	p.SetHandler(func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		r.got = append(r.got, q)
		if r.resp == nil {
			return nil, r.err
		}
		return r.resp.(csresp.CentralSystemResponse), r.err
	})
	return p.URL, func() { p.SetHandler(nil) }, nil
}

// direction check of a handler argument
func wrongDirection(atCS bool, r messages.Request) error {
	if absent(r) {
		return fmt.Errorf("the handler was called without a request")
	}
	k, resp := spec.ByType(reflect.TypeOf(r).Elem().String())
	if k == nil || resp || k.FromCP != atCS {
		return fmt.Errorf("the handler got a %T", r)
	}
	return nil
}

func checkC06(c c06Case) (err error) {
	defer func() {
		if err != nil {
			dropSides()
		}
	}()
	s, err := getSide(c.AtCS)
	if err != nil {
		return err
	}
	for i, st := range c.Steps {
		k, _ := spec.ByType(st.Type)
		what := fmt.Sprintf("step %d (%s, wrong direction %v, soap %v)", i, st.Type, st.Wrong, st.Soap)
		if st.Soap {
			if err := c06Soap(c.AtCS, k, st); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			continue
		}
		resp := libResp(minimal(handlerKind(c.AtCS, k).Resp.String()))
		if !st.Wrong {
			resp = libResp(st.Resp)
		}
		s.setHandler(func(messages.Request) (messages.Response, error) { return resp, nil })
		id := wireID()
		if err := s.raw.Send(callFrame(id, k.Action, refPayload(st.Req))); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		var answer *frame
		err := s.barrier(func(f *frame) bool {
			if f.ID == id && answer == nil {
				answer = f
				return true
			}
			return false
		})
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		got := s.taken()
		for _, r := range got {
			if err := wrongDirection(c.AtCS, r); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
		if answer == nil {
			return fmt.Errorf("%s: no answer", what)
		}
		if st.Wrong {
			if answer.Type != 4 {
				return fmt.Errorf("%s: answered with %s", what, hx.Quote(answer.Raw))
			}
			if len(got) != 0 {
				return fmt.Errorf("%s: the handler ran", what)
			}
			continue
		}
		if answer.Type != 3 {
			return fmt.Errorf("%s: answered with %s", what, hx.Quote(answer.Raw))
		}
		if len(got) != 1 {
			return fmt.Errorf("%s: the handler ran %d times", what, len(got))
		}
		if err := gen.Same(st.Req, got[0]); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
	}
	return s.barrier(nil)
}

// handlerKind is a kind whose response the endpoint's handler may return.
func handlerKind(atCS bool, k *spec.Kind) *spec.Kind {
	if k.FromCP == atCS {
		return k
	}
	return receivedBy(atCS)[0]
}

func c06Soap(atCS bool, k *spec.Kind, st c06Step) error {
	r := &soapRig{resp: libResp(minimal(handlerKind(atCS, k).Resp.String()))}
	if !st.Wrong && !st.AsIs {
		r.resp = libResp(st.Resp)
	}
	url, done, err := armSoap(atCS, st.Ident, r)
	if err != nil {
		return err
	}
	defer done()
	ns := k.NS()
	if st.Wrong && st.NS == 1 {
		if ns == "urn://Ocpp/Cs/2012/06/" {
			ns = "urn://Ocpp/Cp/2012/06/"
		} else {
			ns = "urn://Ocpp/Cs/2012/06/"
		}
	}
	m, shape := st.Req, k.XMLReq
	if st.AsIs {
		m, shape = st.Resp, k.XMLResp
	}
	body := gen.WriteXMLAs(k.XMLName(st.AsIs), ns, shape, m.V, st.Style)
	rep, err := fx.Post(url, []byte(gen.Envelope(st.Ident, ns, k.Action, body, st.Style)))
	if err != nil {
		return fmt.Errorf("the endpoint does not answer HTTP requests: %w", err)
	}
	for _, q := range r.got {
		if err := wrongDirection(atCS, q); err != nil {
			return err
		}
	}
	if st.Wrong || st.AsIs {
		if fx.IsSuccess(rep) {
			return fmt.Errorf("got a successful response %d %s", rep.Status, hx.Quote(rep.Body))
		}
		if len(r.got) != 0 {
			return fmt.Errorf("the handler ran with %T", r.got[0])
		}
		return nil
	}
	if len(r.got) != 1 {
		return fmt.Errorf("the handler ran %d times (reply %d %s)", len(r.got), rep.Status, hx.Quote(rep.Body))
	}
	if !fx.IsSuccess(rep) {
		return fmt.Errorf("no successful response: %d %s", rep.Status, hx.Quote(rep.Body))
	}
	return gen.Same(st.Req, r.got[0])
}

func TestC06(t *testing.T) {
	hx.Run(t, hx.Part[c06Case]{
		Property: "C06", Name: "directions",
		Rule:   "a case is 1-6 requests of a raw peer to one library endpoint, over websocket or SOAP, of its own or of the other direction, with generated payloads; non-trivial if at least one is of the other direction",
		Budget: hx.Budget{Quick: 6000, Thorough: 150000, QuickSecs: 60},
		Draw: func(rt *rapid.T) c06Case {
			c := c06Case{AtCS: rapid.Bool().Draw(rt, "atCS")}
			for n := rapid.IntRange(1, 6).Draw(rt, "n"); n > 0; n-- {
				st := c06Step{Soap: rapid.Bool().Draw(rt, "soap"), Wrong: rapid.IntRange(0, 2).Draw(rt, "wrong") > 0}
				ks, o := jsonKinds, gen.Opts{Legal: true}
				if st.Soap {
					ks, o = soapKinds, gen.Opts{Legal: true, XML: true}
					st.Style = gen.DrawStyle(rt)
					st.Ident = fx.ID()
				}
				var pool []*spec.Kind
				for _, k := range ks {
					if (k.FromCP == c.AtCS) != st.Wrong {
						pool = append(pool, k)
					}
				}
				k := rapid.SampledFrom(pool).Draw(rt, "kind")
				st.Type = k.Req.String()
				st.Req, st.Resp = gen.Draw(rt, st.Type, o), gen.Draw(rt, k.Resp.String(), o)
				if st.Soap && st.Wrong {
					// DataTransfer exists in both directions, told apart by the namespace
					if k.Action != "DataTransfer" {
						st.NS = rapid.IntRange(0, 1).Draw(rt, "ns")
					}
				}
				if st.Soap {
					st.AsIs = rapid.IntRange(0, 5).Draw(rt, "response document") == 0
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		},
		Classify: func(c c06Case) (bool, []string) {
			nt := false
			cl := []string{fmt.Sprintf("atCS=%v", c.AtCS)}
			for _, s := range c.Steps {
				nt = nt || s.Wrong
				cl = append(cl, fmt.Sprintf("soap=%v wrong=%v", s.Soap, s.Wrong))
			}
			return nt, cl
		},
		Check: checkC06,
	})
}

// sysHandler is the handler of a soapRig for the central system.
func sysHandler(r *soapRig) fx.CSHandler {
	return func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		r.got, r.ids = append(r.got, q), append(r.ids, m.ChargePointID)
		if r.resp == nil {
			return nil, r.err
		}
		return r.resp.(cpresp.ChargePointResponse), r.err
	}
}
