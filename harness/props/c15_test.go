package props

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"testing"

	"pgregory.net/rapid"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

type c15Doc struct {
	Type  string     `json:"type"` // of the request
	Resp  bool       `json:"resp"` // the response is the document under test
	Msg   gen.Msg    `json:"msg"`
	Style gen.XStyle `json:"style"` // incoming documents
	Ident string     `json:"ident"`
}

type c15Case struct {
	Out  bool     `json:"out"` // written by the library, or read by it
	List []c15Doc `json:"list"`
}

func checkC15(c c15Case) error {
	for i, d := range c.List {
		f := c15In
		if c.Out {
			f = c15Out
		}
		if err := f(d); err != nil {
			return fmt.Errorf("document %d (%s): %w", i, d.Msg.T, err)
		}
	}
	return nil
}

// c15Out lets the library write the document.
func c15Out(d c15Doc) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	k, _ := spec.ByType(d.Type)
	if d.Resp {
		r := &soapRig{resp: libResp(d.Msg)}
		url, done, err := armSoap(k.FromCP, d.Ident, r)
		if err != nil {
			return err
		}
		defer done()
		rep, err := fx.Post(url, []byte(gen.Envelope(d.Ident, k.NS(), k.Action, gen.WriteXML(minimal(d.Type), gen.XStyle{}), gen.XStyle{})))
		if err != nil {
			return fmt.Errorf("no reply: %w", err)
		}
		doc, err := gen.ParseXML(rep.Body)
		if err != nil {
			return fmt.Errorf("%w (%s)", err, hx.Quote(rep.Body))
		}
		if err := validDoc(k, d, doc); err != nil {
			return fmt.Errorf("%w (%s)", err, hx.Quote(rep.Body))
		}
		return nil
	}
	f, err := theFakeHTTP()
	if err != nil {
		return err
	}
	var raw []byte
	f.Serve(func(w http.ResponseWriter, rq *http.Request) {
		raw, _ = io.ReadAll(rq.Body)
		io.WriteString(w, gen.SoapReply(gen.WriteXML(minimal(k.Resp.String()), gen.XStyle{})))
	})
	defer f.Serve(nil)
	_, err = soapSend(sys, k, c13Op{Ident: d.Ident, Req: d.Msg}, f.URL+"/z")
	if raw == nil {
		return fmt.Errorf("nothing was sent: %v", err)
	}
	if err != nil {
		return fmt.Errorf("the call failed: %v", err)
	}
	doc, err := gen.ParseXML(raw)
	if err == nil {
		err = validDoc(k, d, doc)
	}
	if err != nil {
		return fmt.Errorf("%w (%s)", err, hx.Quote(raw))
	}
	h := doc.Kid("Header")
	if h == nil || h.Name.Space != gen.SOAPNS {
		return fmt.Errorf("the request has no header (%s)", hx.Quote(raw))
	}
	n := 0
	for _, e := range h.Kids {
		if e.Name.Local != "chargeBoxIdentity" {
			continue
		}
		n++
		if e.Name.Space != k.NS() {
			return fmt.Errorf("the chargeBoxIdentity header is in %q instead of %q", e.Name.Space, k.NS())
		}
		if e.Text != d.Ident {
			return fmt.Errorf("the chargeBoxIdentity header is %q instead of %q", e.Text, d.Ident)
		}
	}
	if n != 1 {
		return fmt.Errorf("the request has %d chargeBoxIdentity headers", n)
	}
	return nil
}

// validDoc checks an envelope against the service description and the message it stands for.
func validDoc(k *spec.Kind, d c15Doc, doc *gen.Node) error {
	if doc.Name.Local != "Envelope" || doc.Name.Space != gen.SOAPNS {
		return fmt.Errorf("the root element is %v", doc.Name)
	}
	var body *gen.Node
	for i, e := range doc.Kids {
		if e.Name.Space != gen.SOAPNS {
			return fmt.Errorf("%v in the envelope", e.Name)
		}
		if e.Name.Local == "Body" && i == len(doc.Kids)-1 {
			body = e
		} else if e.Name.Local != "Header" || i != 0 {
			return fmt.Errorf("%v in the envelope", e.Name)
		}
	}
	if body == nil || len(body.Kids) != 1 {
		return errors.New("not exactly one element in the body")
	}
	e, shape := body.Kids[0], k.XMLReq
	if d.Resp {
		shape = k.XMLResp
	}
	if e.Name.Local != k.XMLName(d.Resp) || e.Name.Space != k.NS() {
		return fmt.Errorf("the body is %v", e.Name)
	}
	v, err := gen.ReadXML(shape, e, k.NS(), k.XMLName(d.Resp))
	if err != nil {
		return err
	}
	return gen.Same(gen.Msg{T: d.Msg.T, V: v.(map[string]interface{})}, gen.Build(d.Msg))
}

// c15In gives the library a document of a foreign implementation.
func c15In(d c15Doc) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	k, _ := spec.ByType(d.Type)
	body := gen.WriteXML(d.Msg, d.Style)
	if d.Resp {
		f, err := theFakeHTTP()
		if err != nil {
			return err
		}
		f.Serve(func(w http.ResponseWriter, rq *http.Request) {
			io.Copy(io.Discard, rq.Body)
			w.Header().Set("Content-Type", "application/soap+xml; charset=utf-8")
			io.WriteString(w, gen.SoapReply(body))
		})
		defer f.Serve(nil)
		got, err := soapSend(sys, k, c13Op{Ident: d.Ident, Req: minimal(d.Type)}, f.URL+"/z")
		if err != nil {
			return fmt.Errorf("not accepted: %v (%s)", err, hx.Quote(body))
		}
		if err := gen.Same(d.Msg, got); err != nil {
			return fmt.Errorf("%w (%s)", err, hx.Quote(body))
		}
		return nil
	}
	r := &soapRig{resp: libResp(minimal(k.Resp.String()))}
	url, done, err := armSoap(k.FromCP, d.Ident, r)
	if err != nil {
		return err
	}
	defer done()
	rep, err := fx.Post(url, []byte(gen.Envelope(d.Ident, k.NS(), k.Action, body, d.Style)))
	if err != nil {
		return fmt.Errorf("no reply: %w", err)
	}
	if len(r.got) != 1 {
		return fmt.Errorf("not accepted: the handler ran %d times, reply %d %s (%s)", len(r.got), rep.Status, hx.Quote(rep.Body), hx.Quote(body))
	}
	if err := gen.Same(d.Msg, r.got[0]); err != nil {
		return fmt.Errorf("%w (%s)", err, hx.Quote(body))
	}
	if !fx.IsSuccess(rep) {
		return fmt.Errorf("no success: %d %s", rep.Status, hx.Quote(rep.Body))
	}
	return nil
}

func partC15(name string, out bool, rule string) hx.Part[c15Case] {
	return hx.Part[c15Case]{
		Property: "C15", Name: name, Rule: rule,
		Budget: hx.Budget{Quick: 4000, Thorough: 100000, QuickSecs: 40},
		Draw: func(rt *rapid.T) c15Case {
			c := c15Case{Out: out}
			for n := rapid.IntRange(1, 4).Draw(rt, "n"); n > 0; n-- {
				k := rapid.SampledFrom(richKinds(soapKinds)).Draw(rt, "kind")
				d := c15Doc{Type: k.Req.String(), Resp: rapid.Bool().Draw(rt, "resp"), Style: gen.DrawStyle(rt), Ident: fx.ID()}
				if rapid.Bool().Draw(rt, "rich identity") {
					d.Ident += gen.Text(rt, "ident", true, 0, false)
				}
				t := d.Type
				if d.Resp {
					t = k.Resp.String()
				}
				d.Msg = gen.Draw(rt, t, gen.Opts{XML: true, Legal: true, ZeroOptional: !out, Big: true})
				c.List = append(c.List, d)
			}
			return c
		},
		Classify: func(c c15Case) (bool, []string) {
			nt := false
			var cl []string
			for _, d := range c.List {
				nt = nt || gen.Weight(d.Msg) > 0
				cl = append(cl, d.Msg.T)
			}
			return nt, cl
		},
		Check: checkC15,
	}
}

func TestC15(t *testing.T) {
	hx.Run(t, partC15("emitted", true, "a case is 1-4 documents the library writes (requests of library callers captured by a raw server, responses of library servers captured by a raw client) for legal OCPP 1.5 values, checked against the service descriptions; non-trivial if some message has a field"))
	hx.Run(t, partC15("accepted", false, "a case is 1-4 documents generated from the service descriptions in the spellings XML allows (prefixes, comments, CDATA, character references, white space, self-closing) given to the library as request or response; non-trivial if some message has a field"))
}
