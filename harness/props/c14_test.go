package props

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp/soap"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// ---- what a document is, by an independent reading ----

// envelopeOf reads the root element and ignores what follows it.
func envelopeOf(b []byte) (*gen.Node, bool) {
	d := xml.NewDecoder(bytes.NewReader(b))
	depth, begin := 0, int64(-1)
	for {
		at := d.InputOffset()
		t, err := d.Token()
		if err != nil {
			return nil, false
		}
		switch t.(type) {
		case xml.StartElement:
			if depth++; begin < 0 {
				begin = at
			}
		case xml.EndElement:
			if depth--; depth == 0 {
				n, err := gen.ParseXML(b[begin:d.InputOffset()])
				return n, err == nil && n.Name.Local == "Envelope"
			}
		}
	}
}

// carries says whether the document is an envelope with an element of that kind in its body.
func carries(b []byte, accept func(k *spec.Kind, resp bool) bool) bool {
	doc, ok := envelopeOf(b)
	if !ok {
		return false
	}
	for _, body := range doc.Kids {
		if body.Name.Local != "Body" {
			continue
		}
		for _, e := range body.Kids {
			for _, k := range soapKinds {
				for _, resp := range []bool{false, true} {
					if e.Name.Local == k.XMLName(resp) && accept(k, resp) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- documents ----

var xmlScraps = []string{
	"", " ", "\n", "<", ">", "<a", "<a>", "</a>", "<a/>", "<Envelope/>", "<Envelope></Envelope>", "<Envelope><Body/></Envelope>", "<Envelope><Header/></Envelope>", "<Envelope><Header/><Body/></Envelope>",
	"<S:Envelope xmlns:S=\"" + gen.SOAPNS + "\"/>", "<S:Envelope xmlns:S=\"" + gen.SOAPNS + "\"><S:Body/></S:Envelope>", "<Envelope><Body><Fault/></Body></Envelope>",
	"<Envelope><Body><heartbeatRequest/></Envelope>", "<Envelope><Body>text</Body></Envelope>", "<Envelope><Body><foo/></Body></Envelope>", "<heartbeatRequest/>", "<?xml version=\"1.0\"?>",
	"<?xml version=\"1.0\" encoding=\"UTF-16\"?><Envelope/>", "<!DOCTYPE x [<!ENTITY a \"aaaa\"><!ENTITY b \"&a;&a;\">]><Envelope>&b;</Envelope>", "{}", "null", "GET / HTTP/1.1\r\n\r\n", "\x00", "\xff\xfe<\x00", "\xef\xbb\xbf<Envelope/>",
	"<Envelope><Envelope><Body><heartbeatRequest/></Body></Envelope></Envelope>", "<Envelope><Header><Body><heartbeatRequest/></Body></Header></Envelope>", "<![CDATA[<Envelope/>]]>", "<!-- x --><Envelope/>",
	"<Envelope><Body><Fault><Reason><Text>x</Text></Reason></Fault></Body></Envelope>", "<Envelope Body=\"x\"/>", "&lt;Envelope/&gt;", "<html><body>502 Bad Gateway</body></html>",
}

var edits = []string{"<", ">", "/", "&", "\"", "", "<a>", "</a>", "<Body>", "</Body>", "\x00", "\xff", "é", "]]>", "<!--", "&x;", "<?x?>", " xmlns=\"\"", "1", "-", "x", "</S:Envelope>", "<S:Body/>", "<idTag>"}

// damage changes a document at generated places.
func damage(rt *rapid.T, doc []byte) []byte {
	for n := rapid.IntRange(1, 3).Draw(rt, "edits"); n > 0; n-- {
		if len(doc) == 0 {
			return doc
		}
		i := rapid.IntRange(0, len(doc)-1).Draw(rt, "at")
		j := i + rapid.IntRange(0, 20).Draw(rt, "len")
		if j > len(doc) {
			j = len(doc)
		}
		switch rapid.IntRange(0, 5).Draw(rt, "edit") {
		case 0:
			doc = append([]byte{}, doc[:i]...)
		case 1:
			doc = append(append([]byte{}, doc[:i]...), doc[j:]...)
		case 2:
			doc = append(append(append([]byte{}, doc[:j]...), doc[i:j]...), doc[j:]...)
		case 3:
			doc = append(append(append([]byte{}, doc[:i]...), rapid.SampledFrom(edits).Draw(rt, "insert")...), doc[i:]...)
		case 4:
			doc = append([]byte{}, doc...)
			doc[i] = rapid.Byte().Draw(rt, "by")
		default: // rename an element
			if k := bytes.IndexByte(doc[i:], '<'); k >= 0 {
				k += i + 1
				doc = append(append(append([]byte{}, doc[:k]...), rapid.SampledFrom([]string{"x", "x:", "X", "/", "Fault", "S:Fault/>", "!"}).Draw(rt, "name")...), doc[k:]...)
			}
		}
	}
	return doc
}

// composed puts an envelope together from parts that may be absent, repeated or misplaced.
func composed(rt *rapid.T) []byte {
	k := rapid.SampledFrom(soapKinds).Draw(rt, "kind")
	resp := rapid.Bool().Draw(rt, "response")
	st := gen.DrawStyle(rt)
	ns := rapid.SampledFrom([]string{k.NS(), k.NS(), "", "urn:other", gen.SOAPNS}).Draw(rt, "ns")
	o := gen.Opts{XML: true, Legal: true}
	typ, shape := k.Req.String(), k.XMLReq
	if resp {
		typ, shape = k.Resp.String(), k.XMLResp
	}
	name := k.XMLName(resp)
	if rapid.IntRange(0, 4).Draw(rt, "rename") == 0 {
		name = rapid.SampledFrom([]string{strings.ToUpper(name), strings.ToLower(name), name + "s", k.Action, "request", "Fault", "Envelope", "Body"}).Draw(rt, "name")
	}
	v := gen.Draw(rt, typ, o).V
	msg := gen.WriteXMLAs(name, ns, shape, v, gen.XStyle{Text: st.Text, Indent: st.Indent})
	fault := `<S:Fault><S:Code><S:Value>S:Sender</S:Value></S:Code><S:Reason><S:Text xml:lang="en">no</S:Text></S:Reason></S:Fault>`
	header := fmt.Sprintf(`<S:Header><chargeBoxIdentity xmlns="%s">x</chargeBoxIdentity></S:Header>`, k.NS())
	bodies := []string{
		"<S:Body>" + msg + "</S:Body>", "<S:Body>" + msg + "</S:Body>", "<S:Body/>", "<S:Body></S:Body>", "", "<S:Body>" + fault + "</S:Body>", "<S:Body>" + fault + msg + "</S:Body>", "<S:Body>" + msg + fault + "</S:Body>",
		"<S:Body>" + msg + msg + "</S:Body>", "<S:Body><x>" + msg + "</x></S:Body>", "<S:Body>some text</S:Body>", msg, "<S:Body>" + gen.Esc(msg, 0) + "</S:Body>", "<S:Body><![CDATA[" + strings.ReplaceAll(msg, "]]>", "") + "]]></S:Body>",
		"<S:Body><!--" + strings.ReplaceAll(msg, "--", "") + "--></S:Body>", "<S:Body><" + name + "/></S:Body>", "<S:Body><S:Fault/></S:Body>", "<S:Body><Fault><faultstring>x</faultstring></Fault></S:Body>",
		"<S:Body><" + name + " xmlns=\"" + ns + "\"><" + name + "/></" + name + "></S:Body>", "<S:Body>" + msg + "</S:Body><S:Body>" + msg + "</S:Body>",
	}
	headers := []string{header, header, "", "<S:Header/>", header + header, "<S:Header>x</S:Header>", `<S:Header><chargeBoxIdentity><a/></chargeBoxIdentity></S:Header>`}
	parts := rapid.SampledFrom(headers).Draw(rt, "header") + rapid.SampledFrom(bodies).Draw(rt, "body")
	if rapid.IntRange(0, 4).Draw(rt, "order") == 0 {
		parts = rapid.SampledFrom(bodies).Draw(rt, "body") + rapid.SampledFrom(headers).Draw(rt, "header")
	}
	root := rapid.SampledFrom([]string{"S:Envelope", "S:Envelope", "S:Envelope", "Envelope", "S:envelope", "x"}).Draw(rt, "root")
	return []byte("<" + root + " xmlns:S=\"" + gen.SOAPNS + "\">" + parts + "</" + root + ">")
}

// spoilt replaces a typed value of a legal request by something else.
func spoilt(rt *rapid.T, k *spec.Kind, resp bool) ([]byte, bool) {
	typ, shape := k.Req.String(), k.XMLReq
	if resp {
		typ, shape = k.Resp.String(), k.XMLResp
	}
	v := gen.Draw(rt, typ, gen.Opts{XML: true, Legal: true}).V
	var places []string
	for _, f := range shape.Fields {
		if _, ok := v[f.Go]; ok && (f.Shape.Kind == spec.Int || f.Shape.Kind == spec.Time) {
			places = append(places, f.Wire)
		}
	}
	doc := gen.WriteXMLAs(k.XMLName(resp), k.NS(), shape, v, gen.XStyle{})
	if len(places) == 0 {
		return nil, false
	}
	p := rapid.SampledFrom(places).Draw(rt, "place")
	i := strings.Index(doc, "<"+p+">") + len(p) + 2
	j := strings.Index(doc[i:], "</"+p+">") + i
	bad := rapid.SampledFrom([]string{"abc", "1x", "--1", "0x10", "yesterday", "2020-13-45T00:00:00Z", "true", "١"}).Draw(rt, "bad")
	return []byte(doc[:i] + bad + doc[j:]), true
}

func drawDoc(rt *rapid.T, resp bool) (b []byte, class string) {
	k := rapid.SampledFrom(soapKinds).Draw(rt, "kind")
	typ, shape := k.Req.String(), k.XMLReq
	if resp {
		typ, shape = k.Resp.String(), k.XMLResp
	}
	wrap := func(body string) []byte {
		if resp {
			return []byte(gen.SoapReply(body))
		}
		return []byte(gen.Envelope("x", k.NS(), k.Action, body, gen.XStyle{}))
	}
	good := func() []byte {
		st := gen.DrawStyle(rt)
		return wrap(gen.WriteXMLAs(k.XMLName(resp), k.NS(), shape, gen.Draw(rt, typ, gen.Opts{XML: true, Legal: true}).V, st))
	}
	switch rapid.IntRange(0, 9).Draw(rt, "document class") {
	case 0:
		return []byte(rapid.SampledFrom(xmlScraps).Draw(rt, "scrap")), "scrap"
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "bytes"), "bytes"
	case 2, 3, 4:
		return damage(rt, good()), "damaged"
	case 5, 6, 7:
		return composed(rt), "composed"
	case 8:
		if b, ok := spoilt(rt, k, resp); ok {
			return wrap(string(b)), "ill-typed"
		}
		return nil, "scrap"
	default:
		n := 1 << uint(rapid.IntRange(4, 15).Draw(rt, "pow"))
		c := rapid.SampledFrom([]string{"<a>", "<Envelope>", "<Envelope><Body>", "&amp;", "<!--", " ", "<a/>"}).Draw(rt, "unit")
		body := strings.Repeat(c, n)
		if rapid.Bool().Draw(rt, "wrapped") {
			return wrap(body), "huge"
		}
		return []byte(body), "huge"
	}
}

// ---- a server of the library ----

type c14Doc struct {
	Data  []byte `json:"data"`
	Class string `json:"class"`
	Text  string `json:"text,omitempty"`
}

type c14Case struct {
	AtCS bool     `json:"atCS"`
	Docs []c14Doc `json:"docs"`
}

func checkC14(c c14Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	r := &soapRig{resp: libResp(minimal(handlerKind(c.AtCS, soapKinds[0]).Resp.String()))}
	url, done, err := armSoap(c.AtCS, "soap-live", r)
	if err != nil {
		return err
	}
	defer done()
	if c.AtCS {
		sys.Fallback(sysHandler(r))
		defer sys.Fallback(nil)
	}
	for i, d := range c.Docs {
		r.got, r.ids = nil, nil
		_, err := fx.Post(url, d.Data)
		if err != nil {
			return fmt.Errorf("document %d (%s): no reply: %w", i, d.Class, err)
		}
		for _, q := range r.got {
			if err := wrongDirection(c.AtCS, q); err != nil {
				return fmt.Errorf("document %d (%s): %w", i, d.Class, err)
			}
		}
		if len(r.got) > 1 {
			return fmt.Errorf("document %d (%s): the handler ran %d times", i, d.Class, len(r.got))
		}
		if len(r.got) == 1 {
			if d.Class == "ill-typed" {
				return fmt.Errorf("document %d (%s): the handler ran with %s", i, d.Class, hx.Quote(r.got[0]))
			}
			if !carries(d.Data, func(k *spec.Kind, resp bool) bool { return !resp && (k.FromCP == c.AtCS || k.Action == "DataTransfer") }) {
				return fmt.Errorf("document %d (%s) is no request, but the handler ran with %T", i, d.Class, r.got[0])
			}
		}
	}
	r.got, r.ids = nil, nil
	// the endpoint still serves
	k := receivedBy(c.AtCS)[0]
	if k.XMLReq == nil {
		return hx.Harness("%s is no SOAP action", k.Action)
	}
	m := minimal(k.Req.String())
	rep, err := fx.Post(url, []byte(gen.Envelope("soap-live", k.NS(), k.Action, gen.WriteXML(m, gen.XStyle{}), gen.XStyle{})))
	if err != nil {
		return fmt.Errorf("afterwards: no reply: %w", err)
	}
	if len(r.got) != 1 || !fx.IsSuccess(rep) {
		return fmt.Errorf("afterwards a request is not served: handler ran %d times, reply %d %s", len(r.got), rep.Status, hx.Quote(rep.Body))
	}
	return nil
}

// ---- a caller of the library ----

type c14Reply struct {
	Type   string `json:"type"` // of the request
	Mode   string `json:"mode"`
	Status int    `json:"status"`
	Doc    c14Doc `json:"doc"`
	Cut    int    `json:"cut"` // bytes announced beyond those sent, or chunks
	CType  string `json:"ctype"`
	// Good is the correct response that modes right and status carry
	Good gen.Msg `json:"good"`
}

type c14Replies struct {
	List []c14Reply `json:"list"`
}

func checkC14Client(c c14Replies) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	f, err := theFakeHTTP()
	if err != nil {
		return err
	}
	defer f.Serve(nil)
	for i, rp := range c.List {
		k, _ := spec.ByType(rp.Type)
		body := rp.Doc.Data
		if rp.Mode == "right" || rp.Mode == "short" {
			body = []byte(gen.SoapReply(gen.WriteXML(rp.Good, gen.XStyle{})))
		}
		sent := body
		f.Serve(func(w http.ResponseWriter, rq *http.Request) {
			io.Copy(io.Discard, rq.Body)
			if rp.CType != "" {
				w.Header().Set("Content-Type", rp.CType)
			}
			switch rp.Mode {
			case "hangup", "garbage":
				c, _, err := w.(http.Hijacker).Hijack()
				if err != nil {
					return
				}
				if rp.Mode == "garbage" {
					c.Write(body)
				}
				c.Close()
				return
			case "short":
				n := len(body) - 1 - rp.Cut%len(body)
				sent = body[:n]
				w.Header().Set("Content-Length", fmt.Sprint(len(body)))
				w.WriteHeader(rp.Status)
				w.Write(sent)
				return
			}
			w.WriteHeader(rp.Status)
			w.Write(body)
		})
		start := time.Now()
		got, err := soapSend(sys, k, c13Op{Ident: "x", Req: minimal(rp.Type)}, f.URL+"/y")
		what := fmt.Sprintf("reply %d (%s %d %s %s) to %s", i, rp.Mode, rp.Status, rp.Doc.Class, hx.Quote(sent), rp.Type)
		if d := time.Since(start); d > 30*time.Second {
			return fmt.Errorf("%s: the call took %v: %w", what, d, hx.Late(start, "its return"))
		}
		if err != nil {
			if got != nil && !absent(got) {
				return fmt.Errorf("%s: the call returned %s and the error %v", what, hx.Quote(got), err)
			}
			if rp.Mode == "right" && rp.Status == 200 {
				return fmt.Errorf("%s: the call failed: %v", what, err)
			}
			continue
		}
		if absent(got) {
			return fmt.Errorf("%s: the call returned neither a response nor an error", what)
		}
		if want := "*" + k.Resp.String(); fmt.Sprintf("%T", got) != want {
			return fmt.Errorf("%s: the call returned a %T", what, got)
		}
		if rp.Mode == "right" && rp.Status == 200 {
			if err := gen.Same(rp.Good, got); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			continue
		}
		if rp.Mode == "hangup" || rp.Mode == "garbage" || rp.Mode == "short" || rp.Doc.Class == "ill-typed" && len(rp.Doc.Data) > 0 {
			return fmt.Errorf("%s: the call succeeded with %s", what, hx.Quote(got))
		}
		if rp.Mode != "right" && !carries(sent, func(k2 *spec.Kind, resp bool) bool { return resp && k2.Action == k.Action }) {
			return fmt.Errorf("%s: no response, but the call succeeded with %s", what, hx.Quote(got))
		}
	}
	return nil
}

// ---- the parser ----

type c14Parse struct {
	Doc c14Doc `json:"doc"`
	Cut int    `json:"cut"`
}

func checkC14Parse(c c14Parse) error {
	_, err := soap.Unmarshal(c.Doc.Data)
	n, wf := envelopeOf(c.Doc.Data)
	_ = n
	if err == nil && !wf {
		return fmt.Errorf("%s is no envelope, but is accepted", hx.Quote(c.Doc.Data))
	}
	if wf {
		// no proper prefix of the envelope is accepted
		if end := bytes.LastIndexByte(c.Doc.Data, '>'); end > 0 {
			cut := c.Doc.Data[:c.Cut%end]
			if _, ok := envelopeOf(cut); !ok {
				if _, err := soap.Unmarshal(cut); err == nil {
					return fmt.Errorf("%s is truncated, but is accepted", hx.Quote(cut))
				}
			}
		}
	}
	return nil
}

func readable(b []byte) string {
	if len(b) < 400 {
		return fmt.Sprintf("%q", b)
	}
	return ""
}

func TestC14(t *testing.T) {
	hx.Run(t, hx.Part[c14Case]{
		Property: "C14", Name: "server",
		Rule:   "a case is 1-6 documents posted to a SOAP endpoint of the library (scraps, bytes, damaged envelopes, envelopes put together from misplaced parts, ill-typed values, huge or deep input), then a correct request; non-trivial always",
		Budget: hx.Budget{Quick: 4000, Thorough: 100000, QuickSecs: 40},
		Draw: func(rt *rapid.T) c14Case {
			c := c14Case{AtCS: rapid.Bool().Draw(rt, "atCS")}
			for n := rapid.IntRange(1, 6).Draw(rt, "n"); n > 0; n-- {
				b, cl := drawDoc(rt, rapid.IntRange(0, 5).Draw(rt, "response") == 0)
				c.Docs = append(c.Docs, c14Doc{b, cl, readable(b)})
			}
			return c
		},
		Classify: func(c c14Case) (bool, []string) {
			var cl []string
			for _, d := range c.Docs {
				cl = append(cl, fmt.Sprintf("atCS=%v %s", c.AtCS, d.Class))
			}
			return true, cl
		},
		Check: checkC14,
	})
	hx.Run(t, hx.Part[c14Replies]{
		Property: "C14", Name: "caller",
		Rule:   "a case is 1-6 calls of the library to an HTTP server that answers with a generated status and body (as above, responses of other types, faults, truncated, hang-up, no HTTP at all) or correctly; non-trivial if some answer is not correct",
		Budget: hx.Budget{Quick: 4000, Thorough: 100000, QuickSecs: 40},
		Draw: func(rt *rapid.T) c14Replies {
			var c c14Replies
			for n := rapid.IntRange(1, 6).Draw(rt, "n"); n > 0; n-- {
				k := rapid.SampledFrom(soapKinds).Draw(rt, "kind")
				rp := c14Reply{Type: k.Req.String(), Mode: rapid.SampledFrom([]string{"doc", "doc", "doc", "doc", "other", "right", "short", "hangup", "garbage"}).Draw(rt, "mode"), Status: 200}
				rp.CType = rapid.SampledFrom([]string{"application/soap+xml", "text/html", "", "application/json"}).Draw(rt, "ctype")
				if rapid.IntRange(0, 2).Draw(rt, "bad status") == 0 {
					rp.Status = rapid.SampledFrom([]int{200, 201, 202, 204, 205, 206, 226, 300, 304, 400, 401, 403, 404, 405, 415, 500, 502, 503, 504, 599}).Draw(rt, "status")
				}
				switch rp.Mode {
				case "right", "short":
					rp.Good = gen.Draw(rt, k.Resp.String(), gen.Opts{Legal: true, XML: true})
					rp.Cut = rapid.IntRange(0, 5000).Draw(rt, "cut")
				case "other":
					k2 := rapid.SampledFrom(soapKinds).Draw(rt, "other kind")
					m := gen.Draw(rt, k2.Resp.String(), gen.Opts{Legal: true, XML: true})
					if rapid.IntRange(0, 3).Draw(rt, "request") == 0 {
						m = gen.Draw(rt, k2.Req.String(), gen.Opts{Legal: true, XML: true})
					}
					b := []byte(gen.SoapReply(gen.WriteXML(m, gen.DrawStyle(rt))))
					rp.Doc = c14Doc{b, "other type", readable(b)}
				case "doc", "garbage":
					b, cl := drawDoc(rt, rapid.IntRange(0, 4).Draw(rt, "response") > 0)
					rp.Doc = c14Doc{b, cl, readable(b)}
				}
				c.List = append(c.List, rp)
			}
			return c
		},
		Classify: func(c c14Replies) (bool, []string) {
			nt := false
			var cl []string
			for _, r := range c.List {
				nt = nt || r.Mode != "right" || r.Status != 200
				cl = append(cl, "mode="+r.Mode, fmt.Sprintf("status=%dxx", r.Status/100))
			}
			return nt, cl
		},
		Check: checkC14Client,
	})
	hx.Run(t, hx.Part[c14Parse]{
		Property: "C14", Name: "parser",
		Rule:   "a case is one document as above given to soap.Unmarshal, and a generated prefix of it; non-trivial if it is not empty",
		Budget: hx.Budget{Quick: 30000, Thorough: 2000000, QuickSecs: 25},
		Draw: func(rt *rapid.T) c14Parse {
			b, cl := drawDoc(rt, rapid.Bool().Draw(rt, "response"))
			return c14Parse{c14Doc{b, cl, readable(b)}, rapid.IntRange(0, 1<<16).Draw(rt, "cut")}
		},
		Classify: func(c c14Parse) (bool, []string) { return len(c.Doc.Data) > 0, []string{c.Doc.Class} },
		Check:    checkC14Parse,
	})
}

var _ = errors.New
