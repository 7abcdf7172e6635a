package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
)

// c26Req is what is particular about an HTTP request.
type c26Req struct {
	Ident  int      `json:"ident"` // which identity, websocket
	Text   string   `json:"text"`  // the identity (SOAP), or a part of it
	Escape bool     `json:"escape,omitempty"`
	Path   string   `json:"path,omitempty"` // SOAP
	Query  string   `json:"query,omitempty"`
	Host   string   `json:"host"`
	Heads  []string `json:"heads,omitempty"`
	Method string   `json:"method,omitempty"`
}

type c26Send struct {
	Conn int     `json:"conn"` // over a websocket connection, opened if need be; -1: SOAP
	Soap *c26Req `json:"soap,omitempty"`
	Lane int     `json:"lane,omitempty"` // SOAP requests of a lane share a connection
	Fail bool    `json:"fail,omitempty"`
}

type c26Step struct {
	Close int       `json:"close"` // a websocket connection, or -1
	Sends []c26Send `json:"sends,omitempty"`
}

type c26Case struct {
	Idents []string  `json:"idents"`
	Conns  []c26Req  `json:"conns"`
	Steps  []c26Step `json:"steps"`
}

var c26Names = []string{"X-Tag", "x-api-key", "Authorization", "Cookie", "Origin", "User-Agent", "Forwarded", "X-Forwarded-For", "X-Real-IP", "Accept-Language", "SOAPAction", "Via", "X_Under", "TE", "Referer", "From", "If-Match", "X-Charge-Point-Id", "Date", "Sec-Websocket-Extensions", "Trace.Parent"}
var c26Values = []string{"", "a", "b", "secret-1", "Basic eDp5", "k=v; k2=v2", "\"quoted, comma\"", "é", "a  b", "10.0.0.1", "10.0.0.2, 10.0.0.3", "*", "<x>", "%41", "permessage-deflate", strings.Repeat("long", 300)}

func drawC26Heads(rt *rapid.T) []string {
	var l []string
	for n := rapid.IntRange(0, 6).Draw(rt, "heads"); n > 0; n-- {
		l = append(l, rapid.SampledFrom(c26Names).Draw(rt, "name")+": "+rapid.SampledFrom(c26Values).Draw(rt, "value"))
	}
	return l
}

var c26Hosts = []string{"cs.example", "127.0.0.1", "CS.Example:8080", "[::1]:80", "xn--bcher-kva.example", "a", "10.0.0.1:1"}

func drawC26Query(rt *rapid.T) string {
	return rapid.SampledFrom([]string{"", "", "a=b", "a=b&a=c", "x=%2F", "token=s%20t", "=", "a;b", "?"}).Draw(rt, "query")
}

func drawC26(rt *rapid.T) c26Case {
	var c c26Case
	for n := rapid.IntRange(1, 3).Draw(rt, "identities"); n > 0; n-- {
		id := drawIdentity(rt)
		if !pathSafe("x" + id) {
			id = ""
		}
		c.Idents = append(c.Idents, id)
	}
	for n := rapid.IntRange(1, 5).Draw(rt, "connections"); n > 0; n-- {
		c.Conns = append(c.Conns, c26Req{Ident: rapid.IntRange(0, len(c.Idents)-1).Draw(rt, "identity"), Escape: rapid.Bool().Draw(rt, "escape"),
			Query: drawC26Query(rt), Host: rapid.SampledFrom(c26Hosts).Draw(rt, "host"), Heads: drawC26Heads(rt)})
	}
	for n := rapid.IntRange(1, 8).Draw(rt, "steps"); n > 0; n-- {
		st := c26Step{Close: -1}
		if rapid.IntRange(0, 6).Draw(rt, "close") == 0 {
			st.Close = rapid.IntRange(0, len(c.Conns)-1).Draw(rt, "which")
		}
		used := map[string]bool{}
		for m := rapid.IntRange(1, 6).Draw(rt, "sends"); m > 0; m-- {
			s := c26Send{Conn: -1, Fail: rapid.IntRange(0, 4).Draw(rt, "fail") == 0}
			key := ""
			if rapid.IntRange(0, 9).Draw(rt, "soap") < 4 {
				s.Lane = rapid.IntRange(0, 2).Draw(rt, "lane")
				path, _, _ := strings.Cut(drawPath(rt), "?")
				s.Soap = &c26Req{Text: gen.Text(rt, "identity", true, 12, false), Path: path, Query: drawC26Query(rt),
					Host: rapid.SampledFrom(c26Hosts).Draw(rt, "host"), Heads: drawC26Heads(rt),
					Method: rapid.SampledFrom([]string{"POST", "POST", "POST", "PUT", "PATCH"}).Draw(rt, "method")}
				key = fmt.Sprint("lane", s.Lane)
			} else {
				s.Conn = rapid.IntRange(0, len(c.Conns)-1).Draw(rt, "conn")
				key = fmt.Sprint("conn", s.Conn)
			}
			if !used[key] {
				st.Sends = append(st.Sends, s)
			}
			used[key] = true
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

// escaped writes a path, each byte that is not a slash as an escape if every.
func escaped(text string, every bool) string {
	if !every {
		return (&url.URL{Path: text}).EscapedPath()
	}
	var b strings.Builder
	for i := 0; i < len(text); i++ {
		if text[i] == '/' {
			b.WriteByte('/')
		} else {
			fmt.Fprintf(&b, "%%%02x", text[i])
		}
	}
	return b.String()
}

// c26Sent is a request as it was sent.
type c26Sent struct {
	Method, URI, Host, Addr, ID string
	Header                      http.Header
}

func (s *c26Sent) matches(r *http.Request) error {
	if r == nil {
		return errors.New("there is none")
	}
	u, err := url.ParseRequestURI(s.URI)
	if err != nil {
		return hx.Harness("%v", err)
	}
	switch {
	case r.Method != s.Method:
		return fmt.Errorf("its method is %q instead of %q", r.Method, s.Method)
	case r.RequestURI != s.URI:
		return fmt.Errorf("its target is %q instead of %q", r.RequestURI, s.URI)
	case r.URL == nil || r.URL.Path != u.Path || r.URL.EscapedPath() != u.EscapedPath() || r.URL.RawQuery != u.RawQuery:
		return fmt.Errorf("its URL is %v instead of %v", r.URL, u)
	case r.Host != s.Host:
		return fmt.Errorf("its host is %q instead of %q", r.Host, s.Host)
	case r.RemoteAddr != s.Addr:
		return fmt.Errorf("its remote address is %q instead of %q", r.RemoteAddr, s.Addr)
	case r.Proto != "HTTP/1.1" || r.TLS != nil:
		return fmt.Errorf("its protocol is %s %v", r.Proto, r.TLS)
	}
	names := map[string]bool{}
	for n := range s.Header {
		names[n] = true
	}
	for n := range r.Header {
		names[n] = true
	}
	delete(names, "Content-Length")
	delete(names, "Transfer-Encoding")
	for n := range names {
		if fmt.Sprintf("%q", r.Header[n]) != fmt.Sprintf("%q", s.Header[n]) {
			return fmt.Errorf("its header %s has the values %q instead of %q", n, r.Header[n], s.Header[n])
		}
	}
	return nil
}

type c26Got struct {
	tag string
	req *http.Request
}

func checkC26(c c26Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	var mu sync.Mutex
	sent := map[string]*c26Sent{} // by tag
	var got []c26Got
	var bad []error
	inside, expected := 0, 0
	handler := func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, ok := q.(*cpreq.Authorize)
		if !ok {
			return nil, errors.New("not mine")
		}
		mu.Lock()
		want := sent[a.IdTag]
		judge := func(when string) {
			if want == nil {
				bad = append(bad, fmt.Errorf("the handler got a request that was not sent: %s", hx.Quote(q)))
			} else if err := want.matches(m.HTTPRequest); err != nil {
				bad = append(bad, fmt.Errorf("the HTTP request that the handler got %s with message %s of %q is not the one that brought it: %w", when, a.IdTag, m.ChargePointID, err))
			} else if m.ChargePointID != want.ID {
				bad = append(bad, fmt.Errorf("message %s of %q came as one of %q", a.IdTag, want.ID, m.ChargePointID))
			} else if err := m.HTTPRequest.Context().Err(); err != nil {
				bad = append(bad, fmt.Errorf("the context of the HTTP request that the handler got %s with message %s of %q is done although its sender waits: %v", when, a.IdTag, m.ChargePointID, err))
			}
		}
		judge("at first")
		got = append(got, c26Got{a.IdTag, m.HTTPRequest})
		inside++
		mu.Unlock()
		for start := time.Now(); time.Since(start) < 500*time.Millisecond; time.Sleep(200 * time.Microsecond) {
			mu.Lock()
			all := inside >= expected
			mu.Unlock()
			if all {
				break
			}
		}
		mu.Lock()
		judge("after others had come")
		mu.Unlock()
		if strings.HasSuffix(a.IdTag, "!") {
			return nil, errors.New("refused")
		}
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted"}}, nil
	}
	var own []string
	handle := func(id string) {
		sys.Handle(id, handler)
		own = append(own, id)
	}
	defer func() {
		for _, id := range own {
			sys.Handle(id, nil)
		}
	}()
	idents := make([]string, len(c.Idents))
	for i, text := range c.Idents {
		idents[i] = fx.ID() + text
		handle(idents[i])
	}
	conns := make([]*rawWS, len(c.Conns))
	opened := make([]*c26Sent, len(c.Conns))
	lanes := map[int]net.Conn{}
	defer func() {
		for _, x := range conns {
			if x != nil {
				x.Close()
			}
		}
		for _, x := range lanes {
			x.Close()
		}
	}()
	head := func(s *c26Sent, q c26Req, more ...string) []byte {
		var b bytes.Buffer
		s.Host = q.Host
		s.Header = http.Header{}
		if q.Query != "" {
			s.URI += "?" + q.Query
		}
		fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\n", s.Method, s.URI, s.Host)
		for _, l := range append(append([]string(nil), q.Heads...), more...) {
			b.WriteString(l + "\r\n")
			n, v, _ := strings.Cut(l, ":")
			s.Header.Add(n, strings.TrimSpace(v))
		}
		b.WriteString("\r\n")
		return b.Bytes()
	}
	open := func(i int) error {
		q := c.Conns[i]
		s := &c26Sent{Method: "GET", URI: "/" + escaped(idents[q.Ident], q.Escape), ID: idents[q.Ident]}
		b := head(s, q, "Connection: Upgrade", "Upgrade: websocket", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==", "Sec-WebSocket-Protocol: ocpp1.6")
		conn, err := net.DialTimeout("tcp", sys.Addr, hx.Patience())
		if err != nil {
			return hx.Harness("%v", err)
		}
		s.Addr = conn.LocalAddr().String()
		conn.SetDeadline(time.Now().Add(60 * time.Second))
		conn.Write(b)
		br := bufio.NewReader(conn)
		resp, err := http.ReadResponse(br, &http.Request{Method: "GET"})
		if err != nil || resp.StatusCode != 101 {
			conn.Close()
			return fmt.Errorf("the websocket upgrade %q got no connection: %v %v", b, resp, err)
		}
		conns[i], opened[i] = &rawWS{conn, br}, s
		return nil
	}
	serial := 0
	tag := func(fail bool) string {
		serial++
		t := fmt.Sprintf("t%d", serial)
		if fail {
			t += "!"
		}
		return t
	}
	const ns = "urn://Ocpp/Cs/2012/06/"
	for k, st := range c.Steps {
		if st.Close >= 0 && conns[st.Close] != nil {
			conns[st.Close].Close()
			conns[st.Close] = nil
		}
		for _, s := range st.Sends {
			if s.Conn >= 0 && conns[s.Conn] == nil {
				if err := open(s.Conn); err != nil {
					return err
				}
			}
		}
		mu.Lock()
		inside, expected = 0, len(st.Sends)
		mu.Unlock()
		errs := make(chan error, len(st.Sends))
		for _, s := range st.Sends {
			t := tag(s.Fail)
			if s.Conn >= 0 {
				mu.Lock()
				sent[t] = opened[s.Conn]
				mu.Unlock()
				go func() {
					x := conns[s.Conn]
					id := wireID()
					x.SetDeadline(time.Now().Add(60 * time.Second))
					if err := x.writeText(callFrame(id, "Authorize", `{"idTag":"`+t+`"}`)); err != nil {
						errs <- fmt.Errorf("message %s could not be sent: %v", t, err)
						return
					}
					b, err := x.readText()
					if err != nil {
						errs <- fmt.Errorf("message %s got no answer: %v", t, err)
						return
					}
					f, err := parseFrame(b)
					if err == nil && (f.ID != id || (f.Type == 3) == s.Fail) {
						err = fmt.Errorf("message %s was answered with %s", t, hx.Quote(b))
					}
					errs <- err
				}()
				continue
			}
			q := *s.Soap
			r := &c26Sent{Method: q.Method, URI: q.Path, ID: fx.ID() + q.Text}
			handle(r.ID)
			doc := gen.Envelope(r.ID, ns, "Authorize", `<authorizeRequest xmlns="`+ns+`"><idTag>`+t+`</idTag></authorizeRequest>`, gen.XStyle{})
			b := append(head(r, q, "Content-Type: application/soap+xml", fmt.Sprint("Content-Length: ", len(doc))), doc...)
			conn := lanes[s.Lane]
			if conn == nil {
				if conn, err = net.DialTimeout("tcp", sys.Addr, hx.Patience()); err != nil {
					return hx.Harness("%v", err)
				}
				lanes[s.Lane] = conn
			}
			conn.SetDeadline(time.Now().Add(60 * time.Second))
			r.Addr = conn.LocalAddr().String()
			mu.Lock()
			sent[t] = r
			mu.Unlock()
			go func() {
				conn.Write(b)
				resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: q.Method})
				if err != nil {
					errs <- fmt.Errorf("message %s got no answer: %v", t, err)
					return
				}
				body, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				if err == nil && bytes.Contains(body, []byte("Accepted")) == s.Fail {
					err = fmt.Errorf("message %s was answered with %s", t, body)
				}
				errs <- err
			}()
		}
		for range st.Sends {
			if err := <-errs; err != nil {
				mu.Lock()
				defer mu.Unlock()
				if len(bad) > 0 {
					return bad[0]
				}
				return fmt.Errorf("step %d: %w", k, err)
			}
		}
		mu.Lock()
		n := inside
		var first error
		if len(bad) > 0 {
			first = bad[0]
		}
		mu.Unlock()
		if first != nil {
			return fmt.Errorf("step %d: %w", k, first)
		}
		if n != len(st.Sends) {
			return fmt.Errorf("step %d: the handler ran %d times for %d messages", k, n, len(st.Sends))
		}
	}
	mu.Lock()
	defer mu.Unlock()
	sort.Slice(got, func(i, j int) bool { return got[i].tag < got[j].tag })
	for _, g := range got {
		if err := sent[g.tag].matches(g.req); err != nil {
			return fmt.Errorf("the HTTP request that the handler got with message %s has changed in the end: %w", g.tag, err)
		}
	}
	return nil
}

func TestC26(t *testing.T) {
	hx.Run(t, hx.Part[c26Case]{
		Property: "C26", Name: "metadata",
		Rule:   "a case is 1-5 websocket connections of 1-3 charge points and any number of SOAP requests, each with a path, query, host and header fields of its own, over which messages come in 1-8 steps of up to six at once; non-trivial if there are at least two different HTTP requests and one has a header field of its own",
		Budget: hx.Budget{Quick: 2500, Thorough: 60000, QuickSecs: 40, ThoroughSecs: 600},
		Draw:   drawC26,
		Classify: func(c c26Case) (bool, []string) {
			n, heads := 0, 0
			var cl []string
			for _, st := range c.Steps {
				if st.Close >= 0 {
					cl = append(cl, "close")
				}
				cl = append(cl, fmt.Sprintf("%d at once", len(st.Sends)))
				for _, s := range st.Sends {
					n++
					if s.Soap != nil {
						heads += len(s.Soap.Heads)
						cl = append(cl, "soap "+s.Soap.Method)
					} else {
						heads += len(c.Conns[s.Conn].Heads)
						cl = append(cl, "websocket")
					}
				}
			}
			return n > 1 && heads > 0, cl
		},
		Check: checkC26,
	})
}
