package props

import (
	"fmt"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/hx"
)

// c10Point is a charge point of a fleet.
type c10Point struct {
	ID  string `json:"id"`
	Raw bool   `json:"raw"` // not the library's
	// raw: how the identity is written in the URL
	Escape int    `json:"escape,omitempty"`
	Query  string `json:"query,omitempty"`
}

type c10Case struct {
	Points []c10Point `json:"points"`
	Each   int        `json:"each"` // requests per point and direction
	Leave  []bool     `json:"leave"`
}

var idChars = []string{"a", "B", "c", "1", "0", "-", "_", ".", "~", " ", "%", "%41", "%2F", "%25", "+", "?", "#", "&", "=", ";", ":", "@", "!", "$", "'", "(", ")", "*", ",", "\"", "<", ">", "\\", "^", "`", "{", "|", "}", "[", "]", "é", "ß", "日", "😀", "\u00a0", "\t", "/"}

// pathSafe: an identity a URL path can carry as it is (servers clean up empty and dot segments).
func pathSafe(id string) bool {
	if id == "" {
		return false
	}
	for _, seg := range strings.Split(id, "/") {
		if seg == "" || seg == "." || seg == ".." {
			return false
		}
	}
	return true
}

func drawIdentity(rt *rapid.T) string {
	var b strings.Builder
	switch rapid.IntRange(0, 5).Draw(rt, "identity class") {
	case 0:
		b.WriteString(rapid.StringMatching(`[A-Za-z0-9_.~-]{1,20}`).Draw(rt, "plain"))
	case 1, 2, 3:
		for _, p := range rapid.SliceOfN(rapid.SampledFrom(idChars), 1, 8).Draw(rt, "parts") {
			b.WriteString(p)
		}
	case 4:
		for _, r := range rapid.SliceOfN(rapid.Rune(), 1, 6).Draw(rt, "runes") {
			if r > 0 && r != '\uFFFD' {
				b.WriteRune(r)
			}
		}
	default:
		b.WriteString("id")
		b.WriteString(rapid.SampledFrom(idChars).Draw(rt, "char"))
		b.WriteString("x")
	}
	return b.String()
}

// related makes an identity that a sloppy implementation confuses with another.
func related(rt *rapid.T, id string) string {
	switch rapid.IntRange(0, 6).Draw(rt, "relation") {
	case 0:
		return url.PathEscape(id)
	case 1:
		return strings.ToUpper(id)
	case 2:
		return id + rapid.SampledFrom([]string{"1", " ", "/x", "?a=b", "#f", "%20"}).Draw(rt, "more")
	case 3:
		if u, err := url.PathUnescape(id); err == nil {
			return u
		}
	case 4:
		return strings.ReplaceAll(id, " ", "+")
	case 5:
		return strings.TrimSpace(id)
	}
	return strings.ToLower(id)
}

func drawC10(rt *rapid.T) c10Case {
	c := c10Case{Each: rapid.IntRange(1, 4).Draw(rt, "each")}
	seen := map[string]bool{}
	n := rapid.IntRange(1, 7).Draw(rt, "points")
	for i := 0; i < n; i++ {
		id := ""
		if i > 0 && rapid.Bool().Draw(rt, "like another") {
			id = related(rt, c.Points[rapid.IntRange(0, i-1).Draw(rt, "other")].ID)
		} else {
			id = drawIdentity(rt)
		}
		if !pathSafe(id) || seen[id] {
			id = fmt.Sprintf("%d%s", i, strings.ReplaceAll(id, "/", "|"))
		}
		if seen[id] {
			continue
		}
		seen[id] = true
		p := c10Point{ID: id, Raw: rapid.Bool().Draw(rt, "raw")}
		if p.Raw {
			p.Escape = rapid.IntRange(0, 2).Draw(rt, "escape")
			p.Query = rapid.SampledFrom([]string{"", "", "?x=1", "?", "?id=other"}).Draw(rt, "query")
		}
		c.Points = append(c.Points, p)
		c.Leave = append(c.Leave, rapid.Bool().Draw(rt, "leaves"))
	}
	return c
}

// urlPath writes an identity as a URL path, in one of the equivalent ways.
func urlPath(id string, style int) string {
	switch style {
	case 0:
		return "/" + (&url.URL{Path: id}).EscapedPath()
	case 1:
		return "/" + strings.ReplaceAll(url.PathEscape(id), "%2F", "/")
	}
	var b strings.Builder
	b.WriteByte('/')
	for i := 0; i < len(id); i++ {
		if id[i] == '/' {
			b.WriteByte('/')
		} else {
			fmt.Fprintf(&b, "%%%02x", id[i])
		}
	}
	return b.String()
}

var c10Serial int

func checkC10(c c10Case) (err error) {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	type live struct {
		c10Point
		raw  *fx.Raw
		cp   *fx.Point
		send func(messages.Request) (messages.Response, error)
		addr string
		hit  map[string]int // tags of the requests that reached it
		mu   sync.Mutex
	}
	var mu sync.Mutex
	var bad error
	fail := func(format string, a ...interface{}) error {
		err := fmt.Errorf(format, a...)
		mu.Lock()
		if bad == nil {
			bad = err
		}
		mu.Unlock()
		return err
	}
	c10Serial++
	run := fmt.Sprintf("run%d-", c10Serial)
	points := make([]*live, len(c.Points))
	byID := map[string]*live{}
	for i, p := range c.Points {
		points[i] = &live{c10Point: p, hit: map[string]int{}}
		byID[p.ID] = points[i]
	}
	before := sys.Identities()
	type ev struct{ on, off int }
	had := map[string]ev{}
	for id := range byID {
		on, off := sys.Events(id)
		had[id] = ev{on, off}
	}
	// the central system answers with who it thinks is asking
	sys.Fallback(func(r cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, ok := r.(*cpreq.Authorize)
		if !ok {
			return nil, fail("the handler got a %T nobody sent", r)
		}
		p := byID[m.ChargePointID]
		if p == nil {
			return nil, fail("the handler got a request of the charge point %q, connected are %s", m.ChargePointID, hx.Quote(c.Points))
		}
		if m.HTTPRequest == nil || m.HTTPRequest.URL == nil {
			return nil, fail("the handler got no HTTP request for %q", m.ChargePointID)
		}
		if m.HTTPRequest.URL.Path != "/"+p.ID {
			return nil, fail("the handler got the HTTP request of %q as that of %q", m.HTTPRequest.URL.Path, p.ID)
		}
		p.mu.Lock()
		addr := p.addr
		p.mu.Unlock()
		if addr != "" && m.HTTPRequest.RemoteAddr != addr {
			return nil, fail("the handler got the HTTP request of %q, whose connection comes from %s, with the address %s", p.ID, addr, m.HTTPRequest.RemoteAddr)
		}
		if p.Raw && m.HTTPRequest.Header.Get("X-Tag") != "" {
			return nil, fail("unexpected header")
		}
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: m.ChargePointID + "|" + a.IdTag}}, nil
	})
	defer sys.Fallback(nil)
	defer func() {
		for _, p := range points {
			if p.raw != nil {
				p.raw.Close()
			}
			if p.cp != nil {
				p.cp.Cancel()
			}
		}
		if err == nil {
			for _, p := range points {
				if err = sys.AwaitGone(p.ID); err != nil {
					return
				}
			}
		}
	}()
	for _, p := range points {
		if p.Raw {
			p.raw, err = fx.DialRawURL(sys.WS+urlPath(p.ID, p.Escape)+p.Query, "ocpp1.6")
			if err != nil {
				return fmt.Errorf("a charge point could not connect as %q: %v", p.ID, err)
			}
			p.mu.Lock()
			p.addr = p.raw.LocalAddr().String()
			p.mu.Unlock()
		} else {
			p.cp, err = fx.DialCP(p.ID, sys.WS, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
				g, ok := r.(*csreq.GetConfiguration)
				if !ok || len(g.Key) != 1 {
					return nil, fail("charge point %q got %s, which nobody sent", p.ID, hx.Quote(r))
				}
				p.mu.Lock()
				p.hit[g.Key[0]]++
				p.mu.Unlock()
				return &csresp.GetConfiguration{UnknownKey: []string{p.ID + "|" + g.Key[0]}}, nil
			})
			if err != nil {
				return fmt.Errorf("a charge point could not connect as %q: %v", p.ID, err)
			}
			if got := p.cp.CP.Identity(); got != p.ID {
				return fmt.Errorf("the charge point made as %q has the identity %q", p.ID, got)
			}
			if conn := p.cp.CP.Connection(); conn != nil {
				p.mu.Lock()
				p.addr = conn.LocalAddr().String()
				p.mu.Unlock()
			}
		}
		if _, err := hx.Recv(sys.Sys.WaitConnect(p.ID), fmt.Sprintf("the wait for the connection of %q", p.ID)); err != nil {
			return err
		}
	}
	if err := hx.Eventually("the reports of the connections", func() error {
		for id := range sys.Identities() {
			if byID[id] == nil && !before[id] {
				return fmt.Errorf("a charge point %q was reported, connected were %s", id, hx.Quote(c.Points))
			}
		}
		for id := range byID {
			if on, off := sys.Events(id); on-had[id].on != 1 || off != had[id].off {
				return fmt.Errorf("for %q %d connections and %d disconnections were reported", id, on-had[id].on, off-had[id].off)
			}
		}
		return nil
	}); err != nil {
		return err
	}
	// raw charge points answer calls and collect answers
	var wg sync.WaitGroup
	answers := map[*live]map[string]chan *frame{}
	for _, p := range points {
		if !p.Raw {
			continue
		}
		m := map[string]chan *frame{}
		for j := 0; j < c.Each; j++ {
			m[fmt.Sprintf("%sup-%d", run, j)] = make(chan *frame, 1)
		}
		answers[p] = m
		go func() {
			for rf := range p.raw.Frames {
				f, err := parseFrame(rf.Data)
				if err != nil {
					fail("%v", err)
					continue
				}
				if f.Type != 2 {
					if ch := m[f.ID]; ch != nil {
						select {
						case ch <- f:
						default:
							fail("%q got two answers: %s", p.ID, hx.Quote(f.Raw))
						}
					} else {
						fail("%q got an answer to something it did not send: %s", p.ID, hx.Quote(f.Raw))
					}
					continue
				}
				keys, _ := f.Payload.(map[string]interface{})["key"].([]interface{})
				if f.Action != "GetConfiguration" || len(keys) != 1 {
					fail("%q got a call nobody sent: %s", p.ID, hx.Quote(f.Raw))
					continue
				}
				tag, _ := keys[0].(string)
				p.mu.Lock()
				p.hit[tag]++
				p.mu.Unlock()
				p.raw.Send(resultFrame(f.ID, `{"unknownKey":[`+jq(p.ID+"|"+tag)+`]}`))
			}
		}()
	}
	for _, p := range points {
		svc, err := sys.Sys.GetServiceOf(p.ID, ocpp.V16, "")
		if err != nil {
			return fmt.Errorf("no service for the connected charge point %q: %v", p.ID, err)
		}
		wg.Add(2)
		// from the charge point
		go func() {
			defer wg.Done()
			for j := 0; j < c.Each; j++ {
				tag := fmt.Sprintf("%sup-%d", run, j)
				got := ""
				if p.Raw {
					if err := p.raw.Send(callFrame(tag, "Authorize", `{"idTag":`+jq(tag)+`}`)); err != nil {
						fail("%q could not send: %v", p.ID, err)
						return
					}
					f, err := hx.Recv(answers[p][tag], fmt.Sprintf("the answer to a call of %q", p.ID))
					if err != nil {
						mu.Lock()
						if bad == nil {
							bad = err
						}
						mu.Unlock()
						return
					}
					pl, _ := f.Payload.(map[string]interface{})
					info, _ := pl["idTagInfo"].(map[string]interface{})
					got, _ = info["parentIdTag"].(string)
					if f.Type != 3 {
						got = f.Raw
					}
				} else {
					resp, err := p.cp.CP.Send(&cpreq.Authorize{IdTag: tag})
					a, ok := resp.(*cpresp.Authorize)
					if err != nil || !ok || a.IdTagInfo == nil {
						fail("a request of %q ended with %s, %v", p.ID, hx.Quote(resp), err)
						return
					}
					got = a.IdTagInfo.ParentIdTag
				}
				if got != p.ID+"|"+tag {
					fail("the request %q of %q was answered with %q", tag, p.ID, got)
					return
				}
			}
		}()
		// to the charge point
		go func() {
			defer wg.Done()
			for j := 0; j < c.Each; j++ {
				tag := fmt.Sprintf("%sdown-%d-%s", run, j, p.ID)
				resp, err := svc.Send(&csreq.GetConfiguration{Key: []string{tag}})
				g, ok := resp.(*csresp.GetConfiguration)
				if err != nil || !ok || len(g.UnknownKey) != 1 {
					fail("a request to %q ended with %s, %v", p.ID, hx.Quote(resp), err)
					return
				}
				if g.UnknownKey[0] != p.ID+"|"+tag {
					fail("the request %q to %q was answered with %q", tag, p.ID, g.UnknownKey[0])
					return
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	start := time.Now()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		mu.Lock()
		b := bad
		mu.Unlock()
		if b != nil {
			return b
		}
		return hx.Late(start, "the end of the traffic")
	}
	for _, p := range points {
		p.mu.Lock()
		for j := 0; j < c.Each; j++ {
			if n := p.hit[fmt.Sprintf("%sdown-%d-%s", run, j, p.ID)]; n != 1 {
				p.mu.Unlock()
				return fmt.Errorf("request %d to %q reached it %d times", j, p.ID, n)
			}
		}
		if len(p.hit) != c.Each {
			p.mu.Unlock()
			return fmt.Errorf("%q was sent %d requests and got %d", p.ID, c.Each, len(p.hit))
		}
		p.mu.Unlock()
	}
	mu.Lock()
	b := bad
	mu.Unlock()
	if b != nil {
		return b
	}
	// some leave: only those are gone
	for i, p := range points {
		if !c.Leave[i] {
			continue
		}
		if p.Raw {
			p.raw.Close()
		} else {
			p.cp.Cancel()
		}
	}
	return hx.Eventually("the state after some left", func() error {
		for i, p := range points {
			_, err := sys.Sys.GetServiceOf(p.ID, ocpp.V16, "")
			if (err != nil) != c.Leave[i] {
				return fmt.Errorf("%q left: %v, looking for its service: %v", p.ID, c.Leave[i], err)
			}
			want := 0
			if c.Leave[i] {
				want = 1
			}
			if on, off := sys.Events(p.ID); on-had[p.ID].on != 1 || off-had[p.ID].off != want {
				return fmt.Errorf("%q left: %v, %d connections and %d disconnections were reported", p.ID, c.Leave[i], on-had[p.ID].on, off-had[p.ID].off)
			}
		}
		return nil
	})
}

func TestC10(t *testing.T) {
	hx.Run(t, hx.Part[c10Case]{
		Property: "C10", Name: "fleet",
		Rule:   "a case is a fleet of 1-7 charge points (the library's and raw ones) with identities full of characters special in URLs, some identities resembling others, connected at once; each sends and receives tagged requests concurrently with the others, then some leave; identity and HTTP request are compared at the handler, listeners, lookups and both ends of every request; non-trivial if an identity is not plain or there are several",
		Budget: hx.Budget{Quick: 1500, Thorough: 60000, QuickSecs: 45, ThoroughSecs: 900},
		Draw:   drawC10,
		Classify: func(c c10Case) (bool, []string) {
			special := false
			for _, p := range c.Points {
				if url.PathEscape(p.ID) != p.ID {
					special = true
				}
			}
			cl := []string{fmt.Sprintf("points=%d", len(c.Points))}
			if special {
				cl = append(cl, "special characters")
			}
			return special || len(c.Points) > 1, cl
		},
		Check: checkC10,
	})
	scaleParts(t, "C10")
}
