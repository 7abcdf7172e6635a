package props

import (
	"crypto/tls"
	"encoding/base64"
	"errors"
	"fmt"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
)

// c25URL is a way to reach an endpoint, through a front.
type c25URL struct {
	TLS   bool     `json:"tls,omitempty"`   // the scheme
	Front string   `json:"front,omitempty"` // what is there: a certificate, or "plain"
	Max   uint16   `json:"max,omitempty"`   // highest version of TLS
	Host  string   `json:"host"`
	Base  []string `json:"base,omitempty"`
	Upper bool     `json:"upper,omitempty"` // the scheme in capitals
	// SOAP
	User  string `json:"user,omitempty"`
	Pass  string `json:"pass,omitempty"`
	Query string `json:"query,omitempty"`
	Slash bool   `json:"slash,omitempty"` // at the end
}

func (u c25URL) mode() fx.FrontMode {
	return fx.FrontMode{TLS: u.Front != "plain", Cert: u.Front, Max: u.Max}
}

// ok: messages must get through; else nothing may.
func (u c25URL) ok() bool {
	if !u.TLS || u.Front == "plain" {
		return !u.TLS && u.Front == "plain"
	}
	return acceptable(u.mode())
}

func acceptable(m fx.FrontMode) bool {
	good := false
	for _, k := range fx.GoodCerts {
		good = good || k == m.Cert
	}
	return m.TLS && good && (m.Max == 0 || m.Max >= tls.VersionTLS12)
}

func (u c25URL) base() string {
	var b strings.Builder
	for _, s := range u.Base {
		b.WriteString("/" + url.PathEscape(s))
	}
	return b.String()
}

func (u c25URL) of(scheme, addr string) string {
	if u.TLS {
		scheme += "s"
	}
	if u.Upper {
		scheme = strings.ToUpper(scheme)
	}
	user := ""
	if u.User != "" {
		user = url.UserPassword(u.User, u.Pass).String() + "@"
	}
	s := scheme + "://" + user + addr + u.base()
	if u.Slash {
		s += "/"
	}
	if u.Query != "" {
		s += "?" + u.Query
	}
	return s
}

var c25Hosts = sync.OnceValue(func() []string {
	hosts := []string{"127.0.0.1"}
	for _, h := range []string{"localhost", "127.0.0.2", "::1"} {
		if fx.CanListen(h) {
			hosts = append(hosts, h)
		}
	}
	return hosts
})

func drawC25Front(rt *rapid.T, u *c25URL) {
	switch n := rapid.IntRange(0, 9).Draw(rt, "front"); {
	case n < 4:
		u.Front = rapid.SampledFrom(fx.GoodCerts).Draw(rt, "good")
	case n < 8:
		u.Front = rapid.SampledFrom(fx.BadCerts).Draw(rt, "bad")
	case n < 9:
		u.Front = "ec"
		u.Max = rapid.SampledFrom([]uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}).Draw(rt, "version")
	default:
		u.Front = "plain"
	}
}

func drawC25URL(rt *rapid.T, soap bool) c25URL {
	u := c25URL{Host: rapid.SampledFrom(c25Hosts()).Draw(rt, "host"), Front: "plain"}
	if rapid.IntRange(0, 9).Draw(rt, "tls") < 7 {
		u.TLS = true
		drawC25Front(rt, &u)
	} else if rapid.IntRange(0, 9).Draw(rt, "mismatch") == 0 {
		u.Front = "ec"
	}
	for n := rapid.IntRange(0, 5).Draw(rt, "segments"); n > 0; n-- {
		u.Base = append(u.Base, rapid.SampledFrom([]string{"ocpp", "v1.6", "a b", "é", "x%y", "a/b", "q?a=b", "#f", "a+b", "...", "~", "CentralSystem", "@:", "ws", ";p=1", "%2F", "日本", "a&b", "'q'", strings.Repeat("long-", 60)}).Draw(rt, "segment"))
	}
	u.Upper = rapid.IntRange(0, 7).Draw(rt, "upper") == 0
	if soap {
		if rapid.IntRange(0, 3).Draw(rt, "user") == 0 {
			u.User = rapid.SampledFrom([]string{"cp", "a b", "é", "u@h", "x:y", "50%", "Aladdin"}).Draw(rt, "name")
			u.Pass = rapid.SampledFrom([]string{"", "secret", "p:w", "@", "ü/", "open sesame", "a+b", "%41"}).Draw(rt, "password")
		}
		u.Query = rapid.SampledFrom([]string{"", "", "", "a=b", "a=b&c=d%20e", "x", "q=%2F%3F", "a=1&a=2", "=", "a=b;c"}).Draw(rt, "query")
		u.Slash = rapid.IntRange(0, 3).Draw(rt, "slash") == 0
	}
	return u
}

// arrived checks a request that reached the front.
func (u c25URL) arrived(h fx.Hit, method, addr, id string) error {
	say := func(what string, got, want interface{}) error {
		return fmt.Errorf("the request for %s arrived with the %s %q instead of %q", u.of("x", addr), what, got, want)
	}
	if h.Method != method {
		return say("method", h.Method, method)
	}
	if !strings.EqualFold(h.Host, addr) {
		return say("host", h.Host, addr)
	}
	want := append([]string{""}, u.Base...)
	if id != "" {
		want = append(want, strings.Split(id, "/")...)
	} else if u.Slash || len(u.Base) == 0 {
		want = append(want, "")
	}
	path, query, _ := strings.Cut(h.URI, "?")
	got := strings.Split(path, "/")
	for i := range got {
		s, err := url.PathUnescape(got[i])
		if err != nil {
			return say("path", h.URI, strings.Join(want, "/"))
		}
		got[i] = s
	}
	if id != "" {
		// whether a slash of the identity is escaped is not judged
		n := min(len(u.Base)+1, len(got))
		got = append(got[:n:n], strings.Split(strings.Join(got[n:], "/"), "/")...)
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return say("path", fmt.Sprint(h.URI), fmt.Sprintf("%q", want))
	}
	if query != u.Query {
		return say("query", query, u.Query)
	}
	auth := ""
	if u.User != "" {
		auth = basicAuth(u.User, u.Pass)
	}
	if h.Auth != auth {
		return say("authorization", h.Auth, auth)
	}
	return nil
}

type c25Case struct {
	Kind string `json:"kind"` // json, up (SOAP to the central system), down (SOAP to a charge point)
	URL  c25URL `json:"url"`
	ID   string `json:"id"`
	N    int    `json:"n"` // exchanges
	Fail bool   `json:"fail,omitempty"`
}

func drawC25(rt *rapid.T) c25Case {
	c := c25Case{Kind: rapid.SampledFrom([]string{"json", "json", "up", "down"}).Draw(rt, "kind"), N: rapid.IntRange(1, 3).Draw(rt, "n")}
	c.URL = drawC25URL(rt, c.Kind != "json")
	if c.Kind == "json" {
		c.ID = drawIdentity(rt)
		if !pathSafe("x" + c.ID) {
			c.ID = ""
		}
	} else {
		c.ID = gen.Text(rt, "identity", true, 20, false)
		c.Fail = rapid.IntRange(0, 4).Draw(rt, "fail") == 0
	}
	return c
}

func checkC25(c c25Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	p, err := fx.TheSoapCP()
	if err != nil {
		return err
	}
	to := sys.Addr
	if c.Kind == "down" {
		to = p.Addr
	}
	f, err := fx.NewFront(c.URL.Host, to, len(c.URL.Base), c.URL.mode())
	if err != nil {
		return err
	}
	defer f.Close()
	id := fx.ID() + c.ID
	var mu sync.Mutex
	var atCS, atCP []string
	sys.Handle(id, func(r cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, ok := r.(*cpreq.Authorize)
		if !ok || m.ChargePointID != id {
			return nil, fmt.Errorf("the central system got %s of %q", hx.Quote(r), m.ChargePointID)
		}
		mu.Lock()
		defer mu.Unlock()
		atCS = append(atCS, a.IdTag)
		if c.Fail {
			return nil, errors.New("failed " + a.IdTag)
		}
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: a.IdTag}}, nil
	})
	defer sys.Handle(id, nil)
	atPoint := func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		g, ok := r.(*csreq.GetDiagnostics)
		if !ok {
			return nil, fmt.Errorf("the charge point got %s", hx.Quote(r))
		}
		mu.Lock()
		defer mu.Unlock()
		atCP = append(atCP, g.Location)
		if c.Fail {
			return nil, errors.New("failed " + g.Location)
		}
		return &csresp.GetDiagnostics{FileName: g.Location}, nil
	}
	up := func(p interface {
		Send(cpreq.ChargePointRequest) (cpresp.ChargePointResponse, error)
	}, tag string) (string, error) {
		r, err := p.Send(&cpreq.Authorize{IdTag: tag})
		if err != nil {
			return "", err
		}
		return answerTag(r), nil
	}
	down := func(s interface {
		Send(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error)
	}, tag string) (string, error) {
		r, err := s.Send(&csreq.GetDiagnostics{Location: tag})
		if err != nil {
			return "", err
		}
		return answerTag(r), nil
	}
	result := func(what, tag, got string, err error) error {
		switch {
		case c.Fail && (err == nil || err.Error() != "failed "+tag):
			return fmt.Errorf("%s, whose handler failed, ended with %q, %v", what, got, err)
		case !c.Fail && (err != nil || got != tag):
			return fmt.Errorf("%s ended with %q, %v", what, got, err)
		}
		return nil
	}
	refused := func(what string, err error) error {
		hits, _ := f.Hits()
		mu.Lock()
		n := len(atCS) + len(atCP)
		mu.Unlock()
		switch {
		case err == nil:
			return fmt.Errorf("%s succeeded", what)
		case len(hits) > 0 && (c.URL.TLS || c.URL.Front == "plain"):
			return fmt.Errorf("%s failed (%v), but an HTTP request was sent", what, err)
		case n > 0:
			return fmt.Errorf("%s failed (%v), but a handler ran", what, err)
		}
		return nil
	}
	arrived := func(method, id string, n int) error {
		hits, _ := f.Hits()
		if len(hits) != n {
			return fmt.Errorf("%d requests arrived instead of %d", len(hits), n)
		}
		for _, h := range hits {
			if err := c.URL.arrived(h, method, f.Addr(), id); err != nil {
				return err
			}
		}
		return nil
	}
	tag := func(i int) string { return fmt.Sprintf("tag-%d", i) }
	switch c.Kind {
	case "json":
		u := c.URL.of("ws", f.Addr())
		pt, err := fx.DialCP(id, u, atPoint)
		if !c.URL.ok() {
			if err == nil {
				pt.Cancel()
			}
			return refused("the construction of a charge point for "+u, err)
		}
		if err != nil {
			return fmt.Errorf("a charge point for %s could not be made: %v", u, err)
		}
		defer pt.Cancel()
		if _, err := hx.Recv(sys.Sys.WaitConnect(id), fmt.Sprintf("the connection of %q", id)); err != nil {
			return err
		}
		if err := arrived("GET", id, 1); err != nil {
			return err
		}
		svc, err := sys.Sys.GetServiceOf(id, ocpp.V16, "")
		if err != nil {
			return err
		}
		for i := 0; i < c.N; i++ {
			got, err := up(pt.CP, tag(i))
			if err := result("a request of a charge point at "+u, tag(i), got, err); err != nil {
				return err
			}
			got, err = down(svc, tag(i))
			if err := result("a request to a charge point at "+u, tag(i), got, err); err != nil {
				return err
			}
		}
		if err := arrived("GET", id, 1); err != nil {
			return err
		}
		return sys.Shutdown(pt)
	case "up":
		u := c.URL.of("http", f.Addr())
		s, err := fx.NewSoapCP(id, u)
		if err != nil {
			return err
		}
		defer s.Cancel()
		for i := 0; i < c.N; i++ {
			got, err := up(s.CP, tag(i))
			if !c.URL.ok() {
				if err := refused("a request to "+u, err); err != nil {
					return err
				}
				continue
			}
			if err := result("a request to "+u, tag(i), got, err); err != nil {
				return err
			}
			if err := arrived("POST", "", i+1); err != nil {
				return err
			}
		}
		if c.URL.ok() && len(atCS) != c.N {
			return fmt.Errorf("the handler ran %d times for %d requests", len(atCS), c.N)
		}
	case "down":
		u := c.URL.of("http", f.Addr())
		p.SetHandler(atPoint)
		defer p.SetHandler(nil)
		svc, err := sys.Sys.GetServiceOf(id, ocpp.V15, u)
		if err != nil {
			return err
		}
		for i := 0; i < c.N; i++ {
			got, err := down(svc, tag(i))
			if !c.URL.ok() {
				if err := refused("a request to "+u, err); err != nil {
					return err
				}
				continue
			}
			if err := result("a request to "+u, tag(i), got, err); err != nil {
				return err
			}
			if err := arrived("POST", "", i+1); err != nil {
				return err
			}
		}
		if c.URL.ok() && len(atCP) != c.N {
			return fmt.Errorf("the handler ran %d times for %d requests", len(atCP), c.N)
		}
	}
	return nil
}

// ---- connections that come back ----

// c25Life is a charge point whose connection is lost; the front appears otherwise for a while.
type c25Life struct {
	URL    c25URL   `json:"url"` // the first front is a good one
	Phases []c25URL `json:"phases"`
	Ms     []int    `json:"ms"` // how long each phase lasts; after it, a good front is back
}

type c25Lives struct {
	Lines []c25Life `json:"lines"`
}

func drawC25Life(rt *rapid.T) c25Life {
	l := c25Life{URL: drawC25URL(rt, false)}
	l.URL.TLS, l.URL.Front, l.URL.Max = true, rapid.SampledFrom(fx.GoodCerts).Draw(rt, "good"), 0
	for n := rapid.IntRange(1, 2).Draw(rt, "phases"); n > 0; n-- {
		ph := c25URL{Host: l.URL.Host}
		if rapid.IntRange(0, 3).Draw(rt, "same") == 0 {
			ph.Front = rapid.SampledFrom(fx.GoodCerts).Draw(rt, "other good")
		} else {
			drawC25Front(rt, &ph)
		}
		l.Phases = append(l.Phases, ph)
		l.Ms = append(l.Ms, rapid.SampledFrom([]int{6500, 8000, 11500}).Draw(rt, "ms"))
	}
	return l
}

func playC25(l c25Life) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	good := l.URL.mode()
	f, err := fx.NewFront(l.URL.Host, sys.Addr, len(l.URL.Base), good)
	if err != nil {
		return err
	}
	defer f.Close()
	id := fx.ID()
	sys.Handle(id, func(r cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, ok := r.(*cpreq.Authorize)
		if !ok {
			return nil, errors.New("not mine")
		}
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: a.IdTag}}, nil
	})
	defer sys.Handle(id, nil)
	pt, err := fx.DialCP(id, l.URL.of("ws", f.Addr()), func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		g, ok := r.(*csreq.GetDiagnostics)
		if !ok {
			return nil, errors.New("not mine")
		}
		return &csresp.GetDiagnostics{FileName: g.Location}, nil
	})
	if err != nil {
		return err
	}
	defer pt.Cancel()
	talk := func(when string) error {
		if _, err := hx.Recv(sys.Sys.WaitConnect(id), "the connection of a charge point "+when); err != nil {
			return err
		}
		return hx.Eventually("an exchange "+when, func() error {
			svc, err := sys.Sys.GetServiceOf(id, ocpp.V16, "")
			if err != nil {
				return err
			}
			done := make(chan error, 2)
			go func() {
				r, err := svc.Send(&csreq.GetDiagnostics{Location: "down"})
				if err == nil && answerTag(r) != "down" {
					err = fmt.Errorf("the answer was %s", hx.Quote(r))
				}
				done <- err
			}()
			go func() {
				r, err := pt.CP.Send(&cpreq.Authorize{IdTag: "up"})
				if err == nil && answerTag(r) != "up" {
					err = fmt.Errorf("the answer was %s", hx.Quote(r))
				}
				done <- err
			}()
			for i := 0; i < 2; i++ {
				select {
				case err := <-done:
					if err != nil {
						return err
					}
				case <-time.After(5 * time.Second):
					return errors.New("no end within 5 s")
				}
			}
			return nil
		})
	}
	if err := talk("at first"); err != nil {
		return err
	}
	for i, ph := range l.Phases {
		when := fmt.Sprintf("in phase %d", i)
		before, _ := f.Hits()
		f.Switch(ph.mode())
		if err := sys.AwaitGone(id); err != nil && !acceptable(ph.mode()) {
			return err
		}
		if acceptable(ph.mode()) {
			if err := talk(when); err != nil {
				return err
			}
		} else {
			time.Sleep(time.Duration(l.Ms[i]) * time.Millisecond)
			hits, _ := f.Hits()
			if len(hits) > len(before) {
				return fmt.Errorf("%s, with %s there, the charge point sent its request", when, hx.Quote(ph))
			}
		}
		f.Switch(good)
		if err := talk("after phase " + fmt.Sprint(i)); err != nil {
			return err
		}
	}
	hits, _ := f.Hits()
	for _, h := range hits {
		if err := l.URL.arrived(h, "GET", f.Addr(), id); err != nil {
			return err
		}
		if !acceptable(h.Mode) && h.Mode != good {
			return fmt.Errorf("a request came although the front was %s", hx.Quote(h.Mode))
		}
	}
	return nil
}

func checkC25Lives(c c25Lives) error {
	if _, err := fx.ThePKI(); err != nil {
		return err
	}
	var wg sync.WaitGroup
	errs := make([]error, len(c.Lines))
	for i := range c.Lines {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(i%16) * 50 * time.Millisecond)
			errs[i] = playC25(c.Lines[i])
		}()
	}
	wg.Wait()
	hx.Note("lives", int64(len(c.Lines)))
	var inc error
	for i, err := range errs {
		if err == nil {
			continue
		}
		if hx.IsInconclusive(err) {
			inc = err
			continue
		}
		return hx.Reduced(c25Lives{c.Lines[i : i+1]}, fmt.Errorf("life %d %s: %w", i, hx.Quote(c.Lines[i]), err))
	}
	return inc
}

func TestC25(t *testing.T) {
	// before anything verifies a certificate
	if _, err := fx.ThePKI(); err != nil {
		t.Fatal(err)
	}
	hx.Run(t, hx.Part[c25Case]{
		Property: "C25", Name: "urls",
		Rule:   "a case is an endpoint behind a front with an address, scheme, base path, query, user and password of its own, and (with TLS) a good or bad certificate or protocol version, and 1-3 exchanges there over websocket or SOAP in either direction; non-trivial if there is TLS or anything else than an address in the URL",
		Budget: hx.Budget{Quick: 700, Thorough: 14000, QuickSecs: 40, ThoroughSecs: 600},
		Draw:   drawC25,
		Classify: func(c c25Case) (bool, []string) {
			u := c.URL
			cl := []string{c.Kind, c.Kind + " ok " + fmt.Sprint(u.ok()), "host " + u.Host}
			if u.TLS {
				cl = append(cl, "front "+u.Front)
			}
			return u.TLS || len(u.Base) > 0 || u.User != "" || u.Query != "", cl
		},
		Check: checkC25,
	})
	hx.Run(t, hx.Part[c25Lives]{
		Property: "C25", Name: "lives",
		Rule:   "a case is a batch of 80 charge points in real time, each behind a front with TLS, which loses the connection once or twice and has another certificate, good or bad, or none, for 6 to 12 s; always non-trivial",
		Budget: hx.Budget{Quick: 1, Thorough: 15, QuickSecs: 100, ThoroughSecs: 900}, HangSecs: 300, NoShrink: true,
		Draw: func(rt *rapid.T) c25Lives {
			var c c25Lives
			for i := 0; i < 80; i++ {
				c.Lines = append(c.Lines, drawC25Life(rt))
			}
			return c
		},
		Classify: func(c c25Lives) (bool, []string) {
			var cl []string
			for _, l := range c.Lines {
				for _, ph := range l.Phases {
					cl = append(cl, fmt.Sprintf("%s until %d", ph.Front, ph.Max))
				}
			}
			return true, cl
		},
		Check: checkC25Lives,
	})
}

func basicAuth(user, pass string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
}
