package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
)

// c11Step is a loss of the connection.
type c11Step struct {
	How    string `json:"how"`              // handshake, close, reset
	Outage string `json:"outage,omitempty"` // "" none, 503, 404, 200, drop, port; hang, half: the dial is not answered
	Ms     int    `json:"ms,omitempty"`     // its duration
	Busy   bool   `json:"busy,omitempty"`   // a request is outstanding when the connection is lost
}

// c11Line is the life of a charge point.
type c11Line struct {
	Steps []c11Step `json:"steps"`
	// Cancel: connected, busy, before (a loss), after (a loss), outage, recovery; make: the charge
	// point is made with a central system that does not answer
	Cancel string `json:"cancel"`
	Last   string `json:"last"`             // how the connection is lost around the cancellation
	Outage string `json:"outage,omitempty"` // outage, recovery: its kind
	Ms     int    `json:"ms,omitempty"`     // outage, recovery: time into the outage
}

type c11Case struct {
	Lines []c11Line `json:"lines"`
}

func drawC11Line(rt *rapid.T) c11Line {
	how := rapid.SampledFrom([]string{"handshake", "close", "reset"})
	outage := rapid.SampledFrom([]string{"503", "404", "200", "drop", "port", "port"})
	var l c11Line
	long := []int{200, 1000, 3000, 6000, 12000, 18000}
	if hx.Thorough() {
		long = append(long, 26000, 34000, 62000)
	}
	total := 0
	for n := rapid.IntRange(0, 4).Draw(rt, "losses"); n > 0; n-- {
		st := c11Step{How: how.Draw(rt, "how"), Busy: rapid.IntRange(0, 2).Draw(rt, "busy") == 0}
		if rapid.IntRange(0, 2).Draw(rt, "outage") > 0 {
			st.Outage = outage.Draw(rt, "kind")
			st.Ms = rapid.SampledFrom(long).Draw(rt, "ms")
			if total+st.Ms > 24000 && !hx.Thorough() {
				st.Ms = 200
			}
			total += st.Ms
		}
		l.Steps = append(l.Steps, st)
	}
	l.Cancel = rapid.SampledFrom([]string{"connected", "busy", "before", "before", "after", "outage", "outage", "recovery"}).Draw(rt, "cancel")
	l.Last = how.Draw(rt, "last")
	l.Outage = outage.Draw(rt, "kind")
	l.Ms = rapid.SampledFrom([]int{0, 10, 500, 2000, 4000, 6500, 9000}).Draw(rt, "ms")
	return l
}

// playC11 lives the life of one charge point.
func playC11(l c11Line) (err error) {
	f, err := fx.NewFakeCSAway()
	if err != nil {
		return err
	}
	defer f.Down()
	defer f.CloseHung()
	// a dial is given up after as long as a request
	const dialLimit = timeoutMs*time.Millisecond + 5*time.Second
	if l.Cancel == "make" {
		f.SetMode(l.Outage)
		began := time.Now()
		made := make(chan error, 1)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		go func() {
			_, err := cp.New(ctx, fx.ID(), f.WS, ocpp.V16, ocpp.JSON, nil, nil)
			made <- err
		}()
		select {
		case err := <-made:
			if err == nil {
				return errors.New("a charge point was made although the central system did not answer")
			}
			return nil
		case <-time.After(dialLimit + 15*time.Second):
			return hx.Late(began, "the construction of a charge point whose central system does not answer")
		}
	}
	s := &side{id: fx.ID()}
	var raw *fx.Raw
	s.cp, raw, err = f.Connect(s.id, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		resp, err := s.handle(r)
		if resp == nil {
			return nil, err
		}
		return resp.(csresp.CentralSystemResponse), err
	})
	if err != nil {
		return err
	}
	s.raw = raw
	defer func() {
		s.cp.Cancel()
		for _, r := range f.All() {
			r.Reset()
		}
	}()
	s.send = func(r messages.Request) (messages.Response, error) {
		resp, err := s.cp.CP.Send(r.(cpreq.ChargePointRequest))
		if resp == nil {
			return nil, err
		}
		return resp, err
	}
	point := s.cp.CP
	// works: the charge point is connected, serves and sends
	works := func() error {
		if err := hx.Eventually("a state in which the charge point is connected", func() error {
			if !isClosed(point.WaitConnect()) {
				return errors.New("a wait for connection is not over")
			}
			if isClosed(point.WaitDisconnect()) {
				return errors.New("a wait for disconnection is over at once")
			}
			return nil
		}); err != nil {
			return err
		}
		if err := s.barrier(nil); err != nil {
			return err
		}
		out := s.start(libReq(minimal("cpreq.Authorize")))
		fr, err := s.next("the call of a request")
		if err != nil {
			return err
		}
		resp := minimal("cpresp.Authorize")
		if fr.Type != 2 || fr.Action != "Authorize" {
			return fmt.Errorf("the library sent %s", hx.Quote(fr.Raw))
		}
		if err := s.raw.Send(resultFrame(fr.ID, refPayload(resp))); err != nil {
			return err
		}
		o, err := hx.Recv(out, "the return of an answered request")
		if err != nil {
			return err
		}
		if o.err != nil {
			return fmt.Errorf("a request over the new connection failed: %v", o.err)
		}
		return gen.Same(resp, o.resp)
	}
	begin := func(kind string) {
		if kind == "port" {
			f.Down()
		} else {
			f.SetMode(kind)
		}
	}
	finish := func(kind string) error {
		if kind == "port" {
			return f.Up()
		}
		f.SetMode("")
		return nil
	}
	lose := func(how string) { realLink{s.raw}.end(how) }
	if err := works(); err != nil {
		return fmt.Errorf("at first: %w", err)
	}
	for n, st := range l.Steps {
		what := fmt.Sprintf("loss %d (%s)", n, hx.Quote(st))
		wd := point.WaitDisconnect()
		var busy chan outcome
		if st.Busy {
			busy = s.start(libReq(minimal("cpreq.Heartbeat")))
			if _, err := s.next("the call of a request"); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
		if st.Outage != "" {
			begin(st.Outage)
		}
		lose(st.How)
		if _, err := hx.Recv(wd, "the wait for disconnection"); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if st.Outage != "" {
			if isClosed(point.WaitConnect()) {
				return fmt.Errorf("%s: during an outage, when the wait for disconnection was over, a wait for connection ended at once", what)
			}
			wc := point.WaitConnect()
			if !isClosed(point.WaitDisconnect()) {
				return fmt.Errorf("%s: during an outage a wait for disconnection does not end at once", what)
			}
			o, err := hx.Recv(s.start(libReq(minimal("cpreq.Heartbeat"))), "the return of a request made during an outage")
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if o.err == nil {
				return fmt.Errorf("%s: a request during an outage returned %s", what, hx.Quote(o.resp))
			}
			time.Sleep(time.Duration(st.Ms) * time.Millisecond)
			if isClosed(wc) || isClosed(point.WaitConnect()) {
				return fmt.Errorf("%s: a wait for connection ended during the outage", what)
			}
			if err := finish(st.Outage); err != nil {
				return err
			}
			if st.Outage == "hang" || st.Outage == "half" {
				select {
				case <-wc:
				case <-time.After(dialLimit):
				}
			}
			if _, err := hx.Recv(wc, "the wait for connection after an outage"); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
		if s.raw, err = hx.Recv(f.Conns("/"+s.id), "the return of the charge point"); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := works(); err != nil {
			return fmt.Errorf("%s: after the return: %w", what, err)
		}
		if busy != nil {
			select {
			case o := <-busy:
				if o.err == nil {
					return fmt.Errorf("%s: an unanswered request returned %s", what, hx.Quote(o.resp))
				}
			default:
			}
		}
	}
	wd := point.WaitDisconnect()
	lost := false
	switch l.Cancel {
	case "busy":
		s.start(libReq(minimal("cpreq.Heartbeat")))
		if _, err := s.next("the call of a request"); err != nil {
			return err
		}
	case "after":
		lose(l.Last)
		lost = true
	case "outage", "recovery":
		begin(l.Outage)
		lose(l.Last)
		lost = true
		time.Sleep(time.Duration(l.Ms) * time.Millisecond)
		if l.Cancel == "recovery" {
			if err := finish(l.Outage); err != nil {
				return err
			}
		}
	}
	s.cp.Cancel()
	cancelled := time.Now()
	switch l.Cancel {
	case "before":
		lose(l.Last)
		lost = true
	case "outage":
		if err := finish(l.Outage); err != nil {
			return err
		}
	}
	if _, err := hx.Recv(wd, "the wait for disconnection after cancelling"); err != nil {
		return err
	}
	if !lost {
		if err := hx.Eventually("the end of the connection of a cancelled charge point", func() error {
			if !s.raw.Ended() {
				return errors.New("it is still open")
			}
			return nil
		}); err != nil {
			return err
		}
	}
	// two retry intervals and some
	const grace = 1500 * time.Millisecond
	time.Sleep(time.Until(cancelled.Add(12 * time.Second)))
	for _, t := range f.DialTimes() {
		if d := t.Sub(cancelled); d > grace {
			return late500(cancelled, "the charge point dialled %v after it was cancelled (%s)", d.Round(time.Millisecond), l.Cancel)
		}
	}
	for i, r := range f.All() {
		if !r.Ended() && r != s.raw {
			return late500(cancelled, "connection %d of the charge point is still open 12 s after it was cancelled (%s)", i, l.Cancel)
		}
	}
	if !isClosed(point.WaitDisconnect()) {
		return fmt.Errorf("a wait for disconnection of a cancelled charge point does not end at once")
	}
	o, err := hx.Recv(s.start(libReq(minimal("cpreq.Heartbeat"))), "the return of a request of a cancelled charge point")
	if err != nil {
		return err
	}
	if o.err == nil {
		return fmt.Errorf("a request of a cancelled charge point returned %s", hx.Quote(o.resp))
	}
	return nil
}

// late500 is a violation unless the machine was stalled.
func late500(since time.Time, format string, a ...interface{}) error {
	if hx.StalledSince(since) > 500*time.Millisecond {
		return hx.Inconclusive(format, a...)
	}
	return fmt.Errorf(format, a...)
}

func checkC11(c c11Case) error {
	var wg sync.WaitGroup
	errs := make([]error, len(c.Lines))
	for i := range c.Lines {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(i%16) * 30 * time.Millisecond)
			errs[i] = playC11(c.Lines[i])
		}()
	}
	wg.Wait()
	hx.Note("lives", int64(len(c.Lines)))
	var inc error
	for i, err := range errs {
		if err == nil {
			continue
		}
		if hx.IsInconclusive(err) {
			inc = err
			continue
		}
		return hx.Reduced(c11Case{Lines: c.Lines[i : i+1]}, fmt.Errorf("life %d %s: %w", i, hx.Quote(c.Lines[i]), err))
	}
	return inc
}

// ---- SOAP and construction ----

type c11Make struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
}

func checkC11Make(c c11Make) (err error) {
	handler := func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		return libResp(minimal(kindOf(r.Action(), false).Resp.String())).(csresp.CentralSystemResponse), nil
	}
	make := func(ctx context.Context, url string, version ocpp.Version, tr ocpp.Transport, port *string) (p cp.ChargePoint, err error) {
		q, err := cp.New(ctx, fx.ID(), url, version, tr, port, handler)
		if err != nil {
			return nil, err
		}
		return q, nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	mustFail := func(url string) error {
		if p, err := make(ctx, url, ocpp.V16, ocpp.JSON, nil); err == nil {
			return fmt.Errorf("%s: a charge point was made although the central system cannot be reached (%T)", c.Kind, p)
		}
		return nil
	}
	switch c.Kind {
	case "no port open":
		f, err := fx.NewFakeCSAway()
		if err != nil {
			return err
		}
		f.Down()
		return mustFail(f.WS)
	case "503", "404", "200", "drop":
		f, err := fx.NewFakeCSAway()
		if err != nil {
			return err
		}
		defer f.Down()
		f.SetMode(c.Kind)
		if err := mustFail(f.WS); err != nil {
			return err
		}
		// and it does not come later
		f.SetMode("")
		n := len(f.DialTimes())
		if c.N%4 == 0 {
			time.Sleep(5500 * time.Millisecond)
		}
		if m := len(f.DialTimes()); m != n {
			return fmt.Errorf("%s: a charge point that could not be made dialled again", c.Kind)
		}
		return nil
	case "bad url":
		return mustFail([]string{"", "localhost:1", "http://127.0.0.1:1", "ws://", "://", "ws://127.0.0.1:99999", "ftp://x"}[c.N%7])
	case "soap without port":
		if _, err := make(ctx, "http://127.0.0.1:1/", ocpp.V15, ocpp.SOAP, nil); err == nil {
			return errors.New("a SOAP charge point was made without a port")
		}
		return nil
	case "soap cancelled":
		var port string
		for try := 0; ; try++ {
			n, err := fx.FreePort()
			if err != nil {
				return hx.Harness("%v", err)
			}
			port = fmt.Sprintf("127.0.0.1:%d", n)
			if _, err := make(ctx, "http://127.0.0.1:1/", ocpp.V15, ocpp.SOAP, &port); err == nil {
				break
			} else if try == 5 { // the port may have been taken meanwhile
				return fmt.Errorf("a SOAP charge point could not be made: %v", err)
			}
		}
		id := "box"
		k := kindOf("ClearCache", false)
		body := []byte(gen.Envelope(id, k.NS(), k.Action, gen.WriteXML(minimal(k.Req.String()), gen.XStyle{}), gen.XStyle{}))
		url := "http://" + port + "/"
		keep := &http.Client{Transport: &http.Transport{}} // its connection stays open
		defer keep.CloseIdleConnections()
		post := func(cl *http.Client) error {
			r, err := cl.Post(url, "application/soap+xml", bytes.NewReader(body))
			if err != nil {
				return err
			}
			defer r.Body.Close()
			if r.StatusCode != 200 {
				return fmt.Errorf("status %d", r.StatusCode)
			}
			var b bytes.Buffer
			if _, err := b.ReadFrom(r.Body); err != nil {
				return err
			}
			if !contains(b.String(), "clearCacheResponse") {
				return errors.New("no response: " + b.String())
			}
			return nil
		}
		if c.N%3 > 0 { // otherwise it is cancelled at once
			if err := hx.Eventually("a response of the charge point", func() error { return post(keep) }); err != nil {
				return err
			}
		}
		cancel()
		fresh := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}
		if err := hx.Eventually("a state in which a cancelled SOAP charge point accepts no requests", func() error {
			for _, cl := range []*http.Client{keep, fresh} {
				if err := post(cl); err == nil {
					return errors.New("it still answers")
				}
			}
			if conn, err := net.DialTimeout("tcp", port, time.Second); err == nil {
				conn.Close()
				return errors.New("the port is still open")
			}
			return nil
		}); err != nil {
			return err
		}
		// it stays so
		time.Sleep(50 * time.Millisecond)
		if err := post(fresh); err == nil {
			return errors.New("a cancelled SOAP charge point answers again")
		}
		return nil
	case "cancelled before":
		f, err := fx.TheFakeCS()
		if err != nil {
			return err
		}
		cancel()
		p, err := make(ctx, f.WS, ocpp.V16, ocpp.JSON, nil)
		if err != nil {
			return nil // also fine
		}
		_, err = hx.Recv(p.WaitDisconnect(), "the disconnection of a charge point made with a cancelled context")
		return err
	}
	return hx.Harness("unknown kind %s", c.Kind)
}

func TestC11(t *testing.T) {
	hx.Run(t, hx.Part[c11Case]{
		Property: "C11", Name: "lives",
		Rule:     "a case is a batch of 96 charge points with a raw central system each, living in parallel and in real time: up to 4 losses of the connection with outages of different kinds (HTTP errors, dropped connections, closed port) and durations up to 18 s (ten lives: up to 62 s; eight lives: 6-24 losses; four lives: the central system accepts a connection but does not answer), waits and requests at every stage, then cancellation while connected, busy, right before or after a loss, within an outage or at its end, and 12 s of watching; always non-trivial",
		Budget:   hx.Budget{Quick: 1, Thorough: 12, QuickSecs: 200, ThoroughSecs: 1800},
		HangSecs: 500, NoShrink: true,
		Draw: func(rt *rapid.T) c11Case {
			var c c11Case
			for i := 0; i < 96; i++ {
				l := drawC11Line(rt)
				switch {
				case i < 10: // patience
					l.Steps = []c11Step{{How: rapid.SampledFrom([]string{"handshake", "close", "reset"}).Draw(rt, "long how"),
						Outage: []string{"503", "404", "200", "drop", "port"}[i%5], Ms: rapid.SampledFrom([]int{31000, 47000, 62000}).Draw(rt, "long ms")}}
				case i < 22 && i >= 18: // a central system that does not answer
					l.Steps = []c11Step{{How: rapid.SampledFrom([]string{"handshake", "close", "reset"}).Draw(rt, "hang how"), Outage: []string{"hang", "half"}[i%2], Ms: rapid.SampledFrom([]int{500, 7000, 30000}).Draw(rt, "hang ms")}}
					if i == 21 {
						l = c11Line{Cancel: "make", Outage: rapid.SampledFrom([]string{"hang", "half"}).Draw(rt, "hang make")}
					}
				case i < 18: // persistence
					l.Steps = nil
					for n := rapid.IntRange(6, 24).Draw(rt, "many losses"); n > 0; n-- {
						l.Steps = append(l.Steps, c11Step{How: rapid.SampledFrom([]string{"handshake", "close", "reset"}).Draw(rt, "many how"), Busy: rapid.IntRange(0, 3).Draw(rt, "many busy") == 0})
					}
				}
				c.Lines = append(c.Lines, l)
			}
			return c
		},
		Classify: func(c c11Case) (bool, []string) {
			var cl []string
			for _, l := range c.Lines {
				cl = append(cl, "cancel "+l.Cancel)
				for _, st := range l.Steps {
					cl = append(cl, "loss "+st.How)
					if st.Outage != "" {
						cl = append(cl, "outage "+st.Outage)
					}
				}
			}
			return true, cl
		},
		Check: checkC11,
	})
	hx.Run(t, hx.Part[c11Make]{
		Property: "C11", Name: "construction",
		Rule:   "a case makes a charge point whose central system cannot be reached (closed port, HTTP errors, bad URLs), a SOAP charge point without port, one that is cancelled at once or after serving, or one with a cancelled context; always non-trivial",
		Budget: hx.Budget{Quick: 250, Thorough: 3000, QuickSecs: 25, ThoroughSecs: 300},
		Draw: func(rt *rapid.T) c11Make {
			return c11Make{
				Kind: rapid.SampledFrom([]string{"no port open", "503", "404", "200", "drop", "bad url", "soap without port", "soap cancelled", "soap cancelled", "cancelled before"}).Draw(rt, "kind"),
				N:    rapid.IntRange(0, 1000).Draw(rt, "n"),
			}
		},
		Classify: func(c c11Make) (bool, []string) { return true, []string{c.Kind} },
		Check:    checkC11Make,
	})
}
