package props

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp/messages"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// The charge point dials real connections, so its timelines run in real time, many at once.
type c08Real struct {
	Lines  [][]c08Ev   `json:"lines,omitempty"`
	Unread []c08Unread `json:"unread,omitempty"`
}

func drawC08Line(rt *rapid.T) []c08Ev {
	offset := func() int64 {
		return rapid.SampledFrom([]int64{0, 500, 2000, 10000, 25000, 40000, 48000, 54000, 66000, 67000}).Draw(rt, "offset")
	}
	var evs []c08Ev
	n := rapid.IntRange(1, 4).Draw(rt, "requests")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(sentBy(false)).Draw(rt, "kind")
		m := gen.Draw(rt, k.Req.String(), gen.Opts{Legal: true})
		at := rapid.SampledFrom([]int64{0, 0, 0, 1000, 3000}).Draw(rt, "start")
		evs = append(evs, c08Ev{At: at, Op: "send", I: i, Req: &m})
		for a := rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(rt, "answers"); a > 0; a-- {
			ev := c08Ev{At: at + offset(), Op: "answer", I: i, How: rapid.SampledFrom([]string{"result", "result", "error"}).Draw(rt, "answer")}
			if ev.How == "result" {
				r := gen.Draw(rt, k.Resp.String(), gen.Opts{Legal: true})
				ev.Resp = &r
			}
			evs = append(evs, ev)
		}
	}
	for j := rapid.IntRange(0, 4).Draw(rt, "extra"); j > 0; j-- {
		ev := c08Ev{At: offset(), Op: rapid.SampledFrom([]string{"unknown", "malformed", "call", "call"}).Draw(rt, "op")}
		if ev.Op == "malformed" {
			ev.How = rapid.SampledFrom([]string{"", "[", "[3]", "{}", `[3,"x"]`, `[9,"x",{}]`, `[2,"x","Reset"]`}).Draw(rt, "frame")
		}
		evs = append(evs, ev)
	}
	if rapid.IntRange(0, 2).Draw(rt, "closes") == 0 {
		evs = append(evs, c08Ev{At: offset(), Op: "close", How: rapid.SampledFrom([]string{"handshake", "close", "reset"}).Draw(rt, "how")})
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].At < evs[j].At })
	return evs
}

// c08Line plays one timeline.
func c08Line(evs []c08Ev) error {
	f, err := fx.TheFakeCS()
	if err != nil {
		return err
	}
	s, err := newSideCP(fx.ID())
	if err != nil {
		return err
	}
	defer func() { s.cp.Cancel(); s.raw.Close() }()
	s.setHandler(func(messages.Request) (messages.Response, error) {
		return nil, errors.New("unexpected handler run")
	})
	type rec struct {
		msg     gen.Msg
		id      string
		out     chan outcome
		started time.Time
		raw     *fx.Raw
		want    *c08Ev
		wantAt  time.Time
		n       int
		doubt   bool // answered too close to the timeout for a judgement in real time
	}
	reqs := map[int]*rec{}
	begin := time.Now()
	const limit = timeoutMs * time.Millisecond
	for n, ev := range evs {
		what := fmt.Sprintf("event %d (%s %s at %d ms)", n, ev.Op, ev.How, ev.At)
		time.Sleep(time.Until(begin.Add(time.Duration(ev.At) * time.Millisecond)))
		switch ev.Op {
		case "send":
			r := &rec{msg: *ev.Req, started: time.Now(), raw: s.raw}
			r.out = make(chan outcome, 1)
			lr := libReq(*ev.Req)
			go func() {
				resp, err := s.send(lr)
				r.out <- outcome{resp, err}
			}()
			k, _ := spec.ByType(ev.Req.T)
			fr, err := s.next("a call")
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if fr.Type != 2 || fr.Action != k.Action {
				return fmt.Errorf("%s: the library sent %s", what, hx.Quote(fr.Raw))
			}
			r.id = fr.ID
			reqs[ev.I] = r
		case "answer":
			r := reqs[ev.I]
			b := errorFrame(r.id, "GenericError", fmt.Sprintf("error %d", n), "{}")
			if ev.How == "result" {
				b = resultFrame(r.id, refPayload(*ev.Resp))
			}
			if err := s.raw.Send(b); err != nil {
				return fmt.Errorf("%s: the connection is gone: %v", what, err)
			}
			if r.want == nil && r.raw == s.raw {
				d := time.Since(r.started)
				if d < limit {
					e := ev
					r.want, r.wantAt, r.n = &e, time.Now(), n
				}
				if d > limit-3*time.Second && d < limit+3*time.Second {
					r.doubt = true
				}
			}
		case "unknown":
			if err := s.raw.Send(resultFrame("unknown-"+wireID(), "{}")); err != nil {
				return fmt.Errorf("%s: the connection is gone: %v", what, err)
			}
		case "malformed":
			if err := s.raw.Send([]byte(ev.How)); err != nil {
				return fmt.Errorf("%s: the connection is gone: %v", what, err)
			}
		case "call":
			if err := s.barrier(nil); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		case "close":
			switch ev.How {
			case "handshake":
				s.raw.CloseHandshake()
			case "reset":
				s.raw.Reset()
			default:
				s.raw.Close()
			}
			if s.raw, err = hx.Recv(f.Conns("/"+s.id), "the return of a charge point whose connection was closed"); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			// the charge point serves its new connection only when it uses it for requests, too
			if err := s.barrier(nil); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
	}
	for i := 0; i < len(reqs); i++ {
		r := reqs[i]
		what := fmt.Sprintf("request %d (%s, sent at %v)", i, r.msg.T, r.started.Sub(begin))
		var o outcome
		select {
		case o = <-r.out:
		case <-time.After(time.Until(r.started.Add(limit + 15*time.Second))):
			select {
			case o = <-r.out:
			default:
				return hx.Late(r.started, "the return of "+what)
			}
		}
		switch {
		case r.doubt:
		case r.want == nil:
			if o.err == nil {
				return fmt.Errorf("%s was not answered in time, but Send returned %s", what, hx.Quote(o.resp))
			}
		case r.want.How == "result":
			if o.err != nil {
				return fmt.Errorf("%s was answered after %v, but Send returned the error %v", what, r.wantAt.Sub(r.started), o.err)
			}
			if err := gen.Same(*r.want.Resp, o.resp); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		default:
			if o.err == nil || !contains(o.err.Error(), fmt.Sprintf("error %d", r.n)) {
				return fmt.Errorf("%s was answered with an error, but Send returned %s, %v", what, hx.Quote(o.resp), o.err)
			}
		}
	}
	if err := s.barrier(nil); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	m := minimal("cpreq.Heartbeat")
	out := s.start(libReq(m))
	fr, err := s.next("a call")
	if err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	resp := gen.Msg{T: "cpresp.Heartbeat", V: map[string]interface{}{"CurrentTime": "2024-05-06T07:08:09Z"}}
	if err := s.raw.Send(resultFrame(fr.ID, `{"currentTime":"2024-05-06T07:08:09Z"}`)); err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	o, err := hx.Recv(out, "the return of an answered request at the end")
	if err != nil {
		return err
	}
	if o.err != nil {
		return fmt.Errorf("at the end a request failed: %v", o.err)
	}
	return gen.Same(resp, o.resp)
}

func checkC08Real(c c08Real) error {
	var wg sync.WaitGroup
	errs := make([]error, len(c.Lines))
	for i := range c.Lines {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = c08Line(c.Lines[i])
		}()
	}
	unread := make([]error, len(c.Unread))
	for i := range c.Unread {
		wg.Add(1)
		go func() {
			defer wg.Done()
			unread[i] = unreadLine(c.Unread[i])
		}()
	}
	wg.Wait()
	hx.Note("timelines", int64(len(c.Lines)))
	hx.Note("peers that stop reading", int64(len(c.Unread)))
	for i, err := range unread {
		if err != nil {
			return hx.Reduced(c08Real{Unread: c.Unread[i : i+1]}, fmt.Errorf("peer %d that stops reading %s: %w", i, hx.Quote(c.Unread[i]), err))
		}
	}
	for i, err := range errs {
		if err != nil {
			return hx.Reduced(c08Real{Lines: c.Lines[i : i+1]}, fmt.Errorf("timeline %d %s: %w", i, hx.Quote(c.Lines[i]), err))
		}
	}
	return nil
}
