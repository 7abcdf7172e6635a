package props

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
)

// c08Unread is a connection whose peer stops reading while more is sent than the system holds.
type c08Unread struct {
	AtCS   bool    `json:"at_cs"`
	Big    int     `json:"big"`  // the megabytes of the first request
	At     []int64 `json:"at"`   // when the other requests are sent, ms
	Resume int64   `json:"back"` // when the peer reads again, ms; 0: never
	Call   bool    `json:"call"` // the peer sends a call meanwhile, too
}

func drawC08Unread(rt *rapid.T) c08Unread {
	c := c08Unread{AtCS: rapid.Bool().Draw(rt, "at cs"), Big: rapid.IntRange(14, 20).Draw(rt, "big"), Call: rapid.Bool().Draw(rt, "call")}
	for i := rapid.IntRange(1, 6).Draw(rt, "more"); i > 0; i-- {
		c.At = append(c.At, rapid.SampledFrom([]int64{300, 300, 400, 1000, 5000, 20000, 50000}).Draw(rt, "at"))
	}
	if rapid.IntRange(0, 2).Draw(rt, "comes back") == 0 {
		c.Resume = rapid.SampledFrom([]int64{2000, 10000, 30000, 40000}).Draw(rt, "back")
	}
	return c
}

func unreadLine(c c08Unread) error {
	var s *side
	var err error
	if c.AtCS {
		s, err = newSideCS(fx.ID())
	} else {
		s, err = newSideCP(fx.ID())
	}
	if err != nil {
		return err
	}
	defer s.close()
	if err := s.barrier(nil); err != nil {
		return err
	}
	s.raw.Pause()
	// what is being read when the pause begins is read
	if err := s.raw.Send(s.barrierFrame("last-" + wireID())); err != nil {
		return err
	}
	if _, err := s.next("the answer to a well-formed call"); err != nil {
		return err
	}
	begin := time.Now()
	const limit = timeoutMs * time.Millisecond
	type sent struct {
		tag  string
		at   time.Time
		over time.Time
		out  outcome
		done chan struct{}
	}
	var list []*sent
	start := func(data string) {
		r := &sent{tag: fmt.Sprintf("t%d", len(list)), done: make(chan struct{})}
		list = append(list, r)
		v := map[string]interface{}{"VendorId": "v", "MessageId": r.tag}
		if data != "" {
			v["Data"] = data
		}
		typ := "cpreq.DataTransfer"
		if c.AtCS {
			typ = "csreq.DataTransfer"
		}
		lr := libReq(gen.Msg{T: typ, V: v})
		r.at = time.Now()
		go func() {
			resp, err := s.send(lr)
			r.out, r.over = outcome{resp, err}, time.Now()
			close(r.done)
		}()
	}
	start(strings.Repeat("x", c.Big<<20))
	back := false
	called := 0
	pause := func(until time.Time) error {
		for time.Now().Before(until) {
			if !back && c.Resume > 0 && time.Since(begin) >= time.Duration(c.Resume)*time.Millisecond {
				back = true
				s.raw.Resume()
			}
			time.Sleep(20 * time.Millisecond)
		}
		return nil
	}
	last := begin
	for i, at := range c.At {
		when := begin.Add(time.Duration(at) * time.Millisecond)
		if when.Before(last) {
			when = last
		}
		last = when
		pause(when)
		if c.Call && i == 0 && !back {
			called++
			s.raw.Send(s.barrierFrame("stuck-" + wireID()))
		}
		if c.Resume > 0 && at > c.Resume {
			break
		}
		start("")
	}
	late := func(r *sent) error {
		return hx.Late(r.at, fmt.Sprintf("the return of request %s, sent %v after the peer stopped reading", r.tag, r.at.Sub(begin).Round(time.Millisecond)))
	}
	if c.Resume > 0 {
		pause(begin.Add(time.Duration(c.Resume)*time.Millisecond + 50*time.Millisecond))
		// the peer reads again: everything arrives and is answered
		seen := map[string]bool{}
		for n := len(list) + called; n > 0; n-- {
			f, err := s.next("a message, as the peer reads again")
			if err != nil {
				return err
			}
			if f.Type == 3 && called > 0 {
				called--
				continue
			}
			p, _ := f.Payload.(map[string]interface{})
			tag, _ := p["messageId"].(string)
			if f.Type != 2 || f.Action != "DataTransfer" || tag == "" || seen[tag] {
				return fmt.Errorf("the library sent %s", hx.Quote(f.Raw))
			}
			seen[tag] = true
			if err := s.raw.Send(resultFrame(f.ID, `{"status":"Accepted","data":"`+tag+`"}`)); err != nil {
				return err
			}
		}
		for _, r := range list {
			if _, err := hx.Recv(r.done, "the return of an answered request"); err != nil {
				return err
			}
			if r.out.err != nil {
				return fmt.Errorf("request %s was answered after %v, but Send returned the error %v", r.tag, time.Since(r.at), r.out.err)
			}
			typ := "cpresp.DataTransfer"
			if c.AtCS {
				typ = "csresp.DataTransfer"
			}
			if err := gen.Same(gen.Msg{T: typ, V: map[string]interface{}{"Status": "Accepted", "Data": r.tag}}, r.out.resp); err != nil {
				return err
			}
		}
		return s.barrier(nil)
	}
	for _, r := range list {
		select {
		case <-r.done:
		case <-time.After(time.Until(r.at.Add(limit + 15*time.Second))):
			select {
			case <-r.done:
			default:
				return late(r)
			}
		}
		if r.out.err == nil {
			return fmt.Errorf("request %s was never answered, but Send returned %s", r.tag, hx.Quote(r.out.resp))
		}
		if d := r.over.Sub(r.at); d > limit+5*time.Second+hx.StalledSince(r.at) {
			return fmt.Errorf("request %s returned only after %v", r.tag, d)
		}
	}
	// the connection took no message for longer than the timeout: it is given up, or works
	// when the peer reads again
	if !c.AtCS {
		f, err := fx.TheFakeCS()
		if err != nil {
			return err
		}
		select {
		case raw := <-f.Conns("/" + s.id):
			s.raw.Reset()
			s.raw = raw
		default:
			s.raw.Resume()
			if raw, err := hx.Recv(f.Conns("/"+s.id), "the return of a charge point whose connection took no message for longer than the timeout"); err != nil {
				return err
			} else {
				s.raw = raw
			}
		}
	} else {
		s.raw.Reset()
		sys, _ := fx.TheCS()
		if err := sys.AwaitGone(s.id); err != nil {
			return err
		}
		if s.raw, err = sys.ConnectRaw(s.id); err != nil {
			return err
		}
		if err := s.serveCS(); err != nil {
			return err
		}
	}
	if err := s.barrier(nil); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	n := len(list)
	start("")
	f, err := s.next("a call")
	if err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	if err := s.raw.Send(resultFrame(f.ID, `{"status":"Accepted"}`)); err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	if _, err := hx.Recv(list[n].done, "the return of an answered request at the end"); err != nil {
		return err
	}
	if list[n].out.err != nil {
		return fmt.Errorf("at the end a request failed: %v", list[n].out.err)
	}
	return nil
}
