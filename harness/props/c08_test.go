package props

import (
	"fmt"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// c08Ev is something that happens at a time of the virtual clock.
type c08Ev struct {
	At   int64    `json:"at"`          // ms
	Op   string   `json:"op"`          // send, answer, unknown, malformed, call, close, connect, stall, resume
	I    int      `json:"i,omitempty"` // of the request; stall: how many bytes the connection still takes
	Req  *gen.Msg `json:"req,omitempty"`
	How  string   `json:"how,omitempty"` // answer: result, error; close: handshake, close, reset; malformed: the frame
	Resp *gen.Msg `json:"resp,omitempty"`
}

type c08Case struct {
	Evs []c08Ev `json:"evs"`
}

const timeoutMs = 60000

func drawOffset(rt *rapid.T) int64 {
	return rapid.SampledFrom([]int64{0, 1, 50, 1000, 5000, 29000, 30500, 45000, 55000, 59000, 59900, 59999, 60001, 60100, 61000, 65000, 90000, 119000, 121000, 300000}).Draw(rt, "offset")
}

func drawC08(rt *rapid.T) c08Case {
	var c c08Case
	kinds := jsonFromCS
	n := rapid.IntRange(1, 8).Draw(rt, "requests")
	i := 0
	if rapid.IntRange(0, 3).Draw(rt, "early") > 0 { // the first request at once
		i = 0
	}
	for ; i < n; i++ {
		k := rapid.SampledFrom(kinds).Draw(rt, "kind")
		m := gen.Draw(rt, k.Req.String(), gen.Opts{})
		at := int64(0)
		if i > 0 {
			at = rapid.SampledFrom([]int64{0, 1, 1000, 20000, 58000, 60000, 62000, 70000, 130000}).Draw(rt, "start")
		}
		c.Evs = append(c.Evs, c08Ev{At: at, Op: "send", I: i, Req: &m})
		for a := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 2, 3}).Draw(rt, "answers"); a > 0; a-- {
			ev := c08Ev{At: at + drawOffset(rt), Op: "answer", I: i, How: rapid.SampledFrom([]string{"result", "result", "error"}).Draw(rt, "answer")}
			if ev.How == "result" {
				r := gen.Draw(rt, k.Resp.String(), gen.Opts{Legal: true})
				ev.Resp = &r
			}
			c.Evs = append(c.Evs, ev)
		}
	}
	extra := rapid.IntRange(0, 5).Draw(rt, "extra")
	for j := 0; j < extra; j++ {
		ev := c08Ev{At: drawOffset(rt) + rapid.Int64Range(0, 3).Draw(rt, "shift")*1000, Op: rapid.SampledFrom([]string{"unknown", "malformed", "call", "call"}).Draw(rt, "op")}
		if ev.Op == "malformed" {
			ev.How = rapid.SampledFrom([]string{"", "[", "[3]", "{}", `[3,"x"]`, `[9,"x",{}]`, `[2,"x","Heartbeat"]`}).Draw(rt, "frame")
		}
		c.Evs = append(c.Evs, ev)
	}
	if rapid.IntRange(0, 2).Draw(rt, "closes") == 0 {
		at := drawOffset(rt)
		c.Evs = append(c.Evs, c08Ev{At: at, Op: "close", How: rapid.SampledFrom([]string{"handshake", "close", "reset"}).Draw(rt, "how")})
		if rapid.Bool().Draw(rt, "comes back") {
			c.Evs = append(c.Evs, c08Ev{At: at + rapid.SampledFrom([]int64{0, 1, 1000, 30000, 61000}).Draw(rt, "away"), Op: "connect"})
		}
	}
	// the peer stops reading for a while
	for j := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "stalls"); j > 0; j-- {
		at := rapid.SampledFrom([]int64{0, 0, 1, 900, 19000, 57000, 61000, 69000, 120000}).Draw(rt, "stall at")
		c.Evs = append(c.Evs, c08Ev{At: at, Op: "stall", I: rapid.SampledFrom([]int{0, 0, 1, 50, 200, 1000, 100000}).Draw(rt, "room")})
		if d := rapid.SampledFrom([]int64{1, 1000, 30000, 55000, 59900, 61500, 70000, 100000, 0}).Draw(rt, "stall for"); d > 0 {
			c.Evs = append(c.Evs, c08Ev{At: at + d, Op: "resume"})
		}
	}
	sort.SliceStable(c.Evs, func(i, j int) bool { return c.Evs[i].At < c.Evs[j].At })
	return c
}

type c08Req struct {
	msg     gen.Msg
	kind    *spec.Kind
	id      string
	started time.Time
	closed  bool // sent on a closed connection
	peer    *bpeer
	lenient bool // the library may not have read the answer in time
	want    *c08Ev
	wantAt  time.Time
	got     *outcome
	gotAt   time.Time
}

func checkC08(c c08Case) error {
	if _, err := fx.TheCS(); err != nil {
		return err
	}
	return inBubble(func() error { return c08Script(c) })
}

func c08Script(c c08Case) error {
	id := fx.ID()
	bubbleHandler(id, nil)
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	defer sys.Handle(id, nil)
	peer, err := bubbleConnect(id)
	if err != nil {
		return err
	}
	defer func() {
		peer.end("reset")
		time.Sleep(3 * time.Minute)
	}()
	send, err := bubbleSender(id)
	if err != nil {
		return fmt.Errorf("no service for a connected charge point: %v", err)
	}
	begin := time.Now()
	open := true
	// while the peer does not read: the calls without an answer, the requests that were not seen
	stalled := false
	var owed map[string]bool
	var unseen []*c08Req
	reqs := map[int]*c08Req{}
	type ret struct {
		r  *c08Req
		o  outcome
		at time.Time
	}
	rets := make(chan ret, 100)
	collect := func() {
		for {
			select {
			case x := <-rets:
				o := x.o
				x.r.got, x.r.gotAt = &o, x.at
			default:
				return
			}
		}
	}
	nothing := func(what string) error {
		l, err := peer.take()
		if err != nil {
			return err
		}
		if len(l) > 0 {
			return fmt.Errorf("%s: the library sent %s", what, hx.Quote(l[0].Raw))
		}
		return nil
	}
	call := func(what string) error {
		cid := "call-" + wireID()
		err := peer.send((&side{atCS: true}).barrierFrame(cid))
		synctest.Wait()
		if stalled {
			owed[cid] = true
			return nil
		}
		if err != nil {
			return fmt.Errorf("%s: the connection is gone: %v", what, err)
		}
		l, err := peer.take()
		if err != nil {
			return err
		}
		if len(l) != 1 || l[0].Type != 3 || l[0].ID != cid {
			return fmt.Errorf("%s: a well-formed call was not answered, instead: %s (connection: %v)", what, hx.Quote(l), peer.over())
		}
		return nil
	}
	// startOne sends a request and finds its message id
	startOne := func(what string, m gen.Msg) (*c08Req, error) {
		k, _ := spec.ByType(m.T)
		r := &c08Req{msg: m, kind: k, started: time.Now(), peer: peer, closed: !open}
		lr, f := libReq(m), send
		go func() {
			resp, err := f(lr)
			rets <- ret{r, outcome{resp, err}, time.Now()}
		}()
		synctest.Wait()
		if !open {
			return r, nil
		}
		if stalled {
			unseen = append(unseen, r)
			return r, nil
		}
		l, err := peer.take()
		if err != nil {
			return nil, err
		}
		if len(l) != 1 || l[0].Type != 2 || l[0].Action != k.Action {
			return nil, fmt.Errorf("%s: instead of the call of a request the library sent %s", what, hx.Quote(l))
		}
		r.id = l[0].ID
		return r, nil
	}
	// doubtful: the library cannot be expected to read from the connection, as the answer to a
	// call waits for the peer, or as the connection was given up
	doubtful := func() bool {
		w, over := peer.far.waited()
		return stalled && (len(owed) > 0 || over || w > 59*time.Second)
	}
	resume := func(what string) error {
		peer.far.resume()
		synctest.Wait()
		collect()
		stalled = false
		l, err := peer.take()
		if err != nil {
			return err
		}
		var late []*c08Req
		for _, f := range l {
			if f.Type == 3 && owed[f.ID] {
				delete(owed, f.ID)
				continue
			}
			found := false
			for i, r := range unseen {
				if f.Type == 2 && f.Action == r.kind.Action && gen.SameJSON(r.msg, f.Payload) == nil {
					r.id = f.ID
					found = true
					unseen = append(unseen[:i:i], unseen[i+1:]...)
					break
				}
			}
			if !found {
				return fmt.Errorf("%s: the library sent %s", what, hx.Quote(f.Raw))
			}
		}
		late, unseen = unseen, nil
		missing := len(owed)
		owed = nil
		waited, _ := peer.far.waited()
		if err := peer.over(); err != nil {
			if waited < 59*time.Second {
				return fmt.Errorf("%s: the library closed the connection (%v) although nothing waited longer than %v for the peer to read", what, err, waited)
			}
			hx.Note("connections given up", 1)
			open = false
			if _, err := sys.Sys.GetServiceOf(id, ocpp.V16, ""); err == nil {
				return fmt.Errorf("%s: the connection was closed by the library, but the charge point counts as connected", what)
			}
			return nil
		}
		if missing > 0 {
			return fmt.Errorf("%s: %d calls were not answered when the peer read again", what, missing)
		}
		for _, r := range late {
			if time.Since(r.started) < (timeoutMs-1000)*time.Millisecond && r.got == nil {
				return fmt.Errorf("%s: the call of a request (%s) did not arrive when the peer read again", what, r.msg.T)
			}
		}
		return nil
	}
	for n, ev := range c.Evs {
		what := fmt.Sprintf("event %d (%s %s at %d ms)", n, ev.Op, ev.How, ev.At)
		if d := time.Until(begin.Add(time.Duration(ev.At) * time.Millisecond)); d > 0 {
			time.Sleep(d)
			synctest.Wait()
		}
		collect()
		if stalled && peer.over() != nil {
			if err := resume("before " + what); err != nil {
				return err
			}
		}
		if open {
			if err := peer.over(); err != nil {
				return fmt.Errorf("before %s: the library closed the connection: %v", what, err)
			}
			if err := nothing("before " + what); err != nil {
				return err
			}
		}
		if stalled && peer.far.busy() && (ev.Op == "send" || ev.Op == "call" || ev.Op == "malformed") {
			// a second writer may wait for a mutex, which stops the virtual clock; see part "unread"
			continue
		}
		switch ev.Op {
		case "send":
			r, err := startOne(what, *ev.Req)
			if err != nil {
				return err
			}
			reqs[ev.I] = r
		case "answer":
			r := reqs[ev.I]
			if r == nil || !open || r.id == "" {
				continue
			}
			var b []byte
			if ev.How == "result" {
				b = resultFrame(r.id, refPayload(*ev.Resp))
			} else {
				b = errorFrame(r.id, "GenericError", fmt.Sprintf("error %d", n), "{}")
			}
			if doubtful() {
				r.lenient = true
			}
			if err := peer.send(b); err != nil && !stalled {
				return fmt.Errorf("%s: the connection is gone: %v", what, err)
			}
			synctest.Wait()
			if r.want == nil && r.peer == peer && time.Since(r.started) < timeoutMs*time.Millisecond {
				e := ev
				if e.How == "error" {
					e.Op = fmt.Sprintf("error %d", n)
				}
				r.want, r.wantAt = &e, time.Now()
			}
		case "unknown":
			if open {
				peer.send(resultFrame("unknown-"+wireID(), "{}"))
				synctest.Wait()
			}
		case "malformed":
			if open {
				peer.send([]byte(ev.How))
				synctest.Wait()
			}
		case "call":
			if open {
				if err := call(what); err != nil {
					return err
				}
			}
		case "close":
			if open {
				peer.end(ev.How)
				open = false
				if stalled {
					peer.far.resume()
					synctest.Wait()
					stalled, owed, unseen = false, nil, nil
				}
			}
		case "stall":
			if open && !stalled {
				peer.far.stall(ev.I)
				stalled, owed, unseen = true, map[string]bool{}, nil
			}
		case "resume":
			if stalled {
				if err := resume(what); err != nil {
					return err
				}
			}
		case "connect":
			if !open {
				if peer, err = bubbleConnect(id); err != nil {
					return err
				}
				if send, err = bubbleSender(id); err != nil {
					return fmt.Errorf("%s: no service for a connected charge point: %v", what, err)
				}
				open = true
			}
		}
	}
	// everything has returned when the timeout of the last request is over
	time.Sleep((timeoutMs + 1000) * time.Millisecond)
	synctest.Wait()
	collect()
	given := false
	if stalled {
		if err := resume("at the end"); err != nil {
			return err
		}
		given = !open
	}
	for i := 0; i <= 8; i++ {
		r := reqs[i]
		if r == nil {
			continue
		}
		what := fmt.Sprintf("request %d (%s, sent at %v)", i, r.msg.T, r.started.Sub(begin))
		if r.got == nil {
			return fmt.Errorf("%s has not returned at %v", what, time.Since(begin))
		}
		took := r.gotAt.Sub(r.started)
		if took > (timeoutMs+1000)*time.Millisecond {
			return fmt.Errorf("%s returned only after %v", what, took)
		}
		if r.lenient && r.got.err != nil {
			continue
		}
		switch {
		case r.want == nil:
			if r.got.err == nil {
				return fmt.Errorf("%s was not answered in time, but Send returned %s", what, hx.Quote(r.got.resp))
			}
		case r.gotAt.Sub(r.wantAt) > time.Second && !r.lenient:
			return fmt.Errorf("%s was answered at %v, but Send returned at %v", what, r.wantAt.Sub(begin), r.gotAt.Sub(begin))
		case r.want.How == "result":
			if r.got.err != nil {
				return fmt.Errorf("%s was answered after %v, but Send returned after %v with the error %v", what, r.wantAt.Sub(r.started), took, r.got.err)
			}
			if err := gen.Same(*r.want.Resp, r.got.resp); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		default:
			if r.got.err == nil || !contains(r.got.err.Error(), r.want.Op) {
				return fmt.Errorf("%s was answered with the error %q, but Send returned %s, %v", what, r.want.Op, hx.Quote(r.got.resp), r.got.err)
			}
		}
	}
	// requests and calls issued afterwards work
	if given {
		if peer, err = bubbleConnect(id); err != nil {
			return err
		}
		if send, err = bubbleSender(id); err != nil {
			return fmt.Errorf("at the end: no service for a connected charge point: %v", err)
		}
		open = true
	}
	if open {
		if err := nothing("at the end"); err != nil {
			return err
		}
		for i := 0; i < 2; i++ {
			if err := call("at the end"); err != nil {
				return err
			}
			k := jsonFromCS[i]
			r, err := startOne("at the end", minimal(k.Req.String()))
			if err != nil {
				return err
			}
			resp := minimal(k.Resp.String())
			peer.send(resultFrame(r.id, refPayload(resp)))
			synctest.Wait()
			collect()
			if r.got == nil || r.got.err != nil {
				return fmt.Errorf("at the end, an answered request did not succeed: %s", hx.Quote(r.got))
			}
			if err := gen.Same(resp, r.got.resp); err != nil {
				return fmt.Errorf("at the end: %v", err)
			}
		}
	}
	return nil
}

func TestC08(t *testing.T) {
	bubbleT = t
	hx.Run(t, hx.Part[c08Case]{
		Property: "C08", Name: "clock",
		Rule:   "a case is a timeline (virtual clock) of up to 8 requests of the central system with their answers at chosen times before or after the timeout, repeated answers, silence, unsolicited answers, malformed messages, incoming calls, times in which the peer does not read from a connection that holds no more than so many bytes, a disconnection of any kind and a return; non-trivial if some request is not simply answered at once",
		Budget: hx.Budget{Quick: 6000, Thorough: 200000, QuickSecs: 45, ThoroughSecs: 900},
		Draw:   drawC08,
		Classify: func(c c08Case) (bool, []string) {
			var cl []string
			nt := false
			starts := map[int]int64{}
			seen := map[int]bool{}
			for _, e := range c.Evs {
				cl = append(cl, e.Op)
				switch e.Op {
				case "send":
					starts[e.I] = e.At
				case "answer":
					d := e.At - starts[e.I]
					if d > timeoutMs {
						cl = append(cl, "late answer")
					}
					if seen[e.I] {
						cl = append(cl, "repeated answer")
					}
					if d > 0 || seen[e.I] {
						nt = true
					}
					seen[e.I] = true
				default:
					nt = true
				}
			}
			if len(seen) < len(starts) {
				nt = true
				cl = append(cl, "unanswered")
			}
			return nt, cl
		},
		Check: checkC08,
	})
	hx.Run(t, hx.Part[c08Real]{
		Property: "C08", Name: "charge-point",
		Rule:     "a case is a batch of 64 timelines in real time, each on the connection of a library charge point of its own: up to 4 requests with answers before or after the timeout, repeated answers, silence, unsolicited answers, malformed messages, incoming calls, a disconnection followed by the charge point's return; and of 16 connections of either side whose peer stops reading while more is sent than the system holds, and reads again before the timeout or not at all; always non-trivial",
		Budget:   hx.Budget{Quick: 1, Thorough: 12, QuickSecs: 100, ThoroughSecs: 1000},
		HangSecs: 400, NoShrink: true,
		Draw: func(rt *rapid.T) c08Real {
			var c c08Real
			for i := 0; i < 64; i++ {
				c.Lines = append(c.Lines, drawC08Line(rt))
			}
			for i := 0; i < 16; i++ {
				c.Unread = append(c.Unread, drawC08Unread(rt))
			}
			return c
		},
		Classify: func(c c08Real) (bool, []string) {
			var cl []string
			for _, l := range c.Lines {
				for _, e := range l {
					cl = append(cl, e.Op)
				}
			}
			return true, cl
		},
		Check: checkC08Real,
	})
}
