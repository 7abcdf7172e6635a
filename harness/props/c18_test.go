package props

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"

	"vharness/fx"
	"vharness/hx"
	"vharness/spec"
)

// c18Op is one thing done on a connection.
type c18Op struct {
	Op  string `json:"op"`
	K   int    `json:"k,omitempty"`   // which action
	Raw string `json:"raw,omitempty"` // malformed message
}

// a round of operations, repeated
type c18Case struct {
	Round []c18Op `json:"round"`
	End   string  `json:"end"`
}

var c18Ops = []string{"serve", "serve", "fail", "unknown", "faulty", "wrongway", "ok", "ok", "error", "faultyresult", "timeout", "late", "twice", "unsolicited", "malformed"}

func drawC18Op(rt *rapid.T, ops []string) c18Op {
	op := c18Op{Op: rapid.SampledFrom(ops).Draw(rt, "op"), K: rapid.IntRange(0, 30).Draw(rt, "kind")}
	if op.Op == "malformed" {
		op.Raw = rapid.SampledFrom([]string{"", "[ab", "[3]", "{}", "null", `[3,"x"]`, `[9,"x",{}]`, `[2,"x","Reset"]`, `[3,"",null]`, `[4,"x","a","b","c"]`, `[2,3,"Heartbeat",{}]`}).Draw(rt, "frame")
	}
	return op
}

func drawC18(rt *rapid.T) c18Case {
	c := c18Case{End: rapid.SampledFrom([]string{"handshake", "close", "reset"}).Draw(rt, "end")}
	for n := rapid.IntRange(1, 4).Draw(rt, "ops"); n > 0; n-- {
		c.Round = append(c.Round, drawC18Op(rt, c18Ops))
	}
	return c
}

// talker does operations on a connection of either kind, whatever carries it.
type talker struct {
	atCS   bool
	pad    string // makes messages big
	write  func([]byte) error
	start  func(messages.Request) chan outcome
	next   func() (*frame, error) // the next frame the library sends
	settle func()                 // everything sent was processed
	sleep  func(time.Duration)
	result func(chan outcome) (outcome, error)
}

func (t *talker) peerKind(n int) *spec.Kind {
	l := receivedBy(t.atCS)
	return l[n%len(l)]
}
func (t *talker) ownKind(n int) *spec.Kind {
	l := sentBy(t.atCS)
	return l[n%len(l)]
}

func (t *talker) expect(typ int, id, code string) error {
	f, err := t.next()
	if err != nil {
		return err
	}
	if f.Type != typ || (id != "" && f.ID != id) || (code != "" && f.Code != code) {
		return fmt.Errorf("expected a message of type %d, id %q, code %q, the library sent %s", typ, id, code, hx.Quote(f.Raw))
	}
	return nil
}

// do performs one operation and waits for its end.
func (t *talker) do(op c18Op) error {
	id := wireID()
	switch op.Op {
	case "serve":
		k := t.peerKind(op.K)
		if err := t.write(callFrame(id, k.Action, refPayload(minimal(k.Req.String())))); err != nil {
			return err
		}
		return t.expect(3, id, "")
	case "fail":
		b := callFrame(id, "StatusNotification", `{"connectorId":1,"errorCode":"NoError","status":"Available","info":"fail`+t.pad+`"}`)
		if !t.atCS {
			b = callFrame(id, "ChangeConfiguration", `{"key":"fail","value":"x`+t.pad+`"}`)
		}
		if err := t.write(b); err != nil {
			return err
		}
		return t.expect(4, id, "InternalError")
	case "unknown":
		if err := t.write(callFrame(id, "Foo", `{"x":"`+t.pad+`"}`)); err != nil {
			return err
		}
		return t.expect(4, id, "NotSupported")
	case "faulty":
		k := t.peerKind(op.K)
		if err := t.write(callFrame(id, k.Action, `{"x":"`+t.pad+`"}`)); err != nil {
			return err
		}
		return t.expect(4, id, "FormationViolation")
	case "wrongway":
		k := t.ownKind(op.K)
		if k.Action == "DataTransfer" {
			return nil
		}
		if err := t.write(callFrame(id, k.Action, refPayload(minimal(k.Req.String())))); err != nil {
			return err
		}
		return t.expect(4, id, "")
	case "unsolicited":
		if err := t.write(resultFrame(id, `{"x":"`+t.pad+`"}`)); err != nil {
			return err
		}
		t.settle()
		return nil
	case "malformed":
		if err := t.write([]byte(op.Raw)); err != nil {
			return err
		}
		t.settle()
		return nil
	}
	// own requests
	k := t.ownKind(op.K)
	out := t.start(t.ownRequest(k))
	f, err := t.next()
	if err != nil {
		return err
	}
	if f.Type != 2 || f.Action != k.Action {
		return fmt.Errorf("expected a call of %s, the library sent %s", k.Action, hx.Quote(f.Raw))
	}
	answer := resultFrame(f.ID, refPayload(minimal(k.Resp.String())))
	wantErr := true
	switch op.Op {
	case "ok":
		wantErr = false
		err = t.write(answer)
	case "twice":
		wantErr = false
		if err = t.write(answer); err == nil {
			err = t.write(answer)
		}
	case "error":
		err = t.write(errorFrame(f.ID, "GenericError", "no"+t.pad, "{}"))
	case "faultyresult":
		err = t.write(resultFrame(f.ID, `{"x":"`+t.pad+`"}`))
	case "timeout":
		t.sleep(61 * time.Second)
	case "late":
		t.sleep(61 * time.Second)
		err = t.write(answer)
	}
	if err != nil {
		return err
	}
	o, err := t.result(out)
	if err != nil {
		return err
	}
	if wantErr != (o.err != nil) {
		return fmt.Errorf("a request (%s) ended with %s, %v", op.Op, hx.Quote(o.resp), o.err)
	}
	t.settle()
	return nil
}

// ownRequest of a kind, with padding where there is a text.
func (t *talker) ownRequest(k *spec.Kind) messages.Request {
	if t.pad != "" {
		switch k.Action {
		case "DataTransfer":
			if !k.FromCP {
				return &csreq.DataTransfer{VendorId: "v", Data: t.pad}
			}
			return &cpreq.DataTransfer{VendorId: "v", Data: t.pad}
		}
	}
	return libReq(minimal(k.Req.String()))
}

func bubbleTalker(p *bpeer) (*talker, error) {
	send, err := bubbleSender(p.id)
	if err != nil {
		return nil, fmt.Errorf("no service for a connected charge point: %v", err)
	}
	return &talker{
		atCS:  true,
		write: p.send,
		start: func(r messages.Request) chan outcome {
			ch := make(chan outcome, 1)
			go func() {
				resp, err := send(r)
				ch <- outcome{resp, err}
			}()
			return ch
		},
		next: func() (*frame, error) {
			synctest.Wait()
			p.mu.Lock()
			defer p.mu.Unlock()
			if len(p.frames) == 0 {
				return nil, fmt.Errorf("the library sent nothing (connection: %v)", p.ended)
			}
			b := p.frames[0]
			p.frames = p.frames[1:]
			return parseFrame(b)
		},
		settle: synctest.Wait,
		sleep:  func(d time.Duration) { time.Sleep(d); synctest.Wait() },
		result: func(ch chan outcome) (outcome, error) {
			synctest.Wait()
			select {
			case o := <-ch:
				return o, nil
			default:
				return outcome{}, errors.New("a request did not return")
			}
		},
	}, nil
}

const c18Allowance = 25 // more goroutines than this make a difference

// checkC18 repeats a round; the number of goroutines must not follow the number of rounds.
func checkC18(c c18Case) error {
	if _, err := fx.TheCS(); err != nil {
		return err
	}
	return inBubble(func() error {
		id := fx.ID()
		bubbleHandler(id, nil)
		sys, _ := fx.TheCS()
		defer sys.Handle(id, nil)
		p, err := bubbleConnect(id)
		if err != nil {
			return err
		}
		t, err := bubbleTalker(p)
		if err != nil {
			return err
		}
		rounds := func(n int) error {
			for i := 0; i < n; i++ {
				for _, op := range c.Round {
					if err := t.do(op); err != nil {
						return fmt.Errorf("%s: %w", op.Op, err)
					}
				}
			}
			time.Sleep(3 * time.Minute)
			synctest.Wait()
			return nil
		}
		if err := rounds(5); err != nil {
			return err
		}
		few := libGoroutines(true)
		if err := rounds(60); err != nil {
			return err
		}
		many := libGoroutines(true)
		if len(many) > len(few)+c18Allowance {
			return fmt.Errorf("after 5 rounds of %s there are %d goroutines of the library, after 65 rounds %d, for example\n%s",
				hx.Quote(c.Round), len(few), len(many), many[len(many)/2])
		}
		return ends(p, c.End)
	})
}

// ends closes the connection; after the request timeout nothing may be left of it.
func ends(p *bpeer, how string) error {
	p.end(how)
	time.Sleep(3 * time.Minute)
	synctest.Wait()
	if l := libGoroutines(true); len(l) > 0 {
		return fmt.Errorf("three minutes after the end (%s) of the connection %d goroutines of the library are left, for example\n%s", how, len(l), l[0])
	}
	return nil
}

// c18Cut is a conversation that is cut off.
type c18Cut struct {
	Ops  []c18Op `json:"ops"`  // complete operations
	Open []c18Op `json:"open"` // begun but not awaited: serve, slow, ok
	End  string  `json:"end"`
	Wait int     `json:"wait"` // ms between the open operations and the end
}

func checkC18Cut(c c18Cut) error {
	if _, err := fx.TheCS(); err != nil {
		return err
	}
	return inBubble(func() error {
		id := fx.ID()
		slow := false
		bubbleHandler(id, func(r cpreq.ChargePointRequest) {
			if slow {
				time.Sleep(5 * time.Second)
			}
		})
		sys, _ := fx.TheCS()
		defer sys.Handle(id, nil)
		p, err := bubbleConnect(id)
		if err != nil {
			return err
		}
		t, err := bubbleTalker(p)
		if err != nil {
			return err
		}
		for _, op := range c.Ops {
			if err := t.do(op); err != nil {
				return fmt.Errorf("%s: %w", op.Op, err)
			}
		}
		for _, op := range c.Open {
			switch op.Op {
			case "serve", "slow":
				slow = slow || op.Op == "slow"
				k := t.peerKind(op.K)
				t.write(callFrame(wireID(), k.Action, refPayload(minimal(k.Req.String()))))
			case "malformed":
				t.write([]byte(op.Raw))
			default:
				t.start(t.ownRequest(t.ownKind(op.K)))
			}
		}
		if c.Wait > 0 {
			time.Sleep(time.Duration(c.Wait) * time.Millisecond)
			synctest.Wait()
		}
		return ends(p, c.End)
	})
}

// checkC18Heap repeats a round very often; the memory in use must not follow.
func checkC18Heap(c c18Case) error {
	if _, err := fx.TheCS(); err != nil {
		return err
	}
	return inBubble(func() error {
		id := fx.ID()
		bubbleHandler(id, nil)
		sys, _ := fx.TheCS()
		defer sys.Handle(id, nil)
		p, err := bubbleConnect(id)
		if err != nil {
			return err
		}
		defer p.end("reset")
		t, err := bubbleTalker(p)
		if err != nil {
			return err
		}
		t.pad = strings.Repeat("x", 300)
		rounds := func(n int) error {
			for i := 0; i < n; i++ {
				for _, op := range c.Round {
					if err := t.do(op); err != nil {
						return fmt.Errorf("%s: %w", op.Op, err)
					}
				}
			}
			time.Sleep(3 * time.Minute)
			synctest.Wait()
			return nil
		}
		heap := func() uint64 {
			runtime.GC()
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			return m.HeapAlloc
		}
		if err := rounds(200); err != nil {
			return err
		}
		const n = 4000
		before := heap()
		if err := rounds(n); err != nil {
			return err
		}
		grown := int64(heap()) - int64(before)
		hx.Note("heap_bytes_per_1000_rounds", grown/(n/1000))
		if grown > 40*n {
			// once more, to leave out what is built up once
			before = heap()
			if err := rounds(n); err != nil {
				return err
			}
			if again := int64(heap()) - int64(before); again > 40*n {
				return fmt.Errorf("the memory in use grows by %d, then %d bytes with every round of %s", grown/n, again/n, hx.Quote(c.Round))
			}
		}
		return nil
	})
}

// ---- charge points, in real time ----

type c18CP struct {
	Round []c18Op `json:"round"` // may contain reconnect
	Times int     `json:"times"`
}

func checkC18CP(c c18CP) error {
	dropSides()
	err := hx.Eventually("the end of everything started before", func() error {
		n := len(cpGoroutines())
		if n > 0 {
			return fmt.Errorf("%d goroutines, for example %s", n, cpGoroutines()[0])
		}
		return nil
	})
	if err != nil {
		return err
	}
	f, err := fx.TheFakeCS()
	if err != nil {
		return err
	}
	s, err := newSideCP(fx.ID())
	if err != nil {
		return err
	}
	defer s.close()
	s.setHandler(func(r messages.Request) (messages.Response, error) {
		if x, ok := r.(*csreq.ChangeConfiguration); ok && x.Key == "fail" {
			return nil, errors.New("as asked")
		}
		return libResp(minimal(kindOf(r.Action(), false).Resp.String())), nil
	})
	t := &talker{
		write:  func(b []byte) error { return s.raw.Send(b) },
		start:  s.start,
		next:   func() (*frame, error) { return s.next("a message") },
		settle: func() {},
		result: func(ch chan outcome) (outcome, error) { return hx.Recv(ch, "the return of an answered request") },
	}
	round := func() error {
		for _, op := range c.Round {
			if op.Op == "reconnect" {
				s.raw.Close()
				if s.raw, err = hx.Recv(f.Conns("/"+s.id), "the return of a charge point whose connection was closed"); err != nil {
					return err
				}
				if err := s.barrier(nil); err != nil {
					return err
				}
				continue
			}
			if err := t.do(op); err != nil {
				return fmt.Errorf("%s: %w", op.Op, err)
			}
		}
		return nil
	}
	count := func(most int) (l []string, err error) {
		if err := s.barrier(nil); err != nil {
			return nil, err
		}
		s.taken()
		// goroutines that are about to end get time for it
		for i := 0; i < 200; i++ {
			if l = cpGoroutines(); len(l) <= most {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		return
	}
	for i := 0; i < 3; i++ {
		if err := round(); err != nil {
			return err
		}
	}
	few, err := count(8)
	if err != nil {
		return err
	}
	for i := 0; i < c.Times; i++ {
		if err := round(); err != nil {
			return err
		}
	}
	many, err := count(len(few) + c18Allowance)
	if err != nil {
		return err
	}
	if len(many) > len(few)+c18Allowance {
		return fmt.Errorf("after 3 rounds of %s there are %d goroutines of the library, after %d rounds %d, for example\n%s",
			hx.Quote(c.Round), len(few), c.Times+3, len(many), many[len(many)/2])
	}
	s.cp.Cancel()
	return hx.Eventually("the end of everything a cancelled charge point started", func() error {
		if l := cpGoroutines(); len(l) > 0 {
			return fmt.Errorf("%d goroutines of the library are left, for example\n%s", len(l), l[0])
		}
		return nil
	})
}

// cpGoroutines are the goroutines inside the library, except the central system's server.
func cpGoroutines() []string {
	var out []string
	for _, g := range libGoroutines(false) {
		if !strings.Contains(g, "go-ocpp/cs.") && !strings.Contains(g, "synctest bubble") {
			out = append(out, g)
		}
	}
	return out
}

func classifyC18(ops []c18Op) []string {
	var cl []string
	for _, o := range ops {
		cl = append(cl, o.Op)
	}
	return cl
}

func TestC18(t *testing.T) {
	bubbleT = t
	hx.Run(t, hx.Part[c18Case]{
		Property: "C18", Name: "rounds",
		Rule:     "a case is a round of 1-4 operations (serving calls of all outcomes, own requests that are answered, refused, time out, are answered late or twice, unsolicited and malformed messages), done 5 and then 60 more times on one connection under a virtual clock; the goroutines inside the library are counted after each; then the connection ends and none may be left; always non-trivial",
		Budget:   hx.Budget{Quick: 300, Thorough: 6000, QuickSecs: 30, ThoroughSecs: 500},
		Draw:     drawC18,
		Classify: func(c c18Case) (bool, []string) { return true, append(classifyC18(c.Round), "end "+c.End) },
		Check:    checkC18,
	})
	hx.Run(t, hx.Part[c18Cut]{
		Property: "C18", Name: "cut-off",
		Rule:   "a case is a conversation that is cut off (close handshake, TCP close, reset) while calls are being served, handlers are busy and requests are outstanding; after three minutes of virtual time no goroutine of the library may be left; non-trivial if something is under way",
		Budget: hx.Budget{Quick: 3000, Thorough: 100000, QuickSecs: 30, ThoroughSecs: 500},
		Draw: func(rt *rapid.T) c18Cut {
			c := c18Cut{End: rapid.SampledFrom([]string{"handshake", "close", "reset"}).Draw(rt, "end"), Wait: rapid.SampledFrom([]int{0, 0, 1, 1000, 7000, 70000}).Draw(rt, "wait")}
			for n := rapid.IntRange(0, 5).Draw(rt, "ops"); n > 0; n-- {
				c.Ops = append(c.Ops, drawC18Op(rt, c18Ops))
			}
			for n := rapid.IntRange(0, 5).Draw(rt, "open"); n > 0; n-- {
				c.Open = append(c.Open, drawC18Op(rt, []string{"serve", "serve", "slow", "ok", "ok", "malformed"}))
			}
			return c
		},
		Classify: func(c c18Cut) (bool, []string) {
			return len(c.Open) > 0, append(classifyC18(c.Open), "end "+c.End)
		},
		Check: checkC18Cut,
	})
	hx.Run(t, hx.Part[c18Case]{
		Property: "C18", Name: "memory",
		Rule:   "a case is a round of 1-3 operations done 4200 times on one connection under a virtual clock; the heap in use must not grow with the rounds (40 bytes per round are tolerated); always non-trivial",
		Budget: hx.Budget{Quick: 24, Thorough: 400, QuickSecs: 40, ThoroughSecs: 600},
		Draw: func(rt *rapid.T) c18Case {
			c := c18Case{End: "reset"}
			for n := rapid.IntRange(1, 3).Draw(rt, "ops"); n > 0; n-- {
				c.Round = append(c.Round, drawC18Op(rt, c18Ops))
			}
			return c
		},
		Classify: func(c c18Case) (bool, []string) { return true, classifyC18(c.Round) },
		Check:    checkC18Heap,
	})
	hx.Run(t, hx.Part[c18CP]{
		Property: "C18", Name: "charge-point",
		Rule:   "a case is a round of 1-4 operations on the connection of a library charge point (as above, without timeouts, with reconnections), done 3 and then 40 more times; goroutines inside the library are counted; after cancelling none may be left; always non-trivial",
		Budget: hx.Budget{Quick: 80, Thorough: 2000, QuickSecs: 30, ThoroughSecs: 500},
		Draw: func(rt *rapid.T) c18CP {
			c := c18CP{Times: 40}
			ops := []string{"serve", "serve", "fail", "unknown", "faulty", "wrongway", "ok", "ok", "error", "faultyresult", "twice", "unsolicited", "malformed", "reconnect"}
			for n := rapid.IntRange(1, 4).Draw(rt, "ops"); n > 0; n-- {
				c.Round = append(c.Round, drawC18Op(rt, ops))
			}
			return c
		},
		Classify: func(c c18CP) (bool, []string) { return true, classifyC18(c.Round) },
		Check:    checkC18CP,
	})
}
