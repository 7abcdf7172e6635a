package props

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
)

// C24: the life of a SOAP charge point, from its construction to its cancellation.

type c24Op struct {
	// make: a charge point is constructed at the address Slot, which may not be free; race: N of
	// them at once; done: one whose context is done already; brief: one whose context is soon done;
	// bad: one with an address that cannot be used; squat/leave: somebody else listens there;
	// call: N requests at once; hold: a request whose handler waits; release: the Nth such handler
	// goes on; keep: a request over a connection that stays open; cancel: the context is done;
	// heir: cancel and make at once; send: a request of the charge point itself, even of one that is
	// cancelled; batch: operations at once
	Op    string  `json:"op"`
	Slot  int     `json:"slot,omitempty"`
	N     int     `json:"n,omitempty"`
	Raw   bool    `json:"raw,omitempty"`
	Fail  bool    `json:"fail,omitempty"` // the handler returns an error
	Ctx   int     `json:"ctx,omitempty"`  // 0: own context, 1: child of one that is cancelled, 2: with a deadline far away
	Batch []c24Op `json:"batch,omitempty"`
}

type c24Case struct {
	Ops []c24Op `json:"ops"`
}

// the addresses: host and which of the ports; the first, third and fourth overlap
var c24Slots = []struct {
	host string
	port int
}{{"127.0.0.1", 0}, {"127.0.0.1", 1}, {"127.0.0.2", 0}, {"", 0}, {"localhost", 2}}

func c24Overlap(a, b int) bool {
	x, y := c24Slots[a], c24Slots[b]
	return x.port == y.port && (x.host == y.host || x.host == "" || y.host == "")
}

var c24BadAddrs = []string{"127.0.0.1:99999", "127.0.0.1:-1", "127.0.0.1", "::::", "192.0.2.1:23456", "127.0.0.1:no such service", "[::1", "127.0.0.1:23456:1"}

type c24Point struct {
	tag    string
	slot   int
	cp     cp.ChargePoint
	end    func()
	mu     sync.Mutex
	runs   map[string]int
	done   bool // no more requests may reach it
	late   string
	gates  map[string]chan struct{}
	inside chan string
}

func (p *c24Point) handle(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
	r, ok := q.(*csreq.GetDiagnostics)
	if !ok {
		return nil, fmt.Errorf("a handler got a %T", q)
	}
	id := r.Location
	p.mu.Lock()
	p.runs[id]++
	if p.done {
		p.late = id
	}
	gate := p.gates[id]
	p.mu.Unlock()
	if gate != nil {
		p.inside <- id
		<-gate
	}
	if strings.HasPrefix(id, "fail") {
		return nil, errors.New(p.tag + "/" + id)
	}
	return &csresp.GetDiagnostics{FileName: p.tag + "/" + id}, nil
}

type c24Held struct {
	id   string
	p    *c24Point
	gate chan struct{}
	done chan error
}

type c24World struct {
	sys   *fx.CS
	ports [3]int
	mu    sync.Mutex // guards what follows
	owner [8]*c24Point
	squat [8]net.Listener
	all   []*c24Point
	held  []*c24Held
	kept  map[*c24Point][]net.Conn
	n     int
}

func (w *c24World) addr(slot int) string {
	return fmt.Sprintf("%s:%d", c24Slots[slot].host, w.ports[c24Slots[slot].port])
}

func (w *c24World) target(slot int) string {
	if c24Slots[slot].host == "" {
		return fmt.Sprintf("127.0.0.3:%d", w.ports[c24Slots[slot].port])
	}
	return w.addr(slot)
}

func (w *c24World) serial() int { w.mu.Lock(); defer w.mu.Unlock(); w.n++; return w.n }

// taken tells whether an address overlaps one that is in use.
func (w *c24World) taken(slot int) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i := range c24Slots {
		if (w.owner[i] != nil || w.squat[i] != nil) && c24Overlap(i, slot) {
			return true
		}
	}
	return false
}

func (w *c24World) who(slot int) *c24Point { w.mu.Lock(); defer w.mu.Unlock(); return w.owner[slot] }

func (w *c24World) construct(ctx context.Context, addr string, slot int) (*c24Point, error) {
	p := &c24Point{tag: fmt.Sprintf("c24-%d", w.serial()), slot: slot, runs: map[string]int{}, gates: map[string]chan struct{}{}, inside: make(chan string, 1)}
	port := addr
	start := time.Now()
	made, err := cp.New(ctx, p.tag, w.sys.HTTP+"/", ocpp.V15, ocpp.SOAP, &port, p.handle)
	if err != nil {
		return nil, err
	}
	if d := time.Since(start); d > hx.Patience() {
		return nil, hx.Late(start, "the construction of a SOAP charge point")
	}
	p.cp = made
	return p, nil
}

func (w *c24World) context(kind int) (context.Context, func()) {
	switch kind {
	case 1:
		parent, end := context.WithCancel(context.Background())
		child, end2 := context.WithCancel(parent)
		return child, func() { end(); end2() }
	case 2:
		return context.WithTimeout(context.Background(), time.Hour)
	}
	return context.WithCancel(context.Background())
}

func (w *c24World) enter(slot int, p *c24Point) {
	w.mu.Lock()
	w.owner[slot] = p
	w.all = append(w.all, p)
	w.mu.Unlock()
}

// free tells whether the harness itself can listen at an address that should be free.
func (w *c24World) free(slot int) bool {
	l, err := net.Listen("tcp", w.addr(slot))
	if err != nil {
		return false
	}
	l.Close()
	return true
}

// blame finds out who has an address that should be free.
func (w *c24World) blame(slot int, err error) error {
	w.mu.Lock()
	all := append([]*c24Point(nil), w.all...)
	w.mu.Unlock()
	for _, p := range all {
		if w.ask(&c24Point{slot: slot, tag: p.tag}, fmt.Sprintf("id-%d", w.serial()), true) == nil {
			return fmt.Errorf("charge point %s, made at %s, also has the address %s: %v", p.tag, w.addr(p.slot), w.addr(slot), err)
		}
	}
	return hx.Harness("the port of the case was taken by somebody else: %v", err)
}

func (w *c24World) make(slot, kind int) error {
	ctx, end := w.context(kind)
	taken := w.taken(slot)
	p, err := w.construct(ctx, w.addr(slot), slot)
	if err != nil {
		end()
		if hx.IsInconclusive(err) {
			return err
		}
		if !taken {
			if !w.free(slot) {
				return w.blame(slot, err)
			}
			return fmt.Errorf("no charge point could be made at a free address: %v", err)
		}
		return nil
	}
	if taken {
		end()
		return fmt.Errorf("a charge point was made at %s although that is in use", w.addr(slot))
	}
	p.end = end
	w.enter(slot, p)
	return w.call(p, true, false) // at once
}

// call makes a request to the charge point that should have the address.
func (w *c24World) call(p *c24Point, raw, fail bool) error {
	id := fmt.Sprintf("id-%d", w.serial())
	if fail {
		id = "fail-" + id
	}
	return w.ask(p, id, raw)
}

func (w *c24World) ask(p *c24Point, id string, raw bool) error {
	what := fmt.Sprintf("request %s to %s, charge point %s", id, w.target(p.slot), p.tag)
	want := p.tag + "/" + id
	if raw {
		c, err := net.DialTimeout("tcp", w.target(p.slot), 20*time.Second)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		defer c.Close()
		return w.over(c, what, id, want)
	}
	svc, err := w.sys.Sys.GetServiceOf("whoever", ocpp.V15, "http://"+w.target(p.slot)+"/x")
	if err != nil {
		return fmt.Errorf("%s: no service: %v", what, err)
	}
	a, err := svc.Send(&csreq.GetDiagnostics{Location: id})
	if strings.HasPrefix(id, "fail") {
		if err == nil {
			return fmt.Errorf("%s: the error of the handler did not arrive, but %T", what, a)
		}
		if err.Error() != want {
			return fmt.Errorf("%s: the error is %q, not %q", what, err, want)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if r, ok := a.(*csresp.GetDiagnostics); !ok || r.FileName != want {
		return fmt.Errorf("%s: the answer is %s, not %q", what, hx.Quote(a), want)
	}
	return nil
}

// over makes a request over a connection.
func (w *c24World) over(c net.Conn, what, id, want string) error {
	body := gen.Envelope("whoever", "urn://Ocpp/Cp/2012/06/", "GetDiagnostics", "<getDiagnosticsRequest xmlns=\"urn://Ocpp/Cp/2012/06/\"><location>"+id+"</location></getDiagnosticsRequest>", gen.XStyle{})
	c.SetDeadline(time.Now().Add(100 * time.Second))
	if _, err := fmt.Fprintf(c, "POST / HTTP/1.1\r\nHost: x\r\nContent-Type: application/soap+xml\r\nContent-Length: %d\r\n\r\n%s", len(body), body); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	r, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	c.SetDeadline(time.Time{})
	if !bytes.Contains(b, []byte(">"+want+"<")) {
		return fmt.Errorf("%s: %q is not in the response %q", what, want, b)
	}
	return nil
}

// shut awaits that nobody serves an address any more.
func (w *c24World) shut(p *c24Point) error {
	if err := hx.Eventually(fmt.Sprintf("closing of the port of a charge point whose context is done (%s)", w.addr(p.slot)), func() error {
		c, err := net.DialTimeout("tcp", w.target(p.slot), time.Second)
		if err == nil {
			c.Close()
			return errors.New("connections are still accepted")
		}
		return nil
	}); err != nil {
		return err
	}
	return w.leftAlone(p)
}

// leftAlone: nothing reaches a charge point any more, and what was open without use is closed.
func (w *c24World) leftAlone(p *c24Point) error {
	w.mu.Lock()
	kept := w.kept[p]
	delete(w.kept, p)
	w.mu.Unlock()
	for _, c := range kept {
		start := time.Now()
		c.SetReadDeadline(start.Add(hx.Patience()))
		_, err := c.Read(make([]byte, 1))
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			c.Close()
			return errors.Join(hx.Late(start, "the end of an idle connection of a cancelled charge point"), err)
		}
		c.Close()
		if err == nil {
			return errors.New("something came over an idle connection of a cancelled charge point")
		}
	}
	p.mu.Lock()
	p.done = true
	p.mu.Unlock()
	return nil
}

func (w *c24World) cancel(p *c24Point) {
	p.end()
	w.mu.Lock()
	w.owner[p.slot] = nil
	w.mu.Unlock()
}

func (w *c24World) do(op c24Op) error { return w.do2(w.who(op.Slot), op) }

func (w *c24World) do2(p *c24Point, op c24Op) error {
	switch op.Op {
	case "make":
		return w.make(op.Slot, op.Ctx)
	case "race":
		taken := w.taken(op.Slot)
		type res struct {
			p   *c24Point
			err error
			end func()
		}
		results := make(chan res, op.N)
		for i := 0; i < op.N; i++ {
			go func() {
				ctx, end := w.context(op.Ctx)
				p, err := w.construct(ctx, w.addr(op.Slot), op.Slot)
				results <- res{p, err, end}
			}()
		}
		var won []res
		var fail error
		for i := 0; i < op.N; i++ {
			r, err := hx.Recv(results, "the construction of a charge point")
			if err != nil {
				return err
			}
			if r.err != nil {
				r.end()
				fail = r.err
				continue
			}
			r.p.end = r.end
			won = append(won, r)
		}
		want := 1
		if taken {
			want = 0
		}
		if len(won) != want {
			for _, r := range won {
				r.end()
			}
			if len(won) == 0 && !w.free(op.Slot) {
				return w.blame(op.Slot, fail)
			}
			return fmt.Errorf("%d charge points of %d could be made at the same time at %s (in use before: %v)", len(won), op.N, w.addr(op.Slot), taken)
		}
		if want == 1 {
			w.enter(op.Slot, won[0].p)
			return w.call(won[0].p, op.Raw, op.Fail)
		}
	case "done", "brief":
		ctx, end := context.WithCancel(context.Background())
		if op.Op == "brief" {
			ctx, end = context.WithTimeout(context.Background(), time.Duration(op.N)*time.Millisecond)
		} else {
			end()
		}
		defer end()
		taken := w.taken(op.Slot)
		p, err := w.construct(ctx, w.addr(op.Slot), op.Slot)
		if err != nil {
			return nil // in use, or refused for its context
		}
		if taken {
			return fmt.Errorf("a charge point was made at %s although that is in use", w.addr(op.Slot))
		}
		w.mu.Lock()
		w.all = append(w.all, p)
		w.mu.Unlock()
		p.end = end
		return w.shut(p)
	case "bad":
		if p, err := w.construct(context.Background(), c24BadAddrs[op.N%len(c24BadAddrs)], 0); err == nil {
			return fmt.Errorf("a charge point was made at %q (%T)", c24BadAddrs[op.N%len(c24BadAddrs)], p.cp)
		}
	case "squat":
		if w.taken(op.Slot) {
			return nil
		}
		l, err := net.Listen("tcp", w.addr(op.Slot))
		if err != nil {
			// what used it before may still be closing
			err = hx.Eventually("a free port where no charge point is any more", func() error {
				l, err = net.Listen("tcp", w.addr(op.Slot))
				return err
			})
			if err != nil {
				return err
			}
		}
		w.mu.Lock()
		w.squat[op.Slot] = l
		w.mu.Unlock()
	case "leave":
		w.mu.Lock()
		if l := w.squat[op.Slot]; l != nil {
			l.Close()
			w.squat[op.Slot] = nil
		}
		w.mu.Unlock()
	case "call":
		if p == nil {
			if w.taken(op.Slot) {
				return nil
			}
			if err := w.call(&c24Point{slot: op.Slot, tag: "nobody"}, op.Raw, false); err == nil {
				return errors.New("a request to an address without charge point was answered")
			}
			return nil
		}
		errs := make(chan error, op.N)
		for i := 0; i < op.N; i++ {
			go func(i int) { errs <- w.call(p, op.Raw != (i%3 == 2), op.Fail != (i%4 == 3)) }(i)
		}
		for i := 0; i < op.N; i++ {
			err, late := hx.Recv(errs, "the answer of a SOAP charge point")
			if late != nil {
				return late
			}
			if err != nil {
				return err
			}
		}
	case "hold":
		if p == nil {
			return nil
		}
		h := &c24Held{id: fmt.Sprintf("held-%d", w.serial()), p: p, gate: make(chan struct{}), done: make(chan error, 1)}
		if op.Fail {
			h.id = "fail-" + h.id
		}
		p.mu.Lock()
		p.gates[h.id] = h.gate
		p.mu.Unlock()
		go func() { h.done <- w.ask(p, h.id, op.Raw) }()
		w.mu.Lock()
		w.held = append(w.held, h)
		w.mu.Unlock()
		tm := time.NewTimer(hx.Patience())
		defer tm.Stop()
		start := time.Now()
		select {
		case <-p.inside:
		case err := <-h.done:
			h.done <- err
			return fmt.Errorf("a request ended without its handler: %v", err)
		case <-tm.C:
			return hx.Late(start, "a run of the handler of a SOAP charge point")
		}
	case "release":
		w.mu.Lock()
		if len(w.held) == 0 {
			w.mu.Unlock()
			return nil
		}
		i := op.N % len(w.held)
		h := w.held[i]
		w.held = append(w.held[:i], w.held[i+1:]...)
		w.mu.Unlock()
		return w.release(h)
	case "keep":
		if p == nil {
			return nil
		}
		c, err := net.DialTimeout("tcp", w.target(op.Slot), 20*time.Second)
		if err != nil {
			return fmt.Errorf("a charge point does not accept connections: %v", err)
		}
		for i := 0; i <= op.N%3; i++ {
			id := fmt.Sprintf("id-%d", w.serial())
			if err := w.over(c, "request "+id+" over an open connection to "+p.tag, id, p.tag+"/"+id); err != nil {
				c.Close()
				return err
			}
		}
		w.mu.Lock()
		w.kept[p] = append(w.kept[p], c)
		w.mu.Unlock()
	case "cancel":
		if p == nil {
			return nil
		}
		w.cancel(p)
		return w.shut(p)
	case "heir":
		if p == nil {
			return nil
		}
		w.cancel(p)
		ctx, end := w.context(op.Ctx)
		var heir *c24Point
		if err := hx.Eventually("the construction of a charge point at the address of a cancelled one", func() (err error) {
			heir, err = w.construct(ctx, w.addr(op.Slot), op.Slot)
			return err
		}); err != nil {
			end()
			return err
		}
		heir.end = end
		w.enter(op.Slot, heir)
		if err := w.leftAlone(p); err != nil {
			return err
		}
		return w.call(heir, op.Raw, op.Fail)
	case "send":
		w.mu.Lock()
		if len(w.all) == 0 {
			w.mu.Unlock()
			return nil
		}
		from := w.all[op.N%len(w.all)]
		w.mu.Unlock()
		tag := fmt.Sprintf("t%d", w.serial())
		a, err := from.cp.Send(&cpreq.Authorize{IdTag: tag})
		if err != nil {
			return fmt.Errorf("a request of charge point %s (cancelled: %v): %v", from.tag, from != w.who(from.slot), err)
		}
		if r, ok := a.(*cpresp.Authorize); !ok || r.IdTagInfo == nil || r.IdTagInfo.ParentIdTag != from.tag+"/"+tag {
			return fmt.Errorf("a request of charge point %s got %s", from.tag, hx.Quote(a))
		}
		if from.cp.Identity() != from.tag {
			return fmt.Errorf("charge point %q calls itself %q", from.tag, from.cp.Identity())
		}
	case "batch":
		errs := make(chan error, len(op.Batch))
		for _, b := range op.Batch {
			go func() { errs <- hx.Guarded(func() error { return w.do(b) }) }()
		}
		var all []error
		for range op.Batch {
			all = append(all, <-errs)
		}
		return errors.Join(all...)
	}
	return nil
}

func (w *c24World) release(h *c24Held) error {
	close(h.gate)
	err, late := hx.Recv(h.done, "the answer to a request whose handler was running when it was cancelled, or not")
	if late != nil {
		return late
	}
	return err
}

func c24Ports() (ports [3]int, err error) {
	for i := range ports {
		for try := 0; ; try++ {
			if try == 50 {
				return ports, hx.Harness("no free ports")
			}
			// below the ports that outgoing connections get
			n := 12000 + rand.Intn(18000)
			l, err := net.Listen("tcp", fmt.Sprintf(":%d", n))
			if err != nil {
				continue
			}
			l.Close()
			ports[i] = n
			break
		}
	}
	return ports, nil
}

func checkC24(c c24Case) (err error) {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	sys.Fallback(func(q cpreq.ChargePointRequest, meta cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, ok := q.(*cpreq.Authorize)
		if !ok {
			return nil, fmt.Errorf("the central system got a %T", q)
		}
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: meta.ChargePointID + "/" + a.IdTag}}, nil
	})
	w := &c24World{sys: sys, kept: map[*c24Point][]net.Conn{}}
	if w.ports, err = c24Ports(); err != nil {
		return err
	}
	base := fx.Goroutines()
	ended := false
	defer func() {
		if ended {
			return
		}
		for _, l := range w.squat {
			if l != nil {
				l.Close()
			}
		}
		for _, p := range w.all {
			p.end()
		}
		for _, h := range w.held {
			close(h.gate)
		}
		for _, k := range w.kept {
			for _, c := range k {
				c.Close()
			}
		}
	}()
	for i, op := range c.Ops {
		if err := w.do(op); err != nil {
			return fmt.Errorf("step %d (%s %d): %w", i, op.Op, op.Slot, err)
		}
	}
	// the end of all
	for slot := range c24Slots {
		if err := w.do(c24Op{Op: "leave", Slot: slot}); err != nil {
			return err
		}
		if err := w.do(c24Op{Op: "cancel", Slot: slot}); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	for len(w.held) > 0 {
		if err := w.do(c24Op{Op: "release"}); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	ended = true
	for _, p := range w.all {
		p.mu.Lock()
		late, runs := p.late, p.runs
		p.mu.Unlock()
		if late != "" {
			return fmt.Errorf("a handler ran for %s after its charge point was cancelled and stopped listening", late)
		}
		for id, n := range runs {
			if n != 1 {
				return fmt.Errorf("the handler ran %d times for %s", n, id)
			}
		}
	}
	return hx.Eventually("the end of all goroutines of cancelled SOAP charge points, and of those that could not be made", func() error {
		if n := fx.Goroutines(); n > base {
			return fmt.Errorf("%d goroutines before, %d after", base, n)
		}
		return nil
	})
}

// c24Last is a charge point whose context is done while handlers run.
type c24Last struct {
	// Runs are the times in ms, from the cancellation on, at which the handlers return
	Runs   []int  `json:"runs"`
	Raw    []bool `json:"raw"`
	Fail   []bool `json:"fail"`
	Before int    `json:"before"` // ms from the construction to the requests
	After  int    `json:"after"`  // ms from the requests to the cancellation
	Heir   bool   `json:"heir,omitempty"`
}

type c24LastCase struct {
	Lines []c24Last `json:"lines"`
}

func c24LastOne(l c24Last) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	w := &c24World{sys: sys, kept: map[*c24Point][]net.Conn{}}
	ctx, end := context.WithCancel(context.Background())
	defer end()
	var p *c24Point
	for try := 0; ; try++ {
		if w.ports[0], err = fx.FreePort(); err != nil {
			return err
		}
		if p, err = w.construct(ctx, w.addr(0), 0); err == nil {
			break
		} else if try == 5 {
			return fmt.Errorf("no charge point could be made: %v", err)
		}
	}
	p.end = end
	time.Sleep(time.Duration(l.Before) * time.Millisecond)
	var held []*c24Held
	defer func() {
		for _, h := range held {
			select {
			case <-h.gate:
			default:
				close(h.gate)
			}
		}
	}()
	for i := range l.Runs {
		if err := w.do2(p, c24Op{Op: "hold", Raw: l.Raw[i], Fail: l.Fail[i]}); err != nil {
			return err
		}
		held = append(held, w.held[len(w.held)-1])
	}
	time.Sleep(time.Duration(l.After) * time.Millisecond)
	p.end()
	begin := time.Now()
	if err := w.shut(p); err != nil {
		return err
	}
	order := make([]int, len(held))
	for i := range order {
		order[i] = i
	}
	sort.Slice(order, func(a, b int) bool { return l.Runs[order[a]] < l.Runs[order[b]] })
	if l.Heir {
		ctx, end := context.WithCancel(context.Background())
		defer end()
		heir, err := w.construct(ctx, w.addr(0), 0)
		if err != nil {
			if !w.free(0) {
				return w.blame(0, err)
			}
			return fmt.Errorf("no successor could be made: %v", err)
		}
		heir.end = end
		if err := w.call(heir, true, false); err != nil {
			return err
		}
	}
	for _, i := range order {
		h := held[i]
		select {
		case err := <-h.done:
			return fmt.Errorf("a request ended %v after the cancellation, before its handler did: %v", time.Since(begin).Round(time.Second), err)
		case <-time.After(time.Until(begin.Add(time.Duration(l.Runs[i]) * time.Millisecond))):
		}
		if err := w.release(h); err != nil {
			return fmt.Errorf("a request whose handler returned %v after the cancellation: %w", time.Since(begin).Round(time.Second), err)
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.late != "" {
		return fmt.Errorf("a handler ran for %s after its charge point was cancelled and stopped listening", p.late)
	}
	return nil
}

func checkC24Last(c c24LastCase) error {
	errs := make([]error, len(c.Lines))
	var wg sync.WaitGroup
	for i, l := range c.Lines {
		wg.Add(1)
		go func() { defer wg.Done(); errs[i] = hx.Guarded(func() error { return c24LastOne(l) }) }()
	}
	wg.Wait()
	var inc error
	for i, err := range errs {
		if err == nil {
			continue
		}
		if hx.IsInconclusive(err) {
			inc = err
			continue
		}
		return hx.Reduced(c24LastCase{c.Lines[i : i+1]}, fmt.Errorf("charge point %d: %w", i, err))
	}
	return inc
}

func drawC24Op(rt *rapid.T, ops []string) c24Op {
	op := c24Op{
		Op:   rapid.SampledFrom(ops).Draw(rt, "op"),
		Slot: rapid.IntRange(0, len(c24Slots)-1).Draw(rt, "slot"),
		Raw:  rapid.Bool().Draw(rt, "raw"),
		Fail: rapid.IntRange(0, 3).Draw(rt, "fail") == 0,
	}
	switch op.Op {
	case "make", "heir":
		op.Ctx = rapid.IntRange(0, 2).Draw(rt, "ctx")
	case "race":
		op.Ctx = rapid.IntRange(0, 2).Draw(rt, "ctx")
		op.N = rapid.IntRange(2, 5).Draw(rt, "racers")
	case "brief":
		op.N = rapid.IntRange(1, 40).Draw(rt, "ms")
	case "call":
		op.N = rapid.IntRange(1, 12).Draw(rt, "calls")
	case "bad", "release", "keep", "send":
		op.N = rapid.IntRange(0, 20).Draw(rt, "n")
	}
	return op
}

// c24Moves tells which operations change who has an address.
func c24Moves(op c24Op) bool {
	switch op.Op {
	case "call", "hold", "keep", "send", "release", "bad":
		return false
	}
	return true
}

func TestC24(t *testing.T) {
	one := []string{"make", "make", "make", "race", "call", "call", "hold", "hold", "release", "keep", "cancel", "cancel", "heir", "send", "bad", "done", "brief", "squat", "leave"}
	hx.Run(t, hx.Part[c24Case]{
		Property: "C24", Name: "lives",
		Rule: "a case is a history of up to 25 steps over five addresses, three of which overlap: SOAP charge points made there, one after the other or several at once, also where somebody listens already, with unusable addresses, and with contexts that are done or soon done; requests from the moment of the construction on, over new and over open connections, some with handlers that wait; cancellations, successors at the same address, and requests of charge points that live or are cancelled; also several steps at once. " +
			"Non-trivial if a charge point is made and later cancelled or the address asked for again",
		Budget: hx.Budget{Quick: 260, Thorough: 8000, QuickSecs: 60, ThoroughSecs: 700}, HangSecs: 200,
		Draw: func(rt *rapid.T) c24Case {
			var c c24Case
			for n := rapid.IntRange(2, 25).Draw(rt, "steps"); n > 0; n-- {
				if rapid.IntRange(0, 4).Draw(rt, "several") > 0 {
					c.Ops = append(c.Ops, drawC24Op(rt, one))
					continue
				}
				op := c24Op{Op: "batch"}
				for m := rapid.IntRange(2, 6).Draw(rt, "at once"); m > 0; m-- {
					b := drawC24Op(rt, one)
					fits := true
					for _, o := range op.Batch {
						if (c24Moves(o) || c24Moves(b)) && o.Op != "send" && b.Op != "send" && c24Overlap(o.Slot, b.Slot) {
							fits = false
						}
						if o.Op == "hold" && b.Op == "hold" && o.Slot == b.Slot {
							fits = false
						}
					}
					if fits {
						op.Batch = append(op.Batch, b)
					}
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Classify: func(c c24Case) (bool, []string) {
			var cl []string
			made, again := map[int]bool{}, false
			var walk func(ops []c24Op)
			walk = func(ops []c24Op) {
				for _, op := range ops {
					if op.Op == "batch" {
						walk(op.Batch)
						continue
					}
					cl = append(cl, op.Op)
					switch op.Op {
					case "make", "race":
						again = again || made[op.Slot]
						made[op.Slot] = true
					case "cancel", "heir":
						again = again || made[op.Slot]
					}
				}
			}
			walk(c.Ops)
			return again, cl
		},
		Check: checkC24,
	})
	hx.Run(t, hx.Part[c24LastCase]{
		Property: "C24", Name: "last requests",
		Rule:   "a case is a batch of 60 SOAP charge points, in parallel and in real time, cancelled while 1 to 4 handlers run, some with a successor at the same address; the handlers return up to 46 s after that (thorough tier: up to 85 s where the requests are raw); always non-trivial",
		Budget: hx.Budget{Quick: 1, Thorough: 8, QuickSecs: 100, ThoroughSecs: 1000}, HangSecs: 300, NoShrink: true,
		Draw: func(rt *rapid.T) c24LastCase {
			var c c24LastCase
			for i := 0; i < 60; i++ {
				l := c24Last{Before: rapid.SampledFrom([]int{0, 0, 100, 2000}).Draw(rt, "before"), After: rapid.SampledFrom([]int{0, 10, 1000, 3000}).Draw(rt, "after"), Heir: rapid.Bool().Draw(rt, "heir")}
				if i%15 == 14 {
					l.Before = 40000
				}
				for n := rapid.IntRange(1, 4).Draw(rt, "handlers"); n > 0; n-- {
					raw := rapid.Bool().Draw(rt, "raw")
					ms := rapid.SampledFrom([]int{0, 1, 300, 700, 2000, 4500, 5500, 9000, 12000, 18000, 29000, 32000, 44000, 46000}).Draw(rt, "run")
					if raw && hx.Thorough() && rapid.IntRange(0, 3).Draw(rt, "long") == 0 {
						ms += 39000
					}
					if l.Before > 30000 {
						ms = min(ms, 6000)
					}
					l.Runs, l.Raw, l.Fail = append(l.Runs, ms), append(l.Raw, raw), append(l.Fail, rapid.IntRange(0, 3).Draw(rt, "fail") == 0)
				}
				c.Lines = append(c.Lines, l)
			}
			return c
		},
		Classify: func(c c24LastCase) (bool, []string) {
			var cl []string
			for _, l := range c.Lines {
				for _, ms := range l.Runs {
					cl = append(cl, fmt.Sprintf("%d s", ms/10000*10))
				}
			}
			return true, cl
		},
		Check: checkC24Last,
	})
}
