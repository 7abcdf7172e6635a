package props

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"regexp"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"

	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/hx"
)

// c09Op changes the connections or asks about them.
type c09Op struct {
	Op string `json:"op"` // connect, end, waitc, waitd, both, serve
	P  int    `json:"p"`  // charge point
	// end, both: which of the open connections, oldest first; how it ends
	N   int    `json:"n,omitempty"`
	How string `json:"how,omitempty"`
	// both: the new connection is made before the old one ends
	First bool `json:"first,omitempty"`
}

type c09Case struct {
	Points int     `json:"points"`
	Ops    []c09Op `json:"ops"`
}

func drawC09(rt *rapid.T, most int) c09Case {
	c := c09Case{Points: rapid.IntRange(1, 3).Draw(rt, "points")}
	for n := rapid.IntRange(1, most).Draw(rt, "ops"); n > 0; n-- {
		op := c09Op{P: rapid.IntRange(0, c.Points-1).Draw(rt, "point")}
		op.Op = rapid.SampledFrom([]string{"connect", "connect", "connect", "end", "end", "end", "both", "waitc", "waitd", "serve"}).Draw(rt, "op")
		if op.Op == "end" || op.Op == "both" {
			op.N = rapid.IntRange(0, 3).Draw(rt, "which")
			op.How = rapid.SampledFrom([]string{"handshake", "close", "reset"}).Draw(rt, "how")
			op.First = rapid.Bool().Draw(rt, "first")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func classifyC09(c c09Case) (bool, []string) {
	var cl []string
	open := map[int]int{}
	nt := false
	for _, op := range c.Ops {
		cl = append(cl, op.Op)
		switch op.Op {
		case "connect":
			open[op.P]++
		case "end":
			if n := open[op.P]; n > 0 {
				nt = true
				if n > 1 {
					if op.N%n == n-1 {
						cl = append(cl, "the newest of several ends")
					} else {
						cl = append(cl, "an older of several ends")
					}
				}
				open[op.P]--
			}
		case "both":
			nt = true
		}
		if open[op.P] > 1 {
			cl = append(cl, "several open")
		}
	}
	return nt, cl
}

// link is an open connection of a charge point.
type link interface {
	end(how string)
	// answer waits for one call and answers it with the tag
	answer(tag string) error
	// serve makes a call and checks its answer
	serve() error
}

// world is how a history is played: under a virtual clock or on real connections.
type world struct {
	connect func(id string) (link, error)
	settle  func(what string, f func() error) error
	status  func() (int, error)
	// request sends a request and answers it over the link
	request func(id string, l link) error
}

type c09Wait struct {
	ch    <-chan struct{}
	conn  int  // waitd: serial of the connection meant
	fired bool // expected state
	what  string
	p     int
	d     bool
}

var connectedRE = regexp.MustCompile(`connected with (\d+) `)

func statusCount(body string) (int, error) {
	m := connectedRE.FindStringSubmatch(body)
	if m == nil {
		return 0, fmt.Errorf("the status page shows no number of stations: %s", hx.Quote(body))
	}
	return strconv.Atoi(m[1])
}

func playC09(c c09Case, w *world) (err error) {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	type conn struct {
		link
		serial int
	}
	ids := make([]string, c.Points)
	open := make([][]conn, c.Points)
	made := make([]int, c.Points)
	ended := make([]int, c.Points)
	for i := range ids {
		ids[i] = fx.ID()
		bubbleHandler(ids[i], nil)
		defer sys.Handle(ids[i], nil)
	}
	defer func() {
		for _, l := range open {
			for _, k := range l {
				k.end("reset")
			}
		}
	}()
	base, err := w.status()
	if err != nil {
		return err
	}
	serial := 0
	var waits []*c09Wait
	check := func(what string) error {
		return w.settle(what, func() error {
			connected := 0
			for p, id := range ids {
				svc, err := sys.Sys.GetServiceOf(id, ocpp.V16, "")
				if len(open[p]) == 0 {
					if err == nil {
						return fmt.Errorf("a service is offered for charge point %d, which has no open connection", p)
					}
				} else {
					connected++
					if err != nil || svc == nil {
						return fmt.Errorf("no service is offered for charge point %d, which has %d open connections: %v", p, len(open[p]), err)
					}
				}
				// a fresh wait shows the present state
				if got, want := isClosed(sys.Sys.WaitConnect(id)), len(open[p]) > 0; got != want {
					return fmt.Errorf("a wait for the connection of charge point %d is over: %v, it has %d open connections", p, got, len(open[p]))
				}
				if got, want := isClosed(sys.Sys.WaitDisconnect(id)), len(open[p]) == 0; got != want {
					return fmt.Errorf("a wait for the disconnection of charge point %d is over: %v, it has %d open connections", p, got, len(open[p]))
				}
				on, off := sys.Events(id)
				if on != made[p] || off != ended[p] {
					return fmt.Errorf("charge point %d: %d connections made and %d ended, %d and %d notifications came", p, made[p], ended[p], on, off)
				}
			}
			for _, x := range waits {
				if got := isClosed(x.ch); got != x.fired {
					return fmt.Errorf("%s: over is %v instead of %v", x.what, got, x.fired)
				}
			}
			n, err := w.status()
			if err != nil {
				return err
			}
			if n != base+connected {
				return fmt.Errorf("the status page counts %d charge points, %d are connected", n-base, connected)
			}
			return nil
		})
	}
	gone := func(p, i int) {
		serial := open[p][i].serial
		open[p] = append(open[p][:i:i], open[p][i+1:]...)
		ended[p]++
		for _, x := range waits {
			if x.d && x.conn == serial {
				x.fired = true
			}
		}
	}
	come := func(p int, l link) {
		serial++
		open[p] = append(open[p], conn{l, serial})
		made[p]++
		for _, x := range waits {
			if !x.d && x.p == p {
				x.fired = true
			}
		}
	}
	for n, op := range c.Ops {
		what := fmt.Sprintf("after step %d (%s of charge point %d %s)", n, op.Op, op.P, op.How)
		p := op.P
		switch op.Op {
		case "connect":
			l, err := w.connect(ids[p])
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			come(p, l)
		case "end":
			if len(open[p]) == 0 {
				continue
			}
			i := op.N % len(open[p])
			open[p][i].end(op.How)
			gone(p, i)
		case "both":
			if len(open[p]) == 0 {
				continue
			}
			i := op.N % len(open[p])
			if !op.First {
				open[p][i].end(op.How)
			}
			l, err := w.connect(ids[p])
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if op.First {
				open[p][i].end(op.How)
			}
			gone(p, i)
			come(p, l)
		case "waitc":
			waits = append(waits, &c09Wait{ch: sys.Sys.WaitConnect(ids[p]), p: p, fired: len(open[p]) > 0,
				what: fmt.Sprintf("the wait for connection of step %d", n)})
		case "waitd":
			x := &c09Wait{ch: sys.Sys.WaitDisconnect(ids[p]), p: p, d: true, fired: len(open[p]) == 0,
				what: fmt.Sprintf("the wait for disconnection of step %d", n)}
			if !x.fired {
				x.conn = open[p][len(open[p])-1].serial
			}
			waits = append(waits, x)
		case "serve":
			for _, k := range open[p] {
				if err := k.serve(); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
			}
		}
		if err := check(what); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		for q := range ids {
			if len(open[q]) > 0 {
				if err := w.request(ids[q], open[q][len(open[q])-1]); err != nil {
					return fmt.Errorf("%s: request to charge point %d over the newest of %d open connections: %w", what, q, len(open[q]), err)
				}
			}
		}
	}
	return nil
}

func isClosed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// ---- under a virtual clock ----

type bubbleLink struct{ p *bpeer }

func (l bubbleLink) end(how string) { l.p.end(how) }
func (l bubbleLink) answer(tag string) error {
	synctest.Wait()
	fs, err := l.p.take()
	if err != nil {
		return err
	}
	if len(fs) != 1 || fs[0].Type != 2 {
		return fmt.Errorf("instead of the call the connection got %s", hx.Quote(fs))
	}
	return l.p.send(resultFrame(fs[0].ID, `{"unknownKey":["`+tag+`"]}`))
}
func (l bubbleLink) serve() error {
	id := wireID()
	if err := l.p.send(callFrame(id, "Heartbeat", "{}")); err != nil {
		return err
	}
	synctest.Wait()
	fs, err := l.p.take()
	if err != nil {
		return err
	}
	if len(fs) != 1 || fs[0].Type != 3 || fs[0].ID != id {
		return fmt.Errorf("a call on an open connection was answered with %s (%v)", hx.Quote(fs), l.p.over())
	}
	return nil
}

func bubbleStatus() (int, error) {
	sys, err := fx.TheCS()
	if err != nil {
		return 0, err
	}
	rec := httptest.NewRecorder()
	sys.Handler.ServeHTTP(rec, httptest.NewRequest("GET", "/", nil))
	return statusCount(rec.Body.String())
}

func checkC09(c c09Case) error {
	if _, err := fx.TheCS(); err != nil {
		return err
	}
	return inBubble(func() error {
		w := &world{
			connect: func(id string) (link, error) {
				p, err := bubbleConnect(id)
				return bubbleLink{p}, err
			},
			settle: func(_ string, f func() error) error { synctest.Wait(); return f() },
			status: bubbleStatus,
		}
		w.request = func(id string, l link) error {
			send, err := bubbleSender(id)
			if err != nil {
				return err
			}
			tag := wireID()
			out := make(chan outcome, 1)
			go func() {
				resp, err := send(&csreq.GetConfiguration{Key: []string{tag}})
				out <- outcome{resp, err}
			}()
			if err := l.answer(tag); err != nil {
				return err
			}
			synctest.Wait()
			select {
			case o := <-out:
				return tagged(o, tag)
			default:
				return errors.New("Send did not return")
			}
		}
		return playC09(c, w)
	})
}

func tagged(o outcome, tag string) error {
	if o.err != nil {
		return fmt.Errorf("Send failed: %v", o.err)
	}
	g, ok := o.resp.(*csresp.GetConfiguration)
	if !ok || len(g.UnknownKey) != 1 || g.UnknownKey[0] != tag {
		return fmt.Errorf("Send returned %s instead of the answer %q", hx.Quote(o.resp), tag)
	}
	return nil
}

// ---- on real connections ----

type realLink struct{ r *fx.Raw }

func (l realLink) end(how string) {
	switch how {
	case "handshake":
		l.r.CloseHandshake()
	case "reset":
		l.r.Reset()
	default:
		l.r.Close()
	}
}
func (l realLink) answer(tag string) error {
	b, err := l.r.Next("the call")
	if err != nil {
		return err
	}
	f, err := parseFrame(b)
	if err != nil {
		return err
	}
	if f.Type != 2 {
		return fmt.Errorf("instead of the call the connection got %s", hx.Quote(f.Raw))
	}
	return l.r.Send(resultFrame(f.ID, `{"unknownKey":["`+tag+`"]}`))
}
func (l realLink) serve() error {
	id := wireID()
	if err := l.r.Send(callFrame(id, "Heartbeat", "{}")); err != nil {
		return err
	}
	b, err := l.r.Next("the answer to a call")
	if err != nil {
		return err
	}
	f, err := parseFrame(b)
	if err != nil {
		return err
	}
	if f.Type != 3 || f.ID != id {
		return fmt.Errorf("a call on an open connection was answered with %s", hx.Quote(f.Raw))
	}
	return nil
}

func realStatus() (int, error) {
	sys, err := fx.TheCS()
	if err != nil {
		return 0, err
	}
	r, err := http.Get(sys.HTTP + "/")
	if err != nil {
		return 0, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return 0, err
	}
	return statusCount(string(b))
}

func checkC09Real(c c09Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	w := &world{
		connect: func(id string) (link, error) {
			before, _ := sys.Events(id)
			r, err := sys.DialRaw(id)
			if err != nil {
				return nil, hx.Late(time.Now(), fmt.Sprintf("connection (%v)", err))
			}
			// connections are established in the order in which they are reported
			err = hx.Eventually("the report of a connection", func() error {
				if n, _ := sys.Events(id); n <= before {
					return errors.New("not reported")
				}
				return nil
			})
			return realLink{r}, err
		},
		settle: hx.Eventually,
		status: realStatus,
	}
	w.request = func(id string, l link) error {
		svc, err := sys.Sys.GetServiceOf(id, ocpp.V16, "")
		if err != nil {
			return err
		}
		tag := wireID()
		out := make(chan outcome, 1)
		go func() {
			resp, err := svc.Send(&csreq.GetConfiguration{Key: []string{tag}})
			out <- outcome{resp, err}
		}()
		if err := l.answer(tag); err != nil {
			return err
		}
		o, err := hx.Recv(out, "the return of an answered request")
		if err != nil {
			return err
		}
		return tagged(o, tag)
	}
	if err := realQuiet(); err != nil {
		return err
	}
	return playC09(c, w)
}

// realQuiet waits until the connections of earlier cases, which have all ended, are gone.
func realQuiet() error {
	return hx.Eventually("the end of earlier connections", func() error {
		n, err := realStatus()
		if err != nil {
			return err
		}
		if n != 0 {
			return fmt.Errorf("the status page counts %d charge points although all earlier connections have ended", n)
		}
		return nil
	})
}

// ---- what is seen at the moment of a report ----

type c09Report struct {
	Hows []string `json:"hows"`
	Busy int      `json:"busy"` // other charge points connecting and leaving meanwhile
	Old  bool     `json:"old"`  // an older connection of the same charge point stays open
}

func checkC09Report(c c09Report) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < c.Busy; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if r, err := sys.DialRaw(fx.ID()); err == nil {
					r.Reset()
				}
			}
		}()
	}
	defer wg.Wait()
	defer close(stop)
	id := fx.ID()
	type seen struct {
		connected bool
		err       error
	}
	reports := make(chan seen, 100)
	sys.OnEvent(func(who string, connected bool) {
		if who != id {
			return
		}
		svc, err := sys.Sys.GetServiceOf(id, ocpp.V16, "")
		offered := err == nil && svc != nil
		switch {
		case connected && !offered:
			err = errors.New("when a connection was reported, no service was offered")
		case connected && !isClosed(sys.Sys.WaitConnect(id)):
			err = errors.New("when a connection was reported, the wait for it was not over")
		case !connected && !c.Old && offered:
			err = errors.New("when a disconnection was reported, a service was still offered")
		case !connected && !c.Old && isClosed(sys.Sys.WaitConnect(id)):
			err = errors.New("when a disconnection was reported, a wait for connection ended at once")
		case !connected && !c.Old && !isClosed(sys.Sys.WaitDisconnect(id)):
			err = errors.New("when a disconnection was reported, a wait for disconnection did not end at once")
		default:
			err = nil
		}
		reports <- seen{connected, err}
	})
	defer sys.OnEvent(nil)
	report := func(connected bool) error {
		s, err := hx.Recv(reports, "the report of a connection or disconnection")
		if err != nil {
			return err
		}
		if s.err != nil {
			return s.err
		}
		if s.connected != connected {
			return fmt.Errorf("reported: connected=%v, happened: connected=%v", s.connected, connected)
		}
		return nil
	}
	connect := func() (*fx.Raw, error) {
		wc := sys.Sys.WaitConnect(id)
		r, err := sys.DialRaw(id)
		if err != nil {
			return nil, hx.Late(time.Now(), fmt.Sprintf("connection (%v)", err))
		}
		if _, err := hx.Recv(wc, "the wait for connection"); err != nil {
			return nil, err
		}
		if svc, err := sys.Sys.GetServiceOf(id, ocpp.V16, ""); err != nil || svc == nil {
			return nil, fmt.Errorf("when the wait for connection was over, no service was offered: %v", err)
		}
		return r, report(true)
	}
	var old *fx.Raw
	if c.Old {
		if old, err = connect(); err != nil {
			return err
		}
		defer old.Close()
	}
	for n, how := range c.Hows {
		r, err := connect()
		if err != nil {
			return fmt.Errorf("connection %d: %w", n, err)
		}
		wd := sys.Sys.WaitDisconnect(id)
		go realLink{r}.end(how)
		if _, err := hx.Recv(wd, "the wait for disconnection"); err != nil {
			return err
		}
		// immediately afterwards
		svc, err := sys.Sys.GetServiceOf(id, ocpp.V16, "")
		wc := isClosed(sys.Sys.WaitConnect(id))
		wd2 := isClosed(sys.Sys.WaitDisconnect(id))
		if c.Old {
			if err != nil || svc == nil || !wc || wd2 {
				return fmt.Errorf("end %d (%s): an older connection is open, service offered: %v, connected: %v, disconnected: %v", n, how, err, wc, wd2)
			}
		} else {
			if err == nil && svc != nil {
				return fmt.Errorf("end %d (%s): when the wait for disconnection was over, a service was still offered", n, how)
			}
			if wc {
				return fmt.Errorf("end %d (%s): when the wait for disconnection was over, a wait for connection ended at once", n, how)
			}
			if !wd2 {
				return fmt.Errorf("end %d (%s): when the wait for disconnection was over, another one did not end at once", n, how)
			}
		}
		if err := report(false); err != nil {
			return fmt.Errorf("end %d (%s): %w", n, how, err)
		}
	}
	return nil
}

// ---- many at once ----

type c09Crowd struct {
	Points  int `json:"points"`
	Workers int `json:"workers"` // per charge point
	Each    int `json:"each"`
	Keep    int `json:"keep"` // every Keep-th connection stays until the end
}

func checkC09Crowd(c c09Crowd) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	if err := realQuiet(); err != nil {
		return err
	}
	ids := make([]string, c.Points)
	for i := range ids {
		ids[i] = fx.ID()
	}
	var mu sync.Mutex
	kept := map[string][]*fx.Raw{}
	made := map[string]int{}
	ended := map[string]int{}
	var wg sync.WaitGroup
	var bad error
	for i := 0; i < c.Points*c.Workers; i++ {
		id := ids[i%c.Points]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < c.Each; j++ {
				r, err := sys.DialRaw(id)
				mu.Lock()
				if err != nil {
					bad = hx.Late(time.Now(), fmt.Sprintf("connection (%v)", err))
					mu.Unlock()
					return
				}
				made[id]++
				keep := c.Keep > 0 && (i+j)%c.Keep == 0
				if keep {
					kept[id] = append(kept[id], r)
				} else {
					ended[id]++
				}
				mu.Unlock()
				sys.Sys.GetServiceOf(id, ocpp.V16, "")
				sys.Sys.WaitConnect(id)
				sys.Sys.WaitDisconnect(id)
				if !keep {
					realLink{r}.end([]string{"reset", "close"}[(i+j)%2])
				}
			}
		}()
	}
	wg.Wait()
	defer func() {
		for _, l := range kept {
			for _, r := range l {
				r.Reset()
			}
		}
	}()
	if bad != nil {
		return bad
	}
	check := func(what string) error {
		return hx.Eventually(what, func() error {
			n := 0
			for _, id := range ids {
				open := len(kept[id]) > 0
				if open {
					n++
				}
				if _, err := sys.Sys.GetServiceOf(id, ocpp.V16, ""); (err == nil) != open {
					return fmt.Errorf("%d connections are open, looking for a service: %v", len(kept[id]), err)
				}
				if isClosed(sys.Sys.WaitConnect(id)) != open {
					return fmt.Errorf("%d connections are open, connected: %v", len(kept[id]), !open)
				}
				if on, off := sys.Events(id); on != made[id] || off != ended[id] {
					return fmt.Errorf("%d connections made and %d ended, %d and %d notifications came", made[id], ended[id], on, off)
				}
			}
			got, err := realStatus()
			if err != nil {
				return err
			}
			if got != n {
				return fmt.Errorf("the status page counts %d charge points, %d are connected", got, n)
			}
			return nil
		})
	}
	if err := check("the state after the crowd"); err != nil {
		return err
	}
	for _, id := range ids {
		for _, r := range kept[id] {
			r.Close()
			ended[id]++
		}
		delete(kept, id)
	}
	if err := check("the state after everybody left"); err != nil {
		return err
	}
	for _, id := range ids {
		r, err := sys.DialRaw(id)
		if err != nil {
			return hx.Late(time.Now(), fmt.Sprintf("connection (%v)", err))
		}
		kept[id] = append(kept[id], r)
		made[id]++
	}
	return check("the state after everybody came back")
}

func TestC09(t *testing.T) {
	bubbleT = t
	hx.Run(t, hx.Part[c09Case]{
		Property: "C09", Name: "histories",
		Rule:     "a case is a history (virtual clock, in-memory connections) of connections, disconnections of all kinds, replacements and waits of 1-3 charge points; after every step services, waits, notifications and status page are compared with a model and a request is exchanged over the newest open connection; non-trivial if a connection ends",
		Budget:   hx.Budget{Quick: 5000, Thorough: 150000, QuickSecs: 40, ThoroughSecs: 900},
		Draw:     func(rt *rapid.T) c09Case { return drawC09(rt, 25) },
		Classify: classifyC09,
		Check:    checkC09,
	})
	hx.Run(t, hx.Part[c09Case]{
		Property: "C09", Name: "sockets",
		Rule:     "the same histories on real TCP connections; the state must become that of the model after every step",
		Budget:   hx.Budget{Quick: 150, Thorough: 6000, QuickSecs: 30, ThoroughSecs: 600},
		Draw:     func(rt *rapid.T) c09Case { return drawC09(rt, 14) },
		Classify: classifyC09,
		Check:    checkC09Real,
	})
	hx.Run(t, hx.Part[c09Report]{
		Property: "C09", Name: "reports",
		Rule:   "a case is a sequence of connections and ends of one charge point, possibly with an older connection that stays and with other charge points coming and going; services and waits are looked at at the very moment a wait is over or a listener is called; always non-trivial",
		Budget: hx.Budget{Quick: 80, Thorough: 3000, QuickSecs: 30, ThoroughSecs: 400},
		Draw: func(rt *rapid.T) c09Report {
			return c09Report{
				Hows: rapid.SliceOfN(rapid.SampledFrom([]string{"handshake", "close", "reset"}), 1, 20).Draw(rt, "ends"),
				Busy: rapid.SampledFrom([]int{0, 0, 4, 16}).Draw(rt, "busy"),
				Old:  rapid.IntRange(0, 3).Draw(rt, "old") == 0,
			}
		},
		Classify: func(c c09Report) (bool, []string) { return true, c.Hows },
		Check:    checkC09Report,
	})
	hx.Run(t, hx.Part[c09Crowd]{
		Property: "C09", Name: "crowd",
		Rule:   "a case is a crowd of clients connecting under the same few identities and leaving, all at once, with lookups and waits in between; afterwards the state must become the real one; always non-trivial",
		Budget: hx.Budget{Quick: 12, Thorough: 300, QuickSecs: 30, ThoroughSecs: 400},
		Draw: func(rt *rapid.T) c09Crowd {
			return c09Crowd{Points: rapid.IntRange(1, 4).Draw(rt, "points"), Workers: rapid.IntRange(1, 8).Draw(rt, "workers"),
				Each: rapid.IntRange(1, 12).Draw(rt, "each"), Keep: rapid.IntRange(0, 6).Draw(rt, "keep")}
		},
		Classify: func(c c09Crowd) (bool, []string) { return true, nil },
		Check:    checkC09Crowd,
	})
	scaleParts(t, "C09")
}
