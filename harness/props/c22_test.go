package props

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// C22: every SOAP call ends in time, with its answer or an error.

// c22Cut: at that time the response has been sent up to a place, in thousandths.
type c22Cut struct {
	At int64 `json:"at"`
	To int   `json:"to"`
}

type c22Call struct {
	// Kind: "script" (a raw server that follows the rest), "handler" (both sides are the library,
	// the handler takes Wait), "upload" (a raw client that sends its request bit by bit),
	// "backlog" (a server that accepts no connection), "refused" (there is no server)
	Kind string `json:"kind"`
	Op   c13Op  `json:"op"`
	Wait int64  `json:"wait,omitempty"` // until the handler returns; before the server reads the request
	Big  int    `json:"big,omitempty"`  // MB of data in the request
	// Unread: the server does not read the request at all
	Unread bool `json:"unread,omitempty"`
	// Hops are redirections with their delays before the response
	Hops []int64 `json:"hops,omitempty"`
	Loop bool    `json:"loop,omitempty"` // redirections without end
	Info []int64 `json:"info,omitempty"` // provisional responses
	// Framing of the response: "length", "chunked", "close"
	Framing string   `json:"framing,omitempty"`
	Cuts    []c22Cut `json:"cuts,omitempty"`
	End     string   `json:"end,omitempty"` // "", "close", "reset"
	EndAt   int64    `json:"endAt,omitempty"`
}

type c22Case struct {
	Calls []c22Call `json:"calls"`
}

// What the calls must come to.
const (
	c22Answer = "answer"
	c22Error  = "error"
	c22Either = "either"
)

// expect says what a call comes to and until when, in ms.
func (c c22Call) expect(raw []byte, doc int) (string, int64) {
	switch c.Kind {
	case "handler", "upload":
		return c22Answer, c.Wait
	case "refused":
		return c22Error, 0
	case "backlog":
		return c22Error, timeoutMs
	}
	if c.Unread {
		return c22Error, timeoutMs
	}
	if c.Loop {
		return c22Error, timeoutMs
	}
	if len(c.Hops) > 0 {
		// following redirections is not required
		return c22Either, timeoutMs
	}
	if len(c.Cuts) == 0 {
		if c.End != "" {
			return c22Error, c.EndAt
		}
		return c22Error, timeoutMs
	}
	last := c22Cut{}
	for _, cut := range c.Cuts { // those after the timeout are in vain
		if cut.At < timeoutMs {
			last = cut
		}
	}
	sent := len(raw) * last.To / 1000
	whole := sent == len(raw)
	end := int64(timeoutMs)
	if c.End != "" && c.EndAt < timeoutMs {
		end = c.EndAt
	}
	switch {
	case whole && c.Framing != "close":
		return c22Answer, last.At
	case whole && c.End == "close" && c.EndAt < timeoutMs:
		return c22Answer, end
	case sent >= doc: // the document was received
		return c22Either, end
	}
	return c22Error, end
}

// response is what the server sends, and how many bytes of it contain the document.
func (c c22Call) response() (raw []byte, doc int) {
	k, _ := spec.ByType(c.Op.Type)
	body := fakeReply(c.Op, k)
	status := "200 OK"
	if c.Op.Fail {
		status = "500 Internal Server Error"
	}
	head := "HTTP/1.1 " + status + "\r\nContent-Type: application/soap+xml; charset=utf-8\r\nServer: raw\r\n"
	switch c.Framing {
	case "chunked":
		var b strings.Builder
		for i := 0; i < len(body); i += 500 {
			p := body[i:min(i+500, len(body))]
			fmt.Fprintf(&b, "%x\r\n%s\r\n", len(p), p)
		}
		head += "Transfer-Encoding: chunked\r\n\r\n"
		return []byte(head + b.String() + "0\r\n\r\n"), len(head) + b.Len() - 2
	case "close":
		head += "Connection: close\r\n\r\n"
	default:
		head += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n"
	}
	return []byte(head + body), len(head) + len(body)
}

// c22Server serves the scripts of a batch.
type c22Server struct {
	c    *c22Case
	mu   sync.Mutex
	seen map[int]int // requests
	// returned is closed when the call is over
	returned []chan struct{}
	ended    []chan error
}

func (s *c22Server) accept(l net.Listener, serve func(*net.TCPConn)) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go serve(c.(*net.TCPConn))
	}
}

// at waits until a time of the script, or for the end of the call.
func at(begin time.Time, ms int64, over <-chan struct{}) bool {
	t := time.NewTimer(time.Until(begin.Add(time.Duration(ms) * time.Millisecond)))
	defer t.Stop()
	select {
	case <-t.C:
		return true
	case <-over:
		return false
	}
}

// gone waits for the library's end of the connection of call i.
func (s *c22Server) gone(i int, c net.Conn, begin time.Time) {
	<-s.returned[i]
	ret := time.Now()
	c.SetReadDeadline(ret.Add(hx.Patience()))
	_, err := io.Copy(io.Discard, c)
	var ne net.Error
	if errors.As(err, &ne) && ne.Timeout() {
		s.ended[i] <- hx.Late(ret, "the end of the connection of a call that has returned")
	} else {
		s.ended[i] <- nil
	}
	c.Close()
}

// script plays the scripts of the connections of the common server.
func (s *c22Server) script(conn *net.TCPConn) {
	begin := time.Now()
	br := bufio.NewReader(conn)
	rq, err := http.ReadRequest(br)
	if err != nil {
		conn.Close()
		return
	}
	var i, hop int
	if n, _ := fmt.Sscanf(rq.URL.Path, "/call-%d-%d", &i, &hop); n != 2 || i >= len(s.c.Calls) {
		conn.Close()
		return
	}
	c, over := s.c.Calls[i], s.returned[i]
	s.mu.Lock()
	s.seen[i]++
	s.mu.Unlock()
	last := c.Loop || hop < len(c.Hops)
	if !last {
		defer s.gone(i, conn, begin)
	}
	if c.Wait > 0 && !at(begin, c.Wait, over) {
		return
	}
	if _, err := io.Copy(io.Discard, rq.Body); err != nil {
		return
	}
	if last {
		if hop < len(c.Hops) {
			at(begin, c.Hops[hop], over)
		}
		fmt.Fprintf(conn, "HTTP/1.1 307 Temporary Redirect\r\nLocation: /call-%d-%d\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", i, hop+1)
		conn.Close()
		return
	}
	for _, ms := range c.Info {
		if !at(begin, ms, over) {
			return
		}
		io.WriteString(conn, "HTTP/1.1 102 Processing\r\n\r\n")
	}
	raw, _ := c.response()
	sent := 0
	for _, cut := range c.Cuts {
		if !at(begin, cut.At, over) {
			return
		}
		n := len(raw) * cut.To / 1000
		if n > sent {
			conn.Write(raw[sent:n])
			sent = n
		}
	}
	if c.End != "" && at(begin, c.EndAt, over) {
		if c.End == "reset" {
			conn.SetLinger(0)
		}
		conn.Close()
	}
}

// fullListener is a port whose server takes no more connections.
func fullListener() (addr string, stop func(), err error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		return "", nil, hx.Harness("no socket: %v", err)
	}
	var conns []net.Conn
	stop = func() {
		syscall.Close(fd)
		for _, c := range conns {
			c.Close()
		}
	}
	fail := func(err error) (string, func(), error) { stop(); return "", nil, hx.Harness("no full port: %v", err) }
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		return fail(err)
	}
	if err := syscall.Listen(fd, 0); err != nil {
		return fail(err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		return fail(err)
	}
	addr = fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	for i := 0; i < 8; i++ {
		c, err := net.DialTimeout("tcp", addr, 300*time.Millisecond)
		if err != nil {
			return addr, stop, nil
		}
		conns = append(conns, c)
	}
	return fail(errors.New("it takes everything"))
}

func (c c22Call) request() messages.Request {
	m := c.Op.Req
	if c.Big > 0 {
		v := map[string]interface{}{}
		for k, x := range m.V {
			v[k] = x
		}
		v["Data"] = strings.Repeat("x", c.Big<<20)
		m.V = v
	}
	return libReq(m)
}

func checkC22(c c22Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	soap, err := fx.TheSoapCP()
	if err != nil {
		return err
	}
	before := runtime.NumGoroutine()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return hx.Harness("no port: %v", err)
	}
	defer l.Close()
	s := &c22Server{c: &c, seen: map[int]int{}}
	for range c.Calls {
		s.returned = append(s.returned, make(chan struct{}))
		s.ended = append(s.ended, make(chan error, 20))
	}
	go s.accept(l, s.script)

	// handlers that take their time: the requests to them are told apart by their identity or key
	var hmu sync.Mutex
	atPoint := map[string]c22Call{}
	soap.SetHandler(func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		q, ok := r.(*csreq.ChangeConfiguration)
		if !ok {
			return nil, errors.New("unexpected request")
		}
		hmu.Lock()
		call := atPoint[q.Key]
		hmu.Unlock()
		if call.Kind == "handler" {
			time.Sleep(time.Duration(call.Wait) * time.Millisecond)
		}
		if call.Op.Fail {
			return nil, errors.New(call.Op.Text)
		}
		return gen.Build(call.Op.Resp).(csresp.CentralSystemResponse), nil
	})
	defer soap.SetHandler(nil)

	var releases []func()
	defer func() {
		for _, f := range releases {
			f()
		}
	}()
	errs := make([]error, len(c.Calls))
	var wg sync.WaitGroup
	for i := range c.Calls {
		call := c.Calls[i]
		id := fmt.Sprintf("c22-%d-%s", i, fx.ID())
		url := fmt.Sprintf("http://%s/call-%d-0", l.Addr(), i)
		switch {
		case call.Kind == "backlog":
			addr, stop, err := fullListener()
			if err != nil {
				return err
			}
			defer stop()
			url = "http://" + addr + "/"
		case call.Kind == "refused":
			p, err := fx.FreePort()
			if err != nil {
				return hx.Harness("no port: %v", err)
			}
			url = fmt.Sprintf("http://127.0.0.1:%d/", p)
		case call.Kind == "script" && call.Unread:
			ul, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return hx.Harness("no port: %v", err)
			}
			defer ul.Close()
			url = "http://" + ul.Addr().String() + "/"
			go s.accept(ul, func(conn *net.TCPConn) {
				s.mu.Lock()
				s.seen[i]++
				s.mu.Unlock()
				s.gone(i, conn, time.Now())
			})
		case call.Kind == "handler" || call.Kind == "upload":
			k, _ := spec.ByType(call.Op.Type)
			if !k.FromCP {
				url = soap.URL
				v := map[string]interface{}{}
				for k, x := range call.Op.Req.V {
					v[k] = x
				}
				v["Key"] = id
				call.Op.Req.V = v
				c.Calls[i].Op.Req.V = v
				hmu.Lock()
				atPoint[id] = call
				hmu.Unlock()
				break
			}
			url = sys.HTTP + "/"
			sys.Handle(id, func(cpreq.ChargePointRequest, cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
				if call.Kind == "handler" {
					time.Sleep(time.Duration(call.Wait) * time.Millisecond)
				}
				if call.Op.Fail {
					return nil, errors.New(call.Op.Text)
				}
				return gen.Build(call.Op.Resp).(cpresp.ChargePointResponse), nil
			})
			defer sys.Handle(id, nil)
		}
		send, release, err := c22Send(sys, id, url, call)
		if err != nil {
			return err
		}
		releases = append(releases, release)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(s.returned[i])
			errs[i] = c22One(call, send)
		}()
	}
	wg.Wait()
	hx.Note("calls", int64(len(c.Calls)))
	alone := func(i int, err error) error {
		call := c.Calls[i]
		return hx.Reduced(c22Case{[]c22Call{call}}, fmt.Errorf("call %d (%s): %w", i, call.Kind, err))
	}
	inc := error(nil)
	for i, err := range errs {
		if hx.IsInconclusive(err) {
			inc = err
		} else if err != nil {
			return alone(i, err)
		}
	}
	if inc != nil {
		return inc
	}
	for i, call := range c.Calls {
		if call.Kind != "script" {
			continue
		}
		s.mu.Lock()
		n := s.seen[i]
		s.mu.Unlock()
		if len(call.Hops) > 0 || call.Loop {
			continue
		}
		if n != 1 {
			return alone(i, fmt.Errorf("the request was sent %d times", n))
		}
		err, late := hx.Recv(s.ended[i], "the end of a connection")
		if err := errors.Join(err, late); err != nil {
			return alone(i, err)
		}
	}
	l.Close()
	for _, f := range releases {
		f()
	}
	releases = nil
	fx.CloseIdle()
	err = hx.Eventually("end of the goroutines of the calls", func() error {
		if n := runtime.NumGoroutine(); n > before+10 {
			return fmt.Errorf("%d goroutines before %d calls, %d after", before, len(c.Calls), n)
		}
		return nil
	})
	if err != nil && len(c.Calls) > 10 && !hx.IsInconclusive(err) {
		return err
	}
	return nil
}

// c22Send prepares a call.
func c22Send(sys *fx.CS, id, url string, c c22Call) (send func() (interface{}, error), release func(), err error) {
	k, _ := spec.ByType(c.Op.Type)
	release = func() {}
	if c.Kind == "upload" {
		return func() (interface{}, error) { return nil, c22Upload(k, id, url, c) }, release, nil
	}
	if k.FromCP {
		p, done, err := soapCaller(id, url)
		if err != nil {
			return nil, nil, err
		}
		return func() (interface{}, error) {
			r, err := p.Send(c.request().(cpreq.ChargePointRequest))
			if r == nil {
				return nil, err
			}
			return r, err
		}, done, nil
	}
	svc, err := sys.Sys.GetServiceOf(id, ocpp.V15, url)
	if err != nil {
		return nil, nil, fmt.Errorf("no service for a SOAP charge point: %v", err)
	}
	return func() (interface{}, error) {
		r, err := svc.Send(c.request().(csreq.CentralSystemRequest))
		if r == nil {
			return nil, err
		}
		return r, err
	}, release, nil
}

// c22Upload sends a request bit by bit and judges the answer.
func c22Upload(k *spec.Kind, id, url string, c c22Call) error {
	conn, err := net.DialTimeout("tcp", strings.TrimSuffix(strings.TrimPrefix(url, "http://"), "/"), 20*time.Second)
	if err != nil {
		return hx.Late(time.Now(), fmt.Sprintf("connection (%v)", err))
	}
	defer conn.Close()
	begin := time.Now()
	body := gen.Envelope(id, k.NS(), k.Action, gen.WriteXMLAs(k.XMLName(false), k.NS(), k.XMLReq, c.Op.Req.V, c.Op.Style), c.Op.Style)
	raw := "POST / HTTP/1.1\r\nHost: x\r\nContent-Type: application/soap+xml\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body
	sent := 0
	for _, cut := range append(c.Cuts, c22Cut{c.Wait, 1000}) {
		at(begin, cut.At, nil)
		n := len(raw) * cut.To / 1000
		if n > sent {
			if _, err := io.WriteString(conn, raw[sent:n]); err != nil {
				return fmt.Errorf("a slow request was not taken: %v", err)
			}
			sent = n
		}
	}
	t := time.Now()
	conn.SetReadDeadline(t.Add(hx.Patience()))
	res, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			return hx.Late(t, "the answer to a slow request")
		}
		return fmt.Errorf("a slow request was not answered: %v", err)
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return fmt.Errorf("a slow request was not answered: %v", err)
	}
	return checkReply(c.Op, k, &fx.Reply{Status: res.StatusCode, Header: res.Header, Body: b})
}

// c22One makes a call and judges its outcome.
func c22One(c c22Call, send func() (interface{}, error)) error {
	raw, doc := c.response()
	what, until := c.expect(raw, doc)
	begin := time.Now()
	type result struct {
		got interface{}
		err error
	}
	done := make(chan result, 1)
	go func() {
		var r result
		r.err = hx.Guarded(func() error {
			got, err := send()
			r.got = got
			return err
		})
		done <- r
	}()
	limit := time.Duration(until)*time.Millisecond + hx.Patience()
	if c.Big > 0 {
		limit += 5 * time.Second
	}
	var r result
	select {
	case r = <-done:
	case <-time.After(limit):
		return hx.Late(begin, fmt.Sprintf("the return of a call that should be over (%s) after %d ms", what, until))
	}
	if c.Kind == "upload" {
		return r.err
	}
	took := time.Since(begin).Round(time.Millisecond)
	switch {
	case what == c22Error || what == c22Either && r.err != nil && r.got == nil:
		if r.err == nil {
			return fmt.Errorf("a call succeeded after %v, without an answer", took)
		}
		if r.got != nil {
			return fmt.Errorf("a call failed (%v) and succeeded at once", r.err)
		}
		return nil
	}
	if err := checkOutcome(c.Op, r.got, r.err); err != nil {
		if hx.StalledSince(begin) > 5*time.Second {
			return hx.Inconclusive("the machine was too busy: %v", err)
		}
		return fmt.Errorf("after %v, of a call whose answer arrived after %d ms: %w", took, until, err)
	}
	return nil
}

func drawC22Call(rt *rapid.T, kind string) c22Call {
	c := c22Call{Kind: kind, Framing: rapid.SampledFrom([]string{"length", "length", "chunked", "close"}).Draw(rt, "framing")}
	k := rapid.SampledFrom(soapKinds).Draw(rt, "kind of message")
	if kind == "handler" || kind == "upload" {
		// those to the charge point are told apart by their key
		for !k.FromCP && k.Action != "ChangeConfiguration" {
			k = rapid.SampledFrom(soapKinds).Draw(rt, "another kind of message")
		}
		if rapid.IntRange(0, 2).Draw(rt, "to the charge point") == 0 {
			k = spec.Filter(func(k *spec.Kind) bool { return k.Action == "ChangeConfiguration" })[0]
		}
	}
	o := gen.Opts{Legal: true, XML: true}
	draw := func() {
		c.Op = c13Op{Type: k.Req.String(), Style: gen.DrawStyle(rt), Fail: rapid.IntRange(0, 3).Draw(rt, "fail") == 0}
		if c.Op.Fail {
			c.Op.Text = "E" + gen.Text(rt, "error", true, 30, false)
		}
		c.Op.Req, c.Op.Resp = gen.Draw(rt, c.Op.Type, o), gen.Draw(rt, k.Resp.String(), o)
	}
	slow := func(n string) int64 {
		return rapid.SampledFrom([]int64{0, 0, 100, 2000, 9000, 15000, 25000, 35000, 46000}).Draw(rt, n)
	}
	// cuts are n places in the response and their times, up to a time and place
	cuts := func(until int64, to int) (cs []c22Cut) {
		for n := rapid.IntRange(0, 6).Draw(rt, "cuts"); n > 0; n-- {
			cs = append(cs, c22Cut{At: rapid.Int64Range(0, until).Draw(rt, "at"), To: rapid.IntRange(0, to).Draw(rt, "to")})
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].At < cs[j].At })
		at := 0
		for i := range cs {
			at = max(at, cs[i].To)
			cs[i].To = at
		}
		return append(cs, c22Cut{until, to})
	}
	big := func() {
		from := rapid.Bool().Draw(rt, "big from")
		k = spec.Filter(func(k *spec.Kind) bool { return k.Action == "DataTransfer" && k.FromCP == from })[0]
		draw()
		c.Big = rapid.IntRange(9, 14).Draw(rt, "MB")
	}
	switch kind {
	case "handler":
		draw()
		c.Wait = slow("wait")
		return c
	case "upload":
		draw()
		c.Wait = slow("wait")
		c.Cuts = cuts(c.Wait, rapid.IntRange(0, 1000).Draw(rt, "to"))
		return c
	case "backlog", "refused":
		draw()
		return c
	}
	draw()
	switch rapid.SampledFrom([]string{"answer", "answer", "answer", "answer", "hang", "hang", "broken", "broken", "trickle", "hops", "loop", "info", "unread", "late read"}).Draw(rt, "script") {
	case "answer":
		t := slow("answered")
		c.Cuts = cuts(t, 1000)
		if c.Framing == "close" || rapid.Bool().Draw(rt, "ends") {
			c.End, c.EndAt = "close", min(t+rapid.SampledFrom([]int64{0, 500, 4000}).Draw(rt, "end after"), 48000)
		}
		if rapid.IntRange(0, 3).Draw(rt, "provisional") == 0 {
			c.Info = []int64{0, 0}
		}
	case "hang":
		if to := rapid.SampledFrom([]int{-1, 0, 1, 5, 50, 100, 300, 600, 900, 990, 999, 1000}).Draw(rt, "up to"); to >= 0 {
			c.Cuts = cuts(slow("hangs"), to)
			if to == 1000 {
				c.Framing = "close"
			}
		}
	case "broken":
		t := slow("breaks")
		if to := rapid.SampledFrom([]int{-1, 0, 1, 5, 50, 100, 300, 600, 900, 990, 999}).Draw(rt, "up to"); to >= 0 {
			c.Cuts = cuts(t, to)
		}
		c.End, c.EndAt = rapid.SampledFrom([]string{"close", "reset"}).Draw(rt, "break"), t
	case "trickle":
		step := rapid.SampledFrom([]int64{500, 3000, 7000, 20000}).Draw(rt, "step")
		for t := int64(0); t < 80000; t += step {
			if t > 49000 && t < 64000 { // nothing is sent at the time of the timeout
				continue
			}
			c.Cuts = append(c.Cuts, c22Cut{At: t, To: int(t * 900 / 80000)})
		}
	case "hops":
		for n := rapid.IntRange(1, 5).Draw(rt, "hops"); n > 0; n-- {
			c.Hops = append(c.Hops, rapid.SampledFrom([]int64{0, 100, 5000, 18000}).Draw(rt, "hop"))
		}
		if rapid.Bool().Draw(rt, "answered at last") {
			c.Cuts = cuts(0, 1000)
			c.End = "close"
		}
	case "loop":
		c.Loop = true
		if rapid.Bool().Draw(rt, "slow loop") {
			for i := 0; i < 20; i++ {
				c.Hops = append(c.Hops, 9000)
			}
		}
	case "info":
		for n := rapid.IntRange(1, 30).Draw(rt, "infos"); n > 0; n-- {
			c.Info = append(c.Info, int64(len(c.Info))*1500)
		}
	case "unread":
		big()
		c.Unread = true
	case "late read":
		big()
		c.Wait = slow("late")
		c.Cuts = []c22Cut{{c.Wait, 1000}}
		c.End, c.EndAt = "close", c.Wait
	}
	return c
}

func TestC22(t *testing.T) {
	hx.Run(t, hx.Part[c22Case]{
		Property: "C22", Name: "calls",
		Rule:   "a case is a batch of 260 parallel SOAP calls of both directions in real time, to raw servers that answer whole or in part, at once or bit by bit over up to 46 s, hang, close or reset at any place, redirect, send provisional responses, do not read, do not accept; to handlers of the library that take up to 46 s; and raw requests to the library that arrive that slowly; always non-trivial",
		Budget: hx.Budget{Quick: 1, Thorough: 14, QuickSecs: 150, ThoroughSecs: 1500}, HangSecs: 400, NoShrink: true,
		Draw: func(rt *rapid.T) c22Case {
			var c c22Case
			for i := 0; i < 260; i++ {
				kind := "script"
				switch i {
				case 0, 1, 2:
					kind = "backlog"
				case 3, 4:
					kind = "refused"
				default:
					if i < 30 {
						kind = "handler"
					} else if i < 50 {
						kind = "upload"
					}
				}
				c.Calls = append(c.Calls, drawC22Call(rt, kind))
			}
			return c
		},
		Classify: func(c c22Case) (bool, []string) {
			var cl []string
			for _, call := range c.Calls {
				what, until := call.expect(call.response())
				cl = append(cl, fmt.Sprintf("%s: %s, %d s", call.Kind, what, until/10000*10))
			}
			return true, cl
		},
		Check: checkC22,
	})
}
