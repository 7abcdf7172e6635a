package props

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/hx"
)

// Parts of several properties that ask for much: sizes and numbers beyond any buffer or limit.

// atMost is n, or fewer if the process may not open that many connections (two descriptors each).
func atMost(n int) int {
	var l syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l) == nil && l.Cur < uint64(2*n+300) {
		n = max(2, (int(l.Cur)-300)/2)
	}
	return n
}

// scaleSize is an exchange of large messages, written as a number.
type scaleSize struct {
	Kind  string `json:"kind"`
	Text  int    `json:"text,omitempty"`  // characters
	Items int    `json:"items,omitempty"` // elements of a list
	Piece string `json:"piece"`
}

var scaleKinds = []string{
	"text csreq", "text cpreq", "text csresp", "text cpresp",
	"list csreq", "list cpreq", "list csresp", "keys csreq", "keys csresp",
}

// exchange makes the messages.
func (s scaleSize) exchange() exchange {
	text := strings.Repeat(s.Piece, s.Text/len(s.Piece)+1) + "end"
	var e exchange
	set := func(action string, fromCP bool, req, resp map[string]interface{}) {
		k := kindOf(action, fromCP)
		e = exchange{Action: action, FromCP: fromCP, Req: minimal(k.Req.String()), Resp: minimal(k.Resp.String())}
		for n, v := range req {
			e.Req.V[n] = v
		}
		for n, v := range resp {
			e.Resp.V[n] = v
		}
	}
	type m = map[string]interface{}
	list := func(f func(i int) interface{}) []interface{} {
		l := make([]interface{}, s.Items)
		for i := range l {
			l[i] = f(i)
		}
		return l
	}
	switch s.Kind {
	case "text csreq":
		set("ChangeConfiguration", false, m{"Value": text}, nil)
	case "text cpreq":
		set("BootNotification", true, m{"FirmwareVersion": text}, nil)
	case "text csresp":
		set("GetDiagnostics", false, nil, m{"FileName": text})
	case "text cpresp":
		set("Authorize", true, nil, m{"IdTagInfo": m{"Status": "Accepted", "ParentIdTag": text}})
	case "list csreq":
		set("SendLocalList", false, m{"LocalAuthorizationList": list(func(i int) interface{} {
			return m{"IdTag": fmt.Sprint(s.Piece, i)}
		})}, nil)
	case "list cpreq":
		set("MeterValues", true, m{"MeterValue": list(func(i int) interface{} {
			return m{"Timestamp": "2020-05-06T07:08:09Z", "SampledValues": []interface{}{m{"Value": fmt.Sprint(s.Piece, i)}}}
		})}, nil)
	case "list csresp":
		set("GetConfiguration", false, nil, m{"ConfigurationKey": list(func(i int) interface{} {
			return m{"Key": fmt.Sprint(s.Piece, i), "Readonly": i%3 == 0}
		})})
	case "keys csreq":
		set("GetConfiguration", false, m{"Key": list(func(i int) interface{} { return fmt.Sprint(s.Piece, i) })}, nil)
	case "keys csresp":
		set("GetConfiguration", false, nil, m{"UnknownKey": list(func(i int) interface{} { return fmt.Sprint(s.Piece, i) })})
	}
	return e
}

func drawScaleSize(rt *rapid.T) scaleSize {
	s := scaleSize{Kind: rapid.SampledFrom(scaleKinds).Draw(rt, "kind"), Piece: rapid.SampledFrom([]string{"a", "é", "x y", "日本", "<", "&quot;"}).Draw(rt, "piece")}
	if strings.HasPrefix(s.Kind, "text") {
		s.Text = rapid.SampledFrom([]int{1 << 20, 2 << 20, 4 << 20, 5000000, 8 << 20, 10 << 20, 16 << 20, 32 << 20}).Draw(rt, "text")
	} else {
		s.Items = rapid.SampledFrom([]int{1001, 1025, 2049, 4097, 10001, 16385, 32769, 65537, 100001}).Draw(rt, "items")
	}
	return s
}

func scaleSizePart(property string, check func(c01Case) error) hx.Part[scaleSize] {
	return hx.Part[scaleSize]{
		Property: property, Name: "sizes",
		Rule:   "a case is an exchange whose request or response has a text of 1 to 33 million characters or a list of a thousand to a hundred thousand elements; always non-trivial",
		Budget: hx.Budget{Quick: 24, Thorough: 150, QuickSecs: 25, ThoroughSecs: 300}, HangSecs: 200,
		Draw:     drawScaleSize,
		Classify: func(s scaleSize) (bool, []string) { return true, []string{s.Kind} },
		Check:    func(s scaleSize) error { return check(c01Case{[]exchange{s.exchange()}}) },
	}
}

// scaleOut is a number of requests outstanding on one connection at once.
type scaleOut struct {
	AtCS  bool  `json:"atCS"`
	N     int   `json:"n"`
	Seed  int64 `json:"seed"`  // of the order of the answers
	Waves int   `json:"waves"` // in how many portions the answers come
}

// tagged gives a request with a tag, which its answer repeats.
func (s *side) tagged(tag string) messages.Request {
	if s.atCS {
		return &csreq.GetDiagnostics{Location: tag}
	}
	return &cpreq.Authorize{IdTag: tag}
}

// tagOf finds the tag of a call that tagged made, and the payload of its answer.
func tagOf(f *frame) (tag, payload string) {
	pl, _ := f.Payload.(map[string]interface{})
	switch f.Action {
	case "GetDiagnostics":
		tag, _ = pl["location"].(string)
		return tag, `{"fileName":` + jq(tag) + `}`
	case "Authorize":
		tag, _ = pl["idTag"].(string)
		return tag, `{"idTagInfo":{"status":"Accepted","parentIdTag":` + jq(tag) + `}}`
	}
	return "", ""
}

func answerTag(r messages.Response) string {
	switch x := r.(type) {
	case *csresp.GetDiagnostics:
		return x.FileName
	case *cpresp.Authorize:
		if x.IdTagInfo != nil {
			return x.IdTagInfo.ParentIdTag
		}
	}
	return ""
}

func checkScaleOut(c scaleOut) error {
	s, err := newSide(c.AtCS)
	if err != nil {
		return err
	}
	defer s.close()
	outs := make([]chan outcome, c.N)
	for i := range outs {
		outs[i] = s.start(s.tagged(fmt.Sprint(i)))
	}
	calls := map[string]*frame{} // tag -> call
	ids := map[string]bool{}
	for len(calls) < c.N {
		f, err := s.next(fmt.Sprintf("call %d of %d", len(calls), c.N))
		if err != nil {
			return err
		}
		tag, _ := tagOf(f)
		if f.Type != 2 || tag == "" || calls[tag] != nil || ids[f.ID] {
			return fmt.Errorf("an unexpected message, or a message id used twice: %s", hx.Quote(f.Raw))
		}
		calls[tag], ids[f.ID] = f, true
	}
	if err := s.barrier(nil); err != nil {
		return fmt.Errorf("with %d requests outstanding: %w", c.N, err)
	}
	order := rand.New(rand.NewSource(c.Seed)).Perm(c.N)
	for w := 0; w < c.Waves; w++ {
		part := order[c.N*w/c.Waves : c.N*(w+1)/c.Waves]
		for _, i := range part {
			f := calls[fmt.Sprint(i)]
			_, payload := tagOf(f)
			b := resultFrame(f.ID, payload)
			if i%5 == 4 {
				b = errorFrame(f.ID, "GenericError", "desc-"+fmt.Sprint(i)+"-", "{}")
			}
			if err := s.raw.Send(b); err != nil {
				return fmt.Errorf("the connection is gone: %v", err)
			}
		}
		for _, i := range part {
			o, err := hx.Recv(outs[i], fmt.Sprintf("the end of request %d of %d, which was answered", i, c.N))
			if err != nil {
				return err
			}
			if i%5 == 4 {
				if o.err == nil || !contains(o.err.Error(), "GenericError") || !contains(o.err.Error(), "desc-"+fmt.Sprint(i)+"-") {
					return fmt.Errorf("request %d of %d got an error answer, Send returned %s, %v", i, c.N, hx.Quote(o.resp), o.err)
				}
			} else if o.err != nil || answerTag(o.resp) != fmt.Sprint(i) {
				return fmt.Errorf("request %d of %d was answered, Send returned %s, %v", i, c.N, hx.Quote(o.resp), o.err)
			}
		}
		for _, i := range order[c.N*(w+1)/c.Waves:] {
			select {
			case o := <-outs[i]:
				return fmt.Errorf("request %d of %d is not answered yet, but Send returned %s, %v", i, c.N, hx.Quote(o.resp), o.err)
			default:
			}
		}
	}
	return s.barrier(nil)
}

// scaleBurst is a number of calls that arrive while the handler is busy with the first.
type scaleBurst struct {
	AtCS bool `json:"atCS"`
	N    int  `json:"n"`
	Bad  int  `json:"bad"` // every so many is one that is refused; 0: none
}

func checkScaleBurst(c scaleBurst) error {
	s, err := newSide(c.AtCS)
	if err != nil {
		return err
	}
	defer s.close()
	gate := make(chan struct{})
	var once sync.Once
	open := func() { once.Do(func() { close(gate) }) }
	defer open()
	var mu sync.Mutex
	var seen []string
	inside := make(chan struct{}, 1)
	s.setHandler(func(r messages.Request) (messages.Response, error) {
		tag := ""
		switch x := r.(type) {
		case *cpreq.Authorize:
			tag = x.IdTag
		case *csreq.GetDiagnostics:
			tag = x.Location
		}
		mu.Lock()
		seen = append(seen, tag)
		first := len(seen) == 1
		mu.Unlock()
		if first {
			inside <- struct{}{}
			<-gate
		}
		if s.atCS {
			return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: tag}}, nil
		}
		return &csresp.GetDiagnostics{FileName: tag}, nil
	})
	bad := func(i int) bool { return c.Bad > 0 && i > 0 && i%c.Bad == 0 }
	for i := 0; i < c.N; i++ {
		action, payload := "GetDiagnostics", `{"location":"`+fmt.Sprint(i)+`"}`
		if s.atCS {
			action, payload = "Authorize", `{"idTag":"`+fmt.Sprint(i)+`"}`
		}
		if bad(i) {
			action = "NoSuch" + action
		}
		if err := s.raw.Send(callFrame("burst-"+fmt.Sprint(i), action, payload)); err != nil {
			return fmt.Errorf("after %d calls the connection is gone: %v", i, err)
		}
		if i == 0 {
			if _, err := hx.Recv(inside, "the run of the handler for the first call"); err != nil {
				return err
			}
		}
	}
	open()
	for i := 0; i < c.N; i++ {
		f, err := s.next(fmt.Sprintf("the answer to call %d of %d", i, c.N))
		if err != nil {
			return err
		}
		if f.ID != "burst-"+fmt.Sprint(i) {
			return fmt.Errorf("the message after the answer to call %d of %d is %s", i-1, c.N, hx.Quote(f.Raw))
		}
		if bad(i) {
			if f.Type != 4 || f.Code != "NotSupported" {
				return fmt.Errorf("call %d of %d with an unknown action was answered with %s", i, c.N, hx.Quote(f.Raw))
			}
		} else if f.Type != 3 || !contains(f.Raw, `"`+fmt.Sprint(i)+`"`) {
			return fmt.Errorf("call %d of %d was answered with %s", i, c.N, hx.Quote(f.Raw))
		}
	}
	if err := s.barrier(nil); err != nil {
		return err
	}
	mu.Lock()
	defer mu.Unlock()
	j := 0
	for i := 0; i < c.N; i++ {
		if bad(i) {
			continue
		}
		if j >= len(seen) || seen[j] != fmt.Sprint(i) {
			return fmt.Errorf("run %d of the handler was not for call %d of %d", j, i, c.N)
		}
		j++
	}
	if j != len(seen) {
		return fmt.Errorf("the handler ran %d times for %d calls", len(seen), j)
	}
	return nil
}

// scaleFleet is a multitude of charge points.
type scaleFleet struct {
	N    int    `json:"n"`
	Long int    `json:"long"` // length of the identities
	Raw  int    `json:"raw"`  // every so many is the library's, the others are raw
	Each int    `json:"each"`
	Pre  string `json:"pre"`
}

func (f scaleFleet) fleet() c10Case {
	c := c10Case{Each: f.Each}
	for i := 0; i < atMost(f.N); i++ {
		id := f.Pre + fmt.Sprint(i)
		if n := f.Long - len(id); n > 0 {
			id = strings.Repeat("x", n) + id
		}
		c.Points = append(c.Points, c10Point{ID: id, Raw: i%f.Raw > 0})
		c.Leave = append(c.Leave, i%2 == 0)
	}
	return c
}

func scaleFleetPart() hx.Part[scaleFleet] {
	return hx.Part[scaleFleet]{
		Property: "C10", Name: "multitude",
		Rule:   "a case is a fleet as above of 100 to 1300 charge points connected at once, or of a few, with identities of up to 8000 characters of which only the last differ; always non-trivial",
		Budget: hx.Budget{Quick: 12, Thorough: 60, QuickSecs: 25, ThoroughSecs: 300}, HangSecs: 200,
		Draw: func(rt *rapid.T) scaleFleet {
			f := scaleFleet{Raw: rapid.IntRange(1, 4).Draw(rt, "raw"), Each: rapid.IntRange(1, 3).Draw(rt, "each"), Pre: rapid.SampledFrom([]string{"", "cp-", "é "}).Draw(rt, "pre")}
			if rapid.Bool().Draw(rt, "long") {
				f.N = rapid.IntRange(2, 8).Draw(rt, "points")
				f.Long = rapid.SampledFrom([]int{21, 33, 49, 65, 129, 256, 257, 1025, 2050, 4097, 8000}).Draw(rt, "length")
			} else {
				f.N = rapid.SampledFrom([]int{101, 129, 257, 513, 1025, 1300}).Draw(rt, "multitude")
			}
			return f
		},
		Classify: func(f scaleFleet) (bool, []string) {
			return true, []string{fmt.Sprintf("%d00 points", f.N/100), fmt.Sprintf("%d characters", f.Long)}
		},
		Check: func(f scaleFleet) error { return checkC10(f.fleet()) },
	}
}

// scalePile is a number of connections of one charge point at the same time.
type scalePile struct {
	N     int   `json:"n"`
	Seed  int64 `json:"seed"` // of the order in which they close
	Abort bool  `json:"abort"`
}

func checkScalePile(c scalePile) error {
	c.N = atMost(c.N)
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	id := fx.ID()
	var conns []*fx.Raw
	defer func() {
		for _, r := range conns {
			r.Reset()
		}
	}()
	type hit struct {
		conn int
		tag  string
	}
	hits := make(chan hit, c.N+1)
	on0, off0 := sys.Events(id)
	reported := func(on, off int) error {
		return hx.Eventually("the reports of the connections of one charge point", func() error {
			a, b := sys.Events(id)
			if a-on0 != on || b-off0 != off {
				return fmt.Errorf("%d connections and %d disconnections were reported, there were %d and %d", a-on0, b-off0, on, off)
			}
			return nil
		})
	}
	for i := 0; i < c.N; i++ {
		r, err := sys.DialRaw(id)
		if err != nil {
			return fmt.Errorf("connection %d of a charge point: %v", i, err)
		}
		conns = append(conns, r)
		go func() {
			for rf := range r.Frames {
				f, err := parseFrame(rf.Data)
				if err != nil || f.Type != 2 {
					continue
				}
				tag, payload := tagOf(f)
				hits <- hit{i, tag}
				r.Send(resultFrame(f.ID, payload))
			}
		}()
		// its report comes when it is registered
		if err := reported(i+1, 0); err != nil {
			return err
		}
	}
	n := 0
	where := func() (int, error) {
		svc, err := sys.Sys.GetServiceOf(id, ocpp.V16, "")
		if err != nil {
			return -1, fmt.Errorf("no service for a connected charge point: %v", err)
		}
		n++
		tag := fmt.Sprint("pile-", n)
		if _, err := svc.Send(&csreq.GetDiagnostics{Location: tag}); err != nil {
			return -1, err
		}
		h, err := hx.Recv(hits, "a request to a charge point")
		if err != nil {
			return -1, err
		}
		if h.tag != tag {
			return -1, fmt.Errorf("request %s reached the charge point as %s", tag, h.tag)
		}
		return h.conn, nil
	}
	open := make([]bool, c.N)
	for i := range open {
		open[i] = true
	}
	newest := func() int {
		for i := c.N - 1; i >= 0; i-- {
			if open[i] {
				return i
			}
		}
		return -1
	}
	for k, i := range rand.New(rand.NewSource(c.Seed)).Perm(c.N) {
		if got, err := where(); err != nil {
			return fmt.Errorf("after %d of %d connections closed: %w", k, c.N, err)
		} else if got != newest() {
			return fmt.Errorf("after %d of %d connections closed, a request went to connection %d, the newest open one is %d", k, c.N, got, newest())
		}
		wait := sys.Sys.WaitDisconnect(id)
		now := newest()
		open[i] = false
		if c.Abort {
			conns[i].Reset()
		} else {
			conns[i].CloseHandshake()
		}
		if err := reported(c.N, k+1); err != nil {
			return err
		}
		if i == now {
			if _, err := hx.Recv(wait, "the wait for the disconnection of the current connection"); err != nil {
				return err
			}
		} else {
			select {
			case <-wait:
				return errors.New("the wait for the disconnection of the current connection ended when another one closed")
			default:
			}
		}
	}
	if _, err := sys.Sys.GetServiceOf(id, ocpp.V16, ""); err == nil {
		return errors.New("a service for a charge point all of whose connections are closed")
	}
	return nil
}

// scaleSoap is a number of SOAP calls whose handlers run at the same time.
type scaleSoap struct {
	FromCP bool `json:"fromCP"`
	N      int  `json:"n"`
}

func checkScaleSoap(c scaleSoap) error {
	c.N = atMost(c.N)
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	p, err := fx.TheSoapCP()
	if err != nil {
		return err
	}
	gate := make(chan struct{})
	var once sync.Once
	open := func() { once.Do(func() { close(gate) }) }
	defer open()
	inside := make(chan string, 2*c.N)
	answer := func(tag string) error {
		inside <- tag
		<-gate
		if strings.HasSuffix(tag, "7") {
			return errors.New("failed for " + tag + ".")
		}
		return nil
	}
	sys.Handle(p.ID, func(r cpreq.ChargePointRequest, _ cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, ok := r.(*cpreq.Authorize)
		if !ok {
			return nil, errors.New("not mine")
		}
		if err := answer(a.IdTag); err != nil {
			return nil, err
		}
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: a.IdTag}}, nil
	})
	defer sys.Handle(p.ID, nil)
	p.SetHandler(func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		g, ok := r.(*csreq.GetDiagnostics)
		if !ok {
			return nil, errors.New("not mine")
		}
		if err := answer(g.Location); err != nil {
			return nil, err
		}
		return &csresp.GetDiagnostics{FileName: g.Location}, nil
	})
	defer p.SetHandler(nil)
	svc, err := sys.Sys.GetServiceOf(p.ID, ocpp.V15, p.URL)
	if err != nil {
		return err
	}
	errs := make(chan error, c.N)
	for i := 0; i < c.N; i++ {
		go func() {
			tag := fmt.Sprint("many-", i)
			var got messages.Response
			var err error
			if c.FromCP {
				var r cpresp.ChargePointResponse
				if r, err = p.CP.Send(&cpreq.Authorize{IdTag: tag}); err == nil {
					got = r
				}
			} else {
				var r csresp.CentralSystemResponse
				if r, err = svc.Send(&csreq.GetDiagnostics{Location: tag}); err == nil {
					got = r
				}
			}
			switch {
			case strings.HasSuffix(tag, "7"):
				if err == nil || err.Error() != "failed for "+tag+"." {
					errs <- fmt.Errorf("call %s of %d, whose handler failed, ended with %s, %v", tag, c.N, hx.Quote(got), err)
					return
				}
			case err != nil || answerTag(got) != tag:
				errs <- fmt.Errorf("call %s of %d ended with %s, %v", tag, c.N, hx.Quote(got), err)
				return
			}
			errs <- nil
		}()
	}
	seen := map[string]bool{}
	start := time.Now()
	for len(seen) < c.N {
		select {
		case tag := <-inside:
			if seen[tag] {
				return fmt.Errorf("the handler ran twice for %s", tag)
			}
			seen[tag] = true
		case err := <-errs:
			if err == nil {
				err = errors.New("a call ended before its handler did")
			}
			return err
		case <-time.After(hx.Patience() + 10*time.Second):
			return hx.Late(start, fmt.Sprintf("the runs of the handler for %d calls at once (there were %d)", c.N, len(seen)))
		}
	}
	open()
	for i := 0; i < c.N; i++ {
		err, late := hx.Recv(errs, "the end of a call whose handler has returned")
		if late != nil {
			return late
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func scaleParts(t *testing.T, property string) {
	switch property {
	case "C01":
		hx.Run(t, scaleSizePart(property, checkC01))
	case "C12":
		hx.Run(t, scaleSizePart(property, checkC12))
	case "C05":
		hx.Run(t, hx.Part[scaleBurst]{
			Property: property, Name: "burst",
			Rule:   "a case is 100 to 9000 calls that arrive while the handler is busy with the first, some of them with unknown actions; always non-trivial",
			Budget: hx.Budget{Quick: 40, Thorough: 600, QuickSecs: 15, ThoroughSecs: 200}, HangSecs: 200,
			Draw: func(rt *rapid.T) scaleBurst {
				return scaleBurst{rapid.Bool().Draw(rt, "atCS"), rapid.SampledFrom([]int{101, 129, 257, 513, 1025, 2049, 4097, 9000}).Draw(rt, "n"), rapid.SampledFrom([]int{0, 2, 7}).Draw(rt, "bad")}
			},
			Classify: func(c scaleBurst) (bool, []string) { return true, []string{fmt.Sprintf("%d calls", c.N)} },
			Check:    checkScaleBurst,
		})
	case "C07":
		hx.Run(t, hx.Part[scaleOut]{
			Property: property, Name: "multitude",
			Rule:   "a case is 100 to 5000 requests outstanding on one connection at once, answered in random order and in one to five portions, every fifth with an error; always non-trivial",
			Budget: hx.Budget{Quick: 40, Thorough: 600, QuickSecs: 15, ThoroughSecs: 200}, HangSecs: 200,
			Draw: func(rt *rapid.T) scaleOut {
				return scaleOut{rapid.Bool().Draw(rt, "atCS"), rapid.SampledFrom([]int{101, 129, 257, 513, 1025, 2049, 4097, 5000}).Draw(rt, "n"), rapid.Int64().Draw(rt, "order"), rapid.IntRange(1, 5).Draw(rt, "waves")}
			},
			Classify: func(c scaleOut) (bool, []string) { return true, []string{fmt.Sprintf("%d requests", c.N)} },
			Check:    checkScaleOut,
		})
	case "C09":
		hx.Run(t, hx.Part[scalePile]{
			Property: property, Name: "pile",
			Rule:   "a case is 3 to 300 connections of one charge point open at the same time, closed in random order; always non-trivial",
			Budget: hx.Budget{Quick: 24, Thorough: 200, QuickSecs: 20, ThoroughSecs: 200}, HangSecs: 200,
			Draw: func(rt *rapid.T) scalePile {
				return scalePile{rapid.SampledFrom([]int{3, 9, 17, 33, 65, 129, 300}).Draw(rt, "n"), rapid.Int64().Draw(rt, "order"), rapid.Bool().Draw(rt, "abort")}
			},
			Classify: func(c scalePile) (bool, []string) { return true, []string{fmt.Sprintf("%d connections", c.N)} },
			Check:    checkScalePile,
		})
	case "C10":
		hx.Run(t, scaleFleetPart())
	case "C13":
		hx.Run(t, hx.Part[scaleSoap]{
			Property: property, Name: "multitude",
			Rule:   "a case is 100 to 1300 SOAP calls whose handlers run at the same time; always non-trivial",
			Budget: hx.Budget{Quick: 24, Thorough: 200, QuickSecs: 20, ThoroughSecs: 200}, HangSecs: 200,
			Draw: func(rt *rapid.T) scaleSoap {
				return scaleSoap{rapid.Bool().Draw(rt, "fromCP"), rapid.SampledFrom([]int{101, 129, 257, 513, 1025, 1300}).Draw(rt, "n")}
			},
			Classify: func(c scaleSoap) (bool, []string) { return true, []string{fmt.Sprintf("%d calls", c.N)} },
			Check:    checkScaleSoap,
		})
	}
}
