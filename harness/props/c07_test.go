package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// one thing that happens on the connection while requests are outstanding
type c07Op struct {
	Op string `json:"op"` // start, answer, again, unknown, halved, call, foreign
	// start: these requests begin at once
	Reqs []gen.Msg `json:"reqs,omitempty"`
	// the outstanding or answered request meant, an index in the order of starting
	I int `json:"i,omitempty"`
	// answer, again, unknown, foreign
	Kind   string   `json:"kind,omitempty"` // result, error, faulty
	Result *gen.Msg `json:"result,omitempty"`
	Raw    string   `json:"raw,omitempty"`   // payload of faulty, frame of halved
	Code   string   `json:"code,omitempty"`  // error
	Desc   string   `json:"desc,omitempty"`  // error
	Extra  string   `json:"extra,omitempty"` // error details
}

type c07Case struct {
	AtCS bool    `json:"atCS"`
	Ops  []c07Op `json:"ops"`
}

var errorCodes = []string{"NotImplemented", "NotSupported", "InternalError", "ProtocolError", "SecurityError", "FormationViolation",
	"PropertyConstraintViolation", "OccurenceConstraintViolation", "TypeConstraintViolation", "GenericError"}

func drawAnswer(rt *rapid.T, op *c07Op, reqType string) {
	k, _ := spec.ByType(reqType)
	op.Kind = rapid.SampledFrom([]string{"result", "result", "result", "error", "error", "faulty"}).Draw(rt, "answer kind")
	switch op.Kind {
	case "result":
		m := gen.Draw(rt, k.Resp.String(), gen.Opts{Legal: true})
		op.Result = &m
	case "faulty":
		m := gen.Draw(rt, k.Resp.String(), gen.Opts{Legal: true})
		v, fault := inject(rt, k.JSONResp, gen.ToJSON(m))
		if fault == "" {
			op.Kind, op.Result = "result", &m
			return
		}
		op.Raw = gen.WriteJSON(rt, v)
	case "error":
		op.Code = rapid.SampledFrom(errorCodes).Draw(rt, "code")
		op.Desc = gen.Text(rt, "description", false, 0, false)
		op.Extra = rapid.SampledFrom([]string{"{}", "{}", `{"a":1}`, `{"cause":"x y","n":[1,null]}`}).Draw(rt, "details")
	}
}

func drawC07(rt *rapid.T) c07Case {
	c := c07Case{AtCS: rapid.Bool().Draw(rt, "atCS")}
	kinds := sentBy(c.AtCS)
	var types []string   // of all requests, in order
	var open, done []int // indices
	n := rapid.IntRange(1, 16).Draw(rt, "ops")
	// few kinds at a time, so that requests of the same action are outstanding together
	sub := rapid.SliceOfN(rapid.SampledFrom(kinds), 1, 4).Draw(rt, "kinds")
	answer := func() {
		i := rapid.IntRange(0, len(open)-1).Draw(rt, "which")
		op := c07Op{Op: "answer", I: open[i]}
		drawAnswer(rt, &op, types[open[i]])
		done = append(done, open[i])
		open = append(open[:i:i], open[i+1:]...)
		c.Ops = append(c.Ops, op)
	}
	for s := 0; s < n; s++ {
		what := rapid.SampledFrom([]string{"start", "start", "start", "answer", "answer", "again", "unknown", "halved", "call", "foreign"}).Draw(rt, "op")
		if len(open) == 0 && (what == "answer" || what == "halved" || what == "foreign") {
			what = "start"
		}
		if len(done) == 0 && what == "again" {
			what = "start"
		}
		switch what {
		case "start":
			op := c07Op{Op: "start"}
			m := rapid.IntRange(1, 6).Draw(rt, "many")
			if rapid.IntRange(0, 19).Draw(rt, "very many") == 0 {
				m = 40
			}
			for i := 0; i < m; i++ {
				k := rapid.SampledFrom(sub).Draw(rt, "kind")
				op.Reqs = append(op.Reqs, gen.Draw(rt, k.Req.String(), gen.Opts{}))
				open = append(open, len(types))
				types = append(types, k.Req.String())
			}
			c.Ops = append(c.Ops, op)
		case "answer":
			answer()
		case "again":
			op := c07Op{Op: "again", I: rapid.SampledFrom(done).Draw(rt, "which")}
			drawAnswer(rt, &op, types[op.I])
			c.Ops = append(c.Ops, op)
		case "foreign":
			op := c07Op{Op: "foreign", I: rapid.SampledFrom(open).Draw(rt, "which")}
			drawAnswer(rt, &op, types[op.I])
			c.Ops = append(c.Ops, op)
		case "unknown":
			k := rapid.SampledFrom(sub).Draw(rt, "kind")
			op := c07Op{Op: "unknown"}
			drawAnswer(rt, &op, k.Req.String())
			c.Ops = append(c.Ops, op)
		case "halved":
			c.Ops = append(c.Ops, c07Op{Op: "halved", I: rapid.SampledFrom(open).Draw(rt, "which"), Raw: rapid.SampledFrom([]string{
				`[3,ID]`, `[3,ID,null]`, `[3,ID,[]]`, `[3,ID,"x"]`, `[3,ID,{}`, `[4,ID]`, `[4,ID,"InternalError"]`, `[4,ID,"InternalError","x"]`,
				`[4,ID,"InternalError","x",null]`, `[4,ID,{},"x",{}]`, `[5,ID,{}]`, `[3,{},ID]`, `[null,ID,{}]`, `["3",ID,{}]`}).Draw(rt, "frame")})
		case "call":
			op := c07Op{Op: "call", I: -1}
			if len(open) > 0 && rapid.IntRange(0, 3).Draw(rt, "same id") > 0 {
				op.I = rapid.SampledFrom(open).Draw(rt, "which")
			}
			c.Ops = append(c.Ops, op)
		}
	}
	for len(open) > 0 {
		answer()
	}
	return c
}

func answerFrame(op c07Op, id string) []byte {
	switch op.Kind {
	case "error":
		return errorFrame(id, op.Code, op.Desc, op.Extra)
	case "faulty":
		return resultFrame(id, op.Raw)
	}
	return resultFrame(id, refPayload(*op.Result))
}

type c07Req struct {
	msg  gen.Msg
	id   string // message id, known when the call was seen
	out  chan outcome
	want *c07Op
	got  *outcome
}

func checkC07(c c07Case) (err error) {
	defer func() {
		if err != nil {
			dropSides()
		}
	}()
	s, err := getSide(c.AtCS)
	if err != nil {
		return err
	}
	other, err := getSide(!c.AtCS)
	if err != nil {
		return err
	}
	s.setHandler(func(r messages.Request) (messages.Response, error) { return nil, errors.New("unexpected handler run") })
	other.setHandler(func(r messages.Request) (messages.Response, error) { return nil, errors.New("unexpected handler run") })
	var reqs []*c07Req
	var groups [][]*c07Req
	wire := map[string]bool{}
	pending := func(upto string) error {
		for _, g := range groups {
			answered, returned := 0, 0
			var last *outcome
			for _, r := range g {
				if r.want != nil {
					answered++
				}
				if r.got == nil {
					select {
					case o := <-r.out:
						r.got = &o
					default:
					}
				}
				if r.got != nil {
					returned++
					last = r.got
				}
			}
			if returned > answered {
				return fmt.Errorf("request %s returned (%s, %v) after %s although nothing was answered to it", hx.Quote(g[0].msg), hx.Quote(last.resp), last.err, upto)
			}
		}
		return nil
	}
	for n, op := range c.Ops {
		what := fmt.Sprintf("step %d (%s %s)", n, op.Op, op.Kind)
		switch op.Op {
		case "start":
			first := len(reqs)
			for _, m := range op.Reqs {
				r := &c07Req{msg: m}
				reqs = append(reqs, r)
				r.out = s.start(libReq(m))
			}
			// every request shows up as a call of its own
			for range op.Reqs {
				f, err := s.next("a call")
				if err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				if f.Type != 2 {
					return fmt.Errorf("%s: the library sent %s", what, hx.Quote(f.Raw))
				}
				if wire[f.ID] {
					return fmt.Errorf("%s: a message id is used twice: %s", what, hx.Quote(f.Raw))
				}
				wire[f.ID] = true
				found := false
				for _, r := range reqs[first:] {
					k, _ := spec.ByType(r.msg.T)
					if r.id == "" && k.Action == f.Action && gen.SameJSON(r.msg, f.Payload) == nil {
						r.id, found = f.ID, true
						known := false
						for i, g := range groups {
							if g[0].msg.T == r.msg.T && gen.SameJSON(g[0].msg, f.Payload) == nil {
								groups[i], known = append(g, r), true
								break
							}
						}
						if !known {
							groups = append(groups, []*c07Req{r})
						}
						break
					}
				}
				if !found {
					return fmt.Errorf("%s: nobody sent the call %s", what, hx.Quote(f.Raw))
				}
			}
		case "answer":
			r := reqs[op.I]
			if err := s.raw.Send(answerFrame(op, r.id)); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			op := op
			r.want = &op
		case "again":
			if err := s.raw.Send(answerFrame(op, reqs[op.I].id)); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		case "foreign":
			if err := other.raw.Send(answerFrame(op, reqs[op.I].id)); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := other.barrier(nil); err != nil {
				return fmt.Errorf("%s: on the other connection: %w", what, err)
			}
			if err := pending(what); err != nil {
				return err
			}
		case "unknown":
			if err := s.raw.Send(answerFrame(op, "unknown-"+wireID())); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		case "halved":
			id, _ := json.Marshal(reqs[op.I].id)
			if err := s.raw.Send([]byte(replaceID(op.Raw, string(id)))); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		case "call":
			id := "call-" + wireID()
			if op.I >= 0 {
				id = reqs[op.I].id
			}
			if err := s.raw.Send(s.barrierFrame(id)); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			f, err := s.next("the answer to a well-formed call")
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if f.Type != 3 || f.ID != id {
				return fmt.Errorf("%s: the call with id %q was answered with %s", what, id, hx.Quote(f.Raw))
			}
			if err := pending(what); err != nil {
				return err
			}
		}
	}
	if err := s.barrier(nil); err != nil {
		return err
	}
	// identical requests cannot be told apart: any of them may have got any of the answers
	for _, g := range groups {
		why := map[[2]int]error{}
		fits := make([][]int, len(g))
		for i, r := range g {
			if r.got == nil {
				o, err := hx.Recv(r.out, "the return of an answered request")
				if err != nil {
					return fmt.Errorf("%s: %w", hx.Quote(r.msg), err)
				}
				r.got = &o
			}
			for j, w := range g {
				if e := outcomeIs(w, *r.got); e == nil {
					fits[i] = append(fits[i], j)
				} else {
					why[[2]int{i, j}] = e
				}
			}
		}
		owner := map[int]int{}
		for i := range g {
			if !assign(i, fits, owner, map[int]bool{}) {
				if e := why[[2]int{i, i}]; e != nil {
					return e
				}
				return fmt.Errorf("identical requests %s did not get the answers addressed to them", hx.Quote(g[0].msg))
			}
		}
	}
	return nil
}

// assign finds partners in a bipartite graph.
func assign(i int, fits [][]int, owner map[int]int, tried map[int]bool) bool {
	for _, j := range fits[i] {
		if tried[j] {
			continue
		}
		tried[j] = true
		o, taken := owner[j]
		if !taken || assign(o, fits, owner, tried) {
			owner[j] = i
			return true
		}
	}
	return false
}

type c07Storm struct {
	Points  int `json:"points"`
	Callers int `json:"callers"` // per point and direction
	Each    int `json:"each"`    // requests per caller
}

func checkC07Storm(c c07Storm) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	var points []*fx.Point
	defer func() {
		for _, p := range points {
			p.Cancel()
			sys.Handle(p.ID, nil)
		}
	}()
	var svcs []func(messages.Request) (messages.Response, error)
	for i := 0; i < c.Points; i++ {
		id := fx.ID()
		sys.Handle(id, func(r cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			a, ok := r.(*cpreq.Authorize)
			if !ok || m.ChargePointID != id {
				return nil, errors.New("mixed up")
			}
			if contains(a.IdTag, "fail") {
				return nil, errors.New("failed " + a.IdTag)
			}
			return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: id + a.IdTag}}, nil
		})
		p, err := sys.Connect(id, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			g, ok := r.(*csreq.GetConfiguration)
			if !ok || len(g.Key) != 1 {
				return nil, errors.New("mixed up")
			}
			if contains(g.Key[0], "fail") {
				return nil, errors.New("failed " + g.Key[0])
			}
			return &csresp.GetConfiguration{UnknownKey: []string{id + g.Key[0]}}, nil
		})
		if err != nil {
			return err
		}
		points = append(points, p)
		svc, err := sys.Sys.GetServiceOf(id, ocpp.V16, "")
		if err != nil {
			return err
		}
		svcs = append(svcs, func(r messages.Request) (messages.Response, error) { return svc.Send(r.(csreq.CentralSystemRequest)) })
	}
	errs := make(chan error, 2*c.Points*c.Callers)
	caller := func(id string, n int, toCS bool, send func(tag string) (string, error)) {
		for j := 0; j < c.Each; j++ {
			tag := fmt.Sprintf("-%v-%d-%d", toCS, n, j)
			fail := (n+j)%3 == 0
			if fail {
				tag += "fail"
			}
			got, err := send(tag)
			switch {
			case fail && (err == nil || !contains(err.Error(), "failed "+tag) || !contains(err.Error(), "InternalError")):
				errs <- fmt.Errorf("request %q of %q must fail with its error, Send returned (%q, %v)", tag, id, got, err)
				return
			case !fail && (err != nil || got != id+tag):
				errs <- fmt.Errorf("request %q of %q got the answer %q, %v", tag, id, got, err)
				return
			}
		}
		errs <- nil
	}
	start := time.Now()
	for i := range points {
		p, svc := points[i], svcs[i]
		for n := 0; n < c.Callers; n++ {
			go caller(p.ID, n, true, func(tag string) (string, error) {
				resp, err := p.CP.Send(&cpreq.Authorize{IdTag: tag})
				if err != nil {
					return "", err
				}
				a, ok := resp.(*cpresp.Authorize)
				if !ok || a == nil || a.IdTagInfo == nil {
					return "", fmt.Errorf("Authorize was answered with %T %s", resp, hx.Quote(resp))
				}
				return a.IdTagInfo.ParentIdTag, nil
			})
			go caller(p.ID, n, false, func(tag string) (string, error) {
				resp, err := svc(&csreq.GetConfiguration{Key: []string{tag}})
				if err != nil {
					return "", err
				}
				g, ok := resp.(*csresp.GetConfiguration)
				if !ok || g == nil || len(g.UnknownKey) != 1 {
					return "", fmt.Errorf("GetConfiguration was answered with %T %s", resp, hx.Quote(resp))
				}
				return g.UnknownKey[0], nil
			})
		}
	}
	for i := 0; i < 2*c.Points*c.Callers; i++ {
		select {
		case err := <-errs:
			if err != nil {
				return err
			}
		case <-time.After(100 * time.Second):
			return hx.Late(start, "the end of a storm of requests")
		}
	}
	hx.Note("requests", int64(2*c.Points*c.Callers*c.Each))
	return nil
}

func replaceID(s, id string) string {
	for i := 0; i+2 <= len(s); i++ {
		if s[i:i+2] == "ID" {
			return s[:i] + id + s[i+2:]
		}
	}
	return s
}

// outcomeIs judges what Send returned against the answer.
func outcomeIs(r *c07Req, o outcome) error {
	op := r.want
	what := fmt.Sprintf("request %s was answered with %s", hx.Quote(r.msg), hx.Quote(op))
	switch op.Kind {
	case "result":
		if o.err != nil {
			return fmt.Errorf("%s but failed with %v", what, o.err)
		}
		if absent(o.resp) {
			return fmt.Errorf("%s but Send returned no response", what)
		}
		if got := reflect.TypeOf(o.resp).Elem().String(); got != op.Result.T {
			return fmt.Errorf("%s but Send returned a %s", what, got)
		}
		if err := gen.Same(*op.Result, o.resp); err != nil {
			return fmt.Errorf("%s but Send returned something else: %v", what, err)
		}
	case "error":
		if o.err == nil {
			return fmt.Errorf("%s but Send returned %s", what, hx.Quote(o.resp))
		}
		if t := o.err.Error(); !contains(t, op.Code) || !contains(t, op.Desc) {
			return fmt.Errorf("%s but the error of Send is %q", what, t)
		}
	case "faulty":
		if o.err == nil {
			return fmt.Errorf("%s but Send returned %s", what, hx.Quote(o.resp))
		}
	}
	return nil
}

func TestC07(t *testing.T) {
	hx.Run(t, hx.Part[c07Case]{
		Property: "C07", Name: "outstanding",
		Rule:   "a case is a history on one connection: groups of requests (of one to four actions) started at once by concurrent callers, answered in any order with results, errors or faulty results, with repeated and unsolicited answers, malformed answers, answers on another connection, and incoming calls (also with the id of an outstanding request) in between; non-trivial if at least two requests are outstanding together",
		Budget: hx.Budget{Quick: 4000, Thorough: 150000, QuickSecs: 60, ThoroughSecs: 900},
		Draw:   drawC07,
		Classify: func(c c07Case) (bool, []string) {
			cl := []string{fmt.Sprintf("atCS=%v", c.AtCS)}
			open, most := 0, 0
			for _, op := range c.Ops {
				open += len(op.Reqs)
				if open > most {
					most = open
				}
				if op.Op == "answer" {
					open--
				}
				cl = append(cl, op.Op)
				if op.Op == "call" && op.I >= 0 {
					cl = append(cl, "call with the id of an outstanding request")
				}
				if op.Kind != "" {
					cl = append(cl, "answer "+op.Kind)
				}
			}
			cl = append(cl, fmt.Sprintf("outstanding>=%d", most/4*4))
			return most > 1, cl
		},
		Check: checkC07,
	})
	hx.Run(t, hx.Part[c07Storm]{
		Property: "C07", Name: "storm",
		Rule:   "a case is a number of concurrent callers on both endpoints of a connection between a library central system and library charge points, each sending many tagged DataTransfer or ChangeConfiguration/other requests back to back; every answer must carry the tag of its request; non-trivial with at least two callers",
		Budget: hx.Budget{Quick: 60, Thorough: 2000, QuickSecs: 25, ThoroughSecs: 400},
		Draw: func(rt *rapid.T) c07Storm {
			return c07Storm{
				Points:  rapid.IntRange(1, 4).Draw(rt, "points"),
				Callers: rapid.IntRange(1, 8).Draw(rt, "callers"),
				Each:    rapid.IntRange(1, 30).Draw(rt, "each"),
			}
		},
		Classify: func(c c07Storm) (bool, []string) {
			return c.Callers > 1, []string{fmt.Sprintf("points=%d", c.Points)}
		},
		Check: checkC07Storm,
	})
	scaleParts(t, "C07")
}
