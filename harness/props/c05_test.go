package props

import (
	"errors"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// steps of a conversation with a library endpoint
type c05Step struct {
	Op      string   `json:"op"` // ok, fail, unencodable, unknown, faulty, out
	ID      string   `json:"id,omitempty"`
	Action  string   `json:"action,omitempty"`
	Type    string   `json:"type,omitempty"`
	Payload string   `json:"payload,omitempty"`
	Resp    *gen.Msg `json:"resp,omitempty"`
	Err     string   `json:"err,omitempty"`
	Out     *gen.Msg `json:"out,omitempty"`
}

type c05Case struct {
	AtCS     bool      `json:"atCS"`
	Pipeline bool      `json:"pipeline"` // all calls are sent before any answer is read
	Steps    []c05Step `json:"steps"`
}

// kinds an endpoint receives
func receivedBy(atCS bool) []*spec.Kind {
	if atCS {
		return jsonFromCP
	}
	return jsonFromCS
}

func sentBy(atCS bool) []*spec.Kind {
	return spec.Filter(func(k *spec.Kind) bool { return k.FromCP != atCS })
}

func isKnownAction(a string) bool {
	for _, k := range spec.Kinds {
		if k.Action == a {
			return true
		}
	}
	return false
}

func drawActionName(rt *rapid.T) string {
	real := rapid.SampledFrom(spec.Kinds).Draw(rt, "near").Action
	var a string
	switch rapid.IntRange(0, 5).Draw(rt, "name class") {
	case 0:
		a = spec.LowerFirst(real)
	case 1:
		a = real + rapid.SampledFrom([]string{" ", "s", "Request", "Response", ".req", "\u0000", "2"}).Draw(rt, "suffix")
	case 2:
		a = rapid.SampledFrom([]string{"", " ", "null", "2", "Foo", "authorizeRequest", "DATATRANSFER", "SignedFirmwareStatusNotification", "SecurityEventNotification", "GetLog", "日本", "\"", "%s%d"}).Draw(rt, "name")
	case 3:
		a = real[:len(real)-1]
	case 4:
		a = " " + real
	default:
		a = gen.Text(rt, "action", false, 0, false)
	}
	if isKnownAction(a) {
		a += "X"
	}
	return a
}

func drawID(rt *rapid.T, used []string) string {
	switch rapid.IntRange(0, 9).Draw(rt, "id class") {
	case 0:
		if len(used) > 0 {
			return rapid.SampledFrom(used).Draw(rt, "old id")
		}
	case 1:
		return rapid.SampledFrom([]string{"0", "null", "true", "\"", "a b", "é", "\\", "%s%n", "<&>", "19223201", "00000000-0000-0000-0000-000000000000", "x\ny", "\u2028"}).Draw(rt, "id")
	}
	return rapid.StringMatching(`[a-zA-Z0-9-]{1,36}`).Draw(rt, "id")
}

func drawC05Step(rt *rapid.T, atCS bool, used []string) c05Step {
	o := gen.Opts{}
	op := rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "fail", "fail", "unencodable", "unknown", "faulty", "faulty", "out"}).Draw(rt, "op")
	st := c05Step{Op: op}
	if op == "out" {
		m := gen.Draw(rt, rapid.SampledFrom(sentBy(atCS)).Draw(rt, "kind").Req.String(), o)
		st.Out = &m
		return st
	}
	st.ID = drawID(rt, used)
	k := rapid.SampledFrom(receivedBy(atCS)).Draw(rt, "kind")
	if op == "unencodable" {
		k = rapid.SampledFrom(unencodable(atCS)).Draw(rt, "kind")
	}
	st.Action, st.Type = k.Action, k.Req.String()
	req := gen.Draw(rt, st.Type, gen.Opts{Legal: true})
	if op == "faulty" {
		p, fault := inject(rt, k.JSONReq, gen.ToJSON(req))
		if fault == "" {
			st.Op = "ok"
		}
		st.Payload = gen.WriteJSON(rt, p)
	} else {
		st.Payload = gen.WriteJSON(rt, gen.ToJSON(req))
	}
	switch st.Op {
	case "unknown":
		st.Action = drawActionName(rt)
		if rapid.Bool().Draw(rt, "empty payload") {
			st.Payload = rapid.SampledFrom([]string{"{}", `{"a":1}`, `{"a":{"b":[null]}}`}).Draw(rt, "payload")
		}
	case "ok":
		m := gen.Draw(rt, k.Resp.String(), o)
		st.Resp = &m
	case "fail":
		st.Err = gen.Text(rt, "error text", false, 0, false)
	}
	return st
}

// unencodable kinds: those with a response that can be impossible to encode
func unencodable(atCS bool) []*spec.Kind {
	return spec.Filter(func(k *spec.Kind) bool {
		if atCS {
			return k.FromCP && (k.Action == "Authorize" || k.Action == "StartTransaction")
		}
		return !k.FromCP && k.Action == "GetCompositeSchedule"
	})
}

func badResponse(k *spec.Kind) messages.Response {
	if k.Action == "GetCompositeSchedule" {
		var zero float64
		return &csresp.GetCompositeSchedule{Status: "Accepted", ChargingSchedule: &csresp.ChargingSchedule{
			ChargingRateUnit: "A", MinChargingRate: zero / zero, ChargingSchedulePeriod: []*csresp.ChargingSchedulePeriodItems{{Limit: 1 / zero}}}}
	}
	return libResp(gen.Msg{T: k.Resp.String(), V: map[string]interface{}{}}) // required idTagInfo left out
}

func checkC05(c c05Case) (err error) {
	defer func() {
		if err != nil {
			dropSides()
		}
	}()
	s, err := getSide(c.AtCS)
	if err != nil {
		return err
	}
	// the handler's script: one entry per expected handler run, in order
	type run struct {
		want gen.Msg
		resp messages.Response
		err  error
	}
	var script []run
	var expect []c05Step
	for _, st := range c.Steps {
		switch st.Op {
		case "out":
			continue
		case "ok", "fail", "unencodable":
			v, err := gen.ParseJSON([]byte(st.Payload))
			if err != nil {
				return hx.Harness("%v", err)
			}
			r := run{want: gen.FromJSON(st.Type, v)}
			switch st.Op {
			case "ok":
				r.resp = libResp(*st.Resp)
			case "fail":
				r.err = errors.New(st.Err)
			case "unencodable":
				k, _ := spec.ByType(st.Type)
				r.resp = badResponse(k)
			}
			script = append(script, r)
		}
		expect = append(expect, st)
	}
	n := 0
	s.setHandler(func(r messages.Request) (messages.Response, error) {
		if n >= len(script) {
			n++
			return nil, errors.New("unexpected call of the handler")
		}
		e := script[n]
		n++
		return e.resp, e.err
	})
	outs := map[string][]chan outcome{} // by action
	nOut := 0
	seenOut := 0
	next := 0 // answers checked so far
	// readOne handles one message of the library
	readOne := func() error {
		f, err := s.next("an answer")
		if err != nil {
			if next < len(expect) {
				return fmt.Errorf("answer to call %d (%s %s): %w", next, expect[next].Op, expect[next].Action, err)
			}
			return err
		}
		if f.Type == 2 {
			seenOut++
			if seenOut > nOut {
				return fmt.Errorf("unexpected call %s", hx.Quote(f.Raw))
			}
			k := kindOf(f.Action, !c.AtCS)
			if k == nil {
				return fmt.Errorf("unexpected call %s", hx.Quote(f.Raw))
			}
			return s.raw.Send(resultFrame(f.ID, refPayload(minimal(k.Resp.String()))))
		}
		if next >= len(expect) {
			return fmt.Errorf("an answer nobody asked for: %s", hx.Quote(f.Raw))
		}
		st := expect[next]
		next++
		what := fmt.Sprintf("call %d (%s, id %q, %s %s)", next-1, st.Op, st.ID, st.Action, hx.Quote(st.Payload))
		if f.ID != st.ID {
			return fmt.Errorf("%s: the next answer is %s", what, hx.Quote(f.Raw))
		}
		switch st.Op {
		case "ok":
			if f.Type != 3 {
				return fmt.Errorf("%s was answered with %s", what, hx.Quote(f.Raw))
			}
			if err := gen.SameJSON(*st.Resp, f.Payload); err != nil {
				return fmt.Errorf("%s: the result is not the handler's response: %v", what, err)
			}
		case "fail":
			if f.Type != 4 || f.Code != "InternalError" || f.Desc != st.Err {
				return fmt.Errorf("%s failed with %q and was answered with %s", what, st.Err, hx.Quote(f.Raw))
			}
		case "unencodable":
			if f.Type != 4 || f.Code != "InternalError" {
				return fmt.Errorf("%s was answered with %s", what, hx.Quote(f.Raw))
			}
		case "unknown":
			if f.Type != 4 || f.Code != "NotSupported" {
				return fmt.Errorf("%s was answered with %s", what, hx.Quote(f.Raw))
			}
		case "faulty":
			if f.Type != 4 || f.Code != "FormationViolation" {
				return fmt.Errorf("%s was answered with %s", what, hx.Quote(f.Raw))
			}
		}
		return nil
	}
	var waits []chan outcome
	for _, st := range c.Steps {
		if st.Op == "out" {
			nOut++
			waits = append(waits, s.start(libReq(*st.Out)))
			continue
		}
		if err := s.raw.Send(callFrame(st.ID, st.Action, st.Payload)); err != nil {
			return fmt.Errorf("a call could not be sent: %v", err)
		}
		for sofar := next; !c.Pipeline && next == sofar; {
			if err := readOne(); err != nil {
				return err
			}
		}
	}
	for next < len(expect) || seenOut < nOut {
		if err := readOne(); err != nil {
			return err
		}
	}
	_ = outs
	if err := s.barrier(nil); err != nil {
		return err
	}
	for i, w := range waits {
		o, err := hx.Recv(w, "the return of an own request")
		if err != nil {
			return err
		}
		if o.err != nil {
			return fmt.Errorf("own request %d failed: %v", i, o.err)
		}
	}
	got := s.taken()
	if len(got) != len(script) {
		return fmt.Errorf("the handler ran %d times instead of %d", len(got), len(script))
	}
	for i, r := range script {
		if err := gen.Same(r.want, got[i]); err != nil {
			return fmt.Errorf("handler run %d: %v", i, err)
		}
	}
	return nil
}

func kindOf(action string, fromCP bool) *spec.Kind {
	for _, k := range spec.Kinds {
		if k.Action == action && k.FromCP == fromCP {
			return k
		}
	}
	return nil
}

func TestC05(t *testing.T) {
	hx.Run(t, hx.Part[c05Case]{
		Property: "C05", Name: "answers",
		Rule:   "a case is a history of 1-14 calls by a raw peer to one library endpoint (handler succeeds, fails, returns something unencodable; unknown actions; schema faults; odd and repeated message ids), pipelined or not, with own requests of the endpoint in between; non-trivial if it has at least two steps",
		Budget: hx.Budget{Quick: 6000, Thorough: 150000, QuickSecs: 60},
		Draw: func(rt *rapid.T) c05Case {
			c := c05Case{AtCS: rapid.Bool().Draw(rt, "atCS"), Pipeline: rapid.Bool().Draw(rt, "pipeline")}
			n := rapid.IntRange(1, 14).Draw(rt, "steps")
			var used []string
			for i := 0; i < n; i++ {
				st := drawC05Step(rt, c.AtCS, used)
				if st.ID != "" {
					used = append(used, st.ID)
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		},
		Classify: func(c c05Case) (bool, []string) {
			cl := []string{fmt.Sprintf("atCS=%v", c.AtCS)}
			if c.Pipeline {
				cl = append(cl, "pipelined")
			}
			for _, s := range c.Steps {
				cl = append(cl, s.Op)
			}
			return len(c.Steps) > 1, cl
		},
		Check: checkC05,
	})
	scaleParts(t, "C05")
}
