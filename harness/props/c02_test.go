package props

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp/cpstatus"
	"github.com/voltbras/go-ocpp/messages"

	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

type c02Item struct {
	exchange
	AsResp bool   `json:"asResp"`         // the library answers with Resp; otherwise it sends Req
	Drop   string `json:"drop,omitempty"` // path of a required nested object left out
	Code   string `json:"code,omitempty"` // the error code of a StatusNotification is given by this name
}

// c02Codes are the error codes that the library names; the names are those of OCPP.
var c02Codes = map[string]cpstatus.ErrorCode{
	"ConnectorLockFailure": cpstatus.ConnectorLockFailure, "EVCommunicationError": cpstatus.EVCommunicationError,
	"GroundFailure": cpstatus.GroundFailure, "HighTemperature": cpstatus.HighTemperature,
	"InternalError": cpstatus.InternalError, "LocalListConflict": cpstatus.LocalListConflict,
	"NoError": cpstatus.NoError, "OtherError": cpstatus.OtherError, "OverCurrentFailure": cpstatus.OverCurrentFailure,
	"OverVoltage": cpstatus.OverVoltage, "PowerMeterFailure": cpstatus.PowerMeterFailure,
	"PowerSwitchFailure": cpstatus.PowerSwitchFailure, "ReaderFailure": cpstatus.ReaderFailure,
	"ResetFailure": cpstatus.ResetFailure, "UnderVoltage": cpstatus.UnderVoltage, "WeakSignal": cpstatus.WeakSignal,
}

type c02Case struct {
	List []c02Item `json:"list"`
}

// requiredObjects lists the required nested objects present in a message, by Go path.
func requiredObjects(s *spec.Shape, v map[string]interface{}, path string) (out []string) {
	for _, f := range s.Fields {
		x, ok := v[f.Go]
		if !ok {
			continue
		}
		if o, ok := x.(map[string]interface{}); ok {
			if f.Required {
				out = append(out, path+f.Go)
			}
			out = append(out, requiredObjects(f.Shape, o, path+f.Go+".")...)
		}
	}
	return
}

func dropPath(v map[string]interface{}, path string) map[string]interface{} {
	out := map[string]interface{}{}
	for k, e := range v {
		out[k] = e
	}
	for i := 0; i < len(path); i++ {
		if path[i] == '.' {
			out[path[:i]] = dropPath(out[path[:i]].(map[string]interface{}), path[i+1:])
			return out
		}
	}
	delete(out, path)
	return out
}

func checkC02(c c02Case) (err error) {
	defer func() {
		if err != nil {
			dropSides()
		}
	}()
	for i, it := range c.List {
		if err := checkC02Item(it); err != nil {
			return fmt.Errorf("message %d: %w", i, err)
		}
	}
	return nil
}

func checkC02Item(it c02Item) error {
	req, resp := it.Req, it.Resp
	if it.Code != "" {
		v := map[string]interface{}{}
		for k, e := range req.V {
			v[k] = e
		}
		v["ErrorCode"] = string(c02Codes[it.Code])
		for name, code := range c02Codes {
			if string(code) != name {
				return fmt.Errorf("the error code %s is called %q", name, code)
			}
		}
		req = gen.Msg{T: req.T, V: v}
	}
	if it.Drop != "" {
		if it.AsResp {
			resp = gen.Msg{T: resp.T, V: dropPath(resp.V, it.Drop)}
		} else {
			req = gen.Msg{T: req.T, V: dropPath(req.V, it.Drop)}
		}
	}
	if it.AsResp { // the library is the receiver of the call
		s, err := getSide(it.FromCP)
		if err != nil {
			return err
		}
		s.setHandler(func(messages.Request) (messages.Response, error) { return libResp(resp), nil })
		id := wireID()
		if err := s.raw.Send(callFrame(id, it.Action, refPayload(req))); err != nil {
			return fmt.Errorf("sending a call: %v", err)
		}
		if it.Drop != "" {
			// whatever is sent, it must not be a result
			var f *frame
			return s.barrier2(func(x *frame) bool { f = x; return x.Type == 4 && x.ID == id }, func() error {
				if f != nil && f.Type == 3 {
					return fmt.Errorf("%s without the required %s was sent: %s", resp.T, it.Drop, hx.Quote(f.Raw))
				}
				return nil
			})
		}
		f, err := s.next("the answer to " + it.Action)
		if err != nil {
			return err
		}
		if f.Type != 3 || f.ID != id {
			return fmt.Errorf("%s (%s) was answered with %s", it.Action, hx.Quote(refPayload(req)), hx.Quote(f.Raw))
		}
		return conforms(resp, f)
	}
	s, err := getSide(!it.FromCP)
	if err != nil {
		return err
	}
	done := s.start(libReq(req))
	if it.Drop != "" {
		o, err := hx.Recv(done, "the error of an incomplete "+it.Action)
		if err != nil {
			// was it sent?
			select {
			case f := <-s.raw.Frames:
				return fmt.Errorf("%s without the required %s was sent: %s", req.T, it.Drop, hx.Quote(f.Data))
			default:
			}
			return err
		}
		if err := s.barrier(nil); err != nil {
			return fmt.Errorf("after refusing %s without %s: %v", req.T, it.Drop, err)
		}
		if o.err == nil {
			return fmt.Errorf("%s without the required %s was not refused", req.T, it.Drop)
		}
		return nil
	}
	var f *frame
	ch := make(chan error, 1)
	go func() {
		var e error
		f, e = s.next("the call " + it.Action)
		ch <- e
	}()
	select {
	case err := <-ch:
		if err != nil {
			return err
		}
	case o := <-done:
		if o.err != nil {
			return fmt.Errorf("a complete %s was refused: %v", it.Action, o.err)
		}
		return fmt.Errorf("%s returned without an answer", it.Action)
	}
	if f.Type != 2 || f.Action != it.Action {
		return fmt.Errorf("%s was sent as %s", it.Action, hx.Quote(f.Raw))
	}
	if err := conforms(req, f); err != nil {
		return err
	}
	if err := s.raw.Send(resultFrame(f.ID, refPayload(resp))); err != nil {
		return err
	}
	o, err := hx.Recv(done, "the return of Send")
	if err != nil {
		return err
	}
	if o.err != nil {
		return fmt.Errorf("%s: a valid response %s was refused: %v", it.Action, hx.Quote(refPayload(resp)), o.err)
	}
	return nil
}

// barrier2 is a barrier whose unexpected frames are explained by why.
func (s *side) barrier2(also func(*frame) bool, why func() error) error {
	err := s.barrier(also)
	if e := why(); e != nil {
		return e
	}
	return err
}

func conforms(m gen.Msg, f *frame) error {
	if err := gen.ValidateJSON(gen.Opts{}.Shape(m.T), f.Payload, m.T); err != nil {
		return fmt.Errorf("the payload violates the schema: %v (%s)", err, hx.Quote(f.Raw))
	}
	if err := gen.SameJSON(m, f.Payload); err != nil {
		return fmt.Errorf("the payload is not what was sent: %v (%s)", err, hx.Quote(f.Raw))
	}
	return nil
}

func TestC02(t *testing.T) {
	reqKinds := richKinds(spec.Kinds) // DataTransfer can be sent, though not received
	respKinds := richKinds(jsonKinds)
	hx.Run(t, hx.Part[c02Case]{
		Property: "C02", Name: "emitted",
		Rule:   "a case is 1-4 messages with schema-legal field values (optional ones present or empty), sent by a library endpoint as request or as response and captured by a raw websocket peer; sometimes a required nested object is left out; non-trivial if some message has a field",
		Budget: hx.Budget{Quick: 8000, Thorough: 200000, QuickSecs: 60},
		Draw: func(rt *rapid.T) c02Case {
			o := gen.Opts{Legal: true}
			return c02Case{rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) c02Item {
				it := c02Item{AsResp: rapid.Bool().Draw(rt, "asResp")}
				ks := reqKinds
				if it.AsResp {
					ks = respKinds
				}
				it.exchange = drawExchange(rt, ks, o)
				m := it.Req
				if it.AsResp {
					m = it.Resp
				} else if _, ok := m.V["ErrorCode"]; ok && rapid.Bool().Draw(rt, "named") {
					it.Code = rapid.SampledFrom(hx.SortedKeys(c02Codes)).Draw(rt, "code")
				}
				if rapid.IntRange(0, 4).Draw(rt, "drop") == 0 {
					if ps := requiredObjects(o.Shape(m.T), m.V, ""); len(ps) > 0 {
						it.Drop = rapid.SampledFrom(ps).Draw(rt, "dropped")
					}
				}
				return it
			}), 1, 4).Draw(rt, "list")}
		},
		Classify: func(c c02Case) (bool, []string) {
			nt := false
			var cl []string
			for _, it := range c.List {
				m := it.Req
				if it.AsResp {
					m = it.Resp
				}
				nt = nt || len(m.V) > 0
				cl = append(cl, m.T)
				if it.Code != "" {
					cl = append(cl, "named "+it.Code)
				}
				if it.Drop != "" {
					cl = append(cl, "incomplete")
				}
			}
			return nt, cl
		},
		Check: checkC02,
	})
}
