package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp/messages"

	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

type c03Item struct {
	Action  string `json:"action"`
	FromCP  bool   `json:"fromCP"`
	AsResp  bool   `json:"asResp"` // the payload is a result for a request the library sent
	Type    string `json:"type"`
	Payload string `json:"payload"`
	Fault   string `json:"fault,omitempty"` // what is wrong with the payload, "" if nothing
}

type c03Case struct {
	List []c03Item `json:"list"`
}

// place is somewhere in a payload where a fault can be injected.
type place struct {
	path []interface{} // keys (string) and indexes (int)
	f    *spec.Field
	top  bool
}

func places(s *spec.Shape, v interface{}, path []interface{}, out *[]place) {
	cp := func(e interface{}) []interface{} { return append(append([]interface{}{}, path...), e) }
	switch s.Kind {
	case spec.Object:
		m := v.(map[string]interface{})
		ks := make([]string, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			f := s.FieldByWire(k)
			*out = append(*out, place{cp(k), f, len(path) == 0})
			places(f.Shape, m[k], cp(k), out)
		}
	case spec.List:
		for i, e := range v.([]interface{}) {
			if i < 3 {
				places(s.Elem, e, cp(i), out)
			}
		}
	}
}

// edit returns a copy of v with the value at path replaced (or removed, if by is nil).
func edit(v interface{}, path []interface{}, by func(interface{}) (interface{}, bool)) interface{} {
	if len(path) == 0 {
		x, _ := by(v)
		return x
	}
	switch x := v.(type) {
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range x {
			out[k] = e
		}
		k := path[0].(string)
		if len(path) == 1 {
			if nv, keep := by(x[k]); keep {
				out[k] = nv
			} else {
				delete(out, k)
			}
			return out
		}
		out[k] = edit(x[k], path[1:], by)
		return out
	case []interface{}:
		out := append([]interface{}{}, x...)
		i := path[0].(int)
		out[i] = edit(x[i], path[1:], by)
		return out
	}
	panic("edit")
}

func wrongValue(rt *rapid.T, s *spec.Shape) interface{} {
	str := []interface{}{"", "x", "0", "true", "2020-01-01T00:00:00Z"}
	num := []interface{}{json.Number("0"), json.Number("1"), json.Number("-7"), json.Number("1.5"), json.Number("1577836800")}
	boo := []interface{}{true, false}
	arr := []interface{}{[]interface{}{}, []interface{}{json.Number("1")}, []interface{}{"x"}}
	obj := []interface{}{map[string]interface{}{}, map[string]interface{}{"a": "b"}}
	var pool []interface{}
	add := func(l []interface{}, not ...spec.ShapeKind) {
		for _, k := range not {
			if s.Kind == k {
				return
			}
		}
		pool = append(pool, l...)
	}
	add(str, spec.String, spec.Time)
	add(num, spec.Int, spec.Number)
	add(boo, spec.Bool)
	add(arr, spec.List)
	add(obj, spec.Object)
	return rapid.SampledFrom(pool).Draw(rt, "wrong")
}

// inject makes one fault.
func inject(rt *rapid.T, s *spec.Shape, v map[string]interface{}) (interface{}, string) {
	var ps []place
	places(s, v, nil, &ps)
	switch rapid.IntRange(0, 5).Draw(rt, "fault") {
	case 5: // an item of a list is null or of the wrong type
		var lists []place
		for _, p := range ps {
			if p.f.Shape.Kind == spec.List {
				lists = append(lists, p)
			}
		}
		if len(lists) == 0 {
			break
		}
		p := rapid.SampledFrom(lists).Draw(rt, "place")
		var w interface{}
		if rapid.Bool().Draw(rt, "wrong item") {
			w = wrongValue(rt, p.f.Shape.Elem)
		}
		at := rapid.IntRange(0, 3).Draw(rt, "at")
		return edit(v, p.path, func(x interface{}) (interface{}, bool) {
			l := append([]interface{}{}, x.([]interface{})...)
			if at >= len(l) {
				return append(l, w), true
			}
			l[at] = w
			return l, true
		}), fmt.Sprintf("an item of %v is wrong", p.path)
	case 0, 1: // a required property is missing, or null
		var req []place
		for _, p := range ps {
			if p.f.Required {
				req = append(req, p)
			}
		}
		if len(req) == 0 {
			break
		}
		p := rapid.SampledFrom(req).Draw(rt, "place")
		if rapid.IntRange(0, 3).Draw(rt, "null") == 0 {
			return edit(v, p.path, func(interface{}) (interface{}, bool) { return nil, true }), fmt.Sprintf("required %v is null", p.path)
		}
		return edit(v, p.path, func(interface{}) (interface{}, bool) { return nil, false }), fmt.Sprintf("required %v is missing", p.path)
	case 2: // an undefined property at the top
		names := []string{"foo", "vendor", "_", "", "additionalInfo", "$schema", "idtag", "Status", "STATUS", "connectorid", "timestamp ", "values", "__proto__", "null"}
		for _, f := range s.Fields {
			names = append(names, f.Wire+"s", spec.LowerFirst(f.Go)+"_", f.Go)
		}
		n := rapid.SampledFrom(names).Draw(rt, "name")
		if s.FieldByWire(n) != nil {
			break
		}
		nv := rapid.SampledFrom([]interface{}{"x", json.Number("3"), true, nil, map[string]interface{}{}, []interface{}{}}).Draw(rt, "value")
		out := map[string]interface{}{n: nv}
		for k, e := range v {
			out[k] = e
		}
		return out, fmt.Sprintf("undefined property %q", n)
	default: // a property of the wrong type
		if len(ps) == 0 {
			break
		}
		p := rapid.SampledFrom(ps).Draw(rt, "place")
		w := wrongValue(rt, p.f.Shape)
		return edit(v, p.path, func(interface{}) (interface{}, bool) { return w, true }), fmt.Sprintf("%v has the wrong type", p.path)
	}
	return v, ""
}

func drawC03(rt *rapid.T, callKinds, resultKinds []*spec.Kind) c03Item {
	o := gen.Opts{Legal: rapid.IntRange(0, 3).Draw(rt, "legal") > 0, ZeroOptional: true}
	it := c03Item{AsResp: rapid.Bool().Draw(rt, "asResp")}
	ks := callKinds
	if it.AsResp {
		ks = resultKinds
	}
	k := rapid.SampledFrom(ks).Draw(rt, "kind")
	it.Action, it.FromCP, it.Type = k.Action, k.FromCP, k.Req.String()
	if it.AsResp {
		it.Type = k.Resp.String()
	}
	o.Legal = true
	v := gen.ToJSON(gen.Draw(rt, it.Type, o))
	var p interface{} = v
	if rapid.IntRange(0, 2).Draw(rt, "faulty") > 0 {
		p, it.Fault = inject(rt, o.Shape(it.Type), v)
	}
	it.Payload = gen.WriteJSON(rt, p)
	return it
}

func checkC03(c c03Case) (err error) {
	defer func() {
		if err != nil {
			dropSides()
		}
	}()
	for i, it := range c.List {
		if err := checkC03Item(it); err != nil {
			return fmt.Errorf("payload %d (%s %s): %w", i, it.Type, hx.Quote(it.Payload), err)
		}
	}
	return nil
}

func checkC03Item(it c03Item) error {
	v, err := gen.ParseJSON([]byte(it.Payload))
	if err != nil {
		return hx.Harness("payload: %v", err)
	}
	if it.AsResp {
		s, err := getSide(!it.FromCP)
		if err != nil {
			return err
		}
		k, _ := spec.ByType(it.Type)
		done := s.start(libReq(minimal(k.Req.String())))
		f, err := s.next("the call " + it.Action)
		if err != nil {
			return err
		}
		if f.Type != 2 {
			return fmt.Errorf("expected a call, got %s", hx.Quote(f.Raw))
		}
		if err := s.raw.Send(resultFrame(f.ID, it.Payload)); err != nil {
			return err
		}
		o, err := hx.Recv(done, "the return of Send")
		if err != nil {
			return err
		}
		if it.Fault != "" {
			if o.err == nil {
				return fmt.Errorf("a result with a fault (%s) was accepted as %s", it.Fault, hx.Quote(o.resp))
			}
			return nil
		}
		if o.err != nil {
			return fmt.Errorf("a valid result was refused: %v", o.err)
		}
		return gen.Same(gen.FromJSON(it.Type, v), o.resp)
	}
	s, err := getSide(it.FromCP)
	if err != nil {
		return err
	}
	k, _ := spec.ByType(it.Type)
	resp := libResp(minimal(k.Resp.String()))
	s.setHandler(func(messages.Request) (messages.Response, error) { return resp, nil })
	id := wireID()
	if err := s.raw.Send(callFrame(id, it.Action, it.Payload)); err != nil {
		return err
	}
	f, err := s.next("the answer to " + it.Action)
	if err != nil {
		return err
	}
	if f.ID != id {
		return fmt.Errorf("unexpected message %s", hx.Quote(f.Raw))
	}
	got := s.taken()
	if it.Fault != "" {
		if f.Type != 4 || f.Code != "FormationViolation" {
			return fmt.Errorf("a call with a fault (%s) was answered with %s", it.Fault, hx.Quote(f.Raw))
		}
		if len(got) != 0 {
			return fmt.Errorf("the handler ran for a call with a fault (%s)", it.Fault)
		}
		return nil
	}
	if f.Type != 3 {
		return fmt.Errorf("a valid call was answered with %s", hx.Quote(f.Raw))
	}
	if len(got) != 1 {
		return fmt.Errorf("the handler ran %d times", len(got))
	}
	return gen.Same(gen.FromJSON(it.Type, v), got[0])
}

// minimal is a message with fixed values in the required fields only.
func minimal(typ string) gen.Msg {
	return gen.Msg{T: typ, V: minimalObject(gen.Opts{}.Shape(typ))}
}

func minimalObject(s *spec.Shape) map[string]interface{} {
	out := map[string]interface{}{}
	for _, f := range s.Fields {
		if f.Required && f.Go != "" {
			out[f.Go] = minimalValue(f.Shape)
		}
	}
	return out
}

func minimalValue(s *spec.Shape) interface{} {
	switch s.Kind {
	case spec.String:
		if len(s.Enum) > 0 {
			return s.Enum[0]
		}
		if s.URI {
			return "ftp://x/y"
		}
		return "v"
	case spec.Int:
		return 1
	case spec.Number:
		return 1.0
	case spec.Bool:
		return true
	case spec.Time:
		return "2020-05-06T07:08:09Z"
	case spec.Object:
		return minimalObject(s)
	case spec.List:
		l := []interface{}{}
		for i := 0; i < s.MinItems; i++ {
			l = append(l, minimalValue(s.Elem))
		}
		return l
	}
	panic("kind")
}

func TestC03(t *testing.T) {
	calls, results := richKinds(jsonKinds), richKinds(spec.Kinds)
	hx.Run(t, hx.Part[c03Case]{
		Property: "C03", Name: "incoming",
		Rule:   "a case is 1-4 payloads generated from the official schemas (random order, escapes, white space), most with one injected fault (required property missing or null, undefined top-level property, wrong JSON type of a property, null or wrong item of a list, at any depth where applicable), sent by a raw peer as call or as result; non-trivial if some payload has a property",
		Budget: hx.Budget{Quick: 8000, Thorough: 200000, QuickSecs: 60},
		Draw: func(rt *rapid.T) c03Case {
			return c03Case{rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) c03Item { return drawC03(rt, calls, results) }), 1, 4).Draw(rt, "list")}
		},
		Classify: func(c c03Case) (bool, []string) {
			nt := false
			var cl []string
			for _, it := range c.List {
				nt = nt || len(it.Payload) > 2
				cl = append(cl, it.Type)
				if it.Fault != "" {
					cl = append(cl, "faulty")
				} else {
					cl = append(cl, "valid")
				}
			}
			return nt, cl
		},
		Check: checkC03,
	})
}
