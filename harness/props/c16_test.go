package props

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"
	"unicode"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/req"
	"github.com/voltbras/go-ocpp/messages/res"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// c16Op looks a name up, or takes the response of a request found before.
type c16Op struct {
	Op   string `json:"op"` // req, res, own (a request made by hand), answer (the response of an earlier request)
	Name string `json:"name,omitempty"`
	CP   bool   `json:"cp,omitempty"` // own: direction
	Of   int    `json:"of,omitempty"` // answer: which earlier request
	// Fill: what is looked up is then filled with these values
	Fill map[string]interface{} `json:"fill,omitempty"`
}

type c16Case struct {
	Ops []c16Op `json:"ops"`
	// At: the lookups are made by that many goroutines at once
	At int `json:"at"`
}

// names of other versions of OCPP, of other messages of 1.6, and of things around
var foreignNames = []string{
	"", " ", "Request", "Response", "Call", "TransactionEvent", "GetVariables", "SetVariables", "NotifyEvent", "GetBaseReport", "GetReport",
	"RequestStartTransaction", "RequestStopTransaction", "Get15118EVCertificate", "LogStatusNotification", "SecurityEventNotification", "SignCertificate",
	"SignedFirmwareStatusNotification", "ExtendedTriggerMessage", "InstallCertificate", "GetLog", "CertificateSigned", "DeleteCertificate",
	"GetInstalledCertificateIds", "SignedUpdateFirmware", "null", "nil", "cpreq", "csreq.Reset", "*cpreq.Heartbeat", "Authorise", "StartTransactions", "IdTagInfo", "ChargingProfile",
}

func drawName(rt *rapid.T) string {
	k := rapid.SampledFrom(spec.Kinds).Draw(rt, "kind")
	n := k.Action
	i := rapid.IntRange(0, len(n)-1).Draw(rt, "at")
	switch rapid.IntRange(0, 19).Draw(rt, "name class") {
	case 10:
		return strings.ToLower(n)
	case 11:
		return strings.ToUpper(n)
	case 12:
		r := []rune(n)
		if unicode.IsUpper(r[i]) {
			r[i] = unicode.ToLower(r[i])
		} else {
			r[i] = unicode.ToUpper(r[i])
		}
		return string(r)
	case 13:
		return rapid.SampledFrom([]string{n + " ", " " + n, n + "\n", n + "\x00", "\ufeff" + n, n + "Request", n + "Response", n + ".req", n + ".conf", n + "s", "ocpp" + n, "/" + n, n + n, "{urn://Ocpp/Cs/2012/06/}" + n}).Draw(rt, "decorated")
	case 14:
		return n[:i] + n[i+1:]
	case 15:
		return n[:i] + rapid.SampledFrom([]string{"x", "-", " ", "\u200b", "\u0131", "\u017f", "\u212a", "e\u0301", "\xff"}).Draw(rt, "letter") + n[i:]
	case 16:
		// a letter that looks the same
		for _, s := range [][2]string{{"a", "а"}, {"e", "е"}, {"o", "ο"}, {"C", "С"}, {"s", "ſ"}, {"t", "т"}} {
			if strings.Contains(n, s[0]) {
				return strings.Replace(n, s[0], s[1], 1)
			}
		}
		return n
	case 17:
		return rapid.SampledFrom(foreignNames).Draw(rt, "foreign")
	case 18:
		// one name's beginning and another one's end
		m := rapid.SampledFrom(spec.Kinds).Draw(rt, "other").Action
		return n[:i] + m[min(i, len(m)):]
	case 19:
		return gen.Text(rt, "any text", false, 0, false)
	}
	return n
}

func drawC16(rt *rapid.T) c16Case {
	c := c16Case{At: rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(rt, "goroutines")}
	for n := rapid.IntRange(2, 14).Draw(rt, "ops"); n > 0; n-- {
		op := c16Op{Op: rapid.SampledFrom([]string{"req", "req", "res", "res", "answer", "answer", "own"}).Draw(rt, "op")}
		typ := ""
		switch op.Op {
		case "req", "res":
			op.Name = drawName(rt)
			// names come again: state must not be shared between lookups
			if len(c.Ops) > 0 && rapid.IntRange(0, 2).Draw(rt, "again") > 0 {
				if again := rapid.SampledFrom(c.Ops).Draw(rt, "earlier").Name; again != "" {
					op.Name = again
				}
			}
			if k := lookupKind(op.Name); k != nil {
				typ = k.Req.String()
				if op.Op == "res" {
					typ = k.Resp.String()
				}
			}
		case "own":
			k := rapid.SampledFrom(spec.Kinds).Draw(rt, "kind")
			op.Name, op.CP, typ = k.Action, k.FromCP, k.Req.String()
		case "answer":
			op.Of = rapid.IntRange(0, 13).Draw(rt, "of")
			// filled with whatever values the response turns out to have, see below
			op.Fill = map[string]interface{}{}
		}
		if typ != "" && rapid.IntRange(0, 2).Draw(rt, "fill") > 0 {
			op.Fill = gen.Draw(rt, typ, gen.Opts{ZeroOptional: false}).V
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// lookupKind is the message that an action name stands for, nil if none. DataTransfer is sent in
// both directions, its name alone stands for neither.
func lookupKind(name string) *spec.Kind {
	if name == "DataTransfer" {
		return nil
	}
	for _, k := range spec.Kinds {
		if k.Action == name {
			return k
		}
	}
	return nil
}

func classifyC16(c c16Case) (bool, []string) {
	known, fills := 0, 0
	var cl []string
	for _, op := range c.Ops {
		if op.Op == "req" || op.Op == "res" {
			if lookupKind(op.Name) != nil {
				known++
				cl = append(cl, op.Op+" known")
			} else {
				cl = append(cl, op.Op+" unknown")
			}
		} else {
			cl = append(cl, op.Op)
		}
		if op.Fill != nil {
			fills++
		}
	}
	return known > 0 && fills > 0, cl
}

// fillAny gives every field of a message a value that is not empty.
func fillAny(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			if depth > 6 || !v.CanSet() {
				return
			}
			v.Set(reflect.New(v.Type().Elem()))
		}
		fillAny(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fillAny(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		l := reflect.MakeSlice(v.Type(), 2, 4)
		for i := 0; i < 2; i++ {
			fillAny(l.Index(i), depth+1)
		}
		v.Set(l)
	case reflect.String:
		v.SetString("filled")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(41)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(4.5)
	case reflect.Bool:
		v.SetBool(true)
	}
}

func checkC16(c c16Case) error {
	if c.At <= 1 {
		return playC16(c)
	}
	errs := make([]error, c.At)
	var wg sync.WaitGroup
	for i := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v", r)
				}
			}()
			errs[i] = playC16(c)
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return fmt.Errorf("with %d goroutines: %w", c.At, err)
		}
	}
	return nil
}

type c16Held struct {
	what string
	v    interface{}
	want map[string]interface{}
}

func playC16(c c16Case) error {
	var held []c16Held
	type found struct {
		r messages.Request
		k *spec.Kind
	}
	var reqs []found
	var shared error
	hold := func(what string, v interface{}, op c16Op) {
		for _, h := range held {
			if reflect.TypeOf(h.v) == reflect.TypeOf(v) && reflect.TypeOf(v).Elem().Size() > 0 && reflect.ValueOf(h.v).Pointer() == reflect.ValueOf(v).Pointer() {
				shared = fmt.Errorf("%s: yields the same object as %s", what, h.what)
			}
		}
		if op.Fill != nil {
			if op.Op == "answer" {
				fillAny(reflect.ValueOf(v), 0)
			} else {
				m := gen.Msg{T: reflect.TypeOf(v).Elem().String(), V: op.Fill}
				// the values are taken over into the very object that was looked up
				reflect.ValueOf(v).Elem().Set(reflect.ValueOf(gen.Build(m)).Elem())
			}
		}
		held = append(held, c16Held{what, v, gen.CanonOf(v)})
	}
	for i, op := range c.Ops {
		what := fmt.Sprintf("step %d: %s %q", i, op.Op, op.Name)
		switch op.Op {
		case "req":
			r := req.FromActionName(op.Name)
			k := lookupKind(op.Name)
			if k == nil {
				if op.Name == "DataTransfer" {
					continue
				}
				if r != nil {
					return fmt.Errorf("%s: an unknown name yields a %T", what, r)
				}
				continue
			}
			if err := requestIs(r, k); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			hold(what, r, op)
			reqs = append(reqs, found{r, k})
		case "own":
			for _, k := range spec.Kinds {
				if k.Action == op.Name && k.FromCP == op.CP {
					r := reflect.New(k.Req).Interface().(messages.Request)
					if err := requestIs(r, k); err != nil {
						return fmt.Errorf("%s: %w", what, err)
					}
					hold(what, r, op)
					reqs = append(reqs, found{r, k})
				}
			}
		case "res":
			r := res.FromActionName(op.Name)
			k := lookupKind(op.Name)
			if k == nil {
				if op.Name == "DataTransfer" {
					continue
				}
				if r != nil {
					return fmt.Errorf("%s: an unknown name yields a %T", what, r)
				}
				continue
			}
			if err := responseIs(r, k); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			hold(what, r, op)
		case "answer":
			if len(reqs) == 0 {
				continue
			}
			f := reqs[op.Of%len(reqs)]
			r := f.r.GetResponse()
			if err := responseIs(r, f.k); err != nil {
				return fmt.Errorf("%s: the response of a %s: %w", what, f.k.Action, err)
			}
			hold(what, r, op)
			if a := f.r.Action(); a != f.k.Action {
				return fmt.Errorf("%s: the action of a %s with values is %q", what, f.k.Action, a)
			}
		}
	}
	if shared != nil {
		return shared
	}
	for _, h := range held {
		if got := gen.CanonOf(h.v); !reflect.DeepEqual(got, h.want) {
			return fmt.Errorf("%s: what was looked up there changed through later lookups: %s instead of %s", h.what, hx.Quote(got), hx.Quote(h.want))
		}
	}
	return nil
}

func requestIs(r messages.Request, k *spec.Kind) error {
	if r == nil {
		return fmt.Errorf("no request of action %s", k.Action)
	}
	if t := reflect.TypeOf(r); t != reflect.PointerTo(k.Req) {
		return fmt.Errorf("the request of action %s is a %v instead of a %v", k.Action, t, k.Req)
	}
	if reflect.ValueOf(r).IsNil() {
		return fmt.Errorf("the request of action %s is nil", k.Action)
	}
	if !reflect.ValueOf(r).Elem().IsZero() {
		return fmt.Errorf("the request of action %s is not empty: %s", k.Action, hx.Quote(r))
	}
	if a := r.Action(); a != k.Action {
		return fmt.Errorf("the action of the request of action %s is %q", k.Action, a)
	}
	_, fromCP := r.(cpreq.ChargePointRequest)
	_, fromCS := r.(csreq.CentralSystemRequest)
	if fromCP != k.FromCP || fromCS == k.FromCP {
		return fmt.Errorf("the request of action %s is a request of the charge point: %v, of the central system: %v", k.Action, fromCP, fromCS)
	}
	if err := responseIs(r.GetResponse(), k); err != nil {
		return fmt.Errorf("by GetResponse: %w", err)
	}
	return nil
}

func responseIs(r messages.Response, k *spec.Kind) error {
	if r == nil {
		return fmt.Errorf("no response of action %s", k.Action)
	}
	if t := reflect.TypeOf(r); t != reflect.PointerTo(k.Resp) {
		return fmt.Errorf("the response of action %s is a %v instead of a %v", k.Action, t, k.Resp)
	}
	if reflect.ValueOf(r).IsNil() {
		return fmt.Errorf("the response of action %s is nil", k.Action)
	}
	if !reflect.ValueOf(r).Elem().IsZero() {
		return fmt.Errorf("the response of action %s is not empty: %s", k.Action, hx.Quote(r))
	}
	_, toCP := r.(cpresp.ChargePointResponse)
	_, toCS := r.(csresp.CentralSystemResponse)
	// responses are named after the side whose requests they answer
	if toCP != k.FromCP || toCS == k.FromCP {
		return fmt.Errorf("the response of action %s answers the charge point: %v, the central system: %v", k.Action, toCP, toCS)
	}
	return nil
}

func TestC16(t *testing.T) {
	hx.Run(t, hx.Part[c16Case]{
		Property: "C16", Name: "lookups",
		Rule:     "a case is 2-14 lookups of request and response types by names that are those of OCPP 1.6 or near them (other case, decorated, a letter missing, added or replaced by a look-alike, other versions of OCPP, any text), responses asked of the requests found, and values filled into what was found, by 1-4 goroutines at once; compared with an own table of OCPP messages; everything found must be empty when found and keep its values until the end; non-trivial if a known name is looked up and something is filled",
		Budget:   hx.Budget{Quick: 12000, Thorough: 400000, QuickSecs: 40},
		Draw:     drawC16,
		Classify: classifyC16,
		Check:    checkC16,
	})
	hx.Run(t, hx.Part[c16Case]{
		Property: "C16", Name: "table",
		Rule:   "every action of OCPP 1.6 is looked up, twice each way, with all fields of the first find filled in between",
		Budget: hx.Budget{Quick: 5, Thorough: 5, QuickSecs: 20},
		Draw: func(rt *rapid.T) c16Case {
			c := c16Case{At: rapid.IntRange(1, 4).Draw(rt, "goroutines")}
			n := 0
			for _, k := range spec.Kinds {
				c.Ops = append(c.Ops, c16Op{Op: "req", Name: k.Action}, c16Op{Op: "res", Name: k.Action}, c16Op{Op: "own", Name: k.Action, CP: k.FromCP})
				if lookupKind(k.Action) != nil {
					n++
				}
				n++
				for i := 0; i < 2; i++ {
					for j := max(0, n-2); j < n; j++ {
						c.Ops = append(c.Ops, c16Op{Op: "answer", Of: j, Fill: map[string]interface{}{}})
					}
				}
			}
			return c
		},
		Classify: classifyC16,
		Check:    checkC16,
	})
}
