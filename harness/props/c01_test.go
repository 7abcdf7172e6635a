package props

import (
	"errors"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// kinds dispatched by both sides over JSON (incoming DataTransfer is a documented TODO upstream)
var jsonKinds = spec.Filter(func(k *spec.Kind) bool { return k.Action != "DataTransfer" })
var jsonFromCP = spec.Filter(func(k *spec.Kind) bool { return k.FromCP && k.Action != "DataTransfer" })
var jsonFromCS = spec.Filter(func(k *spec.Kind) bool { return !k.FromCP && k.Action != "DataTransfer" })
var soapKinds = spec.Filter(func(k *spec.Kind) bool { return k.XMLReq != nil })

// richKinds is a drawing order that favours messages with structure.
func richKinds(ks []*spec.Kind) []*spec.Kind {
	out := append([]*spec.Kind{}, ks...)
	for _, k := range ks {
		switch k.Action {
		case "MeterValues", "StopTransaction", "SendLocalList", "SetChargingProfile", "RemoteStartTransaction", "GetConfiguration", "GetCompositeSchedule":
			out = append(out, k, k)
		case "StartTransaction", "Authorize", "BootNotification", "UpdateFirmware", "GetDiagnostics", "ReserveNow", "StatusNotification", "ClearChargingProfile":
			out = append(out, k)
		}
	}
	return out
}

type exchange struct {
	Action string  `json:"action"`
	FromCP bool    `json:"fromCP"`
	Req    gen.Msg `json:"req"`
	Resp   gen.Msg `json:"resp"`
}

func drawExchange(rt *rapid.T, ks []*spec.Kind, o gen.Opts) exchange {
	k, req := gen.DrawReq(rt, ks, o)
	return exchange{Action: k.Action, FromCP: k.FromCP, Req: req, Resp: gen.Draw(rt, k.Resp.String(), o)}
}

// exchangeCase checks a sequence of exchanges between a library central system and charge point.
type handlerLog struct {
	got messages.Request
	n   int
}

// runExchanges drives request/response pairs through a connected pair of endpoints and checks
// that both arrive unchanged.
func runExchanges(list []exchange,
	sendCP func(cpreq.ChargePointRequest) (cpresp.ChargePointResponse, error),
	sendCS func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error),
	arm func(fromCP bool, resp interface{}, log chan messages.Request)) error {
	for i, e := range list {
		log := make(chan messages.Request, 16)
		arm(e.FromCP, gen.Build(e.Resp), log)
		var got interface{}
		var err error
		if e.FromCP {
			var r cpresp.ChargePointResponse
			r, err = sendCP(gen.Build(e.Req).(cpreq.ChargePointRequest))
			got = r
		} else {
			var r csresp.CentralSystemResponse
			r, err = sendCS(gen.Build(e.Req).(csreq.CentralSystemRequest))
			got = r
		}
		where := fmt.Sprintf("exchange %d (%s)", i, e.Req.T)
		if err != nil {
			select {
			case r := <-log:
				if d := gen.Same(e.Req, r); d != nil {
					return fmt.Errorf("%s: request: %v (and Send failed: %v)", where, d, err)
				}
				return fmt.Errorf("%s: Send failed although the handler responded: %v", where, err)
			default:
				return fmt.Errorf("%s: Send failed, the handler was not called: %v", where, err)
			}
		}
		if len(log) != 1 {
			return fmt.Errorf("%s: the handler ran %d times", where, len(log))
		}
		if err := gen.Same(e.Req, <-log); err != nil {
			return fmt.Errorf("%s: request: %v", where, err)
		}
		if err := gen.Same(e.Resp, got); err != nil {
			return fmt.Errorf("%s: response: %v", where, err)
		}
	}
	return nil
}

type c01Case struct {
	List []exchange `json:"list"`
}

func checkC01(c c01Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	id := fx.ID()
	var cpResp csresp.CentralSystemResponse
	var csResp cpresp.ChargePointResponse
	var log chan messages.Request
	sys.Handle(id, func(r cpreq.ChargePointRequest, _ cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		log <- r
		if csResp == nil {
			return nil, errors.New("not the receiver of this exchange")
		}
		return csResp, nil
	})
	defer sys.Handle(id, nil)
	p, err := sys.Connect(id, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		log <- r
		if cpResp == nil {
			return nil, errors.New("not the receiver of this exchange")
		}
		return cpResp, nil
	})
	if err != nil {
		return err
	}
	defer p.Cancel()
	svc, err := sys.Sys.GetServiceOf(id, ocpp.V16, "")
	if err != nil {
		return fmt.Errorf("no service for the connected charge point: %v", err)
	}
	return runExchanges(c.List, p.CP.Send, svc.Send, func(fromCP bool, resp interface{}, l chan messages.Request) {
		log, cpResp, csResp = l, nil, nil
		if fromCP {
			csResp = resp.(cpresp.ChargePointResponse)
		} else {
			cpResp = resp.(csresp.CentralSystemResponse)
		}
	})
}

func classifyExchanges(list []exchange) (bool, []string) {
	nt := false
	var cl []string
	for _, e := range list {
		w := gen.Weight(e.Req) + gen.Weight(e.Resp)
		if w > 0 {
			nt = true
		}
		d := "fromCS:"
		if e.FromCP {
			d = "fromCP:"
		}
		cl = append(cl, d+e.Action)
		if w > 20 {
			cl = append(cl, "rich")
		}
		if w > 100 {
			cl = append(cl, "huge list")
		}
		if hasLong(e.Req.V) || hasLong(e.Resp.V) {
			cl = append(cl, "text>4KiB")
		}
	}
	return nt, cl
}

func hasLong(v interface{}) bool {
	switch x := v.(type) {
	case string:
		return len(x) > 4096
	case map[string]interface{}:
		for _, e := range x {
			if hasLong(e) {
				return true
			}
		}
	case []interface{}:
		for _, e := range x {
			if hasLong(e) {
				return true
			}
		}
	}
	return false
}

func TestC01(t *testing.T) {
	hx.Run(t, hx.Part[c01Case]{
		Property: "C01", Name: "roundtrip",
		Rule:   "a case is 1-4 request/response exchanges (any dispatched message type, either direction, generated field values) between a library central system and charge point over loopback; non-trivial if some message carries at least one field",
		Budget: hx.Budget{Quick: 4000, Thorough: 80000, QuickSecs: 60},
		Draw: func(rt *rapid.T) c01Case {
			o := gen.Opts{Big: true}
			ks := richKinds(jsonKinds)
			return c01Case{rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) exchange { return drawExchange(rt, ks, o) }), 1, 4).Draw(rt, "list")}
		},
		Classify: func(c c01Case) (bool, []string) { return classifyExchanges(c.List) },
		Check:    checkC01,
	})
	scaleParts(t, "C01")
}
