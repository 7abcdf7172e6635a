package props

import (
	"errors"
	"testing"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
)

func checkC12(c c01Case) error {
	sys, err := fx.TheCS()
	if err != nil {
		return err
	}
	p, err := fx.TheSoapCP()
	if err != nil {
		return err
	}
	var cpResp csresp.CentralSystemResponse
	var csResp cpresp.ChargePointResponse
	var log chan messages.Request
	sys.Handle(p.ID, func(r cpreq.ChargePointRequest, _ cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		log <- r
		if csResp == nil {
			return nil, errors.New("not the receiver of this exchange")
		}
		return csResp, nil
	})
	defer sys.Handle(p.ID, nil)
	p.SetHandler(func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		log <- r
		if cpResp == nil {
			return nil, errors.New("not the receiver of this exchange")
		}
		return cpResp, nil
	})
	defer p.SetHandler(nil)
	svc, err := sys.Sys.GetServiceOf(p.ID, ocpp.V15, p.URL)
	if err != nil {
		return err
	}
	return runExchanges(c.List, p.CP.Send, svc.Send, func(fromCP bool, resp interface{}, l chan messages.Request) {
		log, cpResp, csResp = l, nil, nil
		if fromCP {
			csResp = resp.(cpresp.ChargePointResponse)
		} else {
			cpResp = resp.(csresp.CentralSystemResponse)
		}
	})
}

func TestC12(t *testing.T) {
	hx.Run(t, hx.Part[c01Case]{
		Property: "C12", Name: "roundtrip",
		Rule:   "a case is 1-4 request/response exchanges (any OCPP 1.5 message type, either direction, generated field values) between a library SOAP charge point and the central system over loopback HTTP; non-trivial if some message carries at least one field",
		Budget: hx.Budget{Quick: 4000, Thorough: 80000, QuickSecs: 60},
		Draw: func(rt *rapid.T) c01Case {
			o := gen.Opts{XML: true, Big: true}
			ks := richKinds(soapKinds)
			return c01Case{rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) exchange { return drawExchange(rt, ks, o) }), 1, 4).Draw(rt, "list")}
		},
		Classify: func(c c01Case) (bool, []string) { return classifyExchanges(c.List) },
		Check:    checkC12,
	})
	scaleParts(t, "C12")
}
