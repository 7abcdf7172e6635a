// Package spec gives the shapes of the OCPP 1.6 JSON payloads and the OCPP 1.5 SOAP bodies, read
// from copies of the official schemas and service descriptions, tied to the Go fields of the
// library's message structs by an own name table (not by the struct tags under test).
package spec

import (
	"embed"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

//go:embed json/*.json wsdl/*.wsdl
var files embed.FS

// ShapeKind of a value.
type ShapeKind int

const (
	String ShapeKind = iota
	Int
	Number
	Bool
	Time
	Object
	List
)

// Shape describes a value of a schema.
type Shape struct {
	Kind      ShapeKind
	Enum      []string
	MaxLen    int // 0: unlimited
	Tenths    bool
	URI       bool
	Fields    []*Field // Object
	Closed    bool     // Object: no additional properties
	Elem      *Shape   // List
	MinItems  int
	CharData  bool // Object of XML simple content: the field "Value" is the text
	Flattened bool // XML TransactionData: one object with a single "values" child
}

// Field of an object shape.
type Field struct {
	Go       string // Go field, "" if the library has none
	Wire     string
	Required bool
	Attr     bool
	Shape    *Shape
}

// Common is the shape of the values that both shapes have: the fields of both, required if either
// requires them. Enumerations without a common value (UnlockConnector) become any text.
func Common(a, b *Shape) *Shape {
	out := *a
	if a.Kind == Number && b.Kind == Int {
		out.Kind = Int
	} else if a.Kind != b.Kind && !(a.Kind == Int && b.Kind == Number) {
		panic("shapes without common values")
	}
	out.MinItems = max(a.MinItems, b.MinItems)
	out.Tenths, out.URI = a.Tenths || b.Tenths, a.URI || b.URI
	if out.MaxLen == 0 || b.MaxLen != 0 && b.MaxLen < out.MaxLen {
		out.MaxLen = b.MaxLen
	}
	if len(a.Enum) == 0 {
		out.Enum = b.Enum
	} else if len(b.Enum) > 0 {
		out.Enum = nil
		for _, e := range a.Enum {
			if slices.Contains(b.Enum, e) {
				out.Enum = append(out.Enum, e)
			}
		}
	}
	if a.Elem != nil {
		out.Elem = Common(a.Elem, b.Elem)
	}
	out.Fields = nil
	for _, f := range a.Fields {
		g := b.FieldByGo(f.Go)
		if f.Go == "" || g == nil {
			if f.Required {
				panic("required by one only: " + f.Wire)
			}
			continue
		}
		h := *f
		h.Required = f.Required || g.Required
		h.Shape = Common(f.Shape, g.Shape)
		out.Fields = append(out.Fields, &h)
	}
	for _, g := range b.Fields {
		if g.Required && (g.Go == "" || a.FieldByGo(g.Go) == nil) {
			panic("required by one only: " + g.Wire)
		}
	}
	return &out
}

// FieldByGo finds a field.
func (s *Shape) FieldByGo(n string) *Field {
	for _, f := range s.Fields {
		if f.Go == n {
			return f
		}
	}
	return nil
}

// FieldByWire finds a field.
func (s *Shape) FieldByWire(n string) *Field {
	for _, f := range s.Fields {
		if f.Wire == n {
			return f
		}
	}
	return nil
}

// Kind is a message kind of the protocol.
type Kind struct {
	Action string
	FromCP bool // sent by the charge point
	Req    reflect.Type
	Resp   reflect.Type

	JSONReq, JSONResp *Shape
	XMLReq, XMLResp   *Shape // nil if not in OCPP 1.5
}

// NS is the namespace of the service the kind belongs to.
func (k *Kind) NS() string {
	if k.FromCP {
		return "urn://Ocpp/Cs/2012/06/"
	}
	return "urn://Ocpp/Cp/2012/06/"
}

// XMLName of the request or response element.
func (k *Kind) XMLName(resp bool) string {
	if resp {
		return LowerFirst(k.Action) + "Response"
	}
	return LowerFirst(k.Action) + "Request"
}

// LowerFirst lower-cases the first letter.
func LowerFirst(s string) string {
	if s == "" {
		return s
	}
	r := []rune(s)
	r[0] = unicode.ToLower(r[0])
	return string(r)
}

func ty(v interface{}) reflect.Type { return reflect.TypeOf(v).Elem() }

// Kinds of messages, all of OCPP 1.6 core and profiles that the library knows.
var Kinds = []*Kind{
	{Action: "Authorize", FromCP: true, Req: ty(&cpreq.Authorize{}), Resp: ty(&cpresp.Authorize{})},
	{Action: "BootNotification", FromCP: true, Req: ty(&cpreq.BootNotification{}), Resp: ty(&cpresp.BootNotification{})},
	{Action: "DataTransfer", FromCP: true, Req: ty(&cpreq.DataTransfer{}), Resp: ty(&cpresp.DataTransfer{})},
	{Action: "DiagnosticsStatusNotification", FromCP: true, Req: ty(&cpreq.DiagnosticsStatusNotification{}), Resp: ty(&cpresp.DiagnosticsStatusNotification{})},
	{Action: "FirmwareStatusNotification", FromCP: true, Req: ty(&cpreq.FirmwareStatusNotification{}), Resp: ty(&cpresp.FirmwareStatusNotification{})},
	{Action: "Heartbeat", FromCP: true, Req: ty(&cpreq.Heartbeat{}), Resp: ty(&cpresp.Heartbeat{})},
	{Action: "MeterValues", FromCP: true, Req: ty(&cpreq.MeterValues{}), Resp: ty(&cpresp.MeterValues{})},
	{Action: "StartTransaction", FromCP: true, Req: ty(&cpreq.StartTransaction{}), Resp: ty(&cpresp.StartTransaction{})},
	{Action: "StatusNotification", FromCP: true, Req: ty(&cpreq.StatusNotification{}), Resp: ty(&cpresp.StatusNotification{})},
	{Action: "StopTransaction", FromCP: true, Req: ty(&cpreq.StopTransaction{}), Resp: ty(&cpresp.StopTransaction{})},

	{Action: "CancelReservation", Req: ty(&csreq.CancelReservation{}), Resp: ty(&csresp.CancelReservation{})},
	{Action: "ChangeAvailability", Req: ty(&csreq.ChangeAvailability{}), Resp: ty(&csresp.ChangeAvailability{})},
	{Action: "ChangeConfiguration", Req: ty(&csreq.ChangeConfiguration{}), Resp: ty(&csresp.ChangeConfiguration{})},
	{Action: "ClearCache", Req: ty(&csreq.ClearCache{}), Resp: ty(&csresp.ClearCache{})},
	{Action: "ClearChargingProfile", Req: ty(&csreq.ClearChargingProfile{}), Resp: ty(&csresp.ClearChargingProfile{})},
	{Action: "DataTransfer", Req: ty(&csreq.DataTransfer{}), Resp: ty(&csresp.DataTransfer{})},
	{Action: "GetCompositeSchedule", Req: ty(&csreq.GetCompositeSchedule{}), Resp: ty(&csresp.GetCompositeSchedule{})},
	{Action: "GetConfiguration", Req: ty(&csreq.GetConfiguration{}), Resp: ty(&csresp.GetConfiguration{})},
	{Action: "GetDiagnostics", Req: ty(&csreq.GetDiagnostics{}), Resp: ty(&csresp.GetDiagnostics{})},
	{Action: "GetLocalListVersion", Req: ty(&csreq.GetLocalListVersion{}), Resp: ty(&csresp.GetLocalListVersion{})},
	{Action: "RemoteStartTransaction", Req: ty(&csreq.RemoteStartTransaction{}), Resp: ty(&csresp.RemoteStartTransaction{})},
	{Action: "RemoteStopTransaction", Req: ty(&csreq.RemoteStopTransaction{}), Resp: ty(&csresp.RemoteStopTransaction{})},
	{Action: "ReserveNow", Req: ty(&csreq.ReserveNow{}), Resp: ty(&csresp.ReserveNow{})},
	{Action: "Reset", Req: ty(&csreq.Reset{}), Resp: ty(&csresp.Reset{})},
	{Action: "SendLocalList", Req: ty(&csreq.SendLocalList{}), Resp: ty(&csresp.SendLocalList{})},
	{Action: "SetChargingProfile", Req: ty(&csreq.SetChargingProfile{}), Resp: ty(&csresp.SetChargingProfile{})},
	{Action: "TriggerMessage", Req: ty(&csreq.TriggerMessage{}), Resp: ty(&csresp.TriggerMessage{})},
	{Action: "UnlockConnector", Req: ty(&csreq.UnlockConnector{}), Resp: ty(&csresp.UnlockConnector{})},
	{Action: "UpdateFirmware", Req: ty(&csreq.UpdateFirmware{}), Resp: ty(&csresp.UpdateFirmware{})},
}

// TypeName is "cpreq.Authorize" and so on.
func TypeName(t reflect.Type) string { return t.String() }

// ByType finds the kind of a request or response type name.
func ByType(name string) (k *Kind, resp bool) {
	for _, k := range Kinds {
		if k.Req.String() == name {
			return k, false
		}
		if k.Resp.String() == name {
			return k, true
		}
	}
	return nil, false
}

// Filter kinds.
func Filter(f func(*Kind) bool) (out []*Kind) {
	for _, k := range Kinds {
		if f(k) {
			out = append(out, k)
		}
	}
	return
}

func init() {
	for _, k := range Kinds {
		k.JSONReq = loadJSON(k.Action, k.Req)
		k.JSONResp = loadJSON(k.Action+"Response", k.Resp)
	}
	cs := loadWSDL("ocpp_centralsystemservice_1.5_final.wsdl")
	cp := loadWSDL("ocpp_chargepointservice_1.5_final.wsdl")
	for _, k := range Kinds {
		w := cp
		if k.FromCP {
			w = cs
		}
		if t, ok := w.globals[k.XMLName(false)]; ok {
			k.XMLReq = w.shape(t, nil, k.Req)
			k.XMLResp = w.shape(w.globals[k.XMLName(true)], nil, k.Resp)
		}
	}
}

// ---- JSON schemas ----

type rawSchema struct {
	Type       string
	Properties map[string]*rawSchema
	Required   json.RawMessage
	Additional *bool `json:"additionalProperties"`
	Enum       []string
	MaxLength  int
	Format     string
	MultipleOf float64
	Items      *rawSchema
}

func loadJSON(name string, t reflect.Type) *Shape {
	b, err := files.ReadFile("json/" + name + ".json")
	if err != nil {
		panic(err)
	}
	b = []byte(strings.TrimPrefix(string(b), "\ufeff"))
	var s rawSchema
	if err := json.Unmarshal(b, &s); err != nil {
		panic(fmt.Sprint(name, err))
	}
	return s.shape(name, t)
}

func jsonGoName(wire string) string {
	if wire == "sampledValue" {
		return "SampledValues"
	}
	return strings.ToUpper(wire[:1]) + wire[1:]
}

func deref(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice {
		t = t.Elem()
	}
	return t
}

func (s *rawSchema) shape(where string, t reflect.Type) *Shape {
	out := &Shape{Enum: s.Enum, MaxLen: s.MaxLength}
	switch s.Type {
	case "string":
		out.Kind = String
		switch s.Format {
		case "date-time":
			out.Kind = Time
		case "uri":
			out.URI = true
		case "":
		default:
			panic(where + s.Format)
		}
	case "integer":
		out.Kind = Int
	case "number":
		out.Kind = Number
		out.Tenths = s.MultipleOf == 0.1
	case "boolean":
		out.Kind = Bool
	case "array":
		out.Kind = List
		out.Elem = s.Items.shape(where, deref(t))
	case "object":
		t = deref(t)
		out.Kind = Object
		out.Closed = s.Additional != nil && !*s.Additional
		req := map[string]bool{}
		var list []string
		if len(s.Required) > 0 {
			if err := json.Unmarshal(s.Required, &list); err != nil {
				panic(where + err.Error())
			}
		}
		for _, r := range list {
			req[r] = true
		}
		names := make([]string, 0)
		for n := range s.Properties {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			gn := jsonGoName(n)
			var ft reflect.Type
			if sf, ok := t.FieldByName(gn); ok {
				ft = sf.Type
			} else {
				panic(fmt.Sprintf("%s: %v has no field for %s", where, t, n))
			}
			out.Fields = append(out.Fields, &Field{Go: gn, Wire: n, Required: req[n], Shape: s.Properties[n].shape(where+"."+n, ft)})
		}
		for r := range req {
			if out.FieldByWire(r) == nil {
				panic(where + ": required but not defined: " + r)
			}
		}
	default:
		panic(where + ": type " + s.Type)
	}
	return out
}

// ---- service descriptions ----

type xsdRestriction struct {
	Base string `xml:"base,attr"`
	Enum []struct {
		Value string `xml:"value,attr"`
	} `xml:"enumeration"`
	MaxLength *struct {
		Value string `xml:"value,attr"`
	} `xml:"maxLength"`
}
type xsdElement struct {
	Name    string          `xml:"name,attr"`
	Type    string          `xml:"type,attr"`
	Min     string          `xml:"minOccurs,attr"`
	Max     string          `xml:"maxOccurs,attr"`
	Complex *xsdComplexType `xml:"complexType"`
}
type xsdComplexType struct {
	Name     string       `xml:"name,attr"`
	Sequence []xsdElement `xml:"sequence>element"`
	Simple   *struct {
		Base  string `xml:"base,attr"`
		Attrs []struct {
			Name string `xml:"name,attr"`
			Type string `xml:"type,attr"`
			Use  string `xml:"use,attr"`
		} `xml:"attribute"`
	} `xml:"simpleContent>extension"`
}
type xsdDoc struct {
	Schema struct {
		Simple []struct {
			Name        string         `xml:"name,attr"`
			Restriction xsdRestriction `xml:"restriction"`
		} `xml:"simpleType"`
		Complex  []xsdComplexType `xml:"complexType"`
		Elements []xsdElement     `xml:"element"`
	} `xml:"types>schema"`
}

type wsdl struct {
	simple  map[string]xsdRestriction
	complex map[string]*xsdComplexType
	globals map[string]string
}

func loadWSDL(name string) *wsdl {
	b, err := files.ReadFile("wsdl/" + name)
	if err != nil {
		panic(err)
	}
	var d xsdDoc
	if err := xml.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	w := &wsdl{map[string]xsdRestriction{}, map[string]*xsdComplexType{}, map[string]string{}}
	for _, s := range d.Schema.Simple {
		w.simple[s.Name] = s.Restriction
	}
	for i := range d.Schema.Complex {
		c := &d.Schema.Complex[i]
		w.complex[c.Name] = c
	}
	for _, e := range d.Schema.Elements {
		w.globals[e.Name] = e.Type
	}
	if len(w.globals) < 15 || len(w.simple) < 10 {
		panic("service description not understood")
	}
	return w
}

func xmlGoName(t reflect.Type, wire string) string {
	switch wire {
	case "heartbeatInterval":
		return "Interval"
	case "values":
		return "MeterValue"
	case "value":
		if _, ok := t.FieldByName("SampledValues"); ok {
			return "SampledValues"
		}
	case "localAuthorisationList":
		return "LocalAuthorizationList"
	case "hash":
		return "" // the library has no field for it
	}
	return strings.ToUpper(wire[:1]) + wire[1:]
}

func (w *wsdl) shape(typ string, inline *xsdComplexType, t reflect.Type) *Shape {
	pfx, local := "", typ
	if i := strings.IndexByte(typ, ':'); i >= 0 {
		pfx, local = typ[:i], typ[i+1:]
	}
	if inline == nil && pfx == "s" {
		switch local {
		case "string":
			return &Shape{Kind: String}
		case "anyURI":
			return &Shape{Kind: String, URI: true}
		case "int":
			return &Shape{Kind: Int}
		case "boolean":
			return &Shape{Kind: Bool}
		case "dateTime":
			return &Shape{Kind: Time}
		}
		panic("xsd type " + typ)
	}
	if inline == nil {
		if r, ok := w.simple[local]; ok {
			out := &Shape{Kind: String}
			for _, e := range r.Enum {
				out.Enum = append(out.Enum, e.Value)
			}
			if r.MaxLength != nil {
				out.MaxLen, _ = strconv.Atoi(r.MaxLength.Value)
			}
			return out
		}
		inline = w.complex[local]
		if inline == nil {
			panic("unknown xsd type " + typ)
		}
	}
	out := &Shape{Kind: Object, Closed: true}
	t = deref(t)
	if inline.Simple != nil {
		out.CharData = true
		for _, a := range inline.Simple.Attrs {
			gn := strings.ToUpper(a.Name[:1]) + a.Name[1:]
			if _, ok := t.FieldByName(gn); !ok {
				panic(gn)
			}
			out.Fields = append(out.Fields, &Field{Go: gn, Wire: a.Name, Attr: true, Shape: w.shape(a.Type, nil, nil)})
		}
		out.Fields = append(out.Fields, &Field{Go: "Value", Wire: "", Required: true, Shape: &Shape{Kind: String}})
		return out
	}
	if inline.Name == "TransactionData" {
		// <transactionData><values><timestamp/><value/>...</values></transactionData>
		// is one TransactionDataItems of the library
		out = w.shape(inline.Sequence[0].Type, nil, t)
		out.Flattened = true
		return out
	}
	for _, e := range inline.Sequence {
		gn := xmlGoName(t, e.Name)
		f := &Field{Go: gn, Wire: e.Name, Required: e.Min != "0"}
		var ft reflect.Type
		if gn != "" {
			sf, ok := t.FieldByName(gn)
			if !ok {
				panic(fmt.Sprintf("%v has no field for %s", t, e.Name))
			}
			ft = sf.Type
		}
		f.Shape = w.shape(e.Type, e.Complex, ft)
		if e.Max != "" && e.Max != "1" {
			min := 0
			if f.Required {
				min = 1
			}
			f.Shape = &Shape{Kind: List, Elem: f.Shape, MinItems: min}
		}
		out.Fields = append(out.Fields, f)
	}
	return out
}
