// Package gen draws message values from the shapes of package spec and relates them to the
// library's structs, to JSON and to XML by reference implementations that share nothing with
// the library's own codecs.
package gen

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"vharness/spec"
)

// Msg is a message value: the Go type name and its fields by Go field name.
// Times are RFC 3339 strings.
type Msg struct {
	T string                 `json:"t"`
	V map[string]interface{} `json:"v"`
	N bool                   `json:"n,omitempty"` // empty lists are nil in the struct
}

// Opts of a draw.
type Opts struct {
	XML          bool // values expressible in OCPP 1.5 / XML
	Both         bool // values expressible in OCPP 1.5 and in OCPP 1.6
	Legal        bool // enumerations and lengths of the specification
	ZeroOptional bool // optional scalars may be present with an empty value (not expressible in Go)
	Big          bool // allow very long texts and lists
}

// Shape of the message in the transport of the options.
func (o Opts) Shape(typ string) *spec.Shape {
	k, resp := spec.ByType(typ)
	if k == nil {
		panic("unknown type " + typ)
	}
	switch {
	case o.Both && resp:
		return spec.Common(k.JSONResp, k.XMLResp)
	case o.Both:
		return spec.Common(k.JSONReq, k.XMLReq)
	case o.XML && resp:
		return k.XMLResp
	case o.XML:
		return k.XMLReq
	case resp:
		return k.JSONResp
	}
	return k.JSONReq
}

// Draw a message of the given type.
func Draw(rt *rapid.T, typ string, o Opts) Msg {
	s := o.Shape(typ)
	return Msg{T: typ, V: drawObject(rt, s, o, 0), N: rapid.Bool().Draw(rt, "nil lists")}
}

// DrawReq draws a request of one of the kinds.
func DrawReq(rt *rapid.T, ks []*spec.Kind, o Opts) (*spec.Kind, Msg) {
	k := rapid.SampledFrom(ks).Draw(rt, "kind")
	return k, Draw(rt, k.Req.String(), o)
}

func drawObject(rt *rapid.T, s *spec.Shape, o Opts, depth int) map[string]interface{} {
	out := map[string]interface{}{}
	// how full: mostly mixed, sometimes minimal or complete
	full := rapid.IntRange(0, 5).Draw(rt, "fullness")
	for _, f := range s.Fields {
		if f.Go == "" {
			continue
		}
		if !f.Required {
			switch {
			case full == 0:
				continue
			case full == 5:
			case !rapid.Bool().Draw(rt, "has "+f.Go):
				continue
			}
		}
		v := drawValue(rt, f.Shape, o, depth+1, !f.Required && !o.ZeroOptional, f.Required, f.Go)
		if v == nil {
			continue
		}
		out[f.Go] = v
	}
	return out
}

func drawValue(rt *rapid.T, s *spec.Shape, o Opts, depth int, nonZero, required bool, label string) interface{} {
	switch s.Kind {
	case spec.String:
		if o.Legal && len(s.Enum) > 0 {
			return rapid.SampledFrom(s.Enum).Draw(rt, label)
		}
		if o.Legal && s.URI {
			return rapid.SampledFrom([]string{"ftp://files.example.com/up", "http://10.0.0.1:8080/x?y=z&w=%20", "https://u:p@host/~d/é#f", "x:"}).Draw(rt, label)
		}
		max := 0
		if o.Legal {
			max = s.MaxLen
		}
		if len(s.Enum) > 0 && rapid.Bool().Draw(rt, label+" enum") {
			return rapid.SampledFrom(s.Enum).Draw(rt, label)
		}
		t := Text(rt, label, o.XML, max, o.Big)
		if nonZero && t == "" {
			t = "x"
		}
		return t
	case spec.Int:
		i := Int32(rt, label)
		if nonZero && i == 0 {
			i = 7
		}
		return i
	case spec.Number:
		f := Number(rt, label, s.Tenths && o.Legal)
		if nonZero && f == 0 {
			f = 0.5
		}
		return f
	case spec.Bool:
		b := rapid.Bool().Draw(rt, label)
		if nonZero {
			b = true
		}
		return b
	case spec.Time:
		return Time(rt, label)
	case spec.Object:
		return drawObject(rt, s, o, depth)
	case spec.List:
		n := listLen(rt, label, o, depth)
		if nonZero && n == 0 {
			n = 1
		}
		if (o.Legal || o.Both) && n < s.MinItems {
			n = s.MinItems
		}
		l := make([]interface{}, 0, n)
		for i := 0; i < n; i++ {
			if n > 12 && i >= 4 { // repeat with variation rather than drawing everything
				l = append(l, l[i%4])
				continue
			}
			l = append(l, drawValue(rt, s.Elem, o, depth+1, false, true, label+"[]"))
		}
		if len(l) == 0 && !required {
			return nil
		}
		return l
	}
	panic("kind")
}

func listLen(rt *rapid.T, label string, o Opts, depth int) int {
	c := rapid.IntRange(0, 30).Draw(rt, label+" len class")
	switch {
	case c <= 26:
		return rapid.IntRange(0, 3).Draw(rt, label+" len")
	case c <= 29 || depth > 1 || !o.Big:
		return rapid.IntRange(4, 12).Draw(rt, label+" len")
	default:
		return rapid.IntRange(13, 400).Draw(rt, label+" len")
	}
}

var nasty = []string{
	"", " ", "null", "0", "-1", "true", "{}", "[2,\"x\",\"Reset\",{}]", "\"", "\\", "a\\\"b", "<a>&amp;</a>", "]]>", "<![CDATA[x]]>",
	"&", "&#0;", "'", "a\nb", "\n", "a\tb", "\r\n", "a\rb", " lead", "trail ", "\u00a0", "é", "ü", "日本語", "🚗⚡", "\u2028\u2029", "\ufeff", "\u202e", "e\u0301",
	"%s%d%!", "%", "/", "..", "?x=1#y", "+", "\u0085", "\ufffd", "2019-01-01T00:00:00Z", "Accepted", "\\u0041", "\\n", "__proto__", "a  b",
}

var nastyJSON = []string{"\x00", "\x01\x1f", "\x7f", "\b\f", "\ufffe", "\uffff", "\U0010ffff"}

// Text draws a valid UTF-8 text of at most max characters (0: unlimited).
func Text(rt *rapid.T, label string, xml bool, max int, big bool) string {
	c := rapid.IntRange(0, 40).Draw(rt, label+" class")
	var s string
	switch {
	case c <= 16:
		s = rapid.StringMatching(`[A-Za-z0-9 ._:-]{0,14}`).Draw(rt, label)
	case c <= 28:
		set := nasty
		if !xml {
			set = append(append([]string{}, nasty...), nastyJSON...)
		}
		s = rapid.SampledFrom(set).Draw(rt, label)
		if rapid.Bool().Draw(rt, label+" pair") {
			s += rapid.SampledFrom(set).Draw(rt, label+" 2")
		}
	case c <= 38:
		s = rapid.StringN(0, 20, -1).Draw(rt, label)
	default:
		piece := rapid.SampledFrom([]string{"a", "é", "\"", "<", "日本", "x\n", "🚗"}).Draw(rt, label+" piece")
		maxPow := 12
		if big {
			maxPow = 17
		}
		n := 1 << uint(rapid.IntRange(5, maxPow).Draw(rt, label+" pow"))
		n += rapid.IntRange(-1, 1).Draw(rt, label+" off")
		s = strings.Repeat(piece, n)
	}
	return Fit(s, xml, max)
}

// Fit makes a text legal for XML and cuts it.
func Fit(s string, xml bool, max int) string {
	if xml {
		s = strings.Map(func(r rune) rune {
			if XMLChar(r) {
				return r
			}
			return '.'
		}, s)
	}
	if !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "?")
	}
	if max > 0 {
		r := []rune(s)
		if len(r) > max {
			s = string(r[:max])
		}
	}
	return s
}

// XMLChar says whether XML 1.0 can carry the character.
func XMLChar(r rune) bool {
	return r == 0x09 || r == 0x0A || r == 0x0D || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

// Int32 draws an integer.
func Int32(rt *rapid.T, label string) int64 {
	switch rapid.IntRange(0, 3).Draw(rt, label+" class") {
	case 0:
		return int64(rapid.IntRange(0, 20).Draw(rt, label))
	case 1:
		return rapid.SampledFrom([]int64{0, 1, -1, math.MaxInt32, math.MinInt32, 1 << 24, 1<<24 + 1, 999999, 1000000, 1000001, 123456789, 65535, 65536, -32769}).Draw(rt, label)
	}
	return int64(rapid.Int32().Draw(rt, label))
}

// Number draws a finite number.
func Number(rt *rapid.T, label string, tenths bool) float64 {
	c := rapid.IntRange(0, 3).Draw(rt, label+" class")
	if tenths || c <= 1 {
		return float64(rapid.IntRange(-100, 100000).Draw(rt, label)) / 10
	}
	if c == 2 {
		return float64(rapid.Int32().Draw(rt, label))
	}
	f := rapid.Float64().Draw(rt, label)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 1e21
	}
	return f
}

// Time draws an instant with a minute-granular zone as RFC 3339 text.
func Time(rt *rapid.T, label string) string {
	var sec int64
	switch rapid.IntRange(0, 4).Draw(rt, label+" class") {
	case 0:
		sec = rapid.SampledFrom([]int64{0, -1, 1, 1582934400, 951782400, 253370764800 - 86400*2, -62135596800 + 86400*400, 1 << 31, 1<<31 - 1, 4102444799}).Draw(rt, label)
	case 1:
		sec = rapid.Int64Range(-62135596800+86400*366, 253370764800-86400).Draw(rt, label)
	default:
		sec = rapid.Int64Range(946684800, 2524608000).Draw(rt, label)
	}
	var ns int64
	if rapid.IntRange(0, 2).Draw(rt, label+" hasns") == 0 {
		ns = rapid.Int64Range(0, 999999999).Draw(rt, label+" ns")
	}
	off := 0
	if rapid.Bool().Draw(rt, label+" zoned") {
		off = rapid.IntRange(-12*60, 14*60).Draw(rt, label+" zone")
	}
	loc := time.UTC
	if off != 0 {
		loc = time.FixedZone("", off*60)
	}
	return time.Unix(sec, ns).In(loc).Format(time.RFC3339Nano)
}

// ---- Go values ----

var timeType = reflect.TypeOf(time.Time{})

// Build makes the library's struct; the result is a pointer to it.
func Build(m Msg) interface{} {
	k, resp := spec.ByType(m.T)
	if k == nil {
		panic("unknown type " + m.T)
	}
	t := k.Req
	if resp {
		t = k.Resp
	}
	p := reflect.New(t)
	build(p.Elem(), m.V, m.N)
	return p.Interface()
}

func build(dst reflect.Value, v interface{}, nils bool) {
	if v == nil {
		return
	}
	switch dst.Kind() {
	case reflect.Ptr:
		n := reflect.New(dst.Type().Elem())
		build(n.Elem(), v, nils)
		dst.Set(n)
	case reflect.Slice:
		l := v.([]interface{})
		if len(l) == 0 && nils {
			return
		}
		s := reflect.MakeSlice(dst.Type(), len(l), len(l))
		for i, e := range l {
			build(s.Index(i), e, nils)
		}
		dst.Set(s)
	case reflect.Struct:
		if dst.Type() == timeType {
			t, err := time.Parse(time.RFC3339Nano, v.(string))
			if err != nil {
				panic(err)
			}
			dst.Set(reflect.ValueOf(t))
			return
		}
		for n, e := range v.(map[string]interface{}) {
			f := dst.FieldByName(n)
			if !f.IsValid() {
				panic(fmt.Sprintf("%v has no field %s", dst.Type(), n))
			}
			build(f, e, nils)
		}
	case reflect.String:
		dst.SetString(v.(string))
	case reflect.Bool:
		dst.SetBool(v.(bool))
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Int16, reflect.Int8:
		dst.SetInt(int64(num(v)))
	case reflect.Float64, reflect.Float32:
		dst.SetFloat(num(v))
	default:
		panic("unhandled Go kind " + dst.Kind().String())
	}
}

func num(v interface{}) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case int64:
		return float64(x)
	case int:
		return float64(x)
	case json.Number:
		f, err := x.Float64()
		if err != nil {
			panic(err)
		}
		return f
	}
	panic(fmt.Sprintf("not a number: %T", v))
}

// Canon is the normal form of a drawn value: empty values dropped, times to the second.
func Canon(m Msg) map[string]interface{} { return CanonOf(Build(m)) }

// CanonOf is the normal form of a message struct (or pointer to one).
func CanonOf(v interface{}) map[string]interface{} {
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return nil
		}
		rv = rv.Elem()
	}
	return canonStruct(rv)
}

func canonStruct(v reflect.Value) map[string]interface{} {
	out := map[string]interface{}{}
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.PkgPath != "" || sf.Name == "XMLName" || sf.Anonymous {
			continue
		}
		if c := canonValue(v.Field(i), false); c != nil {
			out[sf.Name] = c
		}
	}
	return out
}

func canonValue(v reflect.Value, keep bool) interface{} {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			if keep {
				return "nil"
			}
			return nil
		}
		if v.Type().Elem() == timeType {
			return canonValue(v.Elem(), true)
		}
		return canonValue(v.Elem(), true)
	case reflect.Struct:
		if v.Type() == timeType {
			t := v.Interface().(time.Time)
			if t.IsZero() && !keep {
				return nil
			}
			return fmt.Sprintf("t%d", t.Unix())
		}
		return canonStruct(v)
	case reflect.Slice:
		if v.Len() == 0 {
			return nil
		}
		out := make([]interface{}, v.Len())
		for i := range out {
			out[i] = canonValue(v.Index(i), true)
		}
		return out
	case reflect.String:
		if v.Len() == 0 && !keep {
			return nil
		}
		return "s" + v.String()
	case reflect.Bool:
		if !v.Bool() && !keep {
			return nil
		}
		return v.Bool()
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Int16, reflect.Int8:
		if v.Int() == 0 && !keep {
			return nil
		}
		return v.Int()
	case reflect.Float64, reflect.Float32:
		if v.Float() == 0 && !keep {
			return nil
		}
		return v.Float()
	}
	return fmt.Sprintf("unhandled %v", v.Kind())
}

// Same compares a received struct with the message that was sent.
func Same(m Msg, got interface{}) error {
	if got == nil || reflect.ValueOf(got).Kind() == reflect.Ptr && reflect.ValueOf(got).IsNil() {
		return fmt.Errorf("got nothing instead of %s", m.T)
	}
	t := reflect.TypeOf(got)
	if t.Kind() != reflect.Ptr || t.Elem().String() != m.T {
		return fmt.Errorf("got a %v instead of a *%s", t, m.T)
	}
	want, have := Canon(m), CanonOf(got)
	if reflect.DeepEqual(want, have) {
		return nil
	}
	p, w, h := firstDiff("", want, have)
	return fmt.Errorf("%s differs at %s: sent %s, arrived %s", m.T, p, short(w), short(h))
}

func short(v interface{}) string {
	b, err := json.Marshal(v)
	s := string(b)
	if err != nil {
		s = fmt.Sprintf("%+v", v)
	}
	if v == nil {
		return "(empty)"
	}
	if len(s) > 200 {
		s = s[:150] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

func firstDiff(p string, a, b interface{}) (string, interface{}, interface{}) {
	ma, ok1 := a.(map[string]interface{})
	mb, ok2 := b.(map[string]interface{})
	if ok1 && ok2 {
		keys := map[string]bool{}
		for k := range ma {
			keys[k] = true
		}
		for k := range mb {
			keys[k] = true
		}
		sorted := make([]string, 0, len(keys))
		for k := range keys {
			sorted = append(sorted, k)
		}
		for i := range sorted {
			for j := i + 1; j < len(sorted); j++ {
				if sorted[j] < sorted[i] {
					sorted[i], sorted[j] = sorted[j], sorted[i]
				}
			}
		}
		for _, k := range sorted {
			if !reflect.DeepEqual(ma[k], mb[k]) {
				return firstDiff(p+"."+k, ma[k], mb[k])
			}
		}
	}
	la, ok1 := a.([]interface{})
	lb, ok2 := b.([]interface{})
	if ok1 && ok2 {
		if len(la) != len(lb) {
			return p + ".length", len(la), len(lb)
		}
		for i := range la {
			if !reflect.DeepEqual(la[i], lb[i]) {
				return firstDiff(fmt.Sprintf("%s[%d]", p, i), la[i], lb[i])
			}
		}
	}
	return p, a, b
}

// Weight is a rough measure of how much a message carries.
func Weight(m Msg) int { return weigh(m.V) }

func weigh(v interface{}) int {
	switch x := v.(type) {
	case map[string]interface{}:
		n := 0
		for _, e := range x {
			n += 1 + weigh(e)
		}
		return n
	case []interface{}:
		n := 0
		for _, e := range x {
			n += 1 + weigh(e)
		}
		return n
	}
	return 0
}
