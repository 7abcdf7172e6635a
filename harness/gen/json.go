package gen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	"pgregory.net/rapid"

	"vharness/spec"
)

// ParseJSON parses with exact numbers; trailing data is an error.
func ParseJSON(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

// ValidateJSON checks a parsed payload against the schema.
func ValidateJSON(s *spec.Shape, v interface{}, path string) error {
	switch s.Kind {
	case spec.String, spec.Time:
		x, ok := v.(string)
		if !ok {
			return fmt.Errorf("%s: %s is not a string", path, short(v))
		}
		if len(s.Enum) > 0 {
			for _, e := range s.Enum {
				if e == x {
					return nil
				}
			}
			return fmt.Errorf("%s: %q is not one of %v", path, x, s.Enum)
		}
		if s.MaxLen > 0 && utf8.RuneCountInString(x) > s.MaxLen {
			return fmt.Errorf("%s: longer than %d", path, s.MaxLen)
		}
		if s.Kind == spec.Time {
			if _, err := time.Parse(time.RFC3339Nano, x); err != nil {
				return fmt.Errorf("%s: %q is not a date-time", path, x)
			}
		}
	case spec.Int:
		n, ok := v.(json.Number)
		if !ok {
			return fmt.Errorf("%s: %s is not an integer", path, short(v))
		}
		if strings.ContainsAny(string(n), ".eE") {
			return fmt.Errorf("%s: %s is not an integer", path, n)
		}
	case spec.Number:
		n, ok := v.(json.Number)
		if !ok {
			return fmt.Errorf("%s: %s is not a number", path, short(v))
		}
		if s.Tenths {
			r, ok := new(big.Rat).SetString(string(n))
			if !ok {
				return fmt.Errorf("%s: %s", path, n)
			}
			if !r.Mul(r, big.NewRat(10, 1)).IsInt() {
				return fmt.Errorf("%s: %s is not a multiple of 0.1", path, n)
			}
		}
	case spec.Bool:
		if _, ok := v.(bool); !ok {
			return fmt.Errorf("%s: %s is not a boolean", path, short(v))
		}
	case spec.List:
		l, ok := v.([]interface{})
		if !ok {
			return fmt.Errorf("%s: %s is not an array", path, short(v))
		}
		if len(l) < s.MinItems {
			return fmt.Errorf("%s: too few items", path)
		}
		for i, e := range l {
			if err := ValidateJSON(s.Elem, e, fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
	case spec.Object:
		m, ok := v.(map[string]interface{})
		if !ok {
			return fmt.Errorf("%s: %s is not an object", path, short(v))
		}
		for _, f := range s.Fields {
			if _, ok := m[f.Wire]; f.Required && !ok {
				return fmt.Errorf("%s: required property %q is missing", path, f.Wire)
			}
		}
		ks := make([]string, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			f := s.FieldByWire(k)
			if f == nil {
				// additional properties are never emitted by a conforming sender,
				// nested schemas included
				return fmt.Errorf("%s: property %q is not defined", path, k)
			}
			if err := ValidateJSON(f.Shape, m[k], path+"."+k); err != nil {
				return err
			}
		}
	}
	return nil
}

// FromJSON reads a schema-valid payload into a message (the reference decoder).
func FromJSON(typ string, v interface{}) Msg {
	return Msg{T: typ, V: fromJSON(Opts{}.Shape(typ), v).(map[string]interface{})}
}

func fromJSON(s *spec.Shape, v interface{}) interface{} {
	switch s.Kind {
	case spec.Object:
		out := map[string]interface{}{}
		for k, e := range v.(map[string]interface{}) {
			f := s.FieldByWire(k)
			out[f.Go] = fromJSON(f.Shape, e)
		}
		return out
	case spec.List:
		out := []interface{}{}
		for _, e := range v.([]interface{}) {
			out = append(out, fromJSON(s.Elem, e))
		}
		return out
	case spec.Int, spec.Number:
		return num(v)
	}
	return v
}

// ToJSON is the reference encoding of a message as generic JSON, by wire names.
func ToJSON(m Msg) map[string]interface{} {
	return toJSON(Opts{}.Shape(m.T), m.V).(map[string]interface{})
}

func toJSON(s *spec.Shape, v interface{}) interface{} {
	switch s.Kind {
	case spec.Object:
		out := map[string]interface{}{}
		for k, e := range v.(map[string]interface{}) {
			f := s.FieldByGo(k)
			out[f.Wire] = toJSON(f.Shape, e)
		}
		return out
	case spec.List:
		out := []interface{}{}
		for _, e := range v.([]interface{}) {
			out = append(out, toJSON(s.Elem, e))
		}
		return out
	case spec.Int:
		return json.Number(strconv.FormatInt(int64(num(v)), 10))
	case spec.Number:
		return json.Number(FormatNumber(num(v)))
	}
	return v
}

// FormatNumber writes a JSON number.
func FormatNumber(f float64) string {
	if a := math.Abs(f); a != 0 && (a < 1e-6 || a >= 1e21) {
		return strconv.FormatFloat(f, 'e', -1, 64)
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// WriteJSON writes a generic JSON value in one of the many spellings JSON allows.
func WriteJSON(rt *rapid.T, v interface{}) string {
	style := rapid.IntRange(0, 3).Draw(rt, "json style")
	var b strings.Builder
	writeJSON(rt, &b, v, style)
	return b.String()
}

func ws(rt *rapid.T, style int) string {
	if style < 2 {
		return ""
	}
	return rapid.SampledFrom([]string{"", "", " ", "\n", "\t ", "\r\n"}).Draw(rt, "ws")
}

func writeJSON(rt *rapid.T, b *strings.Builder, v interface{}, style int) {
	switch x := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if style > 0 && len(ks) > 1 {
			ks = rapid.Permutation(ks).Draw(rt, "order")
		}
		b.WriteString("{" + ws(rt, style))
		for i, k := range ks {
			if i > 0 {
				b.WriteString("," + ws(rt, style))
			}
			writeString(rt, b, k, style)
			b.WriteString(ws(rt, style) + ":" + ws(rt, style))
			writeJSON(rt, b, x[k], style)
		}
		b.WriteString(ws(rt, style) + "}")
	case []interface{}:
		b.WriteString("[")
		for i, e := range x {
			if i > 0 {
				b.WriteString("," + ws(rt, style))
			}
			writeJSON(rt, b, e, style)
		}
		b.WriteString("]")
	case string:
		writeString(rt, b, x, style)
	case json.Number:
		b.WriteString(string(x))
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case nil:
		b.WriteString("null")
	case float64:
		b.WriteString(FormatNumber(x))
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case int:
		b.WriteString(strconv.Itoa(x))
	default:
		panic(fmt.Sprintf("writeJSON %T", v))
	}
}

func writeString(rt *rapid.T, b *strings.Builder, s string, style int) {
	esc := 0
	if style == 3 && len(s) < 200 {
		esc = rapid.IntRange(0, 2).Draw(rt, "escapes")
	}
	b.WriteByte('"')
	for i, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case esc == 1, esc == 2 && i%3 == 0, r < 0x20:
			if r > 0xffff {
				r1, r2 := utf16.EncodeRune(r)
				fmt.Fprintf(b, `\u%04x\u%04X`, r1, r2)
			} else {
				fmt.Fprintf(b, `\u%04x`, r)
			}
		case r == '/' && style == 3:
			b.WriteString(`\/`)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

// SameJSON compares an emitted payload with the reference encoding of the message: the same
// properties, numbers equal as numbers, times as instants to the second.
func SameJSON(m Msg, got interface{}) error {
	return sameJSON(Opts{}.Shape(m.T), ToJSON(m), got, m.T)
}

func sameJSON(s *spec.Shape, want, got interface{}, path string) error {
	switch s.Kind {
	case spec.Object:
		w := want.(map[string]interface{})
		g, ok := got.(map[string]interface{})
		if !ok {
			return fmt.Errorf("%s: %s is not an object", path, short(got))
		}
		for _, f := range s.Fields {
			a, ok1 := w[f.Wire]
			b, ok2 := g[f.Wire]
			switch {
			case ok1 && !ok2:
				return fmt.Errorf("%s.%s: %s is missing on the wire", path, f.Wire, short(a))
			case !ok1 && ok2:
				return fmt.Errorf("%s.%s: %s is on the wire although the field was left empty", path, f.Wire, short(b))
			case ok1:
				if err := sameJSON(f.Shape, a, b, path+"."+f.Wire); err != nil {
					return err
				}
			}
		}
		for k, v := range g {
			if s.FieldByWire(k) == nil {
				return fmt.Errorf("%s.%s: unknown property with value %s", path, k, short(v))
			}
		}
		return nil
	case spec.List:
		w := want.([]interface{})
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return fmt.Errorf("%s: %s instead of %s", path, short(got), short(want))
		}
		for i := range w {
			if err := sameJSON(s.Elem, w[i], g[i], fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case spec.Int, spec.Number:
		n, ok := got.(json.Number)
		if ok {
			a, ok1 := new(big.Rat).SetString(string(want.(json.Number)))
			b, ok2 := new(big.Rat).SetString(string(n))
			ok = ok1 && ok2 && a.Cmp(b) == 0
		}
		if !ok {
			return fmt.Errorf("%s: %s instead of %s", path, short(got), short(want))
		}
		return nil
	case spec.Time:
		g, ok := got.(string)
		if ok {
			a, err1 := time.Parse(time.RFC3339Nano, want.(string))
			b, err2 := time.Parse(time.RFC3339Nano, g)
			ok = err1 == nil && err2 == nil && a.Unix() == b.Unix()
		}
		if !ok {
			return fmt.Errorf("%s: %s instead of %s", path, short(got), short(want))
		}
		return nil
	}
	if want != got {
		return fmt.Errorf("%s: %s instead of %s", path, short(got), short(want))
	}
	return nil
}
