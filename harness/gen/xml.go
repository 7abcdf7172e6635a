package gen

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"vharness/spec"
)

// Node is an XML element.
type Node struct {
	Name  xml.Name
	Attrs map[xml.Name]string
	Kids  []*Node
	Text  string
}

// ParseXML reads a whole document.
func ParseXML(b []byte) (*Node, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	var stack []*Node
	var root *Node
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			n := &Node{Name: x.Name, Attrs: map[xml.Name]string{}}
			for _, a := range x.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				n.Attrs[a.Name] = a.Value
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.Kids = append(p.Kids, n)
			} else {
				if root != nil {
					return nil, fmt.Errorf("two root elements")
				}
				root = n
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].Text += string(x)
			} else if strings.TrimSpace(string(x)) != "" {
				return nil, fmt.Errorf("text outside the root element")
			}
		}
	}
	if root == nil {
		return nil, fmt.Errorf("no root element")
	}
	return root, nil
}

// Kid finds the only child element of that local name.
func (n *Node) Kid(local string) *Node {
	for _, k := range n.Kids {
		if k.Name.Local == local {
			return k
		}
	}
	return nil
}

var xsdTime = regexp.MustCompile(`^-?\d{4,}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)?$`)
var xsdInt = regexp.MustCompile(`^[+-]?\d+$`)

// ReadXML checks an element against its type in the service description and yields its value.
func ReadXML(s *spec.Shape, n *Node, ns string, path string) (interface{}, error) {
	bad := func(format string, a ...interface{}) (interface{}, error) {
		return nil, fmt.Errorf("%s: %s", path, fmt.Sprintf(format, a...))
	}
	if s.Kind == spec.Object {
		if s.CharData {
			out := map[string]interface{}{}
			for a, v := range n.Attrs {
				f := s.FieldByWire(a.Local)
				if f == nil || !f.Attr || a.Space != "" {
					return bad("attribute %v is not defined", a)
				}
				if err := checkText(f.Shape, v, path+"@"+a.Local); err != nil {
					return nil, err
				}
				out[f.Go] = v
			}
			if len(n.Kids) > 0 {
				return bad("has child elements")
			}
			out["Value"] = n.Text
			return out, nil
		}
		if len(n.Attrs) > 0 {
			return bad("has attributes %v", n.Attrs)
		}
		if strings.TrimSpace(n.Text) != "" {
			return bad("has text %q", n.Text)
		}
		out := map[string]interface{}{}
		i := 0
		for _, f := range s.Fields {
			want := xml.Name{Space: ns, Local: f.Wire}
			var got []*Node
			for i < len(n.Kids) && n.Kids[i].Name == want {
				got = append(got, n.Kids[i])
				i++
			}
			if f.Shape.Kind == spec.List {
				if len(got) < f.Shape.MinItems {
					return bad("%s is missing (children: %s)", f.Wire, names(n.Kids))
				}
				var l []interface{}
				for j, g := range got {
					if f.Shape.Elem.Flattened {
						items, err := readValues(f.Shape.Elem, g, ns, fmt.Sprintf("%s/%s[%d]", path, f.Wire, j))
						if err != nil {
							return nil, err
						}
						l = append(l, items...)
						continue
					}
					v, err := ReadXML(f.Shape.Elem, g, ns, fmt.Sprintf("%s/%s[%d]", path, f.Wire, j))
					if err != nil {
						return nil, err
					}
					l = append(l, v)
				}
				if len(l) > 0 && f.Go != "" {
					out[f.Go] = l
				}
				continue
			}
			if len(got) > 1 {
				return bad("%s occurs %d times", f.Wire, len(got))
			}
			if len(got) == 0 {
				if f.Required {
					return bad("%s is missing or out of order (children: %s)", f.Wire, names(n.Kids))
				}
				continue
			}
			v, err := ReadXML(f.Shape, got[0], ns, path+"/"+f.Wire)
			if err != nil {
				return nil, err
			}
			if f.Go != "" {
				out[f.Go] = v
			}
		}
		if i < len(n.Kids) {
			return bad("%v is not expected there (children: %s)", n.Kids[i].Name, names(n.Kids))
		}
		return out, nil
	}
	if len(n.Kids) > 0 || len(n.Attrs) > 0 {
		return bad("simple value with children or attributes")
	}
	if err := checkText(s, n.Text, path); err != nil {
		return nil, err
	}
	switch s.Kind {
	case spec.Int:
		i, err := strconv.ParseInt(strings.TrimSpace(n.Text), 10, 64)
		if err != nil {
			return bad("%v", err)
		}
		return i, nil
	case spec.Bool:
		t := strings.TrimSpace(n.Text)
		return t == "true" || t == "1", nil
	}
	return n.Text, nil
}

// readValues reads the items inside an element of type TransactionData.
func readValues(s *spec.Shape, n *Node, ns string, path string) ([]interface{}, error) {
	if len(n.Kids) == 0 || len(n.Attrs) > 0 || strings.TrimSpace(n.Text) != "" {
		return nil, fmt.Errorf("%s: expected elements values, found %s", path, names(n.Kids))
	}
	var out []interface{}
	for i, k := range n.Kids {
		if k.Name != (xml.Name{Space: ns, Local: "values"}) {
			return nil, fmt.Errorf("%s: expected elements values, found %s", path, names(n.Kids))
		}
		v, err := ReadXML(s, k, ns, fmt.Sprintf("%s/values[%d]", path, i))
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}

func names(l []*Node) string {
	var b []string
	for _, n := range l {
		b = append(b, n.Name.Local)
	}
	return strings.Join(b, " ")
}

func checkText(s *spec.Shape, t, path string) error {
	switch s.Kind {
	case spec.String:
		if len(s.Enum) > 0 {
			for _, e := range s.Enum {
				if e == t {
					return nil
				}
			}
			return fmt.Errorf("%s: %q is not one of %v", path, t, s.Enum)
		}
		if s.MaxLen > 0 && utf8.RuneCountInString(t) > s.MaxLen {
			return fmt.Errorf("%s: longer than %d", path, s.MaxLen)
		}
	case spec.Int:
		t = strings.TrimSpace(t)
		if !xsdInt.MatchString(t) {
			return fmt.Errorf("%s: %q is not an xsd:int", path, t)
		}
		n, _ := new(big.Int).SetString(strings.TrimPrefix(t, "+"), 10)
		if n == nil || !n.IsInt64() || n.Int64() > 1<<31-1 || n.Int64() < -(1<<31) {
			return fmt.Errorf("%s: %q is out of range of xsd:int", path, t)
		}
	case spec.Bool:
		switch strings.TrimSpace(t) {
		case "true", "false", "0", "1":
		default:
			return fmt.Errorf("%s: %q is not an xsd:boolean", path, t)
		}
	case spec.Time:
		if !xsdTime.MatchString(t) {
			return fmt.Errorf("%s: %q is not an xsd:dateTime", path, t)
		}
		if _, err := time.Parse(time.RFC3339Nano, t); err != nil {
			return fmt.Errorf("%s: %v", path, err)
		}
	}
	return nil
}

// XStyle is one of the many spellings XML allows.
type XStyle struct {
	Prefix string `json:"prefix,omitempty"` // namespace prefix of the elements, "" = default namespace
	Indent bool   `json:"indent,omitempty"`
	Text   int    `json:"text,omitempty"` // 0 entities, 1 character references, 2 CDATA
	Empty  bool   `json:"empty,omitempty"`
	Pad    bool   `json:"pad,omitempty"` // white space around integers and booleans, 1 for true
	Notes  bool   `json:"notes,omitempty"`
	Group  int    `json:"group,omitempty"` // more values that share a transactionData element
	Hash   bool   `json:"hash,omitempty"`  // also elements the library has no field for
}

// DrawStyle draws a spelling.
func DrawStyle(rt *rapid.T) XStyle {
	return XStyle{
		Prefix: rapid.SampledFrom([]string{"", "", "ocpp", "ns1", "S2"}).Draw(rt, "prefix"),
		Indent: rapid.Bool().Draw(rt, "indent"), Text: rapid.IntRange(0, 2).Draw(rt, "text style"),
		Empty: rapid.Bool().Draw(rt, "selfclosing"), Pad: rapid.IntRange(0, 3).Draw(rt, "pad") == 0,
		Notes: rapid.IntRange(0, 3).Draw(rt, "comments") == 0,
		Group: rapid.IntRange(0, 2).Draw(rt, "group"), Hash: rapid.IntRange(0, 3).Draw(rt, "hash") == 0,
	}
}

// WriteXML is the reference encoding of a message as a body element.
func WriteXML(m Msg, st XStyle) string {
	k, resp := spec.ByType(m.T)
	s := k.XMLReq
	if resp {
		s = k.XMLResp
	}
	return WriteXMLAs(k.XMLName(resp), k.NS(), s, m.V, st)
}

// WriteXMLAs writes under any root name and namespace.
func WriteXMLAs(root, ns string, s *spec.Shape, v map[string]interface{}, st XStyle) string {
	w := &xwriter{st: st}
	decl := `xmlns="` + ns + `"`
	if st.Prefix != "" {
		decl = `xmlns:` + st.Prefix + `="` + ns + `"`
	}
	w.element(root, decl, s, v, 0)
	return w.b.String()
}

type xwriter struct {
	b  strings.Builder
	st XStyle
}

func (w *xwriter) name(n string) string {
	if w.st.Prefix != "" {
		return w.st.Prefix + ":" + n
	}
	return n
}

func (w *xwriter) nl(depth int) {
	if w.st.Indent {
		w.b.WriteString("\n" + strings.Repeat("  ", depth))
	}
	if w.st.Notes {
		w.b.WriteString("<!-- note <idTag>x</idTag> -->")
	}
}

func (w *xwriter) open(n, attrs string) {
	w.b.WriteString("<" + w.name(n))
	if attrs != "" {
		w.b.WriteString(" " + attrs)
	}
}

func (w *xwriter) element(n, attrs string, s *spec.Shape, v interface{}, depth int) {
	if s.Kind != spec.Object {
		w.leaf(n, attrs, s, v)
		return
	}
	m := v.(map[string]interface{})
	if s.CharData {
		for _, f := range s.Fields {
			if x, ok := m[f.Go]; ok && f.Attr {
				attrs += ` ` + f.Wire + `="` + Esc(x.(string), 1) + `"`
			}
		}
		w.open(n, strings.TrimSpace(attrs))
		w.b.WriteString(">")
		t, _ := m["Value"].(string)
		w.b.WriteString(Esc(t, w.st.Text))
		w.b.WriteString("</" + w.name(n) + ">")
		return
	}
	w.open(n, attrs)
	if len(m) == 0 && w.st.Empty && !w.st.Hash {
		w.b.WriteString("/>")
		return
	}
	w.b.WriteString(">")
	for _, f := range s.Fields {
		if f.Go == "" && w.st.Hash {
			w.nl(depth + 1)
			w.leaf(f.Wire, "", f.Shape, "a1b2")
		}
		x, ok := m[f.Go]
		if !ok || f.Go == "" {
			continue
		}
		if f.Shape.Kind == spec.List && f.Shape.Elem.Flattened {
			// every element holds one or more "values", each an item of the library's list
			l := x.([]interface{})
			plain := *f.Shape.Elem
			plain.Flattened = false
			for len(l) > 0 {
				g := min(len(l), 1+w.st.Group)
				w.nl(depth + 1)
				w.open(f.Wire, "")
				w.b.WriteString(">")
				for _, e := range l[:g] {
					w.element("values", "", &plain, e, depth+2)
				}
				w.b.WriteString("</" + w.name(f.Wire) + ">")
				l = l[g:]
			}
			continue
		}
		if f.Shape.Kind == spec.List {
			for _, e := range x.([]interface{}) {
				w.nl(depth + 1)
				w.element(f.Wire, "", f.Shape.Elem, e, depth+1)
			}
			continue
		}
		w.nl(depth + 1)
		w.element(f.Wire, "", f.Shape, x, depth+1)
	}
	w.nl(depth)
	w.b.WriteString("</" + w.name(n) + ">")
}

func (w *xwriter) leaf(n, attrs string, s *spec.Shape, v interface{}) {
	var t string
	switch s.Kind {
	case spec.Int:
		t = strconv.FormatInt(int64(num(v)), 10)
		if w.st.Pad {
			t = "\n " + t + "\t"
		}
	case spec.Bool:
		t = strconv.FormatBool(v.(bool))
		if w.st.Pad {
			t = map[bool]string{true: "1", false: "0"}[v.(bool)]
		}
	case spec.Time:
		t = v.(string)
	default:
		t = Esc(v.(string), w.st.Text)
	}
	w.open(n, attrs)
	if t == "" && w.st.Empty {
		w.b.WriteString("/>")
		return
	}
	w.b.WriteString(">" + t + "</" + w.name(n) + ">")
}

// Esc escapes a text: 0 with entities, 1 with character references, 2 as CDATA.
func Esc(s string, style int) string {
	if style == 2 && s != "" && !strings.ContainsAny(s, "\r") {
		return "<![CDATA[" + strings.ReplaceAll(s, "]]>", "]]]]><![CDATA[>") + "]]>"
	}
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == '>':
			b.WriteString("&gt;")
		case r == '"':
			b.WriteString("&quot;")
		case r == '\r' || style == 1 && (r > 0x7e || r < 0x20):
			fmt.Fprintf(&b, "&#x%X;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

const (
	SOAPNS = "http://www.w3.org/2003/05/soap-envelope"
	WSANS  = "http://www.w3.org/2005/08/addressing"
)

// Envelope is a SOAP 1.2 envelope of a request, as a foreign implementation may write it.
func Envelope(identity, ns, action, body string, st XStyle) string {
	p := "S"
	if st.Prefix == "ns1" {
		p = "soap"
	}
	nl := ""
	if st.Indent {
		nl = "\n  "
	}
	var b strings.Builder
	if st.Notes || st.Indent {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	fmt.Fprintf(&b, `<%s:Envelope xmlns:%s="%s">%s<%s:Header xmlns:wsa="%s">`, p, p, SOAPNS, nl, p, WSANS)
	fmt.Fprintf(&b, `%s<wsa:Action>/%s</wsa:Action><wsa:MessageID>uuid:1-2-3</wsa:MessageID>`, nl, action)
	if st.Prefix != "" {
		fmt.Fprintf(&b, `<wsa:From><wsa:Address>http://127.0.0.1:1/x</wsa:Address></wsa:From><o:chargeBoxIdentity xmlns:o="%s">%s</o:chargeBoxIdentity>`, ns, Esc(identity, st.Text))
	} else {
		fmt.Fprintf(&b, `<chargeBoxIdentity xmlns="%s">%s</chargeBoxIdentity>`, ns, Esc(identity, st.Text))
	}
	fmt.Fprintf(&b, `</%s:Header>%s<%s:Body>%s</%s:Body>%s</%s:Envelope>`, p, nl, p, body, p, nl, p)
	return b.String()
}

// SoapReply is an envelope around a response body.
func SoapReply(body string) string {
	return `<S:Envelope xmlns:S="` + SOAPNS + `"><S:Body>` + body + `</S:Body></S:Envelope>`
}
