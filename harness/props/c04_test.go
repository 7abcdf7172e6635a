package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/gorilla/websocket"
	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp/messages"

	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// classes of a received message, by an independent reading of OCPP-J
const (
	isCall      = "call"
	isAnswer    = "answer"
	isMalformed = "malformed"
	isUnclear   = "unclear" // judging it would depend on details the property leaves open
)

// classifyFrame tells what a websocket message is. id is set for calls and answers.
func classifyFrame(b []byte) (class, id string) {
	class, id = classify1(b)
	// readers may differ in how they treat white space around and line breaks inside
	clean := bytes.TrimSpace(bytes.ReplaceAll(b, []byte("\n"), []byte(" ")))
	if c2, id2 := classify1(clean); c2 != class || id2 != id {
		return isUnclear, ""
	}
	if class != isMalformed && !utf8.Valid(b) {
		return isUnclear, ""
	}
	return
}

func classify1(b []byte) (class, id string) {
	v, err := gen.ParseJSON(b)
	if err != nil {
		// the parsers agree on what JSON is, except that this one keeps big numbers
		return isMalformed, ""
	}
	l, ok := v.([]interface{})
	if !ok || len(l) < 2 {
		return isMalformed, ""
	}
	t, ok := l[0].(json.Number)
	if !ok {
		return isMalformed, ""
	}
	id, ok = l[1].(string)
	if !ok {
		return isMalformed, ""
	}
	if s := string(t); s != "2" && s != "3" && s != "4" {
		if r, ok := new(big.Rat).SetString(s); ok && r.IsInt() && r.Num().IsInt64() {
			if n := r.Num().Int64(); n >= 2 && n <= 4 {
				return isUnclear, "" // 2.0, 0.2e1
			}
		}
		return isMalformed, ""
	}
	if strings.Contains(string(b), "e") || strings.Contains(string(b), "E") {
		if hasHugeNumber(v) {
			return isUnclear, ""
		}
	}
	isObj := func(i int) bool { _, ok := l[i].(map[string]interface{}); return ok }
	isStr := func(i int) bool { _, ok := l[i].(string); return ok }
	switch t {
	case "2":
		if len(l) == 4 && isStr(2) && isObj(3) {
			return isCall, id
		}
	case "3":
		if len(l) == 3 && isObj(2) {
			return isAnswer, id
		}
	case "4":
		if len(l) == 5 && isStr(2) && isStr(3) && isObj(4) {
			return isAnswer, id
		}
	}
	return isMalformed, ""
}

func hasHugeNumber(v interface{}) bool {
	switch x := v.(type) {
	case json.Number:
		f, err := x.Float64()
		return err != nil || f > 1e300 || f < -1e300
	case []interface{}:
		for _, e := range x {
			if hasHugeNumber(e) {
				return true
			}
		}
	case map[string]interface{}:
		for _, e := range x {
			if hasHugeNumber(e) {
				return true
			}
		}
	}
	return false
}

type c04Msg struct {
	Data   []byte `json:"data"` // base64 in the replay file
	Text   string `json:"text,omitempty"`
	Binary bool   `json:"binary,omitempty"`
	// Call is a well-formed call the peer makes, with the answer it must get
	Call bool `json:"call,omitempty"`
	// Ping is a ping with the payload Data
	Ping bool `json:"ping,omitempty"`
	// Parts > 0 sends the message in so many fragments, with pings in between if Pings
	Parts int  `json:"parts,omitempty"`
	Pings bool `json:"pings,omitempty"`
	// Out starts a request of the endpoint, which is answered correctly at the end
	Out bool `json:"out,omitempty"`
	// Fake is a template for malformed answers to the oldest outstanding request: %ID% is
	// replaced by its message id
	Fake string `json:"fake,omitempty"`
}

type c04Case struct {
	AtCS bool     `json:"atCS"`
	Msgs []c04Msg `json:"msgs"`
}

var frameScraps = []string{
	"", " ", "[", "]", "[]", "[[]]", "{}", "null", "true", "0", "\"x\"", "[2]", "[3]", "[4]", "[5]", "[2,\"a\"]", "[3,\"a\"]", "[4,\"a\"]",
	"[2,\"a\",\"Heartbeat\"]", "[2,\"a\",\"Reset\"]", "[4,\"a\",\"GenericError\"]", "[4,\"a\",\"GenericError\",\"\"]", "[4,\"a\",\"GenericError\",\"\",null]",
	"[2,\"a\",\"Heartbeat\",null]", "[2,\"a\",\"Heartbeat\",[]]", "[2,\"a\",\"Heartbeat\",\"{}\"]", "[2,\"a\",null,{}]", "[2,null,\"Heartbeat\",{}]",
	"[2,1,\"Heartbeat\",{}]", "[\"2\",\"a\",\"Heartbeat\",{}]", "[null]", "[{}]", "[[2,\"a\",\"Heartbeat\",{}]]", "[2,\"a\",\"Heartbeat\",{},{}]",
	"[3,\"a\",{},{}]", "[3,\"a\",null]", "[3,\"a\",\"{}\"]", "[3,\"a\",[]]", "[3,null,{}]", "[3,\"a\",{}]", "[4,\"a\",\"GenericError\",\"d\",{}]", "[3,\"\",{}]",
	"[0,\"a\",{}]", "[1,\"a\",{}]", "[5,\"a\",{}]", "[6,\"a\",\"Heartbeat\",{}]", "[-2,\"a\",\"Heartbeat\",{}]", "[2.5,\"a\",\"Heartbeat\",{}]", "[1e400,\"a\",{}]",
	"[99999999999999999999,\"a\",{}]", "[true,\"a\",\"Heartbeat\",{}]", "{\"0\":2}", "[2,\"a\",\"Heartbeat\",{}] x", "[2,\"a\",\"Heartbeat\",{}][]", "[2,\"a\",\"Heartbeat\",{}",
	"[2,\"a\",\"Heartbeat\",{\"a\":}]", "\x00", "\xff\xfe", "\xef\xbb\xbf[2,\"a\",\"Heartbeat\",{}]", "[2,'a','Heartbeat',{}]", "NaN", "[NaN]", "[,]", "[2,,]",
}

var fakeAnswers = []string{
	"[3,%ID%]", "[3,%ID%,null]", "[3,%ID%,[]]", "[3,%ID%,\"\"]", "[3,%ID%,{},{}]", "[4,%ID%]", "[4,%ID%,\"GenericError\"]", "[4,%ID%,\"GenericError\",\"x\"]",
	"[4,%ID%,null,\"x\",{}]", "[4,%ID%,\"GenericError\",null,{}]", "[4,%ID%,\"GenericError\",\"x\",[]]", "[5,%ID%,{}]", "[0,%ID%,{}]", "[\"3\",%ID%,{}]", "{\"3\":%ID%}", "[3,[%ID%],{}]",
}

// drawGarbage makes a message that is no well-formed call.
func drawGarbage(rt *rapid.T, atCS bool) c04Msg {
	var b []byte
	var m c04Msg
	switch rapid.IntRange(0, 7).Draw(rt, "garbage class") {
	case 0, 1:
		b = []byte(rapid.SampledFrom(frameScraps).Draw(rt, "scrap"))
	case 2:
		b = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "bytes")
	case 3: // random JSON array
		b = []byte(gen.WriteJSON(rt, drawJSON(rt, 3)))
	case 4: // array of plausible things
		n := rapid.IntRange(0, 7).Draw(rt, "n")
		l := []interface{}{}
		for i := 0; i < n; i++ {
			l = append(l, rapid.SampledFrom([]interface{}{json.Number("2"), json.Number("3"), json.Number("4"), "id", "Heartbeat", "Reset", "GenericError", "", nil, true,
				map[string]interface{}{}, []interface{}{}, json.Number("-1"), map[string]interface{}{"type": "Soft"}}).Draw(rt, "e"))
		}
		b = []byte(gen.WriteJSON(rt, l))
	case 5: // a damaged well-formed message
		k := rapid.SampledFrom(receivedBy(atCS)).Draw(rt, "kind")
		good := callFrame("dmg", k.Action, gen.WriteJSON(rt, gen.ToJSON(gen.Draw(rt, k.Req.String(), gen.Opts{Legal: true}))))
		i := rapid.IntRange(0, len(good)-1).Draw(rt, "at")
		switch rapid.IntRange(0, 2).Draw(rt, "damage") {
		case 0:
			b = good[:i]
		case 1:
			b = append(append([]byte{}, good[:i]...), good[i+1:]...)
		default:
			b = append([]byte{}, good...)
			b[i] = rapid.SampledFrom([]byte("[]{}\",:0 \x00\xffaZ2")).Draw(rt, "by")
		}
	case 6: // large or deep
		c := rapid.SampledFrom([]string{"[", "{\"a\":", "\"", "1", " ", "[2,"}).Draw(rt, "unit")
		b = []byte(strings.Repeat(c, 1<<uint(rapid.IntRange(0, 14).Draw(rt, "pow"))))
	default: // unsolicited well-formed answers
		b = []byte(rapid.SampledFrom([]string{"[3,\"nobody\",{}]", "[3,\"\",{}]", "[4,\"nobody\",\"InternalError\",\"x\",{}]", "[3,\"a\",{\"status\":\"Accepted\"}]", "[4,\"\",\"\",\"\",{\"a\":[1]}]"}).Draw(rt, "unsolicited"))
	}
	m.Binary = rapid.IntRange(0, 4).Draw(rt, "binary") == 0
	if c, _ := classifyFrame(b); c == isCall || c == isUnclear {
		b, m.Binary = []byte("[2,\"a\"]"), false
	}
	m.Data = b
	if len(b) < 200 {
		m.Text = fmt.Sprintf("%q", b)
	}
	return m
}

func drawJSON(rt *rapid.T, depth int) interface{} {
	c := rapid.IntRange(0, 8).Draw(rt, "json")
	if depth == 0 {
		c = c % 5
	}
	switch c {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(rt, "b")
	case 2:
		return json.Number(rapid.SampledFrom([]string{"0", "2", "3", "4", "-1", "1.5", "1e10", "7"}).Draw(rt, "n"))
	case 3, 4:
		return gen.Text(rt, "s", false, 0, false)
	case 5:
		m := map[string]interface{}{}
		for i := rapid.IntRange(0, 3).Draw(rt, "n"); i > 0; i-- {
			m[rapid.SampledFrom([]string{"a", "b", "type", "status", ""}).Draw(rt, "k")] = drawJSON(rt, depth-1)
		}
		return m
	}
	l := []interface{}{}
	for i := rapid.IntRange(0, 5).Draw(rt, "n"); i > 0; i-- {
		l = append(l, drawJSON(rt, depth-1))
	}
	return l
}

func checkC04(c c04Case) (err error) {
	defer func() {
		if err != nil {
			dropSides()
		}
	}()
	s, err := getSide(c.AtCS)
	if err != nil {
		return err
	}
	type pending struct {
		id     string
		action string
		done   chan outcome
		answer string
	}
	var open []*pending
	s.setHandler(func(r messages.Request) (messages.Response, error) {
		return nil, errors.New("expected only in the checks of calls")
	})
	calls := map[string]bool{}
	// tolerated messages: an error reply to something that was no call
	also := func(f *frame) bool { return f.Type == 4 && !calls[f.ID] }
	var pings []string
	for len(s.raw.Pongs) > 0 {
		<-s.raw.Pongs
	}
	write := func(m c04Msg, t int, b []byte) error {
		if m.Parts == 0 {
			return s.raw.WriteMessage(t, b)
		}
		var ping []byte
		if m.Pings {
			ping = []byte("between")
			for i := 1; i < m.Parts; i++ {
				pings = append(pings, "between")
			}
		}
		return s.raw.SendParts(t, b, m.Parts, c.AtCS, ping)
	}
	for i, m := range c.Msgs {
		switch {
		case m.Ping:
			if err := s.raw.WriteControl(websocket.PingMessage, m.Data, time.Now().Add(30*time.Second)); err != nil {
				return fmt.Errorf("message %d could not be sent, the connection is gone: %v", i, err)
			}
			pings = append(pings, string(m.Data))
		case m.Out:
			k := spec.Filter(func(k *spec.Kind) bool { return k.FromCP != c.AtCS })[i%10]
			p := &pending{action: k.Action, answer: refPayload(minimal(k.Resp.String()))}
			p.done = s.start(libReq(minimal(k.Req.String())))
			for {
				f, err := s.next("the call " + k.Action)
				if err != nil {
					return fmt.Errorf("after message %d: %w", i, err)
				}
				if f.Type == 2 {
					p.id = f.ID
					break
				}
				if !also(f) {
					return fmt.Errorf("message %d: unexpected %s", i, hx.Quote(f.Raw))
				}
			}
			open = append(open, p)
		case m.Call:
			if err := s.barrierVia(func(b []byte) error { return write(m, websocket.TextMessage, b) }, also); err != nil {
				return fmt.Errorf("message %d: %w", i, err)
			}
		default:
			b := m.Data
			if m.Fake != "" {
				id := "\"x\""
				if len(open) > 0 {
					id = jq(open[0].id)
				}
				b = []byte(strings.ReplaceAll(m.Fake, "%ID%", id))
			}
			t := websocket.TextMessage
			if m.Binary {
				t = websocket.BinaryMessage
			}
			if err := write(m, t, b); err != nil {
				return fmt.Errorf("message %d could not be sent, the connection is gone: %v", i, err)
			}
		}
	}
	if err := s.barrier(also); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	for i, p := range pings {
		got, err := hx.Recv(s.raw.Pongs, fmt.Sprintf("the pong for ping %d of %d", i, len(pings)))
		if err != nil {
			return err
		}
		if got != p {
			return fmt.Errorf("ping %d of %d carries %q, but its pong %q", i, len(pings), p, got)
		}
	}
	if got := s.taken(); len(got) != 0 {
		return fmt.Errorf("the handler ran for a malformed message, with %T %s", got[0], hx.Quote(got[0]))
	}
	for _, p := range open {
		select {
		case o := <-p.done:
			return fmt.Errorf("a malformed message completed the outstanding %s: %v, %v", p.action, o.resp, o.err)
		default:
		}
	}
	for _, p := range open {
		if err := s.raw.Send(resultFrame(p.id, p.answer)); err != nil {
			return fmt.Errorf("the connection is gone: %v", err)
		}
		o, err := hx.Recv(p.done, "the return of the outstanding "+p.action)
		if err != nil {
			return err
		}
		if o.err != nil {
			return fmt.Errorf("the outstanding %s failed: %v", p.action, o.err)
		}
	}
	return s.barrier(also)
}

func drawC04(rt *rapid.T) c04Case {
	c := c04Case{AtCS: rapid.Bool().Draw(rt, "atCS")}
	n := rapid.IntRange(1, 10).Draw(rt, "n")
	outs := 0
	for i := 0; i < n; i++ {
		parts, pings := 0, false
		if rapid.IntRange(0, 5).Draw(rt, "in fragments") == 0 {
			parts = rapid.IntRange(1, 5).Draw(rt, "fragments")
			pings = rapid.Bool().Draw(rt, "pings")
		}
		switch k := rapid.IntRange(0, 10).Draw(rt, "what"); {
		case k == 10:
			c.Msgs = append(c.Msgs, c04Msg{Ping: true, Data: rapid.SliceOfN(rapid.Byte(), 0, 125).Draw(rt, "ping")})
		case k == 0:
			c.Msgs = append(c.Msgs, c04Msg{Call: true, Parts: parts, Pings: pings})
		case k == 1 && outs < 3:
			outs++
			c.Msgs = append(c.Msgs, c04Msg{Out: true})
		case k == 2 && outs > 0:
			c.Msgs = append(c.Msgs, c04Msg{Fake: rapid.SampledFrom(fakeAnswers).Draw(rt, "fake")})
		default:
			m := drawGarbage(rt, c.AtCS)
			m.Parts, m.Pings = parts, pings
			c.Msgs = append(c.Msgs, m)
		}
	}
	return c
}

func TestC04(t *testing.T) {
	hx.Run(t, hx.Part[c04Case]{
		Property: "C04", Name: "garbage",
		Rule:   "a case is a conversation of 1-10 messages of a raw peer with one library endpoint: scraps, random bytes, random JSON, damaged calls, huge or deep input, malformed answers to outstanding requests, unsolicited answers, text or binary, whole or in fragments, with pings, well-formed calls and outstanding requests in between; non-trivial if it contains a malformed message",
		Budget: hx.Budget{Quick: 12000, Thorough: 300000, QuickSecs: 60},
		Draw:   drawC04,
		Classify: func(c c04Case) (bool, []string) {
			nt := false
			cl := []string{fmt.Sprintf("atCS=%v", c.AtCS)}
			for _, m := range c.Msgs {
				if m.Parts > 1 {
					cl = append(cl, "fragments")
				}
				switch {
				case m.Ping:
					cl = append(cl, "ping")
				case m.Call:
					cl = append(cl, "call")
				case m.Out:
					cl = append(cl, "outstanding request")
				case m.Fake != "":
					nt = true
					cl = append(cl, "malformed answer")
				default:
					nt = true
					class, _ := classifyFrame(m.Data)
					if m.Binary {
						class = "binary " + class
					}
					cl = append(cl, class)
				}
			}
			return nt, cl
		},
		Check: checkC04,
	})
}
