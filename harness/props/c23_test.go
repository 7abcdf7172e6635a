package props

import (
	"errors"
	"fmt"
	"reflect"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"

	"vharness/fx"
	"vharness/gen"
	"vharness/hx"
	"vharness/spec"
)

// C23: messages belong to the program, not to the library.

type c23Case struct {
	Soap bool    `json:"soap,omitempty"`
	Req  gen.Msg `json:"req"`
	Resp gen.Msg `json:"resp"`
	// Req2 are the values the request object gets after it was sent
	Req2 gen.Msg `json:"req2"`
	// Senders are the targets of the goroutines that send the request at the same time, Each times
	Senders []int `json:"senders"`
	Each    int   `json:"each"`
	// OwnResp: every run of a handler returns an own object, not the common one
	OwnResp bool `json:"ownResp,omitempty"`
	// Spoil tells of each run of a handler, and each response, in turn whether its receiver writes over it at once
	SpoilReq  []bool `json:"spoilReq"`
	SpoilResp []bool `json:"spoilResp"`
	// Linger is how long the receivers keep writing, in µs; Aside: they do so on their own, while
	// the handler returns
	Linger int  `json:"linger,omitempty"`
	Aside  bool `json:"aside,omitempty"`
}

const c23Points = 3

type c23Rig struct {
	once  sync.Once
	err   error
	sys   *fx.CS
	json  [c23Points]*fx.Point
	soap  [c23Points]*fx.SoapCP
	cur   func(messages.Request) (messages.Response, error)
	curMu sync.RWMutex
}

var theC23Rig c23Rig

func (r *c23Rig) handle(q messages.Request) (messages.Response, error) {
	r.curMu.RLock()
	h := r.cur
	r.curMu.RUnlock()
	if h == nil {
		return nil, errors.New("no handler in the harness")
	}
	return h(q)
}

func (r *c23Rig) set(h func(messages.Request) (messages.Response, error)) {
	r.curMu.Lock()
	r.cur = h
	r.curMu.Unlock()
}

func (r *c23Rig) atPoint(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
	a, err := r.handle(q)
	if err != nil {
		return nil, err
	}
	return a.(csresp.CentralSystemResponse), nil
}

func (r *c23Rig) atCS(q cpreq.ChargePointRequest, _ cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
	a, err := r.handle(q)
	if err != nil {
		return nil, err
	}
	return a.(cpresp.ChargePointResponse), nil
}

func getC23Rig() (*c23Rig, error) {
	r := &theC23Rig
	r.once.Do(func() {
		if r.sys, r.err = fx.TheCS(); r.err != nil {
			return
		}
		for i := range r.json {
			id := fmt.Sprintf("c23-json-%d", i)
			r.sys.Handle(id, r.atCS)
			if r.json[i], r.err = r.sys.Connect(id, r.atPoint); r.err != nil {
				return
			}
			id = fmt.Sprintf("c23-soap-%d", i)
			r.sys.Handle(id, r.atCS)
			if r.soap[i], r.err = fx.NewSoapCP(id, r.sys.HTTP+"/"); r.err != nil {
				return
			}
			r.soap[i].SetHandler(r.atPoint)
		}
	})
	return r, r.err
}

// sender gives a function that sends to, or as, one of the charge points.
func (r *c23Rig) sender(fromCP, soap bool, i int) (func(messages.Request) (messages.Response, error), error) {
	if fromCP {
		p := r.json[i]
		if soap {
			p = r.soap[i].Point
		}
		return func(q messages.Request) (messages.Response, error) {
			a, err := p.CP.Send(q.(cpreq.ChargePointRequest))
			if a == nil {
				return nil, err
			}
			return a, err
		}, nil
	}
	id, v, url := r.json[i].ID, ocpp.V16, ""
	if soap {
		id, v, url = r.soap[i].ID, ocpp.V15, r.soap[i].URL
	}
	svc, err := r.sys.Sys.GetServiceOf(id, v, url)
	if err != nil {
		return nil, fmt.Errorf("no service for a charge point: %v", err)
	}
	return func(q messages.Request) (messages.Response, error) {
		a, err := svc.Send(q.(csreq.CentralSystemRequest))
		if a == nil {
			return nil, err
		}
		return a, err
	}, nil
}

// spoil writes over everything that can be reached from a message.
func spoil(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			spoil(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			spoil(v.Index(i))
		}
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			if v.CanSet() {
				v.Set(reflect.ValueOf(t.Add(12345 * time.Second)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				spoil(v.Field(i))
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			spoil(e)
			v.SetMapIndex(k, e)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + " spoilt")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 1)
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float() + 1)
		}
	}
}

func checkC23(c c23Case) error {
	libraryRaces() // those of what went before
	err := playC23(c)
	if r := libraryRaces(); r != "" {
		return fmt.Errorf("the library uses a message that belongs to the program:\n%s", r)
	}
	return err
}

func playC23(c c23Case) error {
	r, err := getC23Rig()
	if err != nil {
		return err
	}
	k, _ := spec.ByType(c.Req.T)
	type message struct {
		got    interface{}
		spoilt bool
	}
	var mu sync.Mutex
	var reqs, resps []message
	var aside sync.WaitGroup
	defer aside.Wait()
	take := func(list *[]message, spoils []bool, got interface{}, want gen.Msg) error {
		if err := gen.Same(want, got); err != nil {
			return err
		}
		mu.Lock()
		s := spoils[len(*list)%len(spoils)]
		*list = append(*list, message{got, s})
		mu.Unlock()
		if !s {
			return nil
		}
		over := func() {
			end := time.Now().Add(time.Duration(c.Linger) * time.Microsecond)
			for first := true; first || time.Now().Before(end); first = false {
				spoil(reflect.ValueOf(got))
			}
		}
		if !c.Aside {
			over()
			return nil
		}
		aside.Add(1)
		go func() {
			defer aside.Done()
			over()
		}()
		return nil
	}
	request, common := libReq(c.Req), libResp(c.Resp)
	wanted := c.Req
	var bad error
	r.set(func(q messages.Request) (messages.Response, error) {
		if err := take(&reqs, c.SpoilReq, q, wanted); err != nil {
			mu.Lock()
			if bad == nil {
				bad = fmt.Errorf("a handler got another request than was sent: %w", err)
			}
			mu.Unlock()
		}
		if c.OwnResp {
			return libResp(c.Resp), nil
		}
		return common, nil
	})
	defer r.set(nil)
	sends := make([]func(messages.Request) (messages.Response, error), len(c.Senders))
	for i, t := range c.Senders {
		if sends[i], err = r.sender(k.FromCP, c.Soap, t%c23Points); err != nil {
			return err
		}
	}
	round := func() error {
		errs := make([]error, len(sends))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i, send := range sends {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for n := 0; n < c.Each; n++ {
					got, err := send(request)
					if err != nil {
						errs[i] = fmt.Errorf("a request failed: %v", err)
						return
					}
					if err := take(&resps, c.SpoilResp, got, c.Resp); err != nil {
						errs[i] = fmt.Errorf("a caller got another response than was returned: %w", err)
						return
					}
				}
			}()
		}
		close(start)
		// the messages may be read while they are on their way
		for i := 0; i < 3; i++ {
			if err := gen.Same(wanted, request); err != nil {
				errs = append(errs, fmt.Errorf("a request was changed while it was sent: %w", err))
				break
			}
			if err := gen.Same(c.Resp, common); err != nil {
				errs = append(errs, fmt.Errorf("a response was changed while it was sent: %w", err))
				break
			}
		}
		wg.Wait()
		aside.Wait()
		mu.Lock()
		defer mu.Unlock()
		return errors.Join(append(errs, bad)...)
	}
	// kept judges what the program has kept.
	kept := func() error {
		if err := gen.Same(wanted, request); err != nil {
			return fmt.Errorf("a request was changed by sending it: %w", err)
		}
		if !reflect.DeepEqual(request, libReq(wanted)) {
			return errors.New("a request was changed by sending it, though it has the same meaning")
		}
		if err := gen.Same(c.Resp, common); err != nil {
			return fmt.Errorf("a response was changed by sending it: %w", err)
		}
		if !reflect.DeepEqual(common, libResp(c.Resp)) {
			return errors.New("a response was changed by sending it, though it has the same meaning")
		}
		for _, l := range []struct {
			list []message
			want gen.Msg
		}{{reqs, wanted}, {resps, c.Resp}} {
			seen := map[uintptr]bool{}
			for _, m := range l.list {
				v := reflect.ValueOf(m.got)
				if v.Elem().Type().Size() > 0 {
					if seen[v.Pointer()] {
						return fmt.Errorf("two receivers got the same %s object", l.want.T)
					}
					seen[v.Pointer()] = true
				}
				if !m.spoilt {
					if err := gen.Same(l.want, m.got); err != nil {
						return fmt.Errorf("a received message changed later: %w", err)
					}
				}
			}
		}
		return nil
	}
	if err := round(); err != nil {
		return err
	}
	if err := kept(); err != nil {
		return err
	}
	old := reqs
	mu.Lock()
	reqs, resps = nil, nil
	mu.Unlock()
	// the request object is used for something else
	reflect.ValueOf(request).Elem().Set(reflect.ValueOf(libReq(c.Req2)).Elem())
	wanted = c.Req2
	if err := round(); err != nil {
		return fmt.Errorf("with other values in the same request: %w", err)
	}
	if err := kept(); err != nil {
		return fmt.Errorf("with other values in the same request: %w", err)
	}
	for _, m := range old {
		if !m.spoilt {
			if err := gen.Same(c.Req, m.got); err != nil {
				return fmt.Errorf("a received message changed when the next one came: %w", err)
			}
		}
	}
	return nil
}

func TestC23(t *testing.T) {
	ocpp.SetDebugLogger(sink{})
	ocpp.SetErrorLogger(sink{})
	hx.Run(t, hx.Part[c23Case]{
		Property: "C23", Name: "objects",
		Rule:   "a case sends one request object from 1-6 goroutines to or as up to 3 charge points, 1-4 times each, all handlers returning one response object (or each its own), while it is read; the receivers of some requests and responses write over all they got, the others keep theirs; then the request object gets other values and all is repeated; under the race detector; non-trivial if two goroutines share an object or somebody writes",
		Budget: hx.Budget{Quick: 4000, Thorough: 60000, QuickSecs: 30, ThoroughSecs: 600},
		Draw: func(rt *rapid.T) c23Case {
			c := c23Case{Soap: rapid.IntRange(0, 2).Draw(rt, "soap") == 0, Each: rapid.IntRange(1, 4).Draw(rt, "each"), OwnResp: rapid.Bool().Draw(rt, "own responses")}
			var ks []*spec.Kind
			o := gen.Opts{Legal: true, XML: c.Soap}
			if c.Soap {
				ks = richKinds(soapKinds)
				c.Each = min(c.Each, 2)
			} else {
				// a DataTransfer that comes in is not supported
				ks = richKinds(spec.Filter(func(k *spec.Kind) bool { return k.JSONReq != nil && k.Action != "DataTransfer" }))
			}
			k := rapid.SampledFrom(ks).Draw(rt, "kind")
			c.Req, c.Req2, c.Resp = gen.Draw(rt, k.Req.String(), o), gen.Draw(rt, k.Req.String(), o), gen.Draw(rt, k.Resp.String(), o)
			c.Senders = rapid.SliceOfN(rapid.IntRange(0, c23Points-1), 1, 6).Draw(rt, "senders")
			c.SpoilReq = rapid.SliceOfN(rapid.Bool(), 1, 5).Draw(rt, "spoilt requests")
			c.SpoilResp = rapid.SliceOfN(rapid.Bool(), 1, 5).Draw(rt, "spoilt responses")
			c.Linger = rapid.SampledFrom([]int{0, 0, 100, 500}).Draw(rt, "linger")
			c.Aside = rapid.Bool().Draw(rt, "aside")
			return c
		},
		Classify: func(c c23Case) (bool, []string) {
			writes := false
			for _, b := range append(append([]bool{}, c.SpoilReq...), c.SpoilResp...) {
				writes = writes || b
			}
			return writes || len(c.Senders) > 1, []string{fmt.Sprintf("soap=%v senders=%d", c.Soap, len(c.Senders)), "kind " + c.Req.T}
		},
		Check: checkC23,
	})
}
