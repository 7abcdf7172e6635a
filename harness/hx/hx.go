// Package hx is the common machinery of the checks: parts (generated-input searches with an
// oracle), replay, statistics, waiting with an overload detector.
package hx

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	outDir   = flag.String("hx.out", "", "directory for statistics, in-flight and failure files")
	tier     = flag.String("hx.tier", "quick", "quick or thorough")
	seed     = flag.Uint64("hx.seed", 1, "seed (VERIF_SEED)")
	replay   = flag.String("hx.replay", "", "replay file")
	replayN  = flag.Int("hx.replayn", 1, "executions of the replayed case")
	only     = flag.String("hx.part", "", "run only this part")
	scale    = flag.Float64("hx.scale", 1, "scale of the number of cases")
	partSecs = flag.Float64("hx.partsecs", 0, "override of the soft time budget of a part, seconds")
)

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return *tier == "thorough" }

// Replaying reports whether one stored case is being re-executed.
func Replaying() bool { return *replay != "" }

// Budget is the number of cases of a part, and the soft limit of its duration.
type Budget struct {
	Quick, Thorough         int
	QuickSecs, ThoroughSecs float64
}

// Part describes one generated-input search.
type Part[C any] struct {
	Property string
	Name     string
	Rule     string // how cases are made and what makes one non-trivial
	Budget   Budget
	Draw     func(*rapid.T) C
	// Classify says whether the case is non-trivial and names the classes it falls in.
	Classify func(C) (bool, []string)
	// Check executes the case against the real code and judges it.
	Check func(C) error
	// HangSecs is how long one case may take before it counts as hung (default 200).
	HangSecs float64
	// NoShrink: cases are too expensive for shrinking; Check reduces them itself (see Reduced).
	NoShrink bool
}

type reduced struct {
	c   interface{}
	err error
}

func (r reduced) Error() string { return r.err.Error() }
func (r reduced) Unwrap() error { return r.err }

// Reduced is a result of Check that names a smaller case that should fail, too.
func Reduced(c interface{}, err error) error { return reduced{c, err} }

type failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Error    string          `json:"error,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// Stats is what a part covered; the driver merges the parts into the evidence file.
type Stats struct {
	Property    string            `json:"property"`
	Part        string            `json:"part"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"nontrivial"`
	Distinct    int               `json:"distinct_nontrivial"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Requested   int               `json:"requested"`
	Truncated   bool              `json:"truncated"`
	Excluded    int               `json:"excluded"`
	WallS       float64           `json:"wall_s"`
	MaxStallMs  int64             `json:"max_stall_ms"`
	Failed      bool              `json:"failed"`
	Notes       map[string]int64  `json:"notes,omitempty"`
}

type inconclusive struct{ msg string }

func (i inconclusive) Error() string { return "INCONCLUSIVE: " + i.msg }

// Inconclusive is a result of Check that says that the machine did not allow a judgement.
func Inconclusive(format string, a ...interface{}) error {
	return inconclusive{fmt.Sprintf(format, a...)}
}

// Harness is a result of Check that says the harness itself failed (never a violation).
type harnessErr struct{ msg string }

func (h harnessErr) Error() string { return "HARNESS: " + h.msg }

func Harness(format string, a ...interface{}) error { return harnessErr{fmt.Sprintf(format, a...)} }

var (
	notesMu sync.Mutex
	notes   map[string]int64
)

// Note adds to a counter reported in the evidence of the running part.
func Note(name string, n int64) {
	notesMu.Lock()
	if notes == nil {
		notes = map[string]int64{}
	}
	notes[name] += n
	notesMu.Unlock()
}

func path(name string) string { return filepath.Join(*outDir, name) }

func writeFile(name string, v interface{}) {
	if *outDir == "" {
		return
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path(name), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS: cannot write", err)
		os.Exit(3)
	}
}

// abort ends the process without a verdict.
func abort(kind string, err error) {
	fmt.Fprintf(os.Stderr, "\n%s: %v\n", kind, err)
	writeFile("abort.json", map[string]string{"kind": kind, "error": err.Error()})
	os.Exit(3)
}

const libPrefix = "github.com/voltbras/go-ocpp"

// Guarded runs f and turns a panic into an error: of the library, or of the harness.
func Guarded(f func() error) error { return guarded(f) }

// guarded runs f and turns a panic of the library into an error.
func guarded(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if strings.Contains(st, libPrefix) {
				err = fmt.Errorf("the library panicked: %v\n%s", r, trimStack(st))
				return
			}
			err = harnessErr{fmt.Sprintf("panic: %v\n%s", r, st)}
		}
	}()
	return f()
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

var (
	failing   atomic.Bool
	caseStart atomic.Int64 // start of the running case, 0 between cases
	failedAt  atomic.Int64 // first failure
)

// watch ends the process when shrinking takes too long (the failure is on record) or when a
// case hangs.
func watch(property, part string, hang float64, stop chan struct{}) {
	if hang == 0 {
		hang = 200
	}
	tk := time.NewTicker(time.Second)
	defer tk.Stop()
	for {
		select {
		case <-stop:
			return
		case <-tk.C:
		}
		if f := failedAt.Load(); f != 0 && time.Since(time.Unix(0, f)) > 75*time.Second {
			fmt.Fprintln(os.Stderr, "shrinking stopped")
			os.Exit(1)
		}
		cs := caseStart.Load()
		if cs == 0 || time.Since(time.Unix(0, cs)).Seconds() < hang {
			continue
		}
		if failing.Load() {
			fmt.Fprintln(os.Stderr, "shrinking stopped (a case hangs)")
			os.Exit(1)
		}
		buf := make([]byte, 1<<22)
		st := string(buf[:runtime.Stack(buf, true)])
		if stalledSince(time.Unix(0, cs)) > 10*time.Second {
			abort("INCONCLUSIVE", fmt.Errorf("a case took more than %v s on a stalled machine", hang))
		}
		if !strings.Contains(st, libPrefix) {
			fmt.Fprintln(os.Stderr, st)
			abort("HARNESS", errors.New("a case hangs outside the library"))
		}
		var rec failure
		b, err := os.ReadFile(path("inflight-" + part + ".json"))
		if err != nil || json.Unmarshal(b, &rec) != nil {
			abort("HARNESS", errors.New("a case hangs and is not on record"))
		}
		rec.Error = fmt.Sprintf("the case did not end within %v s; goroutines inside the library:\n%s", hang, libStacks(st))
		writeFile("failure-"+part+".json", rec)
		writeFile("first-"+part+".json", rec)
		os.Exit(1)
	}
}

func libStacks(st string) string {
	var out []string
	for _, g := range strings.Split(st, "\n\n") {
		if strings.Contains(g, libPrefix) && len(out) < 6 {
			out = append(out, trimStack(g))
		}
	}
	return strings.Join(out, "\n\n")
}

// Run runs the part.
func Run[C any](t *testing.T, p Part[C]) {
	t.Helper()
	if *only != "" && *only != p.Name {
		return
	}
	if *replay != "" {
		runReplay(t, p)
		return
	}
	n, secs := p.Budget.Quick, p.Budget.QuickSecs
	if secs == 0 {
		secs = 60
	}
	if Thorough() {
		n, secs = p.Budget.Thorough, p.Budget.ThoroughSecs
		if secs == 0 {
			secs = 600
		}
	}
	if *partSecs > 0 {
		secs = *partSecs
	}
	n = int(math.Max(1, float64(n)**scale))
	st := &Stats{Property: p.Property, Part: p.Name, Rule: p.Rule, Classes: map[string]int{}, Requested: n}
	seen := map[uint64]bool{}
	start := time.Now()
	notesMu.Lock()
	notes = nil
	notesMu.Unlock()
	ResetStall()
	failing.Store(false)

	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%s", *seed, p.Property, p.Name, *tier)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	for k, v := range map[string]string{
		"rapid.seed":       strconv.FormatUint(s, 10),
		"rapid.checks":     strconv.Itoa(n),
		"rapid.nofailfile": "true",
		"rapid.shrinktime": "20s",
	} {
		if err := flag.Set(k, v); err != nil {
			abort("HARNESS", err)
		}
	}
	finish := func() {
		st.WallS = time.Since(start).Seconds()
		st.MaxStallMs = MaxStall().Milliseconds()
		st.Distinct = len(seen)
		st.Failed = failing.Load()
		notesMu.Lock()
		st.Notes = notes
		notesMu.Unlock()
		writeFile("stats-"+p.Name+".json", st)
		if *outDir != "" {
			os.Remove(path("inflight-" + p.Name + ".json"))
		}
	}
	defer finish()
	stop := make(chan struct{})
	defer close(stop)
	caseStart.Store(0)
	failedAt.Store(0)
	go watch(p.Property, p.Name, p.HangSecs, stop)
	ok := t.Run(p.Name, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			if !failing.Load() && time.Since(start).Seconds() > secs {
				st.Truncated = true
				return
			}
			c := p.Draw(rt)
			raw, err := json.Marshal(c)
			if err != nil {
				abort("HARNESS", fmt.Errorf("case is not serialisable: %v", err))
			}
			if !failing.Load() {
				st.Evaluations++
				nt, classes := p.Classify(c)
				for _, cl := range classes {
					st.Classes[cl]++
				}
				if nt {
					st.Nontrivial++
					hh := fnv.New64a()
					hh.Write(raw)
					if k := hh.Sum64(); !seen[k] {
						seen[k] = true
						if len(st.Samples) < 4 && len(raw) < 1500 {
							st.Samples = append(st.Samples, raw)
						}
					}
				}
			}
			if p.NoShrink && failing.Load() {
				return
			}
			rec := failure{Property: p.Property, Part: p.Name, Case: raw}
			writeFile("inflight-"+p.Name+".json", rec)
			caseStart.Store(time.Now().UnixNano())
			err = execute(p, c)
			caseStart.Store(0)
			if err != nil {
				rec.Error = err.Error()
				failedAt.CompareAndSwap(0, time.Now().UnixNano())
				if !failing.Swap(true) {
					writeFile("first-"+p.Name+".json", rec)
				}
				var red reduced
				if errors.As(err, &red) {
					if b, err := json.Marshal(red.c); err == nil {
						rec.Case = b
					}
				}
				writeFile("failure-"+p.Name+".json", rec)
				rt.Fatalf("%s/%s: %v", p.Property, p.Name, err)
			}
		})
	})
	_ = ok
}

// execute judges one case, repeating it when the machine was too busy for a judgement.
func execute[C any](p Part[C], c C) error {
	var inc inconclusive
	var he harnessErr
	for i := 0; ; i++ {
		err := guarded(func() error { return p.Check(c) })
		if errors.As(err, &he) {
			abort("HARNESS", err)
		}
		if errors.As(err, &inc) {
			if i < 3 {
				Note("inconclusive_retries", 1)
				time.Sleep(time.Second)
				continue
			}
			abort("INCONCLUSIVE", err)
		}
		return err
	}
}

func runReplay[C any](t *testing.T, p Part[C]) {
	b, err := os.ReadFile(*replay)
	if err != nil {
		abort("HARNESS", err)
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		abort("HARNESS", err)
	}
	if f.Part != p.Name || f.Property != p.Property {
		return
	}
	var c C
	if err := json.Unmarshal(f.Case, &c); err != nil {
		abort("BADCASE", err)
	}
	writeFile("replayed.json", f)
	for i := 0; i < *replayN; i++ {
		if err := execute(p, c); err != nil {
			f.Error = err.Error()
			writeFile("failure-"+p.Name+".json", f)
			t.Fatalf("%s/%s: %v", p.Property, p.Name, err)
		}
	}
}

// Main is to be called by TestMain.
func Main(m *testing.M) {
	flag.Parse()
	if *outDir != "" {
		if err := os.MkdirAll(*outDir, 0o755); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	go stallMeter()
	os.Exit(m.Run())
}

// ---- waiting ----

var (
	stallMu  sync.Mutex
	stalls   []stall
	stallMax time.Duration
)

type stall struct {
	at time.Time
	d  time.Duration
}

const tick = 20 * time.Millisecond

func stallMeter() {
	last := time.Now()
	for {
		time.Sleep(tick)
		now := time.Now()
		d := now.Sub(last) - tick
		last = now
		if d > 100*time.Millisecond {
			stallMu.Lock()
			stalls = append(stalls, stall{now, d})
			stallMu.Unlock()
		}
		stallMu.Lock()
		if d > stallMax {
			stallMax = d
		}
		stallMu.Unlock()
	}
}

// ResetStall forgets the stalls seen so far.
func ResetStall() { stallMu.Lock(); stalls, stallMax = nil, 0; stallMu.Unlock() }

// MaxStall is the longest scheduling delay seen since the last reset.
func MaxStall() time.Duration { stallMu.Lock(); defer stallMu.Unlock(); return stallMax }

// stalledSince is the total time the process was not scheduled properly since t.
func stalledSince(t time.Time) (sum time.Duration) {
	stallMu.Lock()
	defer stallMu.Unlock()
	for _, s := range stalls {
		if s.at.After(t) {
			sum += s.d
		}
	}
	return
}

// Patience is how long something that must happen is awaited.
func Patience() time.Duration {
	if failing.Load() { // shrinking: the first failure was found with full patience
		return 4 * time.Second
	}
	return 20 * time.Second
}

// late says what a wait that began at start and ended without success means.
func late(start time.Time, what string) error {
	if s := stalledSince(start); s > 3*time.Second {
		return Inconclusive("%s did not happen in %v, but the machine stalled for %v", what, time.Since(start), s)
	}
	return fmt.Errorf("%s did not happen within %v", what, time.Since(start).Round(time.Second))
}

// Late is for waits not made with the functions below.
func Late(start time.Time, what string) error { return late(start, what) }

// Recv receives from ch, or reports that nothing came.
func Recv[T any](ch <-chan T, what string) (T, error) {
	start := time.Now()
	tm := time.NewTimer(Patience())
	defer tm.Stop()
	select {
	case v := <-ch:
		return v, nil
	case <-tm.C:
		select {
		case v := <-ch:
			return v, nil
		default:
		}
		var zero T
		return zero, late(start, what)
	}
}

// Eventually polls until f yields nil.
func Eventually(what string, f func() error) error {
	start := time.Now()
	d := time.Millisecond
	for {
		err := f()
		if err == nil {
			return nil
		}
		var he harnessErr
		if errors.As(err, &he) {
			return err
		}
		if time.Since(start) > Patience() {
			e := late(start, what)
			var inc inconclusive
			if errors.As(e, &inc) {
				return e
			}
			return fmt.Errorf("%v: %v", e, err)
		}
		time.Sleep(d)
		if d < 50*time.Millisecond {
			d *= 2
		}
	}
}

// Quote shortens a value for a message.
func Quote(v interface{}) string {
	var s string
	switch x := v.(type) {
	case []byte:
		s = string(x)
	case string:
		s = x
	default:
		b, err := json.Marshal(v)
		if err != nil {
			s = fmt.Sprintf("%+v", v)
		} else {
			s = string(b)
		}
	}
	if len(s) > 600 {
		s = s[:400] + fmt.Sprintf("...(%d bytes)...", len(s)) + s[len(s)-100:]
	}
	return s
}

// SortedKeys of a map.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// StalledSince is the total time the process was not scheduled properly since t.
func StalledSince(t time.Time) time.Duration { return stalledSince(t) }

// IsInconclusive reports whether an error stems from Inconclusive.
func IsInconclusive(err error) bool { var inc inconclusive; return errors.As(err, &inc) }
