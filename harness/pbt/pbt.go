// Package pbt is the small property-based-testing framework the checks run on.
//
// A property is a Def: a generator of JSON-serialisable cases (drawn with
// rapid, so failures shrink), an optional deterministic sweep over boundary
// cases, and a Check that is a pure function of the case.  Because Check
// takes the concrete case and nothing else, a shrunk failure is written out
// as JSON and replayed without rapid.
package pbt

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/harness/keep"
	"verif/harness/tape"
)

// Def describes one property over cases of type C.
type Def[C any] struct {
	ID          string
	Rule        string // how cases are made and what makes one non-trivial
	Assumptions []string
	Gen         func(t *rapid.T) C
	// Sweep enumerates boundary cases deterministically (no randomness).
	Sweep func(thorough bool, yield func(C))
	Check func(c C) error
	// Classify says whether the case is non-trivial and gives its labels.
	Classify func(c C) (nontrivial bool, labels []string)
	Quick    int // random cases in the quick tier, all shards together
	Thorough int
	Race     bool // must run in the race-detector build
	// CaseCPU overrides the per-case processor-time limit, in seconds.
	CaseCPU float64
	// History: one random draw in so many is a history: a case, one to three
	// near-identical ones and the case again, in one process (0: 8; -1: none).
	History int
	// NoKeep: do not require that compared results stay as they were (the
	// check changes them itself, or runs several goroutines).
	NoKeep bool
}

// Runner is a Def with its case type hidden.
type Runner interface {
	Name() string
	RuleText() string
	Assumes() []string
	NeedsRace() bool
	Budget(thorough bool) int
	CPULimit() float64
	// CheckJSON runs one serialised case.
	CheckJSON(raw json.RawMessage, rec *Recorder) error
	// RunSweep runs this shard's part of the sweep; the first failure stops it.
	RunSweep(thorough bool, shard, shards int, rec *Recorder)
	// RunRandom runs n random cases through rapid.
	RunRandom(n int, seed uint64, rec *Recorder)
	// Draw generates a case.
	Draw(t *rapid.T) json.RawMessage
	// Try checks a case without recording anything. It may be called from
	// several goroutines while keep is off.
	Try(raw json.RawMessage) error
	// SampleJSON generates n example cases.
	SampleJSON(n int) []json.RawMessage
}

var registry = map[string]Runner{}

// Register adds a property.
func Register[C any](d Def[C]) {
	if _, dup := registry[d.ID]; dup {
		panic("duplicate property " + d.ID)
	}
	if d.History == 0 {
		d.History = 8
	}
	registry[d.ID] = &runner[C]{d}
}

// Lookup finds a property by id.
func Lookup(id string) Runner { return registry[id] }

// IDs lists the registered properties.
func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Failure is a failing case.
type Failure struct {
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error"`
	Stage string          `json:"stage"`
}

// Recorder collects what a worker did.
type Recorder struct {
	// Deadline, when set, is when to stop generating cases.
	Deadline time.Time

	Evals      int
	Histories  int
	Labels     map[string]int
	Nontrivial map[uint64]struct{}
	Samples    []json.RawMessage
	sampled    map[string]bool
	Fail       *Failure
	Stage      string
	last       json.RawMessage
	Journal    func(raw []byte) // called before each case
	Done       func()           // called after each case
}

// NewRecorder makes an empty recorder.
func NewRecorder() *Recorder {
	return &Recorder{Labels: map[string]int{}, Nontrivial: map[uint64]struct{}{}, sampled: map[string]bool{},
		Journal: func([]byte) {}, Done: func() {}}
}

type runner[C any] struct{ d Def[C] }

func (r *runner[C]) Name() string      { return r.d.ID }
func (r *runner[C]) RuleText() string  { return r.d.Rule }
func (r *runner[C]) Assumes() []string { return r.d.Assumptions }
func (r *runner[C]) NeedsRace() bool   { return r.d.Race }
func (r *runner[C]) CPULimit() float64 {
	if r.d.CaseCPU > 0 {
		return r.d.CaseCPU
	}
	return 40
}
func (r *runner[C]) Budget(thorough bool) int {
	if thorough {
		return r.d.Thorough
	}
	return r.d.Quick
}

func (r *runner[C]) CheckJSON(raw json.RawMessage, rec *Recorder) error {
	cases := []json.RawMessage{raw}
	if strings.Contains(string(raw[:min(len(raw), 80)]), `"$history"`) {
		var h history
		if err := json.Unmarshal(raw, &h); err != nil {
			return fmt.Errorf("replay file does not hold a history of %s: %v", r.d.ID, err)
		}
		cases = h.Cases
	}
	for k, raw := range cases {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return fmt.Errorf("replay file does not hold a case of %s: %v", r.d.ID, err)
		}
		if err := r.one(c, rec, len(cases) > 1, cases[:k:k]...); err != "" {
			return fmt.Errorf("%s", err)
		}
	}
	return nil
}

func (r *runner[C]) Draw(t *rapid.T) json.RawMessage {
	raw, err := json.Marshal(r.d.Gen(t))
	if err != nil {
		panic(err)
	}
	return raw
}

func (r *runner[C]) Try(raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return fmt.Errorf("not a case of %s: %v", r.d.ID, err)
	}
	if msg := guarded(func() error { return r.d.Check(c) }); msg != "" {
		return errors.New(msg)
	}
	return nil
}

// history is a list of cases checked one after another in one process; the
// last one fails.
type history struct {
	Cases []json.RawMessage `json:"$history"`
}

// histories checks a case, near-identical ones, and the case again.
func (r *runner[C]) histories(t *rapid.T, rec *Recorder) bool {
	var first C
	tp := tape.Record(func() { first = r.d.Gen(t) })
	cases := []C{first}
	for k := 1 + tape.Pick(t, 3, "relatives"); k > 0; k-- {
		tape.Replay(t, tp, func() { cases = append(cases, r.d.Gen(t)) })
	}
	cases = append(cases, first)
	var past []json.RawMessage
	rec.Histories++
	for _, c := range cases {
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		var fresh C // the case may be checked twice, and what it holds may have been changed
		if err := json.Unmarshal(raw, &fresh); err != nil {
			panic(err)
		}
		if r.one(fresh, rec, true, past...) != "" {
			return false
		}
		past = append(past, raw)
	}
	return true
}

// one runs and records a case; "" means it held.
func (r *runner[C]) one(c C, rec *Recorder, hist bool, past ...json.RawMessage) (msg string) {
	raw, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	rec.Evals++
	nt, labels := r.d.Classify(c)
	for _, l := range labels {
		rec.Labels[l]++
	}
	if nt {
		h := sha256.Sum256(raw)
		rec.Nontrivial[binary.LittleEndian.Uint64(h[:])] = struct{}{}
		if len(rec.Samples) < 6 && len(raw) <= 1500 {
			key := strings.Join(labels, ",")
			if !rec.sampled[key] {
				rec.sampled[key] = true
				rec.Samples = append(rec.Samples, raw)
			}
		}
	}
	if len(past) > 0 {
		raw, err = json.Marshal(history{append(past, raw)})
		if err != nil {
			panic(err)
		}
	}
	rec.last = raw
	rec.Journal(raw)
	defer rec.Done()
	if len(past) == 0 {
		keep.Reset(!r.d.NoKeep)
	}
	msg = guarded(func() error {
		if err := r.d.Check(c); err != nil {
			return err
		}
		if err := keep.Check(); err != nil {
			return err
		}
		if hist {
			keep.Spoil()
		}
		return nil
	})
	if msg == "" {
		if err := keep.CheckLong(false); err != nil {
			msg = err.Error()
		}
	}
	if msg != "" {
		rec.Fail = &Failure{Case: raw, Error: msg, Stage: rec.Stage}
	}
	return msg
}

// lastLook looks at what was kept of all cases.
func lastLook(rec *Recorder) {
	if rec.Fail == nil {
		if err := keep.CheckLong(true); err != nil {
			rec.Fail = &Failure{Case: rec.last, Error: err.Error(), Stage: rec.Stage}
		}
	}
}

func (rec *Recorder) late() bool {
	return !rec.Deadline.IsZero() && time.Now().After(rec.Deadline)
}

func guarded(f func() error) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			msg = fmt.Sprintf("panic: %v\n%s", p, buf)
		}
	}()
	if err := f(); err != nil {
		return err.Error()
	}
	return ""
}

func (r *runner[C]) RunSweep(thorough bool, shard, shards int, rec *Recorder) {
	if r.d.Sweep == nil {
		return
	}
	rec.Stage = "sweep"
	i := 0
	r.d.Sweep(thorough, func(c C) {
		mine := i/4%shards == shard // neighbours share a process: see g.Twins
		i++
		if !mine || rec.Fail != nil || rec.late() {
			return
		}
		r.one(c, rec, false)
	})
	lastLook(rec)
}

func (r *runner[C]) RunRandom(n int, seed uint64, rec *Recorder) {
	if n <= 0 {
		return
	}
	rec.Stage = "random"
	runRapid(r.d.ID, n, seed, func(t *rapid.T) {
		if rec.Fail == nil && rec.late() {
			return
		}
		if r.d.History > 0 && tape.Pick(t, r.d.History, "history?") == r.d.History-1 {
			if !r.histories(t, rec) {
				t.Fatalf("property violated")
			}
			return
		}
		c := r.d.Gen(t)
		if r.one(c, rec, false) != "" {
			t.Fatalf("property violated")
		}
	})
	lastLook(rec)
}

func (r *runner[C]) SampleJSON(n int) []json.RawMessage {
	var out []json.RawMessage
	runRapid(r.d.ID, n, 7, func(t *rapid.T) {
		raw, err := json.Marshal(r.d.Gen(t))
		if err != nil {
			panic(err)
		}
		out = append(out, raw)
	})
	return out
}
