package pbt

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"testing"

	"pgregory.net/rapid"
)

// hostTB is the rapid.TB that rapid reports to outside "go test".
type hostTB struct {
	name   string
	failed bool
	log    string
}

func (h *hostTB) Helper()                   {}
func (h *hostTB) Name() string              { return h.name }
func (h *hostTB) Logf(f string, a ...any)   {}
func (h *hostTB) Log(a ...any)              {}
func (h *hostTB) Skipf(f string, a ...any)  { runtime.Goexit() }
func (h *hostTB) Skip(a ...any)             { runtime.Goexit() }
func (h *hostTB) SkipNow()                  { runtime.Goexit() }
func (h *hostTB) Errorf(f string, a ...any) { h.failed = true; h.log += fmt.Sprintf(f, a...) }
func (h *hostTB) Error(a ...any)            { h.failed = true; h.log += fmt.Sprint(a...) }
func (h *hostTB) Fatalf(f string, a ...any) { h.Errorf(f, a...); runtime.Goexit() }
func (h *hostTB) Fatal(a ...any)            { h.Error(a...); runtime.Goexit() }
func (h *hostTB) FailNow()                  { h.failed = true; runtime.Goexit() }
func (h *hostTB) Fail()                     { h.failed = true }
func (h *hostTB) Failed() bool              { return h.failed }

var flagsReady = false

// RapidError is set when rapid failed for a reason of its own (a generator
// that panics or that rejects too much): an error of the check, not a
// violation.
var RapidError string

func runRapid(name string, n int, seed uint64, prop func(t *rapid.T)) {
	if !flagsReady {
		testing.Init()
		_ = flag.CommandLine.Parse(nil)
		flagsReady = true
	}
	if seed == 0 {
		seed = 0x9e3779b97f4a7c15
	}
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			fmt.Fprintln(os.Stderr, "flag", k, err)
			os.Exit(2)
		}
	}
	set("rapid.checks", strconv.Itoa(n))
	set("rapid.seed", strconv.FormatUint(seed, 10))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "20s")
	tb := &hostTB{name: name}
	violated := false
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) {
			defer func() {
				if t.Failed() {
					violated = true
				}
			}()
			prop(t)
		})
	}()
	<-done
	if tb.failed && !violated {
		RapidError = tb.log
	}
}
