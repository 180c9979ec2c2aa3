// Package props holds the properties: one file per group, one pbt.Def each.
package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif/harness/g"
	"verif/harness/keep"
	"verif/harness/ref"
)

func short(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x... (%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x (%d bytes)", b, len(b))
}

// same compares bytes.
func same(what string, got, want []byte) error {
	if bytes.Equal(got, want) {
		keep.Bytes(what, got)
		return nil
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Errorf("%s: got %s, want %s (first difference at byte %d)", what, short(got), short(want), i)
}

func sameStr(what, got, want string) error {
	if got == want {
		keep.Text(what, got)
		return nil
	}
	if len(got) > 400 {
		got = got[:400] + "..."
	}
	if len(want) > 400 {
		want = want[:400] + "..."
	}
	return fmt.Errorf("%s: got %q, want %q", what, got, want)
}

func scriptBytes(s *script.Script) []byte {
	if s == nil {
		return nil
	}
	return []byte(*s)
}

// inFields compares an input's wire fields.
func inFields(what string, i *input.Input, want ref.In) error {
	if i == nil {
		return fmt.Errorf("%s: nil input", what)
	}
	if err := sameStr(what+" previous id", i.PreviousTxID, hex.EncodeToString(ref.Rev(want.Hash))); err != nil {
		return err
	}
	if i.PreviousTxOutIndex != want.Vout {
		return fmt.Errorf("%s output index: got %d, want %d", what, i.PreviousTxOutIndex, want.Vout)
	}
	if i.SequenceNumber != want.Seq {
		return fmt.Errorf("%s sequence: got %x, want %x", what, i.SequenceNumber, want.Seq)
	}
	return same(what+" unlocking script", scriptBytes(i.UnlockingScript), want.Script)
}

func outFields(what string, o *output.Output, want ref.Out) error {
	if o == nil {
		return fmt.Errorf("%s: nil output", what)
	}
	if o.Satoshis != want.Sats {
		return fmt.Errorf("%s satoshis: got %d, want %d", what, o.Satoshis, want.Sats)
	}
	if o.LockingScript == nil {
		return fmt.Errorf("%s: nil locking script", what)
	}
	return same(what+" locking script", scriptBytes(o.LockingScript), want.Script)
}

// txFields compares a transaction's wire fields.
func txFields(tx *transaction.Transaction, want *ref.Tx) error {
	if tx == nil {
		return fmt.Errorf("nil transaction without an error")
	}
	if tx.Version != want.Version {
		return fmt.Errorf("version: got %d, want %d", tx.Version, want.Version)
	}
	if tx.Locktime != want.Lock {
		return fmt.Errorf("locktime: got %d, want %d", tx.Locktime, want.Lock)
	}
	if len(tx.Inputs) != len(want.In) || tx.InputCount() != len(want.In) || len(tx.GetInputs()) != len(want.In) {
		return fmt.Errorf("inputs: got %d (InputCount %d, GetInputs %d), want %d", len(tx.Inputs), tx.InputCount(), len(tx.GetInputs()), len(want.In))
	}
	if len(tx.Outputs) != len(want.Out) || tx.OutputCount() != len(want.Out) || len(tx.GetOutputs()) != len(want.Out) {
		return fmt.Errorf("outputs: got %d (OutputCount %d, GetOutputs %d), want %d", len(tx.Outputs), tx.OutputCount(), len(tx.GetOutputs()), len(want.Out))
	}
	for k := range want.In {
		if err := inFields(fmt.Sprintf("input %d", k), tx.Inputs[k], want.In[k]); err != nil {
			return err
		}
	}
	for k := range want.Out {
		if err := outFields(fmt.Sprintf("output %d", k), tx.Outputs[k], want.Out[k]); err != nil {
			return err
		}
	}
	return nil
}

// snap renders everything a transaction holds, to compare before and after.
type snap struct {
	Version, Lock uint32
	In            []snapIn
	Out           []snapOut
}
type snapIn struct {
	ID             string
	Vout, Seq      uint32
	Sats           uint64
	Unlock, Prev   string
	NilUn, NilPrev bool
}
type snapOut struct {
	Sats uint64
	Lock string
}

func snapshot(tx *transaction.Transaction) snap {
	s := snap{Version: tx.Version, Lock: tx.Locktime}
	for _, i := range tx.Inputs {
		s.In = append(s.In, snapIn{ID: i.PreviousTxID, Vout: i.PreviousTxOutIndex, Seq: i.SequenceNumber, Sats: i.PreviousTxSatoshis,
			Unlock: string(scriptBytes(i.UnlockingScript)), Prev: string(scriptBytes(i.PreviousTxScript)),
			NilUn: i.UnlockingScript == nil, NilPrev: i.PreviousTxScript == nil})
	}
	for _, o := range tx.Outputs {
		s.Out = append(s.Out, snapOut{Sats: o.Satoshis, Lock: string(scriptBytes(o.LockingScript))})
	}
	return s
}

// diff says how two snapshots differ; input except is allowed to differ in
// its unlocking script (-1: none).
func (s snap) diff(o snap, except int) error {
	if s.Version != o.Version || s.Lock != o.Lock {
		return fmt.Errorf("version or locktime changed: %d,%d to %d,%d", s.Version, s.Lock, o.Version, o.Lock)
	}
	if len(s.In) != len(o.In) || len(s.Out) != len(o.Out) {
		return fmt.Errorf("inputs or outputs changed in number: %d,%d to %d,%d", len(s.In), len(s.Out), len(o.In), len(o.Out))
	}
	for k := range s.In {
		a, b := s.In[k], o.In[k]
		if k == except {
			a.Unlock, b.Unlock, a.NilUn, b.NilUn = "", "", false, false
		}
		if a != b {
			return fmt.Errorf("input %d changed: %+v to %+v", k, a, b)
		}
	}
	for k := range s.Out {
		if s.Out[k] != o.Out[k] {
			return fmt.Errorf("output %d changed: %+v to %+v", k, s.Out[k], o.Out[k])
		}
	}
	return nil
}

// isHex reports whether text is an even number of hex digits.
func isHex(s string) bool {
	if len(s)%2 != 0 {
		return false
	}
	return strings.Trim(s, "0123456789abcdefABCDEF") == ""
}

func lenLabel(prefix string, n int) string {
	switch {
	case n == 0:
		return prefix + "=0"
	case n == 1:
		return prefix + "=1"
	case n <= 75:
		return prefix + "<=75"
	case n <= 252:
		return prefix + "<=252"
	case n <= 255:
		return prefix + "<=255"
	case n <= 65535:
		return prefix + "<=65535"
	}
	return prefix + ">65535"
}

func countLabel(prefix string, n int) string {
	switch {
	case n <= 2:
		return fmt.Sprintf("%s=%d", prefix, n)
	case n <= 10:
		return prefix + "=3..10"
	case n <= 252:
		return prefix + "=11..252"
	}
	return prefix + ">252"
}

func txLabels(t g.Tx) []string {
	f := t.Flat()
	l := []string{countLabel("inputs", len(f.In)), countLabel("outputs", len(f.Out))}
	m := 0
	for _, i := range f.In {
		if i.Script != nil {
			m = max(m, i.Script.Len())
		}
	}
	for _, o := range f.Out {
		m = max(m, o.Script.Len())
	}
	return append(l, lenLabel("longest script", m))
}

func mustErr(what string, err error) error {
	if err == nil {
		return fmt.Errorf("%s: no error", what)
	}
	return nil
}

func firstErr(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// The spoil functions change results when the case has held: what a caller
// does to a result must not show in later calls.

func spoilScripts(l ...*script.Script) {
	keep.AtEnd(func() {
		for _, s := range l {
			spoilScript(s)
		}
	})
}

func spoilOutputs(l ...*output.Output) {
	keep.AtEnd(func() {
		for _, o := range l {
			if o == nil {
				continue
			}
			spoilScript(o.LockingScript)
			o.Satoshis ^= 0x77
		}
	})
}

func spoilScript(s *script.Script) {
	if s == nil {
		return
	}
	for k := range *s {
		(*s)[k] ^= 0x33
	}
	*s = append(*s, 0x51)
}

func spoilInputs(l ...*input.Input) {
	keep.AtEnd(func() {
		for _, i := range l {
			if i == nil {
				continue
			}
			spoilScript(i.UnlockingScript)
			spoilScript(i.PreviousTxScript)
			i.PreviousTxSatoshis ^= 0x77
			i.PreviousTxOutIndex ^= 3
			i.SequenceNumber ^= 5
			i.PreviousTxID = id2
		}
	})
}

func spoilTx(tx *transaction.Transaction) {
	if tx == nil {
		return
	}
	spoilInputs(tx.Inputs...)
	spoilOutputs(tx.Outputs...)
	keep.AtEnd(func() { tx.Version, tx.Locktime = tx.Version^1, tx.Locktime^1 })
}

// bigLens are the lengths of g.SweepLens above over, up to max (with the
// code's own literals up to 2^24 when max is a megabyte or more, and up to 2^26
// when it is two).
func bigLens(over, max int) []int {
	var out []int
	for _, n := range g.SweepLens(max) {
		if n >= over {
			out = append(out, n)
		}
	}
	if max >= 1<<20 {
		top := 1 << 24
		if max >= 1<<21 {
			top = 1 << 26
			out = append(out, 1<<24-1, 1<<24, 1<<24+1)
		}
		for _, n := range g.DictLens(top) {
			if n > max {
				out = append(out, n)
			}
		}
	}
	return out
}

// bigCounts are the counts of g.SweepLens above over, up to 70000, thinned out,
// and those around 2^16.
func bigCounts(over int) []int {
	var out []int
	last := 0
	for _, n := range g.SweepLens(70000) {
		if n >= over && (n-last > 1 || n < 66000 && n > 65530) {
			out = append(out, n)
			last = n
		}
	}
	out = append(out, 65537, 65540, 70000)
	for _, n := range g.DictLens(250000) {
		if n > 70000 {
			out = append(out, n)
		}
	}
	return out
}

// bigElems are counts of small things: every length of g.SweepLens to 70000,
// the code's own literals to a million, and round counts beyond.
func bigElems() []int {
	out := append(g.SweepLens(70000), 99999, 100000, 100001, 1<<17-1, 1<<17, 1<<17+1, 1<<18, 1000000, 1<<20+1)
	for _, n := range g.DictLens(1 << 20) {
		if n > 70000 {
			out = append(out, n)
		}
	}
	return out
}

// repeated is n different items of one size.
func repeated(n, size int) []g.Blob {
	l := make([]g.Blob, n)
	for k := range l {
		l[k] = g.Pat(size, uint32(k)|4)
	}
	return l
}
