package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/keep"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// ---- C30 ------------------------------------------------------------------

type c30op struct {
	Op    string   `json:"op"` // from utxo new parsed out outparsed data pay apply againin againout reparse fields print editin editout
	In    *g.TxIn  `json:"in,omitempty"`
	Out   *g.TxOut `json:"out,omitempty"`
	Bad   *string  `json:"bad,omitempty"` // non-hex script, or address text
	Hash  string   `json:"hash,omitempty"`
	Main  bool     `json:"main,omitempty"`
	Upper bool     `json:"upper,omitempty"`
	Idx   uint32   `json:"idx,omitempty"`
	Data  []g.Blob `json:"data,omitempty"`
}

type c30 struct {
	Start *g.Tx   `json:"start,omitempty"` // parse this one first; else New
	Ops   []c30op `json:"ops"`
	// Other is a second transaction built at the same time: bit k of Turns
	// (cyclic) says who makes step k.
	Other *c30   `json:"other,omitempty"`
	Turns uint64 `json:"turns,omitempty"`
}

type builder struct {
	tx *transaction.Transaction
	m  *mTx
	n  int
}

// model of a transaction under construction.
type mIn struct {
	id     string
	vout   uint32
	seq    uint32
	sats   uint64
	prev   []byte
	hasPrv bool
	unlock []byte
	grp    int // inputs of one group, not 0, are one object
}
type mTx struct {
	version, lock uint32
	in            []mIn
	out           []ref.Out
	ogrp          []int // outputs with the same number are one object
	grps          int
}

// groups numbers the outputs added since.
func (m *mTx) groups() []int {
	for len(m.ogrp) < len(m.out) {
		m.grps++
		m.ogrp = append(m.ogrp, m.grps)
	}
	return m.ogrp
}

func (m *mTx) ref() *ref.Tx {
	r := &ref.Tx{Version: m.version, Lock: m.lock, Out: m.out}
	for _, i := range m.in {
		r.In = append(r.In, ref.In{Hash: ref.Rev(g.Unhex(i.id)), Vout: i.vout, Seq: i.seq, Script: i.unlock})
	}
	return r
}

// parsed is what remains after a trip through the wire.
func (m *mTx) parsed() {
	for k := range m.in {
		m.in[k].sats, m.in[k].prev, m.in[k].hasPrv = 0, nil, false
		m.in[k].id = strings.ToLower(m.in[k].id)
		m.in[k].grp = 0
	}
	m.ogrp = nil
	m.groups()
}

func (m *mTx) check(tx *transaction.Transaction) error {
	if tx.Version != m.version || tx.Locktime != m.lock {
		return fmt.Errorf("version %d, locktime %d, want %d, %d", tx.Version, tx.Locktime, m.version, m.lock)
	}
	if tx.InputCount() != len(m.in) || len(tx.GetInputs()) != len(m.in) || len(tx.Inputs) != len(m.in) {
		return fmt.Errorf("%d inputs (InputCount %d, GetInputs %d), want %d", len(tx.Inputs), tx.InputCount(), len(tx.GetInputs()), len(m.in))
	}
	if tx.OutputCount() != len(m.out) || len(tx.GetOutputs()) != len(m.out) || len(tx.Outputs) != len(m.out) {
		return fmt.Errorf("%d outputs (OutputCount %d, GetOutputs %d), want %d", len(tx.Outputs), tx.OutputCount(), len(tx.GetOutputs()), len(m.out))
	}
	for k, w := range m.in {
		i := tx.GetInputs()[k]
		if i == nil {
			return fmt.Errorf("input %d is nil", k)
		}
		if !strings.EqualFold(i.PreviousTxID, w.id) || i.PreviousTxOutIndex != w.vout || i.SequenceNumber != w.seq || i.PreviousTxSatoshis != w.sats {
			return fmt.Errorf("input %d: %s:%d, sequence %x, %d satoshis; want %s:%d, %x, %d", k, i.PreviousTxID, i.PreviousTxOutIndex, i.SequenceNumber, i.PreviousTxSatoshis, w.id, w.vout, w.seq, w.sats)
		}
		if w.hasPrv && i.PreviousTxScript == nil {
			return fmt.Errorf("input %d has no previous script", k)
		}
		if err := firstErr(same(fmt.Sprintf("input %d previous script", k), scriptBytes(i.PreviousTxScript), w.prev), same(fmt.Sprintf("input %d unlocking script", k), scriptBytes(i.UnlockingScript), w.unlock)); err != nil {
			return err
		}
	}
	total := uint64(0)
	for k, w := range m.out {
		if err := outFields(fmt.Sprintf("output %d", k), tx.GetOutputs()[k], w); err != nil {
			return err
		}
		total += w.Sats
	}
	r := m.ref()
	if err := firstErr(same("serialisation", tx.ToBytes(), r.Bytes()), sameStr("hex serialisation", tx.ToString(), hex.EncodeToString(r.Bytes())), sameStr("id", tx.GetTxID(), r.ID())); err != nil {
		return err
	}
	if got := tx.GetTotalOutputSatoshis(); got != total {
		return fmt.Errorf("total output %d, want %d", got, total)
	}
	return nil
}

func printAll(tx *transaction.Transaction) {
	for _, i := range tx.Inputs {
		_ = i.String()
	}
	for _, o := range tx.Outputs {
		_ = o.String()
		_ = o.GetLockingScriptHexString()
		_ = (&output.Output{Satoshis: o.Satoshis}).String()
	}
	for _, i := range tx.Inputs {
		e := *i
		e.UnlockingScript, e.PreviousTxScript = nil, nil
		_ = e.String()
	}
	_ = new(input.Input).String()
	_ = new(output.Output).String()
	_ = input.New().String()
}

var (
	key30, _ = bsvec.PrivKeyFromBytes(bsvec.S256(), []byte{30, 30})
	hash30   = ref.Hash160(key30.PubKey().SerializeCompressed())
	id30     = strings.Repeat("3a", 32)
)

func newBuilder(c c30) (*builder, error) {
	tx := transaction.New()
	m := &mTx{version: 1}
	if c.Start != nil {
		r := c.Start.Ref()
		var err error
		if tx, err = transaction.NewFromBytes(r.Bytes()); err != nil {
			return nil, fmt.Errorf("parsing the start: %v", err)
		}
		m = &mTx{version: r.Version, lock: r.Lock, out: r.Out}
		for _, i := range r.In {
			m.in = append(m.in, mIn{id: hex.EncodeToString(ref.Rev(i.Hash)), vout: i.Vout, seq: i.Seq, unlock: i.Script})
		}
	}
	if err := m.check(tx); err != nil {
		return nil, fmt.Errorf("at the start: %v", err)
	}
	return &builder{tx: tx, m: m}, nil
}

// step makes one step and compares the transaction with the model.
func (b *builder) step(op c30op) error {
	tx, m, n := b.tx, b.m, b.n
	b.n++
	defer func() { b.tx = tx }()
	what := fmt.Sprintf("step %d (%s)", n, op.Op)
	var err error
	mustFail := false
	id := ""
	if op.In != nil {
		id = op.In.ID
		if op.Upper {
			id = strings.ToUpper(id)
		}
	}
	prevHex := func() (string, []byte) {
		var p []byte
		if op.In.Prev != nil {
			p = op.In.Prev.Bytes()
		}
		if op.Bad != nil {
			return *op.Bad, nil
		}
		h := hex.EncodeToString(p)
		if op.Upper {
			h = strings.ToUpper(h)
		}
		return h, p
	}
	switch op.Op {
	case "from":
		h, p := prevHex()
		mustFail = !isHex(h)
		if op.Bad != nil && !mustFail {
			return nil
		}
		err = tx.From(id, op.In.Vout, h, op.In.Sats)
		if !mustFail {
			m.in = append(m.in, mIn{id: id, vout: op.In.Vout, seq: 0xffffffff, sats: op.In.Sats, prev: p, hasPrv: true})
		}
	case "utxo":
		h, p := prevHex()
		mustFail = !isHex(h)
		if op.Bad != nil && !mustFail {
			return nil
		}
		var in *input.Input
		in, err = input.NewFromUTXO(id, op.In.Vout, op.In.Sats, h, op.In.Seq)
		if err == nil && !mustFail {
			tx.AddInput(in)
			m.in = append(m.in, mIn{id: id, vout: op.In.Vout, seq: op.In.Seq, sats: op.In.Sats, prev: p, hasPrv: true})
		}
	case "new":
		in := input.New()
		if in == nil || in.SequenceNumber != 0xffffffff || len(scriptBytes(in.UnlockingScript)) != 0 || in.PreviousTxSatoshis != 0 || in.PreviousTxOutIndex != 0 {
			return fmt.Errorf("%s: input.New() = %+v", what, in)
		}
		_ = in.String()
		in.PreviousTxID, in.PreviousTxOutIndex = id, op.In.Vout
		tx.AddInput(in)
		m.in = append(m.in, mIn{id: id, vout: op.In.Vout, seq: 0xffffffff})
	case "parsed":
		r := op.In.Ref()
		wire := ref.InBytes(r)
		var in *input.Input
		var used int
		in, used, err = input.NewFromBytes(append(wire, 0xab, 0xcd))
		if err == nil {
			if used != len(wire) {
				return fmt.Errorf("%s: %d bytes used of %d", what, used, len(wire))
			}
			tx.AddInput(in)
			m.in = append(m.in, mIn{id: op.In.ID, vout: r.Vout, seq: r.Seq, unlock: r.Script})
		}
	case "out":
		tx.AddOutput(op.Out.Lib())
		m.out = append(m.out, ref.Out{Sats: op.Out.Sats, Script: op.Out.Script.Bytes()})
	case "outparsed":
		w := ref.Out{Sats: op.Out.Sats, Script: op.Out.Script.Bytes()}
		wire := ref.OutBytes(w)
		var o *output.Output
		var used int
		o, used, err = output.NewFromBytes(append(wire, 0xab))
		if err == nil {
			if used != len(wire) {
				return fmt.Errorf("%s: %d bytes used of %d", what, used, len(wire))
			}
			tx.AddOutput(o)
			m.out = append(m.out, w)
		}
	case "data":
		var o *output.Output
		o, err = output.NewOpReturnParts(expand(op.Data))
		if err == nil {
			tx.AddOutput(o)
			s := []byte{0, 0x6a}
			for _, d := range expand(op.Data) {
				s = append(s, ref.Push(d)...)
			}
			m.out = append(m.out, ref.Out{Script: s})
		}
	case "pay":
		addr := ""
		if op.Bad != nil {
			addr = *op.Bad
		} else {
			addr = ref.Address(g.Unhex(op.Hash), op.Main)
		}
		_, h, ok := ref.ParseAddress(addr)
		mustFail = !ok
		err = tx.PayTo(addr, op.Out.Sats)
		if ok {
			m.out = append(m.out, ref.Out{Sats: op.Out.Sats, Script: ref.P2PKH(h)})
		}
	case "apply":
		if int64(op.Idx) < int64(len(m.in)) && m.in[op.Idx].grp != 0 {
			return nil // which of the inputs change is not settled
		}
		s := op.Out.Script.Bytes()
		mustFail = uint64(op.Idx) >= uint64(len(m.in))
		err = tx.ApplyUnlockingScript(op.Idx, script.NewFromBytes(append([]byte{}, s...)))
		if !mustFail {
			m.in[op.Idx].unlock = s
		}
	case "againin": // the same object once more
		if len(m.in) > 0 {
			k := int(op.Idx % uint32(len(m.in)))
			tx.AddInput(tx.GetInputs()[k])
			if m.in[k].grp == 0 {
				m.in[k].grp = len(m.in)
			}
			m.in = append(m.in, m.in[k])
		}
	case "againout":
		if len(m.out) > 0 {
			k := int(op.Idx % uint32(len(m.out)))
			tx.AddOutput(tx.GetOutputs()[k])
			grp := m.groups()[k]
			m.out = append(m.out, m.out[k])
			m.ogrp = append(m.ogrp, grp)
		}
	case "own": // an input that key30 can sign
		err = tx.From(id30, op.Idx, hex.EncodeToString(ref.P2PKH(hash30)), 7)
		m.in = append(m.in, mIn{id: id30, vout: op.Idx, seq: 0xffffffff, sats: 7, prev: ref.P2PKH(hash30), hasPrv: true})
	case "signauto": // the signatures are C06's concern
		err = tx.SignAuto(&signature.InternalSigner{PrivateKey: key30})
		for k := range m.in {
			if w := &m.in[k]; k < len(tx.Inputs) && bytes.Equal(w.prev, ref.P2PKH(hash30)) {
				w.unlock = append([]byte{}, scriptBytes(tx.Inputs[k].UnlockingScript)...)
			}
		}
	case "editout": // the caller changes an output of the transaction
		if len(m.out) > 0 {
			k := int(op.Idx % uint32(len(m.out)))
			o, l := tx.Outputs[k], append([]byte{}, m.out[k].Script...)
			if e := keep.Edit(func() {
				if op.Main && len(l) > 0 {
					(*o.LockingScript)[len(l)/2] ^= 0x55
					l[len(l)/2] ^= 0x55
				} else {
					o.LockingScript.AppendOpCode(0x61)
					l = append(l, 0x61)
				}
			}); e != nil {
				return e
			}
			o.Satoshis ^= 3
			for j, grp := range m.groups() {
				if grp == m.ogrp[k] {
					m.out[j] = ref.Out{Sats: m.out[j].Sats ^ 3, Script: l}
				}
			}
		}
	case "editin":
		if len(m.in) > 0 {
			k := int(op.Idx % uint32(len(m.in)))
			change := func(s *script.Script, l []byte) []byte {
				l = append([]byte{}, l...)
				if s == nil {
					return l
				}
				if op.Main && len(l) > 0 {
					(*s)[len(l)/2] ^= 0x55
					l[len(l)/2] ^= 0x55
					return l
				}
				s.AppendOpCode(0x61)
				return append(l, 0x61)
			}
			i, was := tx.Inputs[k], m.in[k]
			var prev, unlock []byte
			if e := keep.Edit(func() {
				prev, unlock = change(i.PreviousTxScript, was.prev), change(i.UnlockingScript, was.unlock)
			}); e != nil {
				return e
			}
			i.SequenceNumber ^= 5
			i.PreviousTxSatoshis ^= 5
			for j := range m.in {
				if j == k || was.grp != 0 && m.in[j].grp == was.grp {
					w := &m.in[j]
					w.prev, w.unlock, w.seq, w.sats = prev, unlock, w.seq^5, w.sats^5
				}
			}
		}
	case "reparse":
		var t2 *transaction.Transaction
		t2, err = transaction.NewFromString(tx.ToString())
		if err == nil {
			tx = t2
			m.parsed()
		}
	case "fields":
		tx.Version, tx.Locktime = op.Idx, uint32(op.Out.Sats)
		m.version, m.lock = op.Idx, uint32(op.Out.Sats)
	case "print":
		printAll(tx)
	default:
		return fmt.Errorf("bad case: %s", op.Op)
	}
	if mustFail && err == nil {
		return fmt.Errorf("%s must be refused and gave no error", what)
	}
	if !mustFail && err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if err := m.check(tx); err != nil {
		return fmt.Errorf("after %s: %v", what, err)
	}
	return nil
}

func check30(c c30) error {
	one, err := newBuilder(c)
	if err != nil {
		return err
	}
	var two *builder
	var rest []c30op
	if c.Other != nil {
		if two, err = newBuilder(*c.Other); err != nil {
			return err
		}
		rest = c.Other.Ops
	}
	ops := c.Ops
	for k := uint(0); len(ops) > 0 || len(rest) > 0; k++ {
		if len(rest) > 0 && (len(ops) == 0 || c.Turns>>(k%64)&1 == 1) {
			if err := two.step(rest[0]); err != nil {
				return fmt.Errorf("second transaction, %v", err)
			}
			rest = rest[1:]
			if err := one.m.check(one.tx); err != nil {
				return fmt.Errorf("the first transaction, after a step of the second: %v", err)
			}
			continue
		}
		if err := one.step(ops[0]); err != nil {
			return err
		}
		ops = ops[1:]
		if two != nil {
			if err := two.m.check(two.tx); err != nil {
				return fmt.Errorf("the second transaction, after a step of the first: %v", err)
			}
		}
	}
	printAll(one.tx)
	spoilTx(one.tx)
	return one.m.check(one.tx)
}

func gen30(t *rapid.T, max int) c30 {
	c := c30{}
	if g.Chance(t, 3, "start") {
		x := g.GenTx(t, g.TxOpt{MaxIn: 3, MaxOut: 3, MaxScript: 200})
		c.Start = &x
	}
	n := 0
	for k := g.Int(t, 1, max, "steps"); k > 0; k-- {
		op := gen30op(t, n)
		if len(c.Ops) > 0 && g.Chance(t, 6, "same step") {
			op = g.Pick(t, c.Ops, "which step")
		}
		if op.In != nil && op.Bad == nil {
			n++
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func gen30op(t *rapid.T, inputs int) c30op {
	op := c30op{Op: g.Pick(t, []string{"from", "from", "utxo", "new", "parsed", "out", "outparsed", "data", "pay", "pay", "apply", "apply", "apply", "againin", "againout", "reparse", "fields", "print", "editin", "editout", "own", "own", "signauto"}, "op")}
	switch op.Op {
	case "from", "utxo", "new", "parsed":
		in := g.GenIn(t, g.TxOpt{MaxScript: 300, NilScript: true, Prev: true})
		op.In = &in
		op.Upper = g.Chance(t, 5, "upper")
		if (op.Op == "from" || op.Op == "utxo") && g.Chance(t, 5, "bad") {
			s := badHex(t)
			op.Bad = &s
		}
	case "out", "outparsed", "fields":
		o := g.GenOut(t, 300)
		op.Out = &o
		op.Idx = g.U32(t, "version")
	case "againin", "againout", "editin", "editout", "own":
		op.Main = g.Bool(t, "bytes")
		op.Idx = uint32(g.Int(t, 0, 30, "which"))
	case "data":
		op.Data = genItems(t, 0, 4, 300)
	case "pay":
		op.Out = &g.TxOut{Sats: g.U64(t, "sats")}
		op.Hash, op.Main = hex.EncodeToString(genHash20(t)), g.Bool(t, "main")
		if g.Chance(t, 3, "bad") {
			s := genAddressText(t)
			op.Bad = &s
		}
	case "apply":
		op.Out = &g.TxOut{Script: g.GenScript(t, 300, "unlock")}
		op.Idx = uint32(g.Int(t, 0, inputs, "idx"))
		if g.Chance(t, 5, "far") {
			op.Idx = g.U32(t, "idx")
		}
	}
	return op
}

// ---- C31 ------------------------------------------------------------------

type c31edit struct {
	Which int    `json:"which"` // script number, counted over inputs then outputs; -1 the source buffer
	How   string `json:"how"`   // op push str array strs set add all (buffer or script overwritten)
	At    int    `json:"at,omitempty"`
	V     byte   `json:"v,omitempty"`
	Data  g.Blob `json:"data"`
}

type c31 struct {
	Tx    g.Tx      `json:"tx"`
	Form  string    `json:"form"` // tx hex input output
	Spare int       `json:"spare,omitempty"`
	Edits []c31edit `json:"edits"`
}

func check31(c c31) error {
	want := c.Tx.Ref()
	var src []byte
	var scripts []*script.Script
	var model [][]byte
	var state func() error
	switch c.Form {
	case "tx", "hex":
		b := want.Bytes()
		src = make([]byte, len(b), len(b)+c.Spare)
		copy(src, b)
		var tx *transaction.Transaction
		var err error
		if c.Form == "hex" {
			tx, err = transaction.NewFromString(hex.EncodeToString(b))
		} else {
			tx, err = transaction.NewFromBytes(src)
		}
		if err != nil {
			return err
		}
		for k, i := range tx.Inputs {
			scripts, model = append(scripts, i.UnlockingScript), append(model, append([]byte{}, want.In[k].Script...))
		}
		for k, o := range tx.Outputs {
			scripts, model = append(scripts, o.LockingScript), append(model, append([]byte{}, want.Out[k].Script...))
		}
		state = func() error {
			for k := range want.In {
				want.In[k].Script = model[k]
			}
			for k := range want.Out {
				want.Out[k].Script = model[len(want.In)+k]
			}
			return firstErr(txFields(tx, want), same("serialisation", tx.ToBytes(), want.Bytes()))
		}
	case "input":
		if len(want.In) == 0 {
			return nil
		}
		w := want.In[0]
		b := append(ref.InBytes(w), g.Pat(c.Spare, 1).Bytes()...)
		src = append([]byte{}, b...)
		i, _, err := input.NewFromBytes(src)
		if err != nil {
			return err
		}
		scripts, model = []*script.Script{i.UnlockingScript}, [][]byte{append([]byte{}, w.Script...)}
		state = func() error {
			w.Script = model[0]
			return firstErr(inFields("parsed input", i, w), same("serialisation", i.ToBytes(false), ref.InBytes(w)))
		}
	case "output":
		if len(want.Out) == 0 {
			return nil
		}
		w := want.Out[0]
		b := append(ref.OutBytes(w), g.Pat(c.Spare, 1).Bytes()...)
		src = append([]byte{}, b...)
		o, _, err := output.NewFromBytes(src)
		if err != nil {
			return err
		}
		scripts, model = []*script.Script{o.LockingScript}, [][]byte{append([]byte{}, w.Script...)}
		state = func() error {
			w.Script = model[0]
			return firstErr(outFields("parsed output", o, w), same("serialisation", o.ToBytes(), ref.OutBytes(w)))
		}
	}
	buf := append([]byte{}, src[:cap(src)]...) // what the source must hold, spare capacity included
	for n, e := range c.Edits {
		what := fmt.Sprintf("edit %d (%s of script %d)", n, e.How, e.Which)
		if e.Which < 0 || len(scripts) == 0 {
			full := src[:cap(src)]
			if len(full) == 0 {
				continue
			}
			if e.How == "all" {
				for i := range full {
					full[i], buf[i] = e.V, e.V
				}
			} else {
				i := e.At % len(full)
				full[i], buf[i] = e.V, e.V
			}
			what = fmt.Sprintf("edit %d (of the source bytes)", n)
		} else {
			k := e.Which % len(scripts)
			s := scripts[k]
			d := e.Data.Bytes()
			var err error
			add := ref.Push(d)
			switch e.How {
			case "op":
				s.AppendOpCode(e.V)
				add = []byte{e.V}
			case "push":
				err = s.AppendPushData(d)
			case "hexpush":
				err = s.AppendPushDataHexString(hex.EncodeToString(d))
			case "str":
				err = s.AppendPushDataString(string(d))
			case "array":
				err = s.AppendPushDataArray([][]byte{d, {e.V}})
				add = append(add, ref.Push([]byte{e.V})...)
			case "strs":
				err = s.AppendPushDataStrings([]string{string(d), "x"})
				add = append(add, 1, 'x')
			case "set":
				add = nil
				if len(*s) > 0 {
					i := e.At % len(*s)
					(*s)[i] = e.V
					model[k][i] = e.V
				}
			case "all":
				add = nil
				for i := range *s {
					(*s)[i] = e.V
					model[k][i] = e.V
				}
			case "raw": // append bytes as a caller may
				*s = append(*s, d...)
				add = d
			case "part": // append to what was taken out of it
				add = nil
				if parts, _ := script.DecodeParts(*s); len(parts) > 0 {
					_ = append(parts[e.At%len(parts)], append(d, e.V)...)
				}
			case "pkh":
				add = nil
				if h, err := s.GetPublicKeyHash(); err == nil {
					_ = append(h, append(d, e.V)...)
				}
			}
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			model[k] = append(model[k], add...)
		}
		if err := state(); err != nil {
			return fmt.Errorf("after %s: %v", what, err)
		}
		if err := same("source bytes", src[:cap(src)], buf); err != nil {
			return fmt.Errorf("after %s: %v", what, err)
		}
	}
	return nil
}

var editKinds = []string{"op", "push", "hexpush", "str", "array", "strs", "set", "all", "raw", "part", "pkh"}

// ---- C32 ------------------------------------------------------------------

type c32 struct {
	Tx     g.Tx   `json:"tx"`
	Idx    int    `json:"idx"`
	Script g.Blob `json:"script"`
	// Edits are made afterwards to the same transaction.
	Edits []g.Edit `json:"edits,omitempty"`
}

func check32(c c32) error {
	tx := c.Tx.Lib()
	if err := cleared(tx, c.Tx.Flat(), c); err != nil {
		return err
	}
	return edited(tx, c.Tx.Flat(), c.Edits, func(tx *transaction.Transaction, m g.Tx) error { return cleared(tx, m, c) })
}

func cleared(tx *transaction.Transaction, m g.Tx, c c32) error {
	before := snapshot(tx)
	want := m.Ref()
	for k := range want.In {
		want.In[k].Script = nil
		if k == c.Idx {
			want.In[k].Script = c.Script.Bytes()
		}
	}
	arg := append(make([]byte, 0, c.Script.Len()+3), c.Script.Bytes()...)
	if len(arg) > 0 { // the argument's memory held another script before
		stale(arg, c.Script.Bytes())
		_ = tx.ToBytesWithClearedInputs(c.Idx, arg)
		copy(arg, c.Script.Bytes())
	}
	got := tx.ToBytesWithClearedInputs(c.Idx, arg)
	if err := same(fmt.Sprintf("cleared serialisation for input %d of %d", c.Idx, len(want.In)), got, want.Bytes()); err != nil {
		return err
	}
	if !bytes.Equal(arg, c.Script.Bytes()) || !bytes.Equal(arg[:cap(arg)][len(arg):], make([]byte, cap(arg)-len(arg))) {
		return fmt.Errorf("the script argument changed")
	}
	return firstErr(before.diff(snapshot(tx), -1), same("ordinary serialisation afterwards", tx.ToBytes(), m.Ref().Bytes()))
}

func init() {
	pbt.Register(pbt.Def[c30]{
		ID:   "C30",
		Rule: "histories of up to 25 building steps (From, NewFromUTXO, New, parsed inputs, AddInput, AddOutput, parsed outputs, data outputs, PayTo, ApplyUnlockingScript, SignAuto, field changes, re-parsing, printing, editing an input or output in place), valid and invalid, starting from New or from a parsed transaction; after every step the whole transaction (fields, previous outputs, bytes, id, counts, totals) is compared with a model; one case in three builds a second transaction at the same time, step by step in turns, and both are compared after every step. Non-trivial: at least three steps, or a step that must be refused. The sweep takes every step alone and every pair of steps, counts across 252/253, and every apply index 0..5 with 0..4 inputs. Inputs, outputs and scripts of a transaction may be equal, or be one object several times. Parts may be relatives of one another (equal, backwards, digests, one inside the other); the sweep takes 64 such relations. The sweep also takes counts up to 70000.",
		Gen: func(t *rapid.T) c30 {
			c := gen30(t, 25)
			if g.Chance(t, 3, "other?") {
				o := gen30(t, 12)
				c.Other, c.Turns = &o, g.Raw64(t, "turns")
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c30)) {
			p := g.Pat(25, 9)
			in := func(k int) *g.TxIn {
				b := g.Pat(3+k, uint32(k)+5)
				return &g.TxIn{ID: g.Pat(32, uint32(k)+70).Hex(), Vout: uint32(k), Seq: uint32(k) * 77, Script: &b, Prev: &p, Sats: uint64(k) << 33}
			}
			zz, badAddr := "zz", "1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN3"
			steps := []c30op{
				{Op: "from", In: in(1)}, {Op: "from", In: in(2), Bad: &zz}, {Op: "utxo", In: in(3)}, {Op: "utxo", In: in(4), Bad: &zz}, {Op: "new", In: in(5)}, {Op: "parsed", In: in(6)},
				{Op: "out", Out: &g.TxOut{Sats: 5, Script: g.Pat(9, 8)}}, {Op: "outparsed", Out: &g.TxOut{Sats: 1 << 60, Script: g.Pat(300, 8)}}, {Op: "data", Data: []g.Blob{g.Pat(80, 4)}},
				{Op: "pay", Out: &g.TxOut{Sats: 1 << 63}, Hash: g.Pat(20, 6).Hex(), Main: true}, {Op: "pay", Out: &g.TxOut{Sats: 9}, Hash: g.Pat(20, 6).Hex()}, {Op: "pay", Out: &g.TxOut{Sats: 9}, Bad: &badAddr},
				{Op: "apply", Out: &g.TxOut{Script: g.Pat(70, 3)}}, {Op: "apply", Idx: 1, Out: &g.TxOut{}}, {Op: "apply", Idx: 1 << 31, Out: &g.TxOut{}}, {Op: "apply", Idx: 1<<32 - 1, Out: &g.TxOut{}},
				{Op: "reparse"}, {Op: "fields", Idx: 1 << 31, Out: &g.TxOut{Sats: 499999999}}, {Op: "print"},
				{Op: "againin"}, {Op: "againout"},
				{Op: "own"}, {Op: "signauto"}, {Op: "editin"}, {Op: "editin", Main: true}, {Op: "editout"}, {Op: "editout", Idx: 1, Main: true},
			}
			for _, x := range badHexOf("76a914" + g.Pat(20, 6).Hex() + "88ac") {
				if isUTF8(x) {
					x := x
					yield(c30{Ops: []c30op{{Op: "from", In: in(2), Bad: &x}, {Op: "utxo", In: in(4), Bad: &x}}})
				}
			}
			for _, a := range steps {
				yield(c30{Ops: []c30op{a}})
				for _, b := range steps {
					yield(c30{Ops: []c30op{a, b}})
					for _, d := range steps {
						yield(c30{Ops: []c30op{a, b, d}})
					}
					yield(c30{Ops: []c30op{a, b}, Other: &c30{Ops: []c30op{a, b, a}}, Turns: 0b10110})
				}
			}
			for n := 1; n <= 20; n++ { // signed together, then changed one by one
				ops := []c30op{steps[0]}
				for k := 0; k < n; k++ {
					ops = append(ops, c30op{Op: "own", Idx: uint32(k)})
				}
				ops = append(ops, c30op{Op: "signauto"})
				for k := 0; k <= n; k++ {
					ops = append(ops, c30op{Op: "editin", Idx: uint32(k), Main: k&1 == 1})
				}
				yield(c30{Ops: append(ops, c30op{Op: "signauto"}, steps[0])})
			}
			rel := 0
			g.RelatedTxs(true, func(x g.Tx) { // parts that are one another's relatives, and steps that are relatives of what is there
				var ops []c30op
				for k := range x.In {
					i := x.In[k]
					ops = append(ops, c30op{Op: []string{"from", "utxo", "new", "parsed"}[(rel+k)%4], In: &i})
				}
				for k := range x.Out {
					o := x.Out[k]
					ops = append(ops, c30op{Op: []string{"out", "outparsed", "out"}[(rel+k)%3], Out: &o})
				}
				ap := c30op{Op: "apply", Idx: uint32(rel % len(x.In)), Out: &g.TxOut{Script: x.Out[0].Script}}
				yield(c30{Ops: append(append([]c30op{}, ops...), ap)})
				st := x
				for k := range st.In {
					st.In[k].Prev, st.In[k].Sats = nil, 0
				}
				hash := g.Relatives(g.Unhex(x.In[0].ID))
				more := *steps[0].In
				more.ID = hex.EncodeToString(hash[rel%len(hash)])
				own := more
				own.ID = st.Ref().ID() // spends an output of the transaction itself
				yield(c30{Start: &st, Ops: []c30op{ops[0], {Op: "from", In: &more}, ap, {Op: "utxo", In: &own}, {Op: "pay", Out: &g.TxOut{Sats: x.Out[0].Sats}, Hash: x.In[0].ID[:40], Main: rel%2 == 0}, {Op: "data", Data: []g.Blob{x.Out[0].Script, x.Out[0].Script, g.Raw(g.Unhex(x.In[0].ID))}}, ops[len(ops)-1]}})
				rel++
			})
			for n := 0; n <= 4; n++ {
				for i := 0; i <= 5; i++ {
					c := c30{}
					for k := 0; k < n; k++ {
						c.Ops = append(c.Ops, c30op{Op: []string{"from", "new", "parsed", "utxo"}[k], In: in(k)})
					}
					c.Ops = append(c.Ops, c30op{Op: "apply", Idx: uint32(i), Out: &g.TxOut{Script: g.Pat(20, 4)}})
					yield(c)
				}
			}
			if thorough {
				for _, n := range []int{251, 252, 253, 254} {
					c := c30{}
					for k := 0; k < n; k++ {
						c.Ops = append(c.Ops, c30op{Op: "from", In: in(k)}, c30op{Op: "out", Out: &g.TxOut{Sats: uint64(k)}})
					}
					yield(c)
				}
			}
			for _, n := range append(bigCounts(300), 252, 253) {
				st := g.Tx{Version: 2, In: []g.TxIn{*in(1)}, Out: []g.TxOut{{Sats: 1, Rep: n}}}
				st.In[0].Rep = n
				yield(c30{Start: &st, Ops: []c30op{steps[0], steps[6], steps[16], {Op: "apply", Idx: uint32(n), Out: &g.TxOut{Script: g.Pat(5, 5)}}, {Op: "apply", Idx: uint32(n) + 1, Out: &g.TxOut{}}}})
			}
		},
		Check: check30,
		Classify: func(c c30) (bool, []string) {
			seen := map[string]bool{}
			var l []string
			refused := false
			for _, o := range c.Ops {
				x := o.Op
				if o.Bad != nil {
					x += " bad"
					refused = true
				}
				if !seen[x] {
					seen[x] = true
					l = append(l, x)
				}
			}
			if c.Other != nil {
				l = append(l, "two transactions")
			}
			return len(c.Ops) >= 3 || refused, append(l, countLabel("steps", len(c.Ops)))
		},
		Quick: 128000, Thorough: 960000,
	})

	pbt.Register(pbt.Def[c31]{
		ID:     "C31",
		NoKeep: true,
		Rule:   "transactions (and single inputs and outputs in longer buffers) parsed from bytes with spare capacity, then up to 8 edits of their scripts (every appender, bytes overwritten; or the caller appends to a decoded part or to an extracted key hash) and of the source bytes; after every edit all fields, the serialisation and the source buffer including its spare capacity are compared with a model. Non-trivial: at least one edit of a transaction with at least two scripts, or of a single input or output followed by other bytes. The sweep applies every kind of edit to every script of fixed transactions in all orders of two. It takes counts and lengths across the prefix boundaries and lengths taken from the code.",
		Gen: func(t *rapid.T) c31 {
			c := c31{Tx: g.GenTx(t, g.TxOpt{MaxIn: 4, MaxOut: 4, MaxScript: 300}), Form: g.Pick(t, []string{"tx", "tx", "tx", "hex", "input", "output"}, "form"), Spare: g.Pick(t, []int{0, 1, 40, 400}, "spare")}
			for k := g.Int(t, 1, 8, "edits"); k > 0; k-- {
				c.Edits = append(c.Edits, c31edit{Which: g.Int(t, -1, 7, "which"), How: g.Pick(t, editKinds, "how"), At: g.Int(t, 0, 600, "at"), V: g.Byte(t, "v"), Data: g.AnyBlob(t, 120, "data")})
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c31)) {
			sc := func(n int, s uint32) *g.Blob { b := g.Pat(n, s); return &b }
			txs := []g.Tx{
				{Version: 1, In: []g.TxIn{{ID: g.Pat(32, 4).Hex(), Script: sc(10, 5)}, {ID: g.Pat(32, 5).Hex(), Script: sc(0, 5), Seq: 7}}, Out: []g.TxOut{{Sats: 5, Script: g.Pat(25, 6)}, {Sats: 6}, {Sats: 7, Script: g.Pat(300, 6)}}},
				{Version: 2, In: []g.TxIn{{ID: g.Pat(32, 4).Hex(), Script: sc(300, 5)}}, Out: []g.TxOut{{Sats: 5, Script: g.Pat(1, 6)}}},
			}
			for _, n := range bigLens(300, 1<<17) { // long scripts and many of them
				x := g.Tx{Version: 1, In: []g.TxIn{{ID: g.Pat(32, 4).Hex(), Script: sc(n, 5)}, {ID: g.Pat(32, 5).Hex(), Script: sc(9, 5)}}, Out: []g.TxOut{{Sats: 5, Script: g.Pat(n, 6)}, {Sats: 6, Script: g.Pat(7, 3)}}}
				if n < 600 {
					x = g.Tx{In: []g.TxIn{{ID: g.Pat(32, 4).Hex(), Script: sc(5, 5), Rep: n}}, Out: []g.TxOut{{Sats: 5, Script: g.Pat(7, 6), Rep: n}}}
				}
				for w := -1; w < 4; w++ {
					yield(c31{Tx: x, Form: []string{"tx", "hex", "input", "output"}[(n+w)&3], Spare: n % 80, Edits: []c31edit{{Which: w, How: "push", V: 0xaa, Data: g.Pat(30, 8)}, {Which: w + 1, How: editKinds[(n+w+1)%len(editKinds)], At: 3, V: 7, Data: g.Pat(2, 8)}}})
				}
			}
			for k, n := range bigLens(1<<17, 1<<21) { // very long scripts
				x := g.Tx{Version: 1, In: []g.TxIn{{ID: g.Pat(32, 4).Hex(), Script: sc(9, 5)}}, Out: []g.TxOut{{Sats: 6, Script: g.Pat(7, 3)}}}
				if k&1 == 0 {
					x.In[0].Script = sc(n, 5)
				} else {
					x.Out[0].Script = g.Pat(n, 6)
				}
				for _, form := range []string{"tx", []string{"input", "output"}[k&1], "hex"} {
					yield(c31{Tx: x, Form: form, Spare: k % 9, Edits: []c31edit{{Which: -1, How: "set", At: n / 3, V: 0xaa}, {Which: 0, How: "push", Data: g.Pat(30, 8)}, {Which: k & 1, How: "op", V: 0x61}}})
				}
				x.In[0].Script, x.Out[0].Script = sc(n, 5), g.Pat(n, 6)
				yield(c31{Tx: x, Form: "tx", Edits: []c31edit{{Which: 0, How: "push", V: 0xaa, Data: g.Pat(3, 8)}, {Which: -1, How: "set", At: n, V: 0x61}}})
			}
			// parts taken out of scripts of pushes
			for _, n := range []int{1, 2, 20, 33, 75, 76, 77, 200, 255, 256, 257, 1000, 65535, 65536, 70000} {
				b := append(ref.Push(g.Pat(n, 4).Bytes()), 0x51, 0x75)
				b = append(append(b, ref.Push(g.Pat(n, 7).Bytes())...), ref.Push([]byte{1, 2, 3})...)
				pushes, pkh := g.Raw(b), g.Raw(append(append([]byte{0x76, 0xa9, 20}, g.Pat(20, uint32(n)).Bytes()...), 0x88, 0xac))
				long, cut := g.Raw(append([]byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), 0}, append(g.Pat(n, 4).Bytes(), 0xac)...)), g.Raw(append(ref.Push(g.Pat(n, 4).Bytes()), 0x4d, 9, 0, 1))
				x := g.Tx{Version: 1, In: []g.TxIn{{ID: g.Pat(32, 4).Hex(), Script: &pushes}, {ID: g.Pat(32, 4).Hex(), Script: &cut}}, Out: []g.TxOut{{Sats: 5, Script: pkh}, {Sats: 6, Script: long}}}
				for _, form := range []string{"tx", "hex", "input", "output"} {
					for w := 0; w < 4; w++ {
						for at := 0; at < 5; at++ {
							yield(c31{Tx: x, Form: form, Edits: []c31edit{{Which: w, How: "part", At: at, V: 0xaa, Data: g.Pat(at*7, 8)}, {Which: w, How: "pkh", V: 0xaa, Data: g.Pat(at*11, 8)}, {Which: w, How: "op", V: 0xac}, {Which: w, How: "part", At: at, V: 0xab}}})
						}
					}
				}
			}
			rel := 0
			g.RelatedTxs(false, func(x g.Tx) { // parts that are one another's relatives
				for _, form := range []string{"tx", "tx", "input", "output", "hex"} {
					yield(c31{Tx: x, Form: form, Spare: rel % 3 * 20, Edits: []c31edit{{Which: rel%6 - 1, How: editKinds[rel%len(editKinds)], At: rel % 30, V: 0xaa, Data: g.Pat(rel%90, 8)}, {Which: rel/6%6 - 1, How: "push", Data: g.Pat(3, 9)}, {Which: rel / 36 % 6, How: "set", At: 0, V: 5}}})
					rel++
				}
			})
			for _, x := range txs {
				for _, form := range []string{"tx", "hex", "input", "output"} {
					for _, spare := range []int{0, 64} {
						for w := -1; w < 5; w++ {
							for _, h := range editKinds {
								yield(c31{Tx: x, Form: form, Spare: spare, Edits: []c31edit{{Which: w, How: h, At: 3, V: 0xaa, Data: g.Pat(30, 8)}}})
								for w2 := -1; w2 < 5; w2++ {
									yield(c31{Tx: x, Form: form, Spare: spare, Edits: []c31edit{{Which: w, How: h, At: 3, V: 0xaa, Data: g.Pat(1, 8)}, {Which: w2, How: "op", V: 0x61}, {Which: w, How: "push", Data: g.Pat(80, 9)}}})
								}
							}
						}
					}
				}
			}
		},
		Check: check31,
		Classify: func(c c31) (bool, []string) {
			f := c.Tx.Flat()
			l := []string{"form " + c.Form}
			for _, e := range c.Edits {
				if e.Which < 0 {
					l = append(l, "source edited")
					break
				}
			}
			return len(c.Edits) > 0 && (len(f.In)+len(f.Out) > 1 || c.Spare > 0), l
		},
		Quick: 600000, Thorough: 3000000,
	})

	pbt.Register(pbt.Def[c32]{
		ID:   "C32",
		Rule: "transactions of up to hundreds of inputs and outputs, any input index from -2 to beyond the inputs, scripts of 0..70000 bytes; compared with the reference encoding of the transaction with blanked scripts. Non-trivial: at least two inputs, or one with a non-empty script. The sweep takes every index for 0..6 inputs, counts across 252/253 and script lengths across the prefix boundaries. One case in three is a history: the transaction is changed in place or replaced between the calls, and checked again each time. Inputs, outputs and scripts of a transaction may be equal, or be one object several times. Parts may be relatives of one another (equal, backwards, digests, one inside the other); the sweep takes 64 such relations. The sweep also takes counts up to 70000. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c32 {
			c := c32{Tx: g.GenTx(t, g.TxOpt{MaxIn: 8, MaxOut: 6, MaxScript: 400, NilScript: true, Prev: true, Huge: true}), Script: g.AnyBlob(t, 70000, "script")}
			n := len(c.Tx.Flat().In)
			c.Idx = g.Int(t, 0, max(n-1, 0), "idx")
			if g.Chance(t, 5, "off") {
				c.Idx = g.Pick(t, []int{-2, -1, n, n + 1, 1 << 31, 1 << 32, 1 << 62, -1 << 63}, "idx")
			}
			if g.Chance(t, 3, "edits?") {
				c.Edits, c.Tx.Shared = g.GenEdits(t, 4, 200, "edit"), 0
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c32)) {
			b := g.Pat(40, 6)
			in := g.TxIn{ID: g.Pat(32, 4).Hex(), Vout: 3, Seq: 0x12345678, Script: &b}
			for n := 0; n <= 6; n++ {
				x := g.Tx{Version: 2, Lock: 77, Out: []g.TxOut{{Sats: 1, Script: g.Pat(25, 4)}}}
				for k := 0; k < n; k++ {
					i := in
					i.Vout += uint32(k)
					i.Seq -= uint32(k)
					if k == 3 {
						i.Script = nil
					}
					x.In = append(x.In, i)
				}
				for i := -2; i <= 8; i++ {
					for _, l := range []int{0, 1, 25, 252, 253, 254, 65535, 65536} {
						yield(c32{Tx: x, Idx: i, Script: g.Pat(l, 5)})
					}
				}
			}
			for _, n := range bigLens(30, 1<<20) {
				i, x := in, g.Pat(n, 9)
				i.Script = &x
				yield(c32{Tx: g.Tx{Version: 1, In: []g.TxIn{in, i}, Out: []g.TxOut{{Sats: 3, Script: g.Pat(n%77, 4)}}}, Idx: n % 2, Script: g.Pat(n, 5)})
				if n%3 == 0 {
					yield(c32{Tx: g.Tx{Version: 1, In: []g.TxIn{i}, Out: []g.TxOut{{Sats: 3, Script: x}}}, Script: g.Pat(25, 5)})
				}
			}
			g.RelatedTxs(true, func(x g.Tx) { // parts that are one another's relatives
				for i := range x.In {
					list := []g.Blob{x.Out[0].Script, *x.In[0].Prev, g.Raw(g.Unhex(x.In[0].ID)), g.Raw(x.Ref().Bytes())}
					if s := x.In[i].Script; s != nil {
						list = append(list, *s)
					}
					for _, s := range list {
						yield(c32{Tx: x, Idx: i, Script: s})
					}
				}
			})
			for sh := 1; sh < 8; sh++ { // the same objects again
				b := g.Pat(9, 3)
				in, out := g.TxIn{ID: id1, Vout: 3, Seq: 5, Script: &b}, g.TxOut{Sats: 7, Script: b}
				for i := -1; i <= 4; i++ {
					yield(c32{Tx: g.Tx{Version: 1, In: []g.TxIn{in, in, {ID: id1}, in}, Out: []g.TxOut{out, out, {Sats: 7}, out}, Shared: sh}, Idx: i, Script: b})
				}
			}
			for _, n := range bigCounts(1100) {
				i := in
				i.Rep = n
				yield(c32{Tx: g.Tx{In: []g.TxIn{i}, Out: []g.TxOut{{Rep: n/2 + 1}}}, Idx: n - 1, Script: g.Pat(30, 7)})
			}
			for _, n := range append(g.SweepLens(1100), 251, 252, 253, 254, 300) {
				if n == 0 {
					continue
				}
				i := in
				i.Rep = n
				for _, idx := range []int{0, 1, 100, n - 1, n} {
					yield(c32{Tx: g.Tx{In: []g.TxIn{i}, Out: []g.TxOut{{Rep: n}}}, Idx: idx, Script: g.Pat(30, 7)})
				}
			}
		},
		Check: check32,
		Classify: func(c c32) (bool, []string) {
			n := len(c.Tx.Flat().In)
			return n > 1 || n == 1 && c.Script.Len() > 0, []string{countLabel("inputs", n), fmt.Sprintf("index inside=%v", c.Idx >= 0 && c.Idx < n), lenLabel("script", c.Script.Len())}
		},
		Quick: 170000, Thorough: 2550000,
	})
}
