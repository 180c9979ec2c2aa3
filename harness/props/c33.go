package props

import (
	"bytes"
	"crypto/aes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"
	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// ---- C33 ------------------------------------------------------------------

// c33 is an input that grows: Head, then Unit again and again, then Tail.
type c33 struct {
	Fn   string `json:"fn"`
	Head g.Blob `json:"head"`
	Unit g.Blob `json:"unit"`
	Tail g.Blob `json:"tail"`
	N    int    `json:"n"` // about so many bytes, and 1/4, 1/16 and 1/64 of it
	// Count makes the units different from one another: each is followed
	// (text: preceded) by its number.
	Count bool `json:"count,omitempty"`
}

// c33isText says of which functions the units are text.
var c33isText = map[string]bool{}

// unitLen is the length of one unit with its number.
func (c c33) unitLen() int {
	switch {
	case !c.Count:
		return max(c.Unit.Len(), 1)
	case c33isText[c.Fn]:
		return c.Unit.Len() + 6
	}
	return c.Unit.Len() + 4
}

// unit is the k-th unit.
func (c c33) unit(k int) []byte {
	u := c.Unit.Bytes()
	switch {
	case !c.Count:
		return u
	case c33isText[c.Fn]:
		return append([]byte(fmt.Sprintf("%06x", k)), u...)
	}
	return binary.BigEndian.AppendUint32(u[:len(u):len(u)], uint32(k))
}

// units is how many whole units make the input n bytes long.
func (c c33) units(n int) int {
	k := (n - c.Head.Len() - c.Tail.Len()) / c.unitLen()
	return min(max(k, 0), n)
}

func (c c33) bytes(n int) []byte {
	b := c.Head.Bytes()
	if !c.Count {
		b = append(b, bytes.Repeat(c.Unit.Bytes(), c.units(n))...)
	}
	for k := 0; c.Count && k < c.units(n); k++ {
		b = append(b, c.unit(k)...)
	}
	return append(b, c.Tail.Bytes()...)
}

func (c c33) text(n int) string { return string(c.bytes(n)) }
func (c c33) hex(n int) string  { return hex.EncodeToString(c.bytes(n / 2)) }

// list is the input as a list of equal parts, with head and tail around them.
func (c c33) list(n int) [][]byte {
	l := [][]byte{c.Head.Bytes()}
	for k := 0; k < c.units(n); k++ {
		l = append(l, c.unit(k))
	}
	return append(l, c.Tail.Bytes())
}

// distinct is a list of different 32-byte strings.
func (c c33) distinct(n int) [][]byte {
	var l [][]byte
	for k := 0; k < n/32; k++ {
		l = append(l, ref.Sha256d(binary.LittleEndian.AppendUint32(c.Unit.Bytes(), uint32(k))))
	}
	return l
}

func (c c33) ids(n int) []string {
	var l []string
	for _, b := range c.distinct(n / 2) {
		l = append(l, hex.EncodeToString(b))
	}
	return l
}

// tx is a transaction of about n bytes: many inputs, many outputs, or one of
// either with a long script.
func (c c33) tx(n int, shape string) g.Tx {
	id := strings.Repeat("ab", 32)
	x := g.Tx{Version: 1, In: []g.TxIn{{ID: id}}, Out: []g.TxOut{{Sats: 1}}}
	unit := c.Unit
	switch shape {
	case "inputs":
		x.In = []g.TxIn{{ID: id, Script: &unit, Prev: &unit, Sats: 9, Rep: max(n/(41+unit.Len()), 1)}}
	case "outputs":
		x.Out = []g.TxOut{{Sats: 1<<63 | 7, Script: unit, Rep: max(n/(9+unit.Len()), 1)}}
	case "both":
		x.In = []g.TxIn{{ID: id, Script: &unit, Prev: &unit, Sats: 9, Rep: max(n/2/(41+unit.Len()), 1)}}
		x.Out = []g.TxOut{{Sats: 1<<63 | 7, Script: unit, Rep: max(n/2/(9+unit.Len()), 1)}}
	}
	if c.Count { // each with scripts of its own
		if in := x.In[0]; in.Rep > 1 {
			x.In = nil
			for k := 0; k < in.Rep; k++ {
				u := g.Raw(c.unit(k))
				x.In = append(x.In, g.TxIn{ID: id, Vout: uint32(k), Script: &u, Prev: &u, Sats: 9})
			}
		}
		if out := x.Out[0]; out.Rep > 1 {
			x.Out = nil
			for k := 0; k < out.Rep; k++ {
				x.Out = append(x.Out, g.TxOut{Sats: uint64(k), Script: g.Raw(c.unit(k))})
			}
		}
	}
	switch shape {
	case "unlock":
		b := g.Raw(c.bytes(n))
		x.In[0].Script, x.In[0].Prev = &b, &unit
	case "lock":
		x.Out[0].Script = g.Raw(c.bytes(n))
		x.In[0].Prev = &unit
	case "prev":
		b := g.Raw(c.bytes(n))
		x.In[0].Prev = &b
	}
	return x
}

var txShapes = []string{"inputs", "outputs", "both", "unlock", "lock", "prev"}

// c33op is one function under the bound: prepare makes the input (not
// counted) and returns the call that is.
type c33op struct {
	name    string
	text    bool    // units are text
	cpu     float64 // microseconds allowed per byte
	mem     float64 // bytes that may be allocated per byte
	max     int     // largest input, when smaller than the others'
	prepare func(c c33, n int) func()
}

const (
	c33CPU = 5e5     // microseconds always allowed
	c33Mem = 4 << 20 // bytes always allowed
)

var sinkAny interface{}

func c33ops() []c33op {
	var ops []c33op
	add := func(name string, prepare func(c c33, n int) func()) {
		ops = append(ops, c33op{name: name, cpu: 1, mem: 160, prepare: prepare})
	}
	addText := func(name string, prepare func(c c33, n int) func()) {
		ops = append(ops, c33op{name: name, text: true, cpu: 1, mem: 160, prepare: prepare})
	}
	b1 := func(name string, f func(b []byte)) {
		add(name, func(c c33, n int) func() {
			b := c.bytes(n)
			return func() { f(b) }
		})
	}
	t1 := func(name string, f func(s string)) {
		addText(name, func(c c33, n int) func() {
			s := c.text(n)
			return func() { f(s) }
		})
	}
	h1 := func(name string, f func(s string)) {
		add(name, func(c c33, n int) func() {
			s := c.hex(n)
			return func() { f(s) }
		})
	}
	s1 := func(name string, f func(s *script.Script)) {
		add(name, func(c c33, n int) func() {
			s := script.Script(c.bytes(n))
			return func() { f(&s) }
		})
	}

	// transactions
	b1("tx bytes", func(b []byte) { sinkAny, _ = transaction.NewFromBytes(b) })
	h1("tx hex", func(s string) { sinkAny, _ = transaction.NewFromString(s) })
	b1("input bytes", func(b []byte) { sinkAny, _, _ = input.NewFromBytes(b) })
	b1("output bytes", func(b []byte) { sinkAny, _, _ = output.NewFromBytes(b) })
	for _, shape := range txShapes {
		shape := shape
		raw := func(c c33, n int) []byte { return c.tx(n, shape).Ref().Bytes() }
		lib := func(name string, f func(tx *transaction.Transaction)) {
			add(name+", "+shape, func(c c33, n int) func() {
				tx := c.tx(n, shape).Lib()
				return func() { f(tx) }
			})
		}
		add("parse, "+shape, func(c c33, n int) func() {
			b := raw(c, n)
			return func() { sinkAny, _ = transaction.NewFromBytes(b) }
		})
		add("parse hex, "+shape, func(c c33, n int) func() {
			s := hex.EncodeToString(raw(c, n/2))
			return func() { sinkAny, _ = transaction.NewFromString(s) }
		})
		add("parse one byte short, "+shape, func(c c33, n int) func() {
			b := raw(c, n)
			b = b[:len(b)-1]
			return func() { sinkAny, _ = transaction.NewFromBytes(b) }
		})
		add("parse one byte more, "+shape, func(c c33, n int) func() {
			b := append(raw(c, n), 0)
			return func() { sinkAny, _ = transaction.NewFromBytes(b) }
		})
		lib("serialise", func(tx *transaction.Transaction) { sinkAny = tx.ToBytes() })
		lib("to hex", func(tx *transaction.Transaction) { sinkAny = tx.ToString() })
		lib("id", func(tx *transaction.Transaction) { sinkAny = tx.GetTxID() })
		lib("cleared inputs", func(tx *transaction.Transaction) {
			sinkAny = tx.ToBytesWithClearedInputs(len(tx.Inputs)/2, []byte{1})
		})
		lib("totals", func(tx *transaction.Transaction) {
			sinkAny = []interface{}{tx.GetTotalOutputSatoshis(), tx.InputCount(), tx.OutputCount(), tx.IsCoinbase(), len(tx.GetInputs()), len(tx.GetOutputs())}
		})
		lib("one signature hash", func(tx *transaction.Transaction) {
			sinkAny, _ = tx.GetInputSignatureHash(uint32(len(tx.Inputs)/2), sighash.AllForkID)
		})
		lib("print", func(tx *transaction.Transaction) {
			for _, i := range tx.Inputs {
				sinkAny = i.String()
			}
			for _, o := range tx.Outputs {
				sinkAny = o.String()
			}
		})
		lib("add one by one", func(tx *transaction.Transaction) {
			x := transaction.New()
			for _, i := range tx.Inputs {
				x.AddInput(i)
			}
			for _, o := range tx.Outputs {
				x.AddOutput(o)
			}
			sinkAny = x
		})
		lib("apply", func(tx *transaction.Transaction) {
			for k := range tx.Inputs {
				_ = tx.ApplyUnlockingScript(uint32(k), tx.Inputs[k].PreviousTxScript)
			}
		})
	}
	add("From one by one", func(c c33, n int) func() {
		ids, s := c.ids(n), c.Unit.Hex()
		return func() {
			x := transaction.New()
			for _, id := range ids {
				_ = x.From(id, 0, s, 1)
			}
			sinkAny = x
		}
	})
	add("NewFromUTXO", func(c c33, n int) func() {
		s := c.hex(n)
		return func() { sinkAny, _ = input.NewFromUTXO(strings.Repeat("ab", 32), 0, 1, s, 1) }
	})
	add("PayTo one by one", func(c c33, n int) func() {
		k := min(n/34, n)
		return func() {
			x := transaction.New()
			for i := 0; i < k; i++ {
				_ = x.PayTo("1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH", 1)
			}
			sinkAny = x
		}
	})

	// scripts
	b1("DecodeParts", func(b []byte) { sinkAny, _ = script.DecodeParts(b) })
	h1("DecodeStringParts", func(s string) { sinkAny, _ = script.DecodeStringParts(s) })
	h1("NewFromHexString", func(s string) { sinkAny, _ = script.NewFromHexString(s) })
	b1("script.NewFromBytes", func(b []byte) { sinkAny = script.NewFromBytes(b) })
	b1("GetPushDataPrefix", func(b []byte) { sinkAny, _ = script.GetPushDataPrefix(b) })
	s1("ToASM", func(s *script.Script) { sinkAny, _ = s.ToASM() })
	s1("script hex", func(s *script.Script) { sinkAny = s.ToString() })
	s1("predicates", func(s *script.Script) {
		sinkAny = []bool{s.IsP2PKH(), s.IsP2PK(), s.IsP2SH(), s.IsData(), s.IsMultisigOut()}
	})
	s1("GetPublicKeyHash", func(s *script.Script) { sinkAny, _ = s.GetPublicKeyHash() })
	s1("AppendPushData", func(s *script.Script) {
		x := script.Script{}
		_ = x.AppendPushData(*s)
		_ = x.AppendPushDataString(string(*s))
		_ = x.AppendPushDataHexString(hex.EncodeToString(*s))
		sinkAny = x
	})
	add("EncodeParts", func(c c33, n int) func() {
		l := c.list(n)
		return func() { sinkAny, _ = script.EncodeParts(l) }
	})
	add("append pushes one by one", func(c c33, n int) func() {
		l := c.list(n)
		return func() {
			x := script.Script{}
			for _, p := range l {
				_ = x.AppendPushData(p)
				x.AppendOpCode(0x75)
			}
			sinkAny = x
		}
	})
	add("AppendPushDataArray", func(c c33, n int) func() {
		l := c.list(n)
		var t []string
		for _, p := range l {
			t = append(t, string(p))
		}
		return func() {
			x := script.Script{}
			_ = x.AppendPushDataArray(l)
			_ = x.AppendPushDataStrings(t)
			sinkAny = x
		}
	})
	add("NewOpReturn", func(c c33, n int) func() {
		b := c.bytes(n)
		return func() { sinkAny, _ = output.NewOpReturn(b) }
	})
	add("NewOpReturnParts", func(c c33, n int) func() {
		l := c.list(n)
		return func() { sinkAny, _ = output.NewOpReturnParts(l) }
	})
	add("P2PKH from hash text", func(c c33, n int) func() {
		s := c.hex(n)
		return func() {
			sinkAny, _ = script.NewP2PKHFromPubKeyHashStr(s)
			sinkAny, _ = script.NewP2PKHFromPubKeyStr(s)
			sinkAny, _ = output.NewP2PkhFromPubKeyHash(s, 1)
			sinkAny, _ = address.NewFromPublicKeyString(s, true)
		}
	})
	add("P2PKH from key bytes", func(c c33, n int) func() {
		b := c.bytes(n)
		return func() { sinkAny, _ = script.NewP2PKHFromPubKeyBytes(b) }
	})
	add("unlocking script", func(c c33, n int) func() {
		b := c.bytes(n)
		return func() { sinkAny, _ = script.NewP2PKHUnlockingScript(b, b, sighash.AllForkID) }
	})
	t1("hash puzzle", func(s string) {
		sinkAny, _ = output.NewHashPuzzle(s, strings.Repeat("ab", 20), 1)
		sinkAny, _ = output.NewHashPuzzle("x", s, 1)
	})
	t1("NewFromASM", func(s string) { sinkAny, _ = script.NewFromASM(s) })
	h1("electrum", func(s string) { sinkAny, _ = script.NewRedeemScriptFromElectrum(s) })
	add("redeem script", func(c c33, n int) func() {
		l := c.distinct(n)
		return func() {
			rs := &script.RedeemScript{SignaturesRequired: 2, PublicKeys: l}
			sinkAny = []interface{}{rs.GetRedeemScript(), rs.GetRedeemScriptHash(), rs.GetAddress()}
		}
	})
	// text forms
	t1("address", func(s string) { sinkAny, _ = address.NewFromString(s) })
	t1("ValidateAddress", func(s string) { sinkAny, _ = address.ValidateAddress(s) })
	t1("P2PKH from address", func(s string) {
		sinkAny, _ = script.NewP2PKHFromAddress(s)
		sinkAny, _ = output.NewP2PKHFromAddress(s, 1)
		sinkAny = transaction.New().PayTo(s, 1)
	})
	t1("extended key", func(s string) {
		rs, _ := script.NewRedeemScript(2)
		sinkAny = rs.AddPublicKey(s, []uint32{0, 0})
	})
	t1("DecodeBIP276", func(s string) { _, _, _, sinkAny, _ = address.DecodeBIP276(s) })
	b1("EncodeBIP276", func(b []byte) { sinkAny = address.EncodeBIP276("bitcoin-script", 1, 1, b) })
	t1("BIP276 there and back", func(s string) {
		_, _, _, sinkAny, _ = address.DecodeBIP276(address.EncodeBIP276(s, 1, 1, []byte{1}))
		_, _, _, sinkAny, _ = address.DecodeBIP276(address.EncodeBIP276("bitcoin-script", 1, 1, []byte(s)))
		sinkAny, _ = address.ValidateAddress(address.EncodeBIP276("bitcoin-script", 1, 1, []byte(s)))
	})
	t1("EncodeBIP276 prefix", func(s string) { sinkAny = address.EncodeBIP276(s, 1, 1, []byte{1}) })
	t1("bits", func(s string) {
		sinkAny, _ = block.ExpandTargetFrom(s)
		sinkAny, _ = block.DifficultyFromBits(s)
	})
	h1("bits hex", func(s string) {
		sinkAny, _ = block.ExpandTargetFrom(s)
		sinkAny, _ = block.DifficultyFromBits(s)
	})
	t1("ticker", func(s string) { sinkAny = block.DifficultyToHashrate(s, 3, 5) })

	// blocks
	add("GetMerkleBranches", func(c c33, n int) func() {
		ids := c.ids(n)
		return func() { sinkAny = block.GetMerkleBranches(ids) }
	})
	add("MerkleRootFromBranches", func(c c33, n int) func() {
		ids := append(c.ids(n), strings.Repeat("ab", 32))
		return func() { sinkAny, _ = block.MerkleRootFromBranches(ids[0], 1<<62-1, ids[1:]) }
	})
	add("BuildMerkleRootFromCoinbase", func(c c33, n int) func() {
		ids := c.ids(n)
		return func() { sinkAny = block.BuildMerkleRootFromCoinbase(make([]byte, 32), ids) }
	})
	t1("coinbase text", func(s string) {
		sinkAny, _, _ = block.GetCoinbaseParts(1, 2, "", s, "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH", nil)
	})
	h1("witness commitment", func(s string) {
		sinkAny, _, _ = block.GetCoinbaseParts(1, 2, s, "", "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH", nil)
	})
	t1("miner bytes", func(s string) {
		sinkAny, _, _ = block.GetCoinbaseParts(1, 2, "", "x", "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH", []byte(s))
	})
	t1("miner address", func(s string) { sinkAny, _, _ = block.GetCoinbaseParts(1, 2, "", "x", s, nil) })
	add("BuildCoinbase", func(c c33, n int) func() {
		b, s := c.bytes(n), c.hex(n)
		return func() { sinkAny = block.BuildCoinbase(b, b, s, s) }
	})
	add("header", func(c c33, n int) func() {
		b := c.bytes(n)
		return func() { sinkAny = block.BuildBlockHeader(1, strings.Repeat("ab", 32), b, b, b, b) }
	})

	// encryption, hashes and helpers
	add("Encrypt and Decrypt", func(c c33, n int) func() {
		b := c.bytes(n)
		return func() {
			k, _ := aes.NewCipher(make([]byte, 16))
			x, _ := crypto.Encrypt(k, b)
			sinkAny, _ = crypto.Decrypt(k, x)
			sinkAny, _ = crypto.Decrypt(k, b)
		}
	})
	b1("hashes", func(b []byte) {
		sinkAny = [][]byte{crypto.Sha256(b), crypto.Sha256d(b), crypto.Ripemd160(b), crypto.Hash160(b)}
	})
	b1("helpers", func(b []byte) {
		v, n := utils.DecodeVarInt(b)
		sinkAny = []interface{}{utils.ReverseBytes(b), utils.Equals(b, append([]byte{}, b...)), v, n}
	})
	t1("Decode32Byte", func(s string) { sinkAny, _ = utils.Decode32Byte(s) })
	h1("Decode32Byte hex", func(s string) { sinkAny, _ = utils.Decode32Byte(s) })
	add("SortByteArrays", func(c c33, n int) func() {
		l := c.distinct(n)
		sorted := append([][]byte{}, l...)
		sort.Slice(sorted, func(a, b int) bool { return bytes.Compare(sorted[a], sorted[b]) < 0 })
		var back [][]byte
		for k := range sorted {
			back = append(back, sorted[len(sorted)-1-k])
		}
		h := len(sorted) / 2
		few := min(8, h)
		orders := [][][]byte{
			append(append([][]byte{}, l...), c.list(n)...), sorted, back,
			append(append([][]byte{}, sorted[:few]...), back[:len(back)-few]...),
			append(append([][]byte{}, back[:len(back)-few]...), sorted[:few]...),
			append(append([][]byte{}, sorted[h:]...), sorted[:h]...),
			append(append([][]byte{}, sorted[h:]...), back[h:]...),
		}
		return func() {
			for _, o := range orders { // sorting is in place
				sinkAny = utils.SortByteArrays(append([][]byte{}, o...))
			}
		}
	})
	for k := range ops {
		o := &ops[k]
		switch o.name { // the slowest
		case "DecodeBIP276", "BIP276 there and back", "ValidateAddress", "PayTo one by one":
			o.cpu, o.mem = 4, 400
		case "From one by one", "GetMerkleBranches", "NewFromASM", "EncodeParts", "NewOpReturnParts", "AppendPushData", "EncodeBIP276":
			o.mem = 400
		case "DecodeParts", "DecodeStringParts", "AppendPushDataArray", "append pushes one by one", "predicates", "GetPublicKeyHash", "ToASM":
			o.cpu, o.mem = 4, 2000
		}
		if o.name == "electrum" { // elliptic curve arithmetic for each key
			o.cpu, o.mem = 25, 1000
			o.max = 1 << 17
		}
	}
	return ops
}

var (
	c33list  = c33ops()
	c33table = func() map[string]c33op {
		m := map[string]c33op{}
		for _, o := range c33list {
			if _, dup := m[o.name]; dup {
				panic("twice: " + o.name)
			}
			m[o.name] = o
		}
		return m
	}()
)

// threadCPU is the processor time of this thread so far, in microseconds.
func threadCPU() float64 {
	var ru syscall.Rusage
	const rusageThread = 1
	_ = syscall.Getrusage(rusageThread, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec)*1e6 + float64(ru.Utime.Usec+ru.Stime.Usec)
}

// cost runs the function once and returns its processor time (in
// microseconds), what it allocated, and how it died if it did.
func cost(f func()) (cpu, mem float64, err error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("crashed: %v", r)
		}
	}()
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	start := threadCPU()
	f()
	cpu = threadCPU() - start
	runtime.ReadMemStats(&after)
	return cpu, float64(after.TotalAlloc - before.TotalAlloc), nil
}

func check33(c c33) error {
	op, ok := c33table[c.Fn]
	if !ok {
		return errors.New("no function " + c.Fn)
	}
	if op.max > 0 && c.N > op.max {
		c.N = op.max
	}
	defer func() { sinkAny = nil }()
	for _, div := range []int{64, 16, 4, 1} {
		n := c.N / div
		f := op.prepare(c, n)
		cpuLimit, memLimit := c33CPU+op.cpu*float64(n), c33Mem+op.mem*float64(n)
		var cpu, mem float64
		// A second and a third chance: a busy machine makes work look longer.
		for try := 0; try < 3; try++ {
			t, m, err := cost(f)
			if err != nil {
				return fmt.Errorf("%s of about %d bytes %w", c.Fn, n, err)
			}
			if try == 0 || t < cpu {
				cpu = t
			}
			if try == 0 || m < mem {
				mem = m
			}
			if c33watch != nil {
				c33watch(c, n, t, m)
			}
			if cpu <= cpuLimit && mem <= memLimit {
				break
			}
			f = op.prepare(c, n)
		}
		if cpu > cpuLimit {
			return fmt.Errorf("%s of about %d bytes took %v of processor time, more than %v: not in proportion to the input", c.Fn, n, time.Duration(cpu*1e3).Round(time.Millisecond), time.Duration(cpuLimit*1e3))
		}
		if mem > memLimit {
			return fmt.Errorf("%s of about %d bytes allocated %.0f MB, more than %.0f MB: not in proportion to the input", c.Fn, n, mem/(1<<20), memLimit/(1<<20))
		}
	}
	return nil
}

// c33watch, in a test, learns what every call costs.
var c33watch func(c c33, n int, cpu, mem float64)

// c33units are byte strings worth repeating.
func c33units() []g.Blob {
	l := []g.Blob{
		g.Raw([]byte{0x51}), g.Raw([]byte{0}), g.Raw([]byte{0xff}), g.Raw([]byte{0x6a}), g.Raw([]byte{0x4c}),
		g.Raw([]byte{1, 5}), g.Raw([]byte{0x4c, 0}), g.Raw([]byte{0x4d, 0, 0}), g.Raw([]byte{0x4e, 0, 0, 0, 0}), g.Raw([]byte{0, 0x6a}),
		{H: "14", N: 20, S: 9}, {H: "21", N: 33, S: 9}, {H: "4c80", N: 128, S: 9}, {H: "4d0004", N: 1024, S: 9},
		g.Pat(32, 9), g.Pat(200, 9), g.Pat(3000, 9),
		{N: 41}, {H: "0100000000000000", N: 1, S: 0},
	}
	return l
}

// c33texts are pieces of text worth repeating.
func c33texts() []g.Blob {
	var l []g.Blob
	for _, s := range []string{"1", "2", "z", "0", "a", "00", "ab", ":", "=", " ", "\t", "\n", "é", "\x00", "\xff", "OP_1 ", "OP_CHECKSIG ", "00 ", "OP_0 ", "ab ", strings.Repeat("ab", 33) + " ", "zz ", ":0101", "bitcoin-script:", "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH", "xpub"} {
		l = append(l, g.Raw([]byte(s)))
	}
	return l
}

func c33heads(text bool) []g.Blob {
	var l []g.Blob
	if text {
		for _, s := range []string{"", "1", "m", "xpub", "bitcoin-script:", "bitcoin-script:0101", ":0101", "OP_0 ", "0x"} {
			l = append(l, g.Raw([]byte(s)))
		}
		return l
	}
	for _, h := range []string{"", "51", "00", "006a", "6a", "76a914", "a914", "52", "ff", "fdffff", "feffffff00", "01000000feffffff00", "0100000000feffffff00", "4e00ffff00", "4dffff"} {
		l = append(l, g.Blob{H: h})
	}
	return l
}

func c33tails(text bool) []g.Blob {
	if text {
		var l []g.Blob
		for _, s := range []string{"", "z", " ", "00000000", "OP_1", "é"} {
			l = append(l, g.Raw([]byte(s)))
		}
		return l
	}
	var l []g.Blob
	for _, h := range []string{"", "51ae", "52ae", "ac", "88ac", "87", "00000000", "4c", "4effffff7f", "4dffff", "05"} {
		l = append(l, g.Blob{H: h})
	}
	return l
}

func init() {
	for _, o := range c33list {
		c33isText[o.name] = o.text
	}
	pbt.Register(pbt.Def[c33]{
		ID:   "C33",
		Rule: "an input that grows: a head, a unit again and again (all equal, or each with its number), and a tail, for each function that takes data from outside; run with a 64th, a 16th, a quarter and the whole of the length (sweep: 1 MB, thorough 4 MB; random: up to 256 kB). A call may use half a second of processor time and 1 microsecond for each byte (4 for the slowest functions, 25 where each 84 bytes cost elliptic curve arithmetic), and allocate 4 MB and 160 to 400 bytes for each byte (2000 where a script is taken apart): about ten times what they need. Counted is the processor time of the calling thread, the least of three runs. Non-trivial: at least 4096 bytes. Scripts have the head and tail of the known kinds, lists are in order, backwards, or in order but for a run.",
		Gen: func(t *rapid.T) c33 {
			op := g.Pick(t, c33list, "fn")
			c := c33{Fn: op.name}
			piece := func(l []g.Blob, label string) g.Blob {
				if g.Chance(t, 2, label+".own") {
					return g.AnyBlob(t, 100, label)
				}
				return g.Pick(t, l, label)
			}
			units := c33units()
			if op.text {
				units = c33texts()
			}
			c.Unit = piece(units, "unit")
			c.Head = piece(c33heads(op.text), "head")
			c.Tail = piece(c33tails(op.text), "tail")
			c.Count = g.Chance(t, 3, "count")
			c.N = 1 << uint(g.Int(t, 8, 17, "log"))
			c.N += g.Int(t, 0, c.N-1, "n")
			return c
		},
		Sweep: func(thorough bool, yield func(c33)) {
			n := 1 << 20
			if thorough {
				n = 1 << 22
			}
			for _, op := range c33list {
				units := c33units()
				if op.text {
					units = c33texts()
				}
				if op.name == "electrum" {
					yield(c33{Fn: op.name, Head: g.Blob{H: "52"}, Tail: g.Blob{H: "51ae"}, N: n, Unit: g.Blob{H: "4c53ff0488b21e000000000000000000", N: 32, S: 9, T: "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f8179800000000"}})
				}
				switch op.name { // as long as a script of a known kind can be made
				case "DecodeParts", "predicates", "GetPublicKeyHash", "ToASM", "electrum":
					for _, h := range []string{"51", "52", "60", "00", "a914", "76a914"} {
						for _, t := range []string{"51ae", "52ae", "60ae", "87", "88ac"} {
							for k, u := range []g.Blob{{H: "0105"}, {H: "51"}, {H: "04", N: 0}, {H: "21", N: 33, S: 9}} {
								yield(c33{Fn: op.name, Head: g.Blob{H: h}, Unit: u, Tail: g.Blob{H: t}, N: n / 2, Count: k == 2})
							}
						}
					}
				}
				// many small things: comparing each with each takes too long
				switch _, shape, _ := strings.Cut(op.name, ", "); {
				case shape == "inputs" || shape == "outputs" || shape == "both" || op.name == "SortByteArrays" || op.name == "redeem script" || op.name == "From one by one" || op.name == "PayTo one by one":
					yield(c33{Fn: op.name, N: 4 * n})
				case op.name == "EncodeParts" || op.name == "AppendPushDataArray" || op.name == "NewOpReturnParts" || op.name == "append pushes one by one":
					yield(c33{Fn: op.name, Unit: g.Pat(1, 9), N: n * 2})
				case op.name == "GetMerkleBranches" || op.name == "MerkleRootFromBranches" || op.name == "BuildMerkleRootFromCoinbase":
					yield(c33{Fn: op.name, N: 8 * n})
				}
				heads, tails := c33heads(op.text), c33tails(op.text)
				for k, u := range units {
					yield(c33{Fn: op.name, Unit: u, N: n})
					yield(c33{Fn: op.name, Head: heads[k%len(heads)], Unit: u, Tail: tails[k%len(tails)], N: n / 4})
					if u.Len() < 100 {
						yield(c33{Fn: op.name, Unit: u, N: n / 2, Count: true})
					}
				}
			}
		},
		Check: check33,
		Classify: func(c c33) (bool, []string) {
			return c.N >= 4096, []string{"fn " + strings.SplitN(c.Fn, ",", 2)[0], lenLabel("input", c.N)}
		},
		Quick: 8000, Thorough: 80000, CaseCPU: 120, History: -1, NoKeep: true,
	})
}
