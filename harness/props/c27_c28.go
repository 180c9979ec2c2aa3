package props

import (
	"bytes"
	"crypto/aes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"runtime"
	"strings"
	"sync"
	"unsafe"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"
	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/keep"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// world describes the data the operations of C27 and C28 work on.
type world struct {
	Bufs   []g.Blob `json:"bufs"`
	Spare  int      `json:"spare"` // spare capacity behind every buffer and list
	Tx     g.Tx     `json:"tx"`
	Leaves leaves   `json:"leaves"`
	Key    string   `json:"key"`
	Ext    extKey   `json:"ext"`
	Bits   uint32   `json:"bits"`
}

// env is a world made real: every buffer and list has spare capacity with
// known contents behind it.
type env struct {
	w     world
	named map[string][]byte // well-formed buffers
	bufs  [][]byte          // all buffers: the named ones and the case's own
	lists [][][]byte
	ids   []string // transaction ids
	path  []uint32
	words []string
	txs   []*transaction.Transaction
	key   *bsvec.PrivateKey

	regions []region // what must not change
	txWas   []snap
	insWas  [][]*input.Input
	outsWas [][]*output.Output
}

type region struct {
	name string
	live []byte // full capacity
	was  []byte
}

const spareByte = 0xa5

func (e *env) slack(b []byte) []byte {
	full := make([]byte, len(b)+e.w.Spare)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = spareByte
	}
	return full[:len(b)]
}

func (e *env) buf(name string, b []byte) []byte {
	s := e.slack(b)
	e.watch(name, s)
	e.bufs = append(e.bufs, s)
	if e.named == nil {
		e.named = map[string][]byte{}
	}
	e.named[name] = s
	return s
}

func (e *env) watch(name string, s []byte) {
	full := s[:cap(s)]
	e.regions = append(e.regions, region{name, full, append([]byte{}, full...)})
}

func (e *env) script(name string, b []byte) *script.Script {
	s := e.slack(b)
	e.watch(name, s)
	return script.NewFromBytes(s)
}

func (e *env) addTx(r *ref.Tx, prev func(k int) []byte, unlock bool) {
	n := len(e.txs)
	tx := transaction.New()
	tx.Version, tx.Locktime = r.Version, r.Lock
	tx.Inputs = make([]*input.Input, 0, len(r.In)+e.w.Spare/8)
	tx.Outputs = make([]*output.Output, 0, len(r.Out)+e.w.Spare/8)
	for k, i := range r.In {
		in := &input.Input{PreviousTxID: hex.EncodeToString(ref.Rev(i.Hash)), PreviousTxOutIndex: i.Vout, SequenceNumber: i.Seq,
			PreviousTxSatoshis: uint64(k) * 1000, PreviousTxScript: e.script(fmt.Sprintf("tx %d input %d previous script", n, k), prev(k))}
		if unlock {
			in.UnlockingScript = e.script(fmt.Sprintf("tx %d input %d unlocking script", n, k), i.Script)
		}
		tx.Inputs = append(tx.Inputs, in)
	}
	for k, o := range r.Out {
		tx.Outputs = append(tx.Outputs, &output.Output{Satoshis: o.Sats, LockingScript: e.script(fmt.Sprintf("tx %d output %d script", n, k), o.Script)})
	}
	e.txs = append(e.txs, tx)
	e.txWas = append(e.txWas, snapshot(tx))
	e.insWas = append(e.insWas, append([]*input.Input{}, tx.Inputs[:cap(tx.Inputs)]...))
	e.outsWas = append(e.outsWas, append([]*output.Output{}, tx.Outputs[:cap(tx.Outputs)]...))
}

func (w world) build() *env {
	e := &env{w: w, key: privKey(w.Key)}
	for k, b := range w.Bufs {
		e.buf(fmt.Sprintf("buffer %d", k), b.Bytes())
	}
	pub := pubKey(w.Key)
	h := ref.Hash160(pub)
	r := w.Tx.Ref()
	e.buf("tx", r.Bytes())
	if len(r.In) > 0 {
		e.buf("in", append(ref.InBytes(r.In[0]), 1, 2))
	} else {
		e.buf("in", append(make([]byte, 36), 0, 1, 2, 3, 4))
	}
	if len(r.Out) > 0 {
		e.buf("out", append(ref.OutBytes(r.Out[0]), 1))
	} else {
		e.buf("out", append(make([]byte, 8), 1, 0x51))
	}
	e.buf("p2pkh", ref.P2PKH(h))
	e.buf("pub", pub)
	e.buf("h20", h)
	e.buf("h32", ref.Sha256d(pub))
	e.buf("w0", []byte{1, 2, 3, 4})
	e.buf("w1", []byte{5, 6, 7, 8})
	e.buf("w2", []byte{9, 10, 11, 12})
	var list [][]byte
	parts := []byte{}
	data := []byte{0, 0x6a}
	for k := range w.Bufs {
		if len(e.bufs[k]) > 0 {
			list = append(list, e.bufs[k])
			parts = append(parts, ref.Push(e.bufs[k])...)
			data = append(data, ref.Push(e.bufs[k])...)
		}
	}
	e.buf("pushes", parts)
	e.buf("data", data)
	ms := []byte{0x51}
	for k := 0; k < 2; k++ {
		ms = append(ms, ref.Push(pub)...)
	}
	e.buf("multisig", append(ms, 0x52, 0xae))
	e.buf("p2pk", append(ref.Push(pub), 0xac))
	e.buf("p2sh", append(append([]byte{0xa9, 20}, h...), 0x87))
	e.buf("der", g.Pat(71, w.Leaves.S|4).Bytes())
	e.buf("key16", ref.Sha256d(h)[:16])
	block, _ := aes.NewCipher(ref.Sha256d(h)[:16])
	iv := g.Pat(16, w.Leaves.S|8).Bytes()
	e.buf("cipher", append(append([]byte{}, iv...), cfb(block, iv, []byte("aGVsbG8gd29ybGQ="), true)...))
	e.lists = append(e.lists, append(make([][]byte, 0, len(list)+2), list...))
	rev := make([][]byte, 0, len(list)+1)
	for k := len(list) - 1; k >= 0; k-- {
		rev = append(rev, list[k])
	}
	e.lists = append(e.lists, rev)
	for _, l := range e.lists {
		if cap(l) > len(l) {
			l[:cap(l)][len(l)] = e.named["pub"]
		}
	}
	ids := w.Leaves.ids()
	e.ids = append(make([]string, 0, len(ids)+2), ids...)
	e.ids[:cap(e.ids)][len(ids)] = "spare"
	e.path = append(make([]uint32, 0, 4), 1, w.Bits&0x7fffffff, 77)[:2]
	e.words = append(make([]string, 0, 4), "hello", "", "world", "spare")[:3]
	mixed := func(k int) []byte {
		if k%3 == 1 {
			return []byte{0x51}
		}
		return ref.P2PKH(h)
	}
	e.addTx(r, mixed, true)
	e.addTx(r, func(k int) []byte { return ref.P2PKH(h) }, false)
	return e
}

// intact says whether all data handed to the library is as it was.
func (e *env) intact() error {
	for _, r := range e.regions {
		if !bytes.Equal(r.live, r.was) {
			return same(r.name+" (with its spare capacity)", r.live, r.was)
		}
	}
	for k, tx := range e.txs {
		if err := e.txWas[k].diff(snapshot(tx), -1); err != nil {
			return fmt.Errorf("transaction %d: %v", k, err)
		}
		ins, outs := tx.Inputs[:cap(tx.Inputs)], tx.Outputs[:cap(tx.Outputs)]
		if len(ins) != len(e.insWas[k]) || len(outs) != len(e.outsWas[k]) {
			return fmt.Errorf("transaction %d: its lists were reallocated", k)
		}
		for j := range ins {
			if ins[j] != e.insWas[k][j] {
				return fmt.Errorf("transaction %d: entry %d of the input list (spare capacity included) is another one", k, j)
			}
		}
		for j := range outs {
			if outs[j] != e.outsWas[k][j] {
				return fmt.Errorf("transaction %d: entry %d of the output list (spare capacity included) is another one", k, j)
			}
		}
	}
	at := func(b []byte) *byte {
		if cap(b) == 0 {
			return nil
		}
		return &b[:1][0]
	}
	n := len(e.lists[0])
	for k := range e.lists[0] {
		if at(e.lists[0][k]) != at(e.lists[1][n-1-k]) {
			return fmt.Errorf("a list of buffers has other elements or another order")
		}
	}
	j := 0
	for k := range e.w.Bufs {
		if e.w.Bufs[k].Len() > 0 {
			if x := e.lists[0][j]; at(x) != at(e.bufs[k]) || len(x) != len(e.bufs[k]) {
				return fmt.Errorf("element %d of a list of buffers is another one", j)
			}
			j++
		}
	}
	for _, l := range e.lists {
		if cap(l) > len(l) && at(l[:cap(l)][len(l)]) != at(e.named["pub"]) {
			return fmt.Errorf("the spare capacity of a list of buffers changed")
		}
	}
	want := e.w.Leaves.ids()
	for k := range want {
		if e.ids[k] != want[k] {
			return fmt.Errorf("id %d of a list changed", k)
		}
	}
	if e.ids[:cap(e.ids)][len(want)] != "spare" {
		return fmt.Errorf("the spare capacity of a list of ids changed")
	}
	if p := e.path[:4]; p[0] != 1 || p[1] != e.w.Bits&0x7fffffff || p[2] != 77 || p[3] != 0 {
		return fmt.Errorf("derivation path changed: %v", p)
	}
	if strings.Join(e.words[:4], ",") != "hello,,world,spare" {
		return fmt.Errorf("list of texts changed: %q", e.words[:4])
	}
	if !bytes.Equal(e.key.Serialize(), g.Unhex(e.w.Key)) {
		return fmt.Errorf("the private key changed")
	}
	return nil
}

// result is what one call gave: its value in text form and the memory it
// handed out.
type result struct {
	text bytes.Buffer
	raw  [][]byte // as returned
	was  [][]byte
	ints []*big.Int
	iwas []string
	strs [][]string
	swas []string

	// what was handed out by pointer
	scripts []*script.Script
	ins     []*input.Input
	outs    []*output.Output
	txs     []*transaction.Transaction
	addrs   []*address.Address
	redeems []*script.RedeemScript
	live    string // their contents then
	gone    bool   // written over by the caller
}

// contents renders everything handed out by pointer.
func (r *result) contents() string {
	var b bytes.Buffer
	sc := func(s *script.Script) {
		if s == nil {
			b.WriteString("nil;")
			return
		}
		fmt.Fprintf(&b, "%x;", []byte(*s))
	}
	in := func(i *input.Input) {
		if i == nil {
			b.WriteString("nil;")
			return
		}
		fmt.Fprintf(&b, "%s:%d %x %d ", i.PreviousTxID, i.PreviousTxOutIndex, i.SequenceNumber, i.PreviousTxSatoshis)
		sc(i.UnlockingScript)
		sc(i.PreviousTxScript)
	}
	out := func(o *output.Output) {
		if o == nil {
			b.WriteString("nil;")
			return
		}
		fmt.Fprintf(&b, "%d ", o.Satoshis)
		sc(o.LockingScript)
	}
	for _, s := range r.scripts {
		sc(s)
	}
	for _, i := range r.ins {
		in(i)
	}
	for _, o := range r.outs {
		out(o)
	}
	for _, t := range r.txs {
		fmt.Fprintf(&b, "tx %d %d %d %d:", t.Version, t.Locktime, len(t.Inputs), len(t.Outputs))
		for _, i := range t.Inputs {
			in(i)
		}
		for _, o := range t.Outputs {
			out(o)
		}
	}
	for _, a := range r.addrs {
		fmt.Fprintf(&b, "%s %s;", a.AddressString, a.PublicKeyHash)
	}
	for _, s := range r.redeems {
		fmt.Fprintf(&b, "%d %x %x;", s.SignaturesRequired, s.PublicKeys, s.Signatures)
	}
	return b.String()
}

func (r *result) b(b []byte) {
	fmt.Fprintf(&r.text, "%x;", b)
	r.raw = append(r.raw, b)
	r.was = append(r.was, append([]byte{}, b...))
}
func (r *result) bs(l [][]byte) {
	for _, b := range l {
		r.b(b)
	}
}
func (r *result) s(v string) { fmt.Fprintf(&r.text, "%q;", v) }
func (r *result) ss(v []string) {
	fmt.Fprintf(&r.text, "%q;", v)
	r.strs = append(r.strs, v)
	r.swas = append(r.swas, fmt.Sprintf("%q", v))
}
func (r *result) v(v ...any) { fmt.Fprintf(&r.text, "%v;", v) }
func (r *result) f(v float64) {
	fmt.Fprintf(&r.text, "%x;", math.Float64bits(v))
}
func (r *result) e(err error) bool {
	fmt.Fprintf(&r.text, "err=%v;", err != nil)
	return err == nil
}
func (r *result) i(v *big.Int) {
	if v == nil {
		return
	}
	r.s(v.String())
	r.ints = append(r.ints, v)
	r.iwas = append(r.iwas, v.String())
}
func (r *result) sc(s *script.Script) {
	if s == nil {
		r.s("nil")
		return
	}
	r.b([]byte(*s))
	r.scripts = append(r.scripts, s)
}
func (r *result) tx(tx *transaction.Transaction) {
	if tx == nil {
		return
	}
	r.txs = append(r.txs, tx)
	r.v(tx.Version, tx.Locktime)
	for _, i := range tx.Inputs {
		r.in(i)
	}
	for _, o := range tx.Outputs {
		r.out(o)
	}
}
func (r *result) in(i *input.Input) {
	r.v(i.PreviousTxID, i.PreviousTxOutIndex, i.SequenceNumber, i.PreviousTxSatoshis)
	r.sc(i.UnlockingScript)
	r.sc(i.PreviousTxScript)
	r.ins = append(r.ins, i)
}
func (r *result) out(o *output.Output) {
	r.v(o.Satoshis)
	r.sc(o.LockingScript)
	r.outs = append(r.outs, o)
}
func (r *result) redeem(rs *script.RedeemScript) {
	r.redeems = append(r.redeems, rs)
	r.v(rs.SignaturesRequired)
	r.bs(rs.PublicKeys)
}

func (r *result) intact() error {
	if r.gone {
		return nil
	}
	if err := sameStr("an object returned earlier", r.contents(), r.live); err != nil {
		return err
	}
	for k := range r.raw {
		if !bytes.Equal(r.raw[k], r.was[k]) {
			return same("a result returned earlier", r.raw[k], r.was[k])
		}
	}
	for k := range r.ints {
		if err := sameStr("a number returned earlier", r.ints[k].String(), r.iwas[k]); err != nil {
			return err
		}
	}
	for k := range r.strs {
		if err := sameStr("a list returned earlier", fmt.Sprintf("%q", r.strs[k]), r.swas[k]); err != nil {
			return err
		}
	}
	return nil
}

// owns says whether b lies in memory handed to the library: a function may
// return part of its own argument (the pushes of a script, say), which the
// caller would be writing over himself.
func (e *env) owns(b []byte) bool {
	if e == nil || cap(b) == 0 {
		return false
	}
	p := uintptr(unsafe.Pointer(&b[:1][0]))
	for _, r := range e.regions {
		if len(r.live) == 0 {
			continue
		}
		q := uintptr(unsafe.Pointer(&r.live[0]))
		if p < q+uintptr(len(r.live)) && q < p+uintptr(cap(b)) {
			return true
		}
	}
	return false
}

// scribble writes over everything the call returned, except what lies in
// e's data: it is the caller's.
func (r *result) scribble(e *env) {
	if r.gone {
		return
	}
	r.gone = true
	grow := func(s *script.Script) {
		if s == nil || e.owns(*s) {
			return
		}
		*s = append(*s, 0xee, 0xef) // the bytes already there are done below
	}
	for _, s := range r.scripts {
		grow(s)
	}
	for _, rs := range r.redeems {
		l := rs.PublicKeys[:cap(rs.PublicKeys)]
		for i := range l {
			l[i] = []byte("scribbled")
		}
		rs.SignaturesRequired, rs.Signatures = 77, append(rs.Signatures, []byte{1})
	}
	for _, a := range r.addrs {
		a.AddressString, a.PublicKeyHash = "scribbled", "scribbled"
	}
	for _, t := range r.txs {
		in, out := t.Inputs[:cap(t.Inputs)], t.Outputs[:cap(t.Outputs)]
		for i := range in {
			in[i] = &input.Input{PreviousTxID: "scribbled"}
		}
		for i := range out {
			out[i] = &output.Output{Satoshis: 4711, LockingScript: &script.Script{0xee}}
		}
		t.Version, t.Locktime = 0xeeeeeeee, 0xeeeeeeee
	}
	for _, i := range r.ins {
		i.PreviousTxID, i.PreviousTxOutIndex, i.SequenceNumber, i.PreviousTxSatoshis = "scribbled", 4711, 4711, 4711
		grow(i.UnlockingScript)
		grow(i.PreviousTxScript)
	}
	for _, o := range r.outs {
		o.Satoshis = 4711
		grow(o.LockingScript)
	}
	for _, b := range r.raw {
		if e.owns(b) {
			continue
		}
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5a
		}
	}
	for _, v := range r.ints {
		v.SetInt64(-12345)
	}
	for _, l := range r.strs {
		l = l[:cap(l)]
		for i := range l {
			l[i] = "scribbled"
		}
	}
}

// spare appends to each of the call's byte results, within their capacity:
// no other result may change by it.
func (r *result) spare(e *env) error {
	if len(r.raw) > 200 {
		return nil
	}
	for _, b := range r.raw {
		n := cap(b) - len(b)
		if n == 0 || e.owns(b) {
			continue
		}
		if n > 64 {
			n = 64
		}
		behind := b[len(b) : len(b)+n]
		was := append([]byte{}, behind...)
		for i := range behind {
			behind[i] ^= 0x5a
		}
		err := r.intact()
		copy(behind, was)
		if err != nil {
			return fmt.Errorf("appending to one result (%s) changes another: %v", short(b), err)
		}
	}
	return nil
}

type opCall struct {
	Op string `json:"op"`
	A  uint32 `json:"a,omitempty"`
	B  uint32 `json:"b,omitempty"`
	// W: the caller writes over what this call returned before the next call.
	W bool `json:"w,omitempty"`
}

func (e *env) pick(i uint32) []byte { return e.bufs[int(i%uint32(len(e.bufs)))] }
func (e *env) tx(i uint32) *transaction.Transaction {
	return e.txs[i%uint32(len(e.txs))]
}

// fresh is a private copy of a transaction, for operations that change one.
func fresh(tx *transaction.Transaction) *transaction.Transaction {
	c := transaction.New()
	c.Version, c.Locktime = tx.Version, tx.Locktime
	cp := func(s *script.Script) *script.Script {
		if s == nil {
			return nil
		}
		return script.NewFromBytes(append([]byte{}, *s...))
	}
	for _, i := range tx.Inputs {
		j := *i
		j.UnlockingScript, j.PreviousTxScript = cp(i.UnlockingScript), cp(i.PreviousTxScript)
		c.Inputs = append(c.Inputs, &j)
	}
	for _, o := range tx.Outputs {
		c.Outputs = append(c.Outputs, &output.Output{Satoshis: o.Satoshis, LockingScript: cp(o.LockingScript)})
	}
	return c
}

func hexOr(b []byte) string { return hex.EncodeToString(b) }

var flagsFor = []sighash.Flag{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3}

// oddBits are texts of bits that are refused or at a limit.
var oddBits = []string{"", "1d00fff", "1d00ffffff", "zz00ffff", "00000000", "1d800001", "ff7fffff", "2100ffff", "22000001", "01800000"}

// oddAddress is the address of the world's hash, or a text of which address
// parsers complain in one way or another.
func oddAddress(e *env, v uint32) string {
	t := ref.Address(e.named["h20"], v%2 == 0)
	switch v / 2 % 9 {
	case 3:
		return t[1:]
	case 4:
		return t[:len(t)-1] + "0"
	case 5:
		return ref.B58Check(append([]byte{[]byte{0x05, 0xc4, 0x80}[v%3]}, e.named["h20"]...))
	case 6:
		return t + "1"
	case 7:
		return "1" + t
	case 8:
		return ""
	}
	return t
}

// ops are the library's calls. Each is deterministic given its arguments
// (encryption is judged by what it decrypts to).
var ops = map[string]func(e *env, a, b uint32, r *result){
	"sha256":    func(e *env, a, b uint32, r *result) { r.b(crypto.Sha256(e.pick(a))) },
	"sha256d":   func(e *env, a, b uint32, r *result) { r.b(crypto.Sha256d(e.pick(a))) },
	"ripemd160": func(e *env, a, b uint32, r *result) { r.b(crypto.Ripemd160(e.pick(a))) },
	"hash160":   func(e *env, a, b uint32, r *result) { r.b(crypto.Hash160(e.pick(a))) },
	"encrypt": func(e *env, a, b uint32, r *result) {
		c, err := aes.NewCipher(e.named["key16"])
		if !r.e(err) {
			return
		}
		ct, err := crypto.Encrypt(c, e.pick(a))
		if !r.e(err) {
			return
		}
		r.v(len(ct))
		r.raw, r.was = append(r.raw, ct), append(r.was, append([]byte{}, ct...))
		pt, err := crypto.Decrypt(c, append([]byte{}, ct...))
		r.e(err)
		r.b(pt)
	},
	"decrypt": func(e *env, a, b uint32, r *result) {
		c, err := aes.NewCipher(e.named["key16"])
		if !r.e(err) {
			return
		}
		x := e.named["cipher"]
		if b%4 == 0 {
			x = e.pick(a)
		}
		pt, err := crypto.Decrypt(c, x)
		if r.e(err) {
			r.b(pt)
		}
	},
	"varint": func(e *env, a, b uint32, r *result) { r.b(utils.VarInt(uint64(a)<<(b%33) | uint64(b))) },
	"devarint": func(e *env, a, b uint32, r *result) {
		if x := e.pick(a); len(x) > 0 {
			v, n := utils.DecodeVarInt(x)
			r.v(v, n)
		}
	},
	"reverse":    func(e *env, a, b uint32, r *result) { r.b(utils.ReverseBytes(e.pick(a))) },
	"reversehex": func(e *env, a, b uint32, r *result) { r.s(utils.ReverseHexString(hexOr(e.pick(a)))) },
	"sort": func(e *env, a, b uint32, r *result) {
		l := e.lists[a%2]
		out := utils.SortByteArrays(append([][]byte{}, l...))
		for _, x := range out { // the elements are the caller's own buffers
			r.v(hexOr(x))
		}
	},
	"le":     func(e *env, a, b uint32, r *result) { r.b(utils.GetLittleEndianBytes(a, 4+b%8)) },
	"equals": func(e *env, a, b uint32, r *result) { r.v(utils.Equals(e.pick(a), e.pick(b))) },
	"dec32": func(e *env, a, b uint32, r *result) {
		x := e.pick(a)
		if b%2 == 0 {
			x = e.named["h32"]
		}
		text := hexOr(x)
		if b%9 == 8 {
			text += "z"
		}
		v, err := utils.Decode32Byte(text)
		if r.e(err) {
			r.v(v)
		}
	},
	"human": func(e *env, a, b uint32, r *result) {
		r.s(utils.HumanHash(math.Ldexp(float64(a), int(b%90))))
		r.s(utils.HumanHash([]float64{0, 0.5, 999.999, 1000, 1e30}[b%5]))
	},

	"header": func(e *env, a, b uint32, r *result) {
		r.b(block.BuildBlockHeader(a, e.ids[int(b%uint32(len(e.ids)))], e.named["h32"], e.named["w0"], e.named["w1"], e.named["w2"]))
	},
	"branches": func(e *env, a, b uint32, r *result) {
		n := len(e.ids)
		switch a % 3 {
		case 0:
			r.ss(block.GetMerkleBranches(e.ids))
		case 1:
			r.ss(block.GetMerkleBranches(e.ids[:1+int(b%uint32(n))]))
		default: // one id another
			l := append([]string{}, e.ids...)
			l[int(b%uint32(n))] = hexOr(ref.Sha256d([]byte{byte(b), byte(b >> 8)}))
			r.ss(block.GetMerkleBranches(l))
		}
	},
	"cbroot": func(e *env, a, b uint32, r *result) {
		r.b(block.BuildMerkleRootFromCoinbase(e.named["h32"], e.ids[:int(a%uint32(len(e.ids)+1))]))
	},
	"root": func(e *env, a, b uint32, r *result) {
		n := min(len(e.ids)-1, int(b%12))
		id, pos, path := e.ids[0], int(a%(1<<uint(n))), append([]string{}, e.ids[1:1+n]...)
		switch a % 9 {
		case 5:
			pos = -pos - 1
		case 6:
			pos += 1 << uint(n)
		case 7:
			id = id[1:]
		case 8:
			if n > 0 {
				path[int(b)%n] = "zz"
			}
		}
		root, err := block.MerkleRootFromBranches(id, pos, path)
		if r.e(err) {
			r.s(root)
		}
	},
	"cbparts": func(e *env, a, b uint32, r *result) {
		wc := ""
		if b%2 == 0 {
			wc = hexOr(e.pick(b))
		}
		addr := ref.Address(e.named["h20"], a%2 == 0)
		switch a % 11 {
		case 9:
			addr = addr[1:]
		case 10:
			wc = "zz"
		}
		c1, c2, err := block.GetCoinbaseParts(a&0xffffff, uint64(a)<<20|uint64(b), wc, string(e.pick(a)), addr, e.pick(a+b))
		if r.e(err) {
			r.b(c1)
			r.b(c2)
		}
	},
	"cbbuild": func(e *env, a, b uint32, r *result) {
		n2 := hexOr(e.named["w1"])
		if a%7 == 6 {
			n2 = ""
		}
		r.b(block.BuildCoinbase(e.pick(a), e.pick(b), hexOr(e.named["w0"]), n2))
	},
	"target": func(e *env, a, b uint32, r *result) {
		bits := e.w.Bits
		if a%3 == 0 {
			bits = b
		}
		text := fmt.Sprintf("%08x", bits&0x3f7fffff)
		if a%6 == 5 {
			text = oddBits[b%uint32(len(oddBits))]
		}
		t, err := block.ExpandTargetFrom(text)
		if r.e(err) {
			r.s(t)
		}
	},
	"targetint": func(e *env, a, b uint32, r *result) {
		bits := e.w.Bits
		if a%3 == 0 {
			bits = b
		}
		text := fmt.Sprintf("%08x", bits&0x3fffffff)
		if a%6 == 5 {
			text = oddBits[b%uint32(len(oddBits))]
		}
		t, err := block.ExpandTargetFromAsInt(text)
		if r.e(err) {
			r.i(t)
		}
	},
	"difficulty": func(e *env, a, b uint32, r *result) {
		bits := fmt.Sprintf("%08x", (e.w.Bits^a<<8)&0x1f7fffff|0x03000100)
		if b%4 == 3 {
			bits = oddBits[a%uint32(len(oddBits))]
		}
		d, err := block.DifficultyFromBits(bits)
		if r.e(err) {
			r.f(d)
		}
	},
	"hashrate": func(e *env, a, b uint32, r *result) {
		r.f(block.DifficultyToHashrate([]string{"BSV", "RBSV", "BTC", "", "r", "R", "TBSV"}[a%7], uint64(b), []float64{600, 600, 0.5, 1e-300, 0, -1, math.Inf(1), 1e300}[b%8]))
	},

	"encodeparts": func(e *env, a, b uint32, r *result) {
		x, err := script.EncodeParts(e.lists[a%2])
		if r.e(err) {
			r.b(x)
		}
	},
	"decodeparts": func(e *env, a, b uint32, r *result) {
		x := e.pick(a)
		if b%2 == 0 {
			x = e.named["pushes"]
		}
		p, err := script.DecodeParts(x)
		if r.e(err) {
			r.bs(p)
		}
	},
	"decodestr": func(e *env, a, b uint32, r *result) {
		text := hexOr(e.pick(a))
		if b%5 == 4 {
			text += "z"
		}
		p, err := script.DecodeStringParts(text)
		if r.e(err) {
			r.bs(p)
		}
	},
	"prefix": func(e *env, a, b uint32, r *result) {
		p, err := script.GetPushDataPrefix(e.pick(a))
		if r.e(err) {
			r.b(p)
		}
	},
	"predicates": func(e *env, a, b uint32, r *result) {
		s := script.NewFromBytes(e.pick(a))
		r.v(s.IsP2PKH(), s.IsP2PK(), s.IsP2SH(), s.IsData(), s.IsMultisigOut())
		h, err := s.GetPublicKeyHash()
		if r.e(err) {
			r.b(h)
		}
	},
	"render": func(e *env, a, b uint32, r *result) {
		x := e.pick(a)
		s := script.NewFromBytes(x)
		r.s(s.ToString())
		if t, err := s.ToASM(); r.e(err) {
			r.s(t)
			if back, err := script.NewFromASM(t); r.e(err) {
				r.sc(back)
			}
		}
	},
	"fromhex": func(e *env, a, b uint32, r *result) {
		text := hexOr(e.pick(a))
		if b%5 == 4 {
			text += "z"
		}
		s, err := script.NewFromHexString(text)
		if r.e(err) {
			r.sc(s)
		}
	},
	"p2pkh": func(e *env, a, b uint32, r *result) {
		var s *script.Script
		var err error
		switch a % 4 {
		case 0:
			s, err = script.NewP2PKHFromPubKeyBytes(e.named["pub"])
		case 1:
			s, err = script.NewP2PKHFromPubKeyStr(hexOr(e.named["pub"]))
		case 2:
			s, err = script.NewP2PKHFromPubKeyHashStr(hexOr(e.named["h20"])[2*(b/7%2):])
		default:
			s, err = script.NewP2PKHFromAddress(oddAddress(e, b))
		}
		if r.e(err) {
			r.sc(s)
		}
	},
	"unlocking": func(e *env, a, b uint32, r *result) {
		s, err := script.NewP2PKHUnlockingScript(e.named["pub"], e.named["der"], flagsFor[a%6])
		if r.e(err) {
			r.sc(s)
		}
	},
	"append": func(e *env, a, b uint32, r *result) {
		s := script.NewFromBytes(append([]byte{}, e.named["p2pkh"]...))
		switch b % 5 {
		case 0:
			r.e(s.AppendPushData(e.pick(a)))
		case 1:
			text := hexOr(e.pick(a))
			if a/16%2 == 1 {
				text += "z"
			}
			r.e(s.AppendPushDataHexString(text))
		case 2:
			r.e(s.AppendPushDataString(string(e.pick(a))))
		case 3:
			r.e(s.AppendPushDataArray(e.lists[a%2]))
		default:
			r.e(s.AppendPushDataStrings(e.words))
		}
		s.AppendOpCode(byte(a))
		r.sc(s)
	},
	"redeem": func(e *env, a, b uint32, r *result) {
		rs, err := script.NewRedeemScript([]int{2, 2, 2, 16, 17, 0, -1, 1, 3}[a%9])
		if !r.e(err) {
			return
		}
		switch b % 7 {
		case 4:
			r.e(rs.AddPublicKey(ref.B58Check(e.w.Ext.payload()), e.path[:1]))
		case 5:
			r.e(rs.AddPublicKey(ref.B58Check(e.w.Ext.payload())[1:], e.path))
		case 6:
			r.e(rs.AddPublicKey("", nil))
		}
		for k := uint32(0); k < 1+b%2; k++ {
			if k == 1 {
				e.w.Ext.Num++
				r.e(rs.AddPublicKey(ref.B58Check(e.w.Ext.payload()), e.path))
				e.w.Ext.Num--
			} else {
				r.e(rs.AddPublicKey(ref.B58Check(e.w.Ext.payload()), e.path))
			}
		}
		r.b(rs.GetRedeemScript())
		r.s(rs.GetAddress())
		r.b(rs.GetRedeemScriptHash())
		r.redeem(rs)
	},
	"electrum": func(e *env, a, b uint32, r *result) {
		x := e.w.Ext
		x.Priv = false
		t := "52"
		for k := 0; k < 2; k++ {
			x.Num = uint32(k)
			p := append([]byte{0xff}, x.payload()...)
			p = append(p, byte(a), byte(a>>8), byte(k), byte(b))
			t += hexOr(ref.Push(p))
		}
		t += "52ae"
		switch a % 12 {
		case 6:
			t = t[:len(t)-2]
		case 7:
			t = t[:len(t)-2] + "ac"
		case 8:
			t = t[:len(t)-4] + "53ae"
		case 9:
			t = "51" + t[2:]
		case 10:
			t = t[1:]
		case 11:
			t = strings.Replace(t, "ff", "fe", 1)
		}
		rs, err := script.NewRedeemScriptFromElectrum(t)
		if r.e(err) {
			r.b(rs.GetRedeemScript())
			r.s(rs.GetAddress())
			r.redeem(rs)
		}
	},

	"address": func(e *env, a, b uint32, r *result) {
		var ad *address.Address
		var err error
		switch a % 4 {
		case 0:
			ad, err = address.NewFromPublicKeyString(hexOr(e.named["pub"])[b/2%5/4:], b%2 == 0)
		case 1:
			ad, err = address.NewFromPublicKeyHash(e.named["h20"][b/2%5/4:], b%2 == 0)
		case 2:
			ad, err = address.NewFromPublicKey(e.key.PubKey(), b%2 == 0)
		default:
			ad, err = address.NewFromString(oddAddress(e, b))
		}
		if r.e(err) {
			r.s(ad.AddressString)
			r.s(ad.PublicKeyHash)
			r.addrs = append(r.addrs, ad)
		}
	},
	"validate": func(e *env, a, b uint32, r *result) {
		t := oddAddress(e, b/8)
		switch b % 8 {
		case 0, 2:
			t = ref.Address(e.named["h20"], a%2 == 0)
		case 1:
			t = ref.BIP276("bitcoin-script", 1, 1, e.pick(a))
		case 3:
			t = ref.BIP276("bitcoin-script", 1, 1, e.pick(a))[:20]
		case 4:
			t = ref.BIP276("bitcoin-template", 2, 1, e.pick(a))
		}
		ok, err := address.ValidateAddress(t)
		r.v(ok)
		r.e(err)
	},
	"base58": func(e *env, a, b uint32, r *result) { r.s(address.Base58EncodeMissingChecksum(e.pick(a))) },
	"bip276": func(e *env, a, b uint32, r *result) {
		t := address.EncodeBIP276("bitcoin-script", int(a%257), int(b%257), e.pick(a))
		r.s(t)
		switch b % 6 {
		case 4:
			t = t[1:] + "0"
		case 5:
			t = t[:len(t)-1]
		}
		p, v, n, d, err := address.DecodeBIP276(t)
		if r.e(err) {
			r.s(p)
			r.v(v, n)
			r.b(d)
		}
	},

	"parsetx": func(e *env, a, b uint32, r *result) {
		x := e.named["tx"]
		switch b % 8 {
		case 0:
			x = x[:len(x)/2]
		case 1: // a relative
			x = append([]byte{}, x...)
			x[len(x)-1] ^= byte(a)
		}
		tx, err := transaction.NewFromBytes(x)
		if r.e(err) {
			r.tx(tx)
		}
	},
	"parsehex": func(e *env, a, b uint32, r *result) {
		text := hexOr(e.named["tx"])
		if b%5 == 4 {
			text = text[:int(a)%len(text)]
		}
		tx, err := transaction.NewFromString(text)
		if r.e(err) {
			r.tx(tx)
		}
	},
	"newtx": func(e *env, a, b uint32, r *result) { // built anew and kept
		tx := transaction.New()
		for k := uint32(0); k < a%4; k++ {
			r.e(tx.From(e.ids[int(k)%len(e.ids)], b+k, hexOr(e.named["p2pkh"]), uint64(a)))
		}
		for k := uint32(0); k < b%3; k++ {
			r.e(tx.PayTo(ref.Address(e.named["h20"], k == 0), uint64(b)+uint64(k)))
		}
		if a%5 == 0 {
			tx.AddInput(input.New())
		}
		if a%7 == 0 {
			tx.AddOutput(&output.Output{Satoshis: 5, LockingScript: &script.Script{0x51}})
		}
		r.tx(tx)
	},
	"newin": func(e *env, a, b uint32, r *result) {
		r.in(input.New())
		in, err := input.NewFromUTXO(e.ids[int(a)%len(e.ids)], a, uint64(b), hexOr(e.pick(a)), b)
		if r.e(err) {
			r.in(in)
		}
	},
	"asm": func(e *env, a, b uint32, r *result) {
		s, err := script.NewFromASM([]string{"OP_DUP OP_HASH160 " + hexOr(e.named["h20"]) + " OP_EQUALVERIFY OP_CHECKSIG", "", "OP_1", "0 OP_RETURN " + hexOr(e.named["h32"]), "OP_FALSE OP_RETURN", "OP_NONE", "xyz", "abc"}[a%8])
		if r.e(err) {
			r.sc(s)
		}
	},
	"parsein": func(e *env, a, b uint32, r *result) {
		x := e.named["in"]
		if b%5 == 4 {
			x = x[:int(a)%len(x)]
		}
		i, n, err := input.NewFromBytes(x)
		if r.e(err) {
			r.v(n)
			r.in(i)
		}
	},
	"parseout": func(e *env, a, b uint32, r *result) {
		x := e.named["out"]
		if b%5 == 4 {
			x = x[:int(a)%len(x)]
		}
		o, n, err := output.NewFromBytes(x)
		if r.e(err) {
			r.v(n)
			r.out(o)
		}
	},
	"txbytes": func(e *env, a, b uint32, r *result) {
		tx := e.tx(a)
		r.b(tx.ToBytes())
		r.s(tx.ToString())
	},
	"txid": func(e *env, a, b uint32, r *result) {
		tx := e.tx(a)
		r.s(tx.GetTxID())
		r.v(tx.IsCoinbase(), tx.InputCount(), tx.OutputCount(), tx.GetTotalOutputSatoshis())
	},
	"cleared": func(e *env, a, b uint32, r *result) {
		tx := e.tx(a)
		r.b(tx.ToBytesWithClearedInputs(int(b%uint32(len(tx.Inputs)+2))-1, e.pick(b)))
	},
	"sighash": func(e *env, a, b uint32, r *result) {
		tx := e.tx(a)
		h, err := tx.GetInputSignatureHash(b%uint32(len(tx.Inputs)+1), flagsFor[a%6])
		if r.e(err) {
			r.b(h)
		}
	},
	"parts": func(e *env, a, b uint32, r *result) { // of a transaction
		tx := e.tx(a)
		for _, i := range tx.GetInputs() {
			r.b(i.ToBytes(b%2 == 0))
			r.s(i.String())
		}
		for _, o := range tx.GetOutputs() {
			r.b(o.ToBytes())
			r.b(o.GetBytesForSigHash())
			r.s(o.String())
			r.s(o.GetLockingScriptHexString())
		}
	},
	"build": func(e *env, a, b uint32, r *result) { // a new transaction around existing parts
		tx, old := transaction.New(), e.tx(a)
		for _, i := range old.Inputs {
			tx.AddInput(i)
		}
		r.e(tx.From(e.ids[0], b, hexOr(e.named["p2pkh"]), uint64(a)))
		for _, o := range old.Outputs {
			tx.AddOutput(o)
		}
		r.e(tx.PayTo(ref.Address(e.named["h20"], true), uint64(b)))
		tx.AddInput(input.New())
		in, err := input.NewFromUTXO(e.ids[0], a, uint64(b), hexOr(e.pick(a)), b)
		if r.e(err) {
			tx.AddInput(in)
		}
		r.b(tx.ToBytes())
	},
	"sign": func(e *env, a, b uint32, r *result) {
		tx := fresh(e.tx(a))
		r.e(tx.Sign(b%uint32(len(tx.Inputs)+1), &signature.InternalSigner{PrivateKey: e.key, SigHashFlag: flagsFor[b%6]}))
		r.b(tx.ToBytes())
	},
	"custom": func(e *env, a, b uint32, r *result) { // other signers
		tx := fresh(e.tx(a))
		s := &customSigner{mode: []string{"fail", "failtx", "other", "same", "nested"}[b%5], give: fresh(e.tx(a + 1))}
		r.e(tx.Sign(a, s))
		r.b(tx.ToBytes())
		r.e(tx.SignAuto(s))
		r.b(tx.ToBytes())
	},
	"signauto": func(e *env, a, b uint32, r *result) {
		tx := fresh(e.tx(a))
		if len(tx.Inputs) > 3 {
			tx.Inputs = tx.Inputs[:3]
		}
		r.e(tx.SignAuto(&signature.InternalSigner{PrivateKey: e.key, SigHashFlag: flagsFor[b%6]}))
		r.b(tx.ToBytes())
	},
	"apply": func(e *env, a, b uint32, r *result) {
		tx := fresh(e.tx(a))
		r.e(tx.ApplyUnlockingScript(b%uint32(len(tx.Inputs)+1), script.NewFromBytes(e.named["p2pkh"])))
		r.b(tx.ToBytes())
	},
	"opreturn": func(e *env, a, b uint32, r *result) {
		var o *output.Output
		var err error
		if b%2 == 0 {
			o, err = output.NewOpReturnParts(e.lists[a%2])
		} else {
			o, err = output.NewOpReturn(e.pick(a))
		}
		if r.e(err) {
			r.out(o)
		}
	},
	"outs": func(e *env, a, b uint32, r *result) {
		var o *output.Output
		var err error
		switch a % 3 {
		case 0:
			o, err = output.NewP2PkhFromPubKeyHash(hexOr(e.named["h20"])[b/4%4/3:], uint64(b))
		case 1:
			o, err = output.NewP2PKHFromAddress(oddAddress(e, b), uint64(b))
		default:
			o, err = output.NewHashPuzzle(string(e.pick(b)), hexOr(e.named["h20"])[b/4%4/3:], uint64(b))
		}
		if r.e(err) {
			r.out(o)
		}
	},
}

var opNames = func() []string {
	var n []string
	for k := range ops {
		n = append(n, k)
	}
	// a fixed order
	for i := range n {
		for j := i + 1; j < len(n); j++ {
			if n[j] < n[i] {
				n[i], n[j] = n[j], n[i]
			}
		}
	}
	return n
}()

func run(e *env, c opCall) *result {
	r := &result{}
	f := ops[c.Op]
	if f == nil {
		panic("bad case: " + c.Op)
	}
	f(e, c.A, c.B, r)
	r.live = r.contents()
	return r
}

type c27 struct {
	World world    `json:"world"`
	Calls []opCall `json:"calls"`
}

func check27(c c27) error {
	e := c.World.build()
	if err := e.intact(); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	results := make([]*result, len(c.Calls))
	look := func(when string, upto int) error {
		if err := e.intact(); err != nil {
			return fmt.Errorf("%s: changed data it was given: %v", when, err)
		}
		for k := 0; k < upto; k++ {
			if err := results[k].intact(); err != nil {
				return fmt.Errorf("%s: changed the result of call %d (%s): %v", when, k, c.Calls[k].Op, err)
			}
		}
		return nil
	}
	for k, call := range c.Calls {
		results[k] = run(e, call)
		if err := look(fmt.Sprintf("call %d (%s)", k, call.Op), k+1); err != nil {
			return err
		}
		if err := results[k].spare(e); err != nil {
			return fmt.Errorf("call %d (%s): %v", k, call.Op, err)
		}
		if call.W {
			results[k].scribble(e)
			if err := look(fmt.Sprintf("writing over the result of call %d (%s)", k, call.Op), k+1); err != nil {
				return err
			}
		}
	}
	for k := len(c.Calls) - 1; k >= 0; k-- {
		again := run(e, c.Calls[k])
		when := fmt.Sprintf("call %d (%s) made again", k, c.Calls[k].Op)
		if err := sameStr(when, again.text.String(), results[k].text.String()); err != nil {
			return err
		}
		if err := look(when, len(c.Calls)); err != nil {
			return err
		}
	}
	// What was returned belongs to the caller: writing over it must not
	// reach into the library.
	for _, r := range results {
		r.scribble(nil)
	}
	e = c.World.build()
	for k, call := range c.Calls {
		again := run(e, call)
		if err := sameStr(fmt.Sprintf("call %d (%s) made again on equal data, after the caller has written over the earlier results", k, call.Op), again.text.String(), results[k].text.String()); err != nil {
			return err
		}
	}
	for k, r := range results {
		for _, b := range r.raw {
			keep.Long(fmt.Sprintf("call %d (%s)", k, c.Calls[k].Op), b, "")
		}
	}
	return e.intact()
}

type c28 struct {
	Worlds []world    `json:"worlds"` // one for each goroutine
	Calls  [][]opCall `json:"calls"`
	Yield  bool       `json:"yield,omitempty"`
	// Others are cases of other properties, for one goroutine each.
	Others [][]otherCase `json:"others,omitempty"`
}

type otherCase struct {
	ID   string          `json:"id"`
	Case json.RawMessage `json:"case"`
}

// otherIDs are the properties whose cases may run side by side.
var otherIDs = func() (l []string) {
	for k := 1; k <= 32; k++ {
		if k != 27 && k != 28 {
			l = append(l, fmt.Sprintf("C%02d", k))
		}
	}
	return l
}()

// checkOthers runs the checks of other properties at the same time. A check
// that fails then and holds alone was disturbed.
func checkOthers(c c28) error {
	keep.Off()
	defer keep.On()
	errs := make([][]error, len(c.Others))
	var start, done sync.WaitGroup
	start.Add(1)
	for k, l := range c.Others {
		done.Add(1)
		go func() {
			defer done.Done()
			start.Wait()
			for _, o := range l {
				errs[k] = append(errs[k], pbt.Lookup(o.ID).Try(o.Case))
				if c.Yield {
					runtime.Gosched()
				}
			}
		}()
	}
	start.Done()
	done.Wait()
	for k, l := range c.Others {
		for j, o := range l {
			if errs[k][j] != nil && pbt.Lookup(o.ID).Try(o.Case) == nil {
				return fmt.Errorf("goroutine %d, case %d of %s holds alone and failed at the same time as others: %v", k, j, o.ID, errs[k][j])
			}
		}
	}
	return nil
}

func check28(c c28) error {
	if len(c.Others) > 0 {
		return checkOthers(c)
	}
	n := len(c.Worlds)
	if n == 0 || len(c.Calls) != n {
		return fmt.Errorf("bad case")
	}
	type out struct {
		res []*result
		err error
	}
	outs := make([]out, n)
	envs := make([]*env, n)
	for k := range envs {
		envs[k] = c.Worlds[k].build()
	}
	var start, done sync.WaitGroup
	start.Add(1)
	for k := 0; k < n; k++ {
		done.Add(1)
		go func(k int) {
			defer done.Done()
			defer func() {
				if p := recover(); p != nil {
					outs[k].err = fmt.Errorf("goroutine %d: panic: %v", k, p)
				}
			}()
			start.Wait()
			for _, call := range c.Calls[k] {
				r := run(envs[k], call)
				if call.W {
					r.scribble(envs[k])
				}
				outs[k].res = append(outs[k].res, r)
				if c.Yield {
					runtime.Gosched()
				}
			}
		}(k)
	}
	start.Done()
	done.Wait()
	for k := 0; k < n; k++ {
		if outs[k].err != nil {
			return outs[k].err
		}
		if err := envs[k].intact(); err != nil {
			return fmt.Errorf("goroutine %d: its data changed: %v", k, err)
		}
		for j, r := range outs[k].res {
			if err := r.intact(); err != nil {
				return fmt.Errorf("goroutine %d, call %d (%s): its result changed later: %v", k, j, c.Calls[k][j].Op, err)
			}
		}
		e := c.Worlds[k].build()
		for j, call := range c.Calls[k] {
			if err := sameStr(fmt.Sprintf("goroutine %d, call %d (%s), concurrently and alone", k, j, call.Op), outs[k].res[j].text.String(), run(e, call).text.String()); err != nil {
				return err
			}
		}
	}
	return nil
}

func genWorld(t *rapid.T, small bool) world {
	w := world{Spare: g.Pick(t, []int{0, 1, 8, 33, 64, 100}, "spare"), Key: genKey(t, "key"), Bits: 0x1d00ffff}
	maxLen, nb, ni := 300, 5, 4
	if small {
		maxLen, nb, ni = 80, 3, 3
	}
	for k := g.Int(t, 1, nb, "bufs"); k > 0; k-- {
		w.Bufs = append(w.Bufs, g.AnyBlob(t, maxLen, "buf"))
	}
	w.Tx = g.GenTx(t, g.TxOpt{MaxIn: ni, MaxOut: ni, MaxScript: 80})
	w.Leaves = genLeaves(t, 12)
	w.Ext = genExtKey(t)
	w.Ext.Ver, w.Ext.Body = "", ""
	if g.Bool(t, "otherbits") {
		w.Bits = uint32(g.Int(t, 1, 0x22, "exp"))<<24 | g.U32(t, "mant")&0xffffff
	}
	return w
}

func genCalls(t *rapid.T, max int) []opCall {
	n := g.Int(t, 1, max, "calls")
	var l []opCall
	for k := 0; k < n; k++ {
		if len(l) > 0 && g.Chance(t, 6, "repeat") {
			c := g.Pick(t, l, "which")
			switch g.Int(t, 0, 4, "vary") {
			case 0:
				c.A = uint32(g.Raw64(t, "a"))
			case 1:
				c.B = uint32(g.Raw64(t, "b"))
			case 2:
				c.A += uint32(g.Int(t, 1, 4, "da"))
			}
			c.W = g.Chance(t, 3, "w")
			l = append(l, c)
			continue
		}
		l = append(l, opCall{g.Pick(t, opNames, "op"), uint32(g.Raw64(t, "a")), uint32(g.Raw64(t, "b")), g.Chance(t, 4, "w")})
	}
	return l
}

func fixedWorld(seed uint32, spare int) world {
	p := g.Pat(60, seed|16)
	w := world{Bufs: []g.Blob{g.Pat(40, seed|32), {}, g.Pat(76, seed|64), g.Pat(1, seed|4)}, Spare: spare, Bits: 0x1d00ffff,
		Key: hex.EncodeToString(shaOf(seed)), Leaves: leaves{N: 5 + int(seed%4), S: seed},
		Ext: extKey{Chain: g.Pat(32, seed|128), Key: hex.EncodeToString(shaOf(seed + 1)), Priv: seed%2 == 0}}
	w.Tx = g.Tx{Version: 1, In: []g.TxIn{{ID: g.Pat(32, seed|256).Hex(), Vout: 1, Seq: 5, Script: &p}, {ID: g.Pat(32, seed|512).Hex(), Seq: 0xffffffff}},
		Out: []g.TxOut{{Sats: 7, Script: g.Pat(25, seed|8)}, {Sats: 1 << 40, Script: g.Pat(30, seed|24)}}}
	return w
}

func shaOf(seed uint32) []byte {
	h := sha256.Sum256([]byte{byte(seed), byte(seed >> 8), byte(seed >> 16), 9})
	h[0] &= 0x7f
	return h[:]
}

func init() {
	pbt.Register(pbt.Def[c27]{
		ID: "C27", NoKeep: true,
		Rule: "a history of 1..30 calls drawn from a table of the library's functions (hashing, encryption, byte helpers, blocks, scripts, addresses, transactions, signing) over shared buffers, lists and transactions that all have watched spare capacity; " +
			"after every call all data and all earlier results (bytes, numbers, lists, and objects handed out by pointer) are compared with what they were, now and then the caller writes over a result between calls, then every call is made again in reverse order, then once more on equal data after the caller has overwritten the results; " +
			"the sweep pairs every function with every other; non-trivial: at least two different functions were called",
		Gen: func(t *rapid.T) c27 {
			return c27{World: genWorld(t, false), Calls: genCalls(t, 30)}
		},
		Sweep: func(thorough bool, yield func(c27)) {
			seed := uint32(1)
			for _, a := range opNames {
				for _, b := range opNames {
					seed++
					yield(c27{World: fixedWorld(seed*2654435761, int(seed%5)*16), Calls: []opCall{{a, seed, seed * 3, seed%3 == 0}, {b, seed * 7, seed / 2, seed%3 == 1}, {a, seed * 31, seed * 5, false}, {b, seed * 11, seed / 3, false}}})
				}
				for k := uint32(0); k < 60; k++ { // every buffer, every variant
					yield(c27{World: fixedWorld(seed, 64), Calls: []opCall{{a, k, k / 2, k%4 == 0}, {a, k * 3, k, k%4 == 1}, {a, k, k*5 + 1, false}}})
				}
			}
		},
		Check: check27,
		Classify: func(c c27) (bool, []string) {
			seen := map[string]bool{}
			var l []string
			for _, k := range c.Calls {
				if !seen[k.Op] {
					seen[k.Op] = true
					l = append(l, "op "+k.Op)
				}
			}
			return len(seen) > 1, append(l, countLabel("calls", len(c.Calls)))
		},
		Quick: 45000, Thorough: 300000,
	})

	pbt.Register(pbt.Def[c28]{
		ID: "C28", NoKeep: true,
		Rule: "2..16 goroutines, each with its own buffers, lists, transactions and keys, each running its own history of calls (often of the same functions) at the same time in the race-detector build; " +
			"results, data and later state are compared with the same history run alone; the sweep runs every function against itself and against every other; non-trivial: at least two goroutines called the same function. " +
			"Two random cases in three instead run 1..10 cases of the other properties (their generators, their oracles) in each of 2..6 goroutines; one that holds alone and fails among others was disturbed",
		Assumptions: []string{"data races are found by Go's race detector, on the schedules that occurred"},
		Gen: func(t *rapid.T) c28 {
			n := g.Int(t, 2, 16, "goroutines")
			c := c28{Yield: g.Bool(t, "yield")}
			if !g.Chance(t, 3, "table") {
				same := g.Pick(t, otherIDs, "property")
				alike := g.Chance(t, 2, "alike")
				var l []otherCase
				for k := g.Int(t, 2, 6, "goroutines"); k > 0; k-- {
					if !alike || l == nil {
						l = nil
						for m := g.Int(t, 1, 10, "cases"); m > 0; m-- {
							id := same
							if g.Chance(t, 4, "other") {
								id = g.Pick(t, otherIDs, "property")
							}
							l = append(l, otherCase{id, pbt.Lookup(id).Draw(t)})
						}
					}
					c.Others = append(c.Others, l)
				}
				return c
			}
			common := genCalls(t, 8)
			for k := 0; k < n; k++ {
				c.Worlds = append(c.Worlds, genWorld(t, true))
				if g.Bool(t, "own") {
					c.Calls = append(c.Calls, genCalls(t, 8))
				} else {
					c.Calls = append(c.Calls, common)
				}
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c28)) {
			seed := uint32(1)
			for i, a := range opNames {
				for _, b := range opNames[i:] {
					seed++
					c := c28{}
					for k := uint32(0); k < 4; k++ {
						c.Worlds = append(c.Worlds, fixedWorld(seed*64+k, int(k)*8))
						c.Calls = append(c.Calls, []opCall{{a, seed + k, k, seed%2 == 0}, {b, seed * 3, seed + k, seed%2 == 1}, {a, k, seed, false}, {b, k, k, false}})
					}
					yield(c)
				}
			}
		},
		Check: check28,
		Classify: func(c c28) (bool, []string) {
			if len(c.Others) > 0 {
				by := map[string]int{}
				for _, l := range c.Others {
					for _, o := range l {
						by[o.ID]++
					}
				}
				l := []string{countLabel("goroutines", len(c.Others)), "others"}
				for _, id := range otherIDs {
					if by[id] > 0 {
						l = append(l, "cases of "+id)
					}
				}
				return true, l
			}
			by := map[string]int{}
			for _, l := range c.Calls {
				seen := map[string]bool{}
				for _, k := range l {
					if !seen[k.Op] {
						seen[k.Op] = true
						by[k.Op]++
					}
				}
			}
			nt := false
			var l []string
			for _, op := range opNames {
				if by[op] > 1 {
					nt = true
					l = append(l, "shared op "+op)
				}
			}
			return nt && len(c.Worlds) > 1, append(l, countLabel("goroutines", len(c.Worlds)))
		},
		Race: true, Quick: 2400, Thorough: 40000, CaseCPU: 200,
	})
}
