package props

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/output"
	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/keep"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// ---- C15 ------------------------------------------------------------------

type c15 struct {
	Parts  []g.Blob `json:"parts,omitempty"`
	Single bool     `json:"single,omitempty"` // NewOpReturn of the first part
	Puzzle bool     `json:"puzzle,omitempty"`
	Secret g.Blob   `json:"secret"`
	Hash   string   `json:"hash,omitempty"`
	Upper  bool     `json:"upper,omitempty"`
	Sats   uint64   `json:"sats,omitempty"`
	Tx     g.Tx     `json:"tx"` // the transaction it is put in
}

func check15(c c15) error {
	var o *output.Output
	var err error
	var want []byte
	var parts [][]byte
	sats := uint64(0)
	if c.Puzzle {
		h := g.Unhex(c.Hash)
		text := hex.EncodeToString(h)
		if c.Upper {
			text = strings.ToUpper(text)
		}
		o, err = output.NewHashPuzzle(string(c.Secret.Bytes()), text, c.Sats)
		sh := ref.Hash160(c.Secret.Bytes())
		want = append([]byte{0xa9, 20}, sh...)
		want = append(want, 0x88, 0x76, 0xa9, 20)
		want = append(want, h...)
		want = append(want, 0x88, 0xac)
		parts = [][]byte{{0xa9}, sh, {0x88}, {0x76}, {0xa9}, h, {0x88}, {0xac}}
		sats = c.Sats
	} else {
		items := expand(c.Parts)
		orig := expand(c.Parts)
		if c.Single {
			var d []byte
			if len(items) > 0 {
				d, orig = items[0], orig[:1]
			} else {
				orig = [][]byte{nil}
			}
			o, err = output.NewOpReturn(reused(d, func(b []byte) { _, _ = output.NewOpReturn(b) }))
		} else {
			o, err = output.NewOpReturnParts(reusedList(items, func(l [][]byte) { _, _ = output.NewOpReturnParts(l) }))
		}
		want = []byte{0x00, 0x6a}
		parts = [][]byte{{0x00}, {0x6a}}
		for _, d := range orig {
			want = append(want, ref.Push(d)...)
			if len(d) == 0 {
				d = []byte{0}
			}
			parts = append(parts, d)
		}
		for k := range items {
			if k < len(orig) && !bytes.Equal(items[k], orig[k]) {
				return fmt.Errorf("part %d changed from %s to %s", k, short(orig[k]), short(items[k]))
			}
		}
	}
	if err != nil || o == nil || o.LockingScript == nil {
		return fmt.Errorf("building the output: %v", err)
	}
	look := func(when string, o *output.Output) error {
		if o == nil || o.LockingScript == nil {
			return fmt.Errorf("%s: nothing there", when)
		}
		if o.Satoshis != sats {
			return fmt.Errorf("%s: %d satoshis, want %d", when, o.Satoshis, sats)
		}
		if err := same(when+": script", []byte(*o.LockingScript), want); err != nil {
			return err
		}
		if got := o.LockingScript.IsData(); got == c.Puzzle {
			return fmt.Errorf("%s: IsData is %v for %s", when, got, short(want))
		}
		got, err := script.DecodeParts([]byte(*o.LockingScript))
		if err != nil {
			return fmt.Errorf("%s: decoding %s: %v", when, short(want), err)
		}
		if err := sameParts(got, parts); err != nil {
			return fmt.Errorf("%s: %v", when, err)
		}
		got, err = script.DecodeStringParts(o.GetLockingScriptHexString())
		if err != nil {
			return fmt.Errorf("%s: decoding the hex of %s: %v", when, short(want), err)
		}
		return sameParts(got, parts)
	}
	spoilOutputs(o)
	if err := look("as built", o); err != nil {
		return err
	}
	wire := ref.OutBytes(ref.Out{Sats: sats, Script: want})
	if err := firstErr(same("Output.ToBytes", o.ToBytes(), wire), same("Output.GetBytesForSigHash", o.GetBytesForSigHash(), wire)); err != nil {
		return err
	}
	o2, n, err := output.NewFromBytes(append(o.ToBytes(), 0x00, 0x6a))
	if err != nil || n != len(wire) {
		return fmt.Errorf("parsing the output back: %d of %d bytes, %v", n, len(wire), err)
	}
	if err := look("parsed back", o2); err != nil {
		return err
	}
	tx := c.Tx.Lib()
	at := len(tx.Outputs)
	tx.AddOutput(o)
	tx.AddOutput(&output.Output{Satoshis: 1, LockingScript: script.NewFromBytes([]byte{0x51})})
	tx2, err := transaction.NewFromBytes(tx.ToBytes())
	if err != nil || len(tx2.Outputs) != at+2 {
		return fmt.Errorf("parsing a transaction with the output: %v", err)
	}
	return firstErr(look("inside a parsed transaction", tx2.Outputs[at]), look("afterwards", o))
}

// ---- C16, C17 -------------------------------------------------------------

// extKey describes an extended key.
type extKey struct {
	Ver   string `json:"ver,omitempty"` // four bytes, hex
	Depth byte   `json:"depth,omitempty"`
	FP    uint32 `json:"fp,omitempty"`
	Num   uint32 `json:"num,omitempty"`
	Chain g.Blob `json:"chain"`
	Key   string `json:"key"` // private key, hex
	Priv  bool   `json:"priv,omitempty"`
	Body  string `json:"body,omitempty"` // instead of the key: any 33 bytes
}

func (k extKey) payload() []byte {
	ver := []byte{0x04, 0x88, 0xb2, 0x1e}
	if k.Priv {
		ver = []byte{0x04, 0x88, 0xad, 0xe4}
	}
	if k.Ver != "" {
		ver = g.Unhex(k.Ver)
	}
	b := append([]byte{}, ver...)
	b = append(b, k.Depth)
	b = binary.BigEndian.AppendUint32(b, k.FP)
	b = binary.BigEndian.AppendUint32(b, k.Num)
	b = append(b, k.Chain.Bytes()...)
	switch {
	case k.Body != "":
		b = append(b, g.Unhex(k.Body)...)
	case k.Priv:
		b = append(append(b, 0), g.Unhex(k.Key)...)
	default:
		b = append(b, pubKey(k.Key)...)
	}
	return b
}

// relatedKeys are extended keys that share something with k.
func relatedKeys(k extKey) []extKey {
	l := []extKey{k}
	add := func(f func(*extKey)) {
		x := k
		f(&x)
		l = append(l, x)
	}
	chain, key := k.Chain.Bytes(), g.Unhex(k.Key)
	d := new(big.Int).SetBytes(key)
	order := bsvec.S256().N
	scalar := func(v *big.Int) string {
		v = new(big.Int).Mod(v, order)
		if v.Sign() == 0 {
			v.SetInt64(1)
		}
		return fmt.Sprintf("%064x", v)
	}
	for _, r := range g.Relatives(chain)[1:] {
		r := r
		add(func(x *extKey) { x.Chain = g.Raw(r) })
		add(func(x *extKey) { x.Key = scalar(new(big.Int).SetBytes(r)) })
	}
	add(func(x *extKey) { x.Chain = g.Raw(key) })
	add(func(x *extKey) { x.Key = scalar(new(big.Int).Sub(order, d)) }) // the same X, the other sign
	add(func(x *extKey) { x.Key = scalar(new(big.Int).Add(d, big.NewInt(1))) })
	add(func(x *extKey) { x.Key = scalar(new(big.Int).Lsh(d, 1)) })
	add(func(x *extKey) { x.Priv = !x.Priv })
	add(func(x *extKey) { x.Depth, x.FP, x.Num = x.Depth^1, x.FP+1, x.Num+1 })
	add(func(x *extKey) {
		x.Ver = "043587cf"
		if x.Priv {
			x.Ver = "04358394"
		}
	})
	for _, i := range []uint32{0, 1, 1 << 31} { // its own children
		if p, ok := ref.ParseExtKey(k.payload()); ok && (p.Priv != nil || i < 1<<31) {
			if c, _, ok := p.Child(i); ok {
				add(func(x *extKey) {
					x.Chain, x.Depth, x.Num = g.Raw(c.Chain), k.Depth+1, i
					if c.Priv != nil {
						x.Key = scalar(c.Priv)
					} else {
						x.Priv, x.Body = false, hex.EncodeToString(c.Pub)
					}
				})
			}
		}
	}
	return l
}

var knownVersions = map[[4]byte]bool{{0x04, 0x88, 0xb2, 0x1e}: true, {0x04, 0x88, 0xad, 0xe4}: true, {0x04, 0x35, 0x87, 0xcf}: true, {0x04, 0x35, 0x83, 0x94}: true}

// derive2 is the compressed two-level child. open: the statement does not
// settle it (an unregistered version, or a hardened child of a key whose
// serialisation begins with a zero byte, which BIP32 libraries disagree on).
func derive2(k *ref.ExtKey, path []uint32) (pub []byte, ok, open bool) {
	open = !knownVersions[k.Version] || (k.Version[2] == 0xb2 || k.Version[2] == 0x87 && k.Version[3] == 0xcf) != (k.Priv == nil)
	c, short, good := k.Child(path[0])
	if !good {
		return nil, false, open
	}
	c, _, good = c.Child(path[1])
	if !good {
		return nil, false, open
	}
	return c.Pub, true, open || short && path[1]>>31 == 1
}

func redeem(m int, keys [][]byte) []byte {
	sorted := append([][]byte{}, keys...)
	sort.Slice(sorted, func(i, j int) bool { return bytes.Compare(sorted[i], sorted[j]) < 0 })
	b := []byte{0x50 + byte(m)}
	for _, k := range sorted {
		b = append(append(b, 33), k...)
	}
	return append(b, 0x50+byte(len(keys)), 0xae)
}

// checkRedeem asks rs for everything it produces.
func checkRedeem(when string, rs *script.RedeemScript, m int, keys [][]byte, ask string) error {
	if len(keys) == 0 {
		return nil // nothing is said about scripts without keys
	}
	want := redeem(m, keys)
	h := ref.Hash160(want)
	for _, a := range ask {
		switch a {
		case 's':
			got := rs.GetRedeemScript()
			if err := same(when+": redeem script", got, want); err != nil {
				return err
			}
			for i := range got { // what is returned is the caller's
				got[i] = 0xee
			}
			got = append(got, 0xee)
		case 'h':
			got := rs.GetRedeemScriptHash()
			if err := same(when+": redeem script hash", got, h); err != nil {
				return err
			}
			for i := range got {
				got[i] = 0xee
			}
		case 'a':
			if err := sameStr(when+": address", rs.GetAddress(), ref.B58Check(append([]byte{5}, h...))); err != nil {
				return err
			}
		}
	}
	return nil
}

// spoilKeys changes the exported list of keys in the end.
func spoilKeys(rs *script.RedeemScript) {
	keep.AtEnd(func() {
		for _, k := range rs.PublicKeys {
			for i := range k {
				k[i] ^= 0x44
			}
		}
	})
}

type c16op struct {
	Key  *extKey  `json:"key,omitempty"` // add this key
	Text *string  `json:"text,omitempty"`
	Path []uint32 `json:"path,omitempty"`
	Ask  string   `json:"ask,omitempty"` // s h a, in this order
	// Edit changes the exported list of keys: "shuffle" it, "replace" it by a
	// copy in another order, "drop" a key, "put" a key directly, or one "near" another, or
	// write another key "inplace" over one.
	Edit string `json:"edit,omitempty"`
	V    uint32 `json:"v,omitempty"`
}

type c16 struct {
	M    int     `json:"m"`
	Ops  []c16op `json:"ops"`
	Perm uint32  `json:"perm,omitempty"` // another order for the second pass
}

func (o c16op) text() string {
	if o.Text != nil {
		return *o.Text
	}
	return ref.B58Check(o.Key.payload())
}

// editKeys edits the exported list, and says whether it holds other keys now.
func editKeys(op c16op, rs *script.RedeemScript, keys [][]byte) ([][]byte, bool) {
	n, other := len(keys), false
	perm := func(l [][]byte) {
		x := op.V | 1
		for k := len(l); k > 1; k-- {
			x = x*1664525 + 1013904223
			j := int(x>>8) % k
			l[k-1], l[j] = l[j], l[k-1]
		}
	}
	switch op.Edit {
	case "sigs": // signatures collected so far
		for k := op.V % 4; k > 0; k-- {
			rs.Signatures = append(rs.Signatures, g.Pat(70, op.V|4).Bytes())
		}
	case "shuffle":
		perm(rs.PublicKeys)
	case "almost": // in order but for one thing
		l := rs.PublicKeys
		if n == 0 {
			break
		}
		sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i], l[j]) < 0 })
		i, j := int(op.V>>4)%n, int(op.V>>12)%n
		switch op.V % 4 {
		case 0:
			l[i], l[j] = l[j], l[i]
		case 1:
			x := l[i]
			rest := append(append([][]byte{}, l[:i]...), l[i+1:]...)
			copy(l, append(append(append([][]byte{}, rest[:j]...), x), rest[j:]...))
		case 2:
			copy(l, append(append([][]byte{}, l[i:]...), l[:i]...))
		case 3:
			for a, b := i, n-1; a < b; a, b = a+1, b-1 {
				l[a], l[b] = l[b], l[a]
			}
		}
	case "fill":
		for k := len(keys); k < int(op.V%15)+1; k++ {
			x := pubKey(hex.EncodeToString(shaOf(op.V + uint32(k)<<8)))
			rs.PublicKeys = append(rs.PublicKeys, append([]byte{}, x...))
			keys = append(keys, x)
			other = true
		}
	case "replace":
		l := append([][]byte{}, rs.PublicKeys...)
		perm(l)
		rs.PublicKeys = l
	case "drop":
		if n < 2 {
			break
		}
		at := int(op.V) % n
		gone := rs.PublicKeys[at]
		rs.PublicKeys = append(append([][]byte{}, rs.PublicKeys[:at]...), rs.PublicKeys[at+1:]...)
		for k := range keys {
			if bytes.Equal(keys[k], gone) {
				keys = append(append([][]byte{}, keys[:k]...), keys[k+1:]...)
				break
			}
		}
		other = true
	case "inplace": // another key in the memory of one of them
		if n == 0 {
			break
		}
		live := rs.PublicKeys[int(op.V>>12)%n]
		for j := range keys {
			if bytes.Equal(keys[j], live) {
				k := append([]byte{}, live...)
				at := 1 + int(op.V>>4)%(len(k)-1)
				k[at] ^= 1 << (op.V & 7)
				keys = append(append([][]byte{}, keys[:j]...), keys[j+1:]...)
				keys = append(keys, k)
				copy(live, k)
				break
			}
		}
		other = true
	case "put", "near":
		if n >= 15 {
			break
		}
		k := pubKey(hex.EncodeToString(shaOf(op.V)))
		if op.Edit == "near" && n > 0 { // all but the same as another one
			k = append([]byte{}, keys[int(op.V>>16)%n]...)
			if at := int(op.V>>8) % len(k); at > 0 {
				k[at] ^= 1 << (op.V >> 5 & 7)
			} else {
				k[0] ^= 1
			}
		}
		if n > 0 && op.V%2 == 0 { // over another one, with as many keys as before
			gone := append([]byte{}, rs.PublicKeys[int(op.V>>1)%n]...)
			rs.PublicKeys[int(op.V>>1)%n] = append([]byte{}, k...)
			for j := range keys {
				if bytes.Equal(keys[j], gone) {
					keys = append(append([][]byte{}, keys[:j]...), keys[j+1:]...)
					break
				}
			}
		} else {
			rs.PublicKeys = append(rs.PublicKeys, append([]byte{}, k...))
		}
		keys = append(keys, k)
		other = true
	}
	return keys, other
}

func check16(c c16) error {
	rs, err := script.NewRedeemScript(c.M)
	if c.M < 2 || c.M > 16 {
		if err == nil {
			return fmt.Errorf("NewRedeemScript(%d) gave no error", c.M)
		}
		return nil
	}
	if err != nil || rs == nil {
		return fmt.Errorf("NewRedeemScript(%d): %v", c.M, err)
	}
	spoilKeys(rs)
	var keys [][]byte
	var good []c16op
	direct := false // the keys no longer come from adding keys alone
	for i, op := range c.Ops {
		if op.Edit != "" {
			var other bool
			keys, other = editKeys(op, rs, keys)
			direct = direct || other
			continue
		}
		if op.Key == nil && op.Text == nil {
			if err := checkRedeem(fmt.Sprintf("step %d", i), rs, c.M, keys, op.Ask); err != nil {
				return err
			}
			continue
		}
		if len(keys) == 16 {
			continue
		}
		text := op.text()
		path := append([]uint32{}, op.Path...)
		if len(path) > 1 && len(text) < 200 && (path[0]+path[1])%4 == 0 { // the slice held another path before
			path[1] ^= 1
			if x, err := script.NewRedeemScript(2); err == nil {
				_ = x.AddPublicKey(text, path)
			}
			path[1] ^= 1
		}
		err := rs.AddPublicKey(text, path)
		for k := range path {
			if path[k] != op.Path[k] {
				return fmt.Errorf("step %d: AddPublicKey changed the path from %v to %v", i, op.Path, path)
			}
		}
		k, ok := ref.ParseExtKeyText(text)
		open := false
		var pub []byte
		if ok {
			if len(op.Path) != 2 {
				ok = false
			} else {
				pub, ok, open = derive2(k, op.Path)
			}
		}
		if open {
			return nil
		}
		if !ok {
			if err == nil {
				return fmt.Errorf("step %d: AddPublicKey(%q, %v) gave no error", i, text, op.Path)
			}
		} else {
			if err != nil {
				return fmt.Errorf("step %d: AddPublicKey(%q, %v): %v", i, text, op.Path, err)
			}
			keys = append(keys, pub)
			good = append(good, op)
		}
	}
	if err := checkRedeem("at the end", rs, c.M, keys, "sahsah"); err != nil {
		return err
	}
	if direct {
		return nil
	}
	// the same keys in another order, asked for nothing on the way
	rs, err = script.NewRedeemScript(c.M)
	if err != nil {
		return err
	}
	spoilKeys(rs)
	x := c.Perm | 1
	for n := len(good); n > 1; n-- {
		x = x*1664525 + 1013904223
		j := int(x>>8) % n
		good[n-1], good[j] = good[j], good[n-1]
	}
	for _, op := range good {
		if err := rs.AddPublicKey(op.text(), op.Path); err != nil {
			return fmt.Errorf("AddPublicKey(%q, %v) succeeded before and now: %v", op.text(), op.Path, err)
		}
	}
	return checkRedeem("in another order", rs, c.M, keys, "has")
}

func genExtKey(t *rapid.T) extKey {
	k := extKey{Chain: g.BlobN(t, 32, "chain"), Key: genKey(t, "key")}
	if g.Chance(t, 2, "meta") {
		k.Depth = g.Pick(t, []byte{0, 1, 2, 3, 100, 252, 253}, "depth")
		k.FP, k.Num = g.U32(t, "fp"), g.U32(t, "num")
	}
	k.Priv = g.Chance(t, 4, "priv")
	if g.Chance(t, 4, "testnet") {
		k.Ver = "043587cf"
		if k.Priv {
			k.Ver = "04358394"
		}
	}
	return k
}

// badExtText draws a text that is not (quite) an extended key.
func badExtText(t *rapid.T) string {
	k := genExtKey(t)
	s := ref.B58Check(k.payload())
	switch g.Int(t, 0, 6, "badkey") {
	case 0, 1:
		return editText(t, s, "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl +/")
	case 2: // not on the curve, zero, at or above the group order, odd prefixes
		k.Ver = ""
		k.Body = g.Pick(t, []string{
			"02" + strings.Repeat("00", 32), "03" + strings.Repeat("ff", 32), "05" + hex.EncodeToString(pubKey(k.Key)[1:]), "04" + hex.EncodeToString(pubKey(k.Key)[1:]),
			"00" + strings.Repeat("00", 32), "00" + hex.EncodeToString(bsvec.S256().N.Bytes()), "00" + strings.Repeat("ff", 32), "01" + k.Key,
			"02" + hex.EncodeToString(bsvec.S256().P.Bytes()), "02" + hex.EncodeToString(new(big.Int).SetInt64(5).FillBytes(make([]byte, 32)))}, "body")
		return ref.B58Check(k.payload())
	case 3:
		p := k.payload()
		return ref.B58Check(p[:g.Int(t, 0, len(p)-1, "cut")])
	case 4:
		return ref.B58Check(append(k.payload(), g.Byte(t, "extra")))
	case 5:
		k.Depth = byte(g.Int(t, 254, 255, "deep"))
		return ref.B58Check(k.payload())
	}
	return g.Pick(t, append(g.DictStrings(), "", " ", "xpub", s+" ", " "+s, s+s, s[:111], "1"+s), "text")
}

func genPath(t *rapid.T, priv bool) []uint32 {
	switch g.Int(t, 0, 7, "pathkind") {
	case 0:
		return []uint32{0, 0}
	case 1, 2:
		return []uint32{uint32(g.Int(t, 0, 3, "p0")), uint32(g.Int(t, 0, 300, "p1"))}
	case 3: // wrong lengths
		var p []uint32
		for k := g.Pick(t, []int{0, 1, 3, 4, 10}, "plen"); k > 0; k-- {
			p = append(p, uint32(k&1))
		}
		return p
	case 4: // hardened somewhere
		p := []uint32{g.U32(t, "p0"), g.U32(t, "p1")}
		p[g.Int(t, 0, 1, "which")] |= 1 << 31
		return p
	}
	p := []uint32{g.U32(t, "p0"), g.U32(t, "p1")}
	p[0] &^= 1 << 31
	p[1] &^= 1 << 31
	return p
}

type c17key struct {
	Key  extKey  `json:"key"`
	Path []int   `json:"path"`           // 16-bit elements
	Form int     `json:"form,omitempty"` // push form: 0 minimal
	Lead *string `json:"lead,omitempty"` // instead of ff
}

type c17 struct {
	M     int      `json:"m"`
	N     int      `json:"n,omitempty"` // count opcode value minus the true count
	Keys  []c17key `json:"keys,omitempty"`
	End   string   `json:"end,omitempty"` // instead of ae
	Edit  int      `json:"edit,omitempty"`
	At    int      `json:"at,omitempty"`
	V     int      `json:"v,omitempty"`
	Upper bool     `json:"upper,omitempty"`
	Raw   *g.Blob  `json:"raw,omitempty"`
	Text  *string  `json:"text,omitempty"`
}

func (c c17) text() string {
	if c.Text != nil {
		return *c.Text
	}
	var b []byte
	if c.Raw != nil {
		b = c.Raw.Bytes()
	} else {
		b = []byte{0x50 + byte(c.M)}
		for _, k := range c.Keys {
			d := []byte{0xff}
			if k.Lead != nil {
				d = g.Unhex(*k.Lead)
			}
			d = append(d, k.Key.payload()...)
			for _, p := range k.Path {
				d = append(d, byte(p), byte(p>>8))
			}
			if k.Form == 0 || len(d) > 255 {
				b = append(b, ref.Push(d)...)
			} else {
				b = append(b, g.PushForm(d, k.Form)...)
			}
		}
		b = append(b, 0x50+byte(len(c.Keys)+c.N))
		if c.End == "" {
			b = append(b, 0xae)
		} else if c.End != "none" {
			b = append(b, g.Unhex(c.End)...)
		}
	}
	at := 0
	if len(b) > 0 {
		at = c.At % len(b)
	}
	switch c.Edit {
	case 1:
		b = b[:at]
	case 2:
		b = append(b[:at:at], append([]byte{byte(c.V)}, b[at:]...)...)
	case 3:
		if len(b) > 0 {
			b = append(b[:at:at], b[at+1:]...)
		}
	case 4:
		if len(b) > 0 {
			b[at] = byte(c.V)
		}
	case 5: // cut the front off
		b = b[at:]
	}
	s := hex.EncodeToString(b)
	if c.Upper {
		s = strings.ToUpper(s)
	}
	if c.Edit == 6 && len(s) > 0 {
		s = s[:len(s)-1]
	}
	return s
}

// electrum is the reference reading of an Electrum partial redeem script.
func electrum(s string) (m int, keys [][]byte, v ref.Verdict, texts []string, paths [][]uint32) {
	if !isHex(s) {
		return
	}
	e, ok := ref.Tokenise(g.Unhex(s))
	if !ok || len(e) < 3 {
		return
	}
	n := len(e)
	if e[0].Push || e[0].Op < 0x52 || e[0].Op > 0x5f || e[n-1].Push || e[n-1].Op != 0xae {
		return
	}
	m = int(e[0].Op) - 0x50
	open := n == 3 || n-3 > 16 || m > n-3
	if e[n-2].Push || int(e[n-2].Op) != 0x50+n-3 && !(n == 3 && e[n-2].Op == 0) {
		return
	}
	for _, k := range e[1 : n-2] {
		if !k.Push || len(k.Data) != 83 || k.Data[0] != 0xff {
			return
		}
		if k.Op != 76 {
			open = true
		}
		x, ok := ref.ParseExtKey(k.Data[1:79])
		if !ok {
			return
		}
		p := []uint32{uint32(k.Data[79]) | uint32(k.Data[80])<<8, uint32(k.Data[81]) | uint32(k.Data[82])<<8}
		pub, ok, o := derive2(x, p)
		if o {
			open = true
		}
		if !ok {
			return
		}
		keys = append(keys, pub)
		texts = append(texts, ref.B58Check(k.Data[1:79]))
		paths = append(paths, p)
	}
	v = ref.Yes
	if open {
		v = ref.Open
	}
	return
}

func check17(c c17) error {
	s := c.text()
	m, keys, v, texts, paths := electrum(s)
	rs, err := script.NewRedeemScriptFromElectrum(s)
	if v == ref.Open {
		return nil
	}
	if v == ref.No {
		if err == nil {
			return fmt.Errorf("NewRedeemScriptFromElectrum(%.400s) gave no error", s)
		}
		return nil
	}
	if err != nil || rs == nil {
		return fmt.Errorf("NewRedeemScriptFromElectrum(%s): %v", s, err)
	}
	spoilKeys(rs)
	if err := checkRedeem("converted", rs, m, keys, "ash"); err != nil {
		return err
	}
	by, err := script.NewRedeemScript(m)
	if err != nil {
		return err
	}
	for k := range keys {
		if err := by.AddPublicKey(texts[k], paths[k]); err != nil {
			return fmt.Errorf("the conversion took key %s %v, AddPublicKey refuses it: %v", texts[k], paths[k], err)
		}
	}
	return firstErr(same("converted against added one by one", rs.GetRedeemScript(), by.GetRedeemScript()), sameStr("addresses", rs.GetAddress(), by.GetAddress()))
}

func genElectrum(t *rapid.T) c17 {
	n := g.Int(t, 2, 4, "n")
	if g.Chance(t, 4, "many") {
		n = g.Int(t, 2, 16, "n")
	}
	c := c17{M: g.Int(t, 2, min(n, 15), "m"), Upper: g.Chance(t, 6, "upper")}
	for k := 0; k < n; k++ {
		x := c17key{Key: genExtKey(t)}
		if k > 0 && g.Chance(t, 5, "same") { // an earlier key, with another path
			x.Key = c.Keys[g.Int(t, 0, k-1, "which")].Key
			if g.Bool(t, "related") && x.Key.Body == "" {
				x.Key = g.Pick(t, relatedKeys(x.Key), "relative")
			}
		}
		for j := 0; j < 2; j++ {
			switch g.Int(t, 0, 3, "pkind") {
			case 0:
				x.Path = append(x.Path, g.Int(t, 0, 2, "p"))
			case 1:
				x.Path = append(x.Path, g.Pick(t, []int{255, 256, 32767, 32768, 65535, 258}, "p"))
			default:
				x.Path = append(x.Path, g.Int(t, 0, 65535, "p"))
			}
		}
		c.Keys = append(c.Keys, x)
	}
	return c
}

func init() {
	noTx := g.Tx{Version: 1}
	pbt.Register(pbt.Def[c15]{
		ID:   "C15",
		Rule: "lists of up to 12 data parts (sizes skewed to the push boundaries; one to 70 kB) as data outputs, and hash puzzles over any secret, hash and amount; each is compared byte for byte with the reference script, decoded, and taken through the wire encoding alone and inside a random transaction. Non-trivial: a hash puzzle, or at least two parts, or a part longer than 75 bytes or empty. The sweep takes every part size 0..600 and around 65536, alone and between others. The sweep takes up to 4200 parts, the same part repeated, hashes of special shapes, and every text in the code as part and secret. Parts may be relatives of one another, or the same slice again; nil stands beside empty. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c15 {
			c := c15{Tx: g.GenTx(t, g.TxOpt{MaxIn: 2, MaxOut: 3, MaxScript: 60})}
			if g.Chance(t, 3, "puzzle") {
				c.Puzzle = true
				c.Secret = g.AnyBlob(t, 300, "secret")
				c.Hash = hex.EncodeToString(genHash20(t))
				c.Upper = g.Bool(t, "upper")
				c.Sats = g.U64(t, "sats")
				return c
			}
			c.Single = g.Chance(t, 4, "single")
			if c.Single {
				c.Parts = genItems(t, 1, 1, 70000)
			} else {
				c.Parts = genItems(t, 0, 12, 70000)
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c15)) {
			yield(c15{Tx: noTx})
			yield(c15{Tx: noTx, Single: true, Parts: []g.Blob{g.Nil}})
			yield(c15{Tx: noTx, Parts: []g.Blob{g.Nil}})
			yield(c15{Tx: noTx, Parts: []g.Blob{g.Nil, g.Pat(2, 9), g.Nil, {}, g.Pat(3, 9), g.Nil}})
			yield(c15{Tx: noTx, Single: true})
			top := 600
			if thorough {
				top = 5000
			}
			one := func(n int, s uint32) {
				d := g.Pat(n, s)
				yield(c15{Tx: noTx, Single: true, Parts: []g.Blob{d}})
				yield(c15{Tx: noTx, Parts: []g.Blob{g.Raw([]byte{0x6a}), d, g.Raw([]byte{0, 0x6a})}})
				if n < 300 || n > top {
					yield(c15{Tx: noTx, Puzzle: true, Secret: d, Hash: g.Pat(20, uint32(n)+5).Hex(), Sats: uint64(n)})
				}
			}
			for n := 0; n <= top; n++ {
				one(n, uint32(n)+3)
			}
			for n := 65530; n <= 65542; n++ {
				one(n, uint32(n))
			}
			for _, n := range bigLens(top, 1<<20) {
				one(n, uint32(n)|4)
			}
			g.Texts(func(b g.Blob) {
				yield(c15{Tx: noTx, Puzzle: true, Secret: b, Hash: g.Pat(20, 5).Hex(), Sats: 7})
				yield(c15{Tx: noTx, Single: true, Parts: []g.Blob{b}})
				yield(c15{Tx: noTx, Parts: []g.Blob{b, b}})
			})
			g.AllShapes(20, func(h []byte) {
				yield(c15{Tx: noTx, Puzzle: true, Secret: g.Raw(h[:h[5]%21]), Hash: hex.EncodeToString(h), Sats: uint64(h[3])})
				yield(c15{Tx: noTx, Parts: []g.Blob{g.Raw(h), g.Raw(h)}})
			})
			for k := 0; k < 12; k++ { // arguments that are one another's relatives
				h := g.Pat(20, uint32(8*k)+5).Bytes()
				rel := g.Relatives(h)
				for i, r := range rel {
					sats := uint64(i) << 40
					yield(c15{Tx: noTx, Puzzle: true, Secret: g.Raw(r), Hash: hex.EncodeToString(h), Sats: sats})
					yield(c15{Tx: noTx, Puzzle: true, Secret: g.Raw(h), Hash: hex.EncodeToString(r), Sats: sats})
					yield(c15{Tx: noTx, Puzzle: true, Secret: g.Raw([]byte(hex.EncodeToString(r))), Hash: hex.EncodeToString(h)})
					yield(c15{Tx: noTx, Puzzle: true, Secret: g.Raw(h), Hash: hex.EncodeToString(ref.Hash160(r)), Sats: sats, Upper: i%2 == 0})
					yield(c15{Tx: noTx, Puzzle: true, Secret: g.Raw(r), Hash: hex.EncodeToString(g.Relatives(ref.Hash160(r))[i])})
					yield(c15{Tx: noTx, Parts: []g.Blob{g.Raw(h), g.Raw(r), g.Raw(h)}})
					yield(c15{Tx: noTx, Parts: []g.Blob{g.Raw(h), g.Raw(ref.Push(r)), g.Raw(append([]byte{0, 0x6a}, ref.Push(h)...)), g.Raw(append(append([]byte{}, h...), r...))}})
				}
			}
			for b := 0; b < 256; b++ { // every single byte as data
				yield(c15{Tx: noTx, Parts: []g.Blob{g.Raw([]byte{byte(b)})}})
				yield(c15{Tx: noTx, Parts: []g.Blob{g.Raw([]byte{byte(b)}), {}, g.Raw([]byte{byte(b), byte(b)})}})
				yield(c15{Tx: noTx, Puzzle: true, Secret: g.Raw([]byte{byte(b)}), Hash: strings.Repeat(fmt.Sprintf("%02x", b), 20), Sats: 1 << (b % 64)})
			}
			for _, n := range g.SweepLens(4200) { // many parts
				var many []g.Blob
				for k := 0; k < n; k++ {
					many = append(many, g.Pat(k%5, uint32(k)))
				}
				yield(c15{Tx: noTx, Parts: many})
				for _, size := range []int{0, 1, 75, 76, 255, 256} {
					if n > 1100 && size > 76 {
						continue
					}
					yield(c15{Tx: noTx, Parts: repeated(n, size)})
				}
			}
			for n := 1; n <= 20; n++ { // equal parts
				for _, size := range []int{0, 1, 2, 4, 20, 32, 33, 64, 75, 76, 100, 255, 256, 300, 1000} {
					yield(c15{Tx: noTx, Parts: echoed(n, size)})
					yield(c15{Tx: noTx, Parts: append(append(echoed(n, size), g.Raw([]byte{1})), echoed(2, size)...)})
				}
			}
		},
		Check: check15,
		Classify: func(c c15) (bool, []string) {
			if c.Puzzle {
				return true, []string{"hash puzzle", lenLabel("secret", c.Secret.Len())}
			}
			m, empty := 0, false
			for _, p := range c.Parts {
				m = max(m, p.Len())
				empty = empty || p.Len() == 0
			}
			l := []string{countLabel("parts", len(c.Parts)), lenLabel("longest part", m)}
			if empty {
				l = append(l, "empty part")
			}
			return len(c.Parts) > 1 || m > 75 || empty, l
		},
		Quick: 150000, Thorough: 2250000,
	})

	fixed := func(k int) extKey {
		return extKey{Chain: g.Pat(32, uint32(100+k)), Key: fmt.Sprintf("%064x", 1000+7*k)}
	}
	pbt.Register(pbt.Def[c16]{
		ID:     "C16",
		NoKeep: true,
		Rule:   "histories of adding extended keys (public or private, both networks, any depth, any chain code; valid and invalid texts; paths of length 2 and others, hardened or not) and asking for the script, hash and address in any order, then the same keys added in another order. Compared with a reference derivation (HMAC-SHA512, modular arithmetic) and a sorted reference script. Non-trivial: at least two keys added, or an addition that must fail next to one that succeeds, or a threshold outside 2..16. The sweep takes every threshold -300..300 and the extremes, every number of keys with every threshold, and all orders of five keys. Extended keys may be relatives of one another (parent and child, neighbours); the sweep flips every bit of a key and puts the result in beside it, or over it in place. Lists of 2 to 15 keys are also put in order but for one swapped pair, one moved key or one run.",
		Assumptions: []string{
			"bsvec's secp256k1 point arithmetic, HMAC-SHA512 of the Go standard library",
			"Nothing is required of scripts without keys or with more than 16, of extended keys with an unregistered version, or of hardened children of keys that begin with a zero byte (BIP32 libraries disagree on those)",
		},
		Gen: func(t *rapid.T) c16 {
			c := c16{M: g.Int(t, 2, 16, "m"), Perm: g.U32(t, "perm")}
			if g.Chance(t, 12, "badm") {
				c.M = g.Pick(t, []int{-1 << 62, -65536, -256, -254, -2, -1, 0, 1, 17, 18, 32, 258, 65538, 1 << 32, 1<<32 + 2, 1 << 62}, "m")
				return c
			}
			var keys []extKey
			for k := g.Int(t, 1, 8, "ops"); k > 0; k-- {
				switch g.Int(t, 0, 8, "op") {
				case 0:
					s := badExtText(t)
					c.Ops = append(c.Ops, c16op{Text: &s, Path: genPath(t, false)})
				case 1, 2:
					c.Ops = append(c.Ops, c16op{Ask: g.Pick(t, []string{"s", "h", "a", "ss", "sha", "as", "hs"}, "ask")})
				case 7:
					c.Ops = append(c.Ops, c16op{Edit: g.Pick(t, []string{"shuffle", "replace", "fill", "almost", "drop", "put", "put", "near", "near", "inplace", "inplace", "sigs", "sigs"}, "edit"), V: g.U32(t, "v")})
				case 3:
					if len(keys) > 0 { // an extended key again
						x := g.Pick(t, keys, "again")
						if g.Bool(t, "related") && x.Body == "" {
							x = g.Pick(t, relatedKeys(x), "relative")
						}
						c.Ops = append(c.Ops, c16op{Key: &x, Path: genPath(t, x.Priv)})
						continue
					}
					fallthrough
				default:
					x := genExtKey(t)
					keys = append(keys, x)
					c.Ops = append(c.Ops, c16op{Key: &x, Path: genPath(t, x.Priv)})
				}
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c16)) {
			k0 := fixed(0)
			for m := -300; m <= 300; m++ {
				yield(c16{M: m, Ops: []c16op{{Key: &k0, Path: []uint32{0, 1}}}})
			}
			for _, m := range []int{-1 << 63, 1<<63 - 1, 1 << 31, 1 << 32, 1<<32 + 2, -1<<32 + 2, -1 << 31} {
				yield(c16{M: m})
			}
			for n := 1; n <= 16; n++ {
				var ops []c16op
				for k := 0; k < n; k++ {
					x := fixed(k)
					ops = append(ops, c16op{Key: &x, Path: []uint32{uint32(k & 1), uint32(k)}})
				}
				for m := 2; m <= 16; m++ {
					yield(c16{M: m, Ops: ops, Perm: uint32(m)})
					if n < 5 {
						yield(c16{M: m, Ops: append(append([]c16op{}, ops...), c16op{Edit: "sigs", V: uint32(m)}), Perm: uint32(m)})
					}
				}
				ops2 := append([]c16op{}, ops...)
				ops2 = append(ops2, c16op{Key: &k0, Path: []uint32{0}}, c16op{Key: &k0}, c16op{Key: &k0, Path: []uint32{0, 0, 0}}, c16op{Key: &k0, Path: []uint32{1 << 31, 0}}, c16op{Key: &k0, Path: []uint32{0, 1 << 31}})
				if n < 16 {
					yield(c16{M: 2, Ops: ops2})
				}
			}
			for k := 0; k < 4; k++ { // keys that are one another's relatives, and paths that are
				x := fixed(k)
				x.Priv = k%2 == 1
				x.Depth = byte(k)
				for i, y := range relatedKeys(x) {
					y := y
					a, b := uint32(i), uint32(k)
					for _, p := range [][4]uint32{{a, b, a, b}, {a, b, b, a}, {a, a, b, b}, {a, b, a, b + 1}} {
						yield(c16{M: 2, Ops: []c16op{{Key: &x, Path: p[:2]}, {Ask: "s"}, {Key: &y, Path: p[2:]}, {Ask: "sha"}, {Key: &x, Path: p[2:]}}, Perm: uint32(i)})
						yield(c16{M: 2, Ops: []c16op{{Key: &y, Path: p[2:]}, {Key: &x, Path: p[:2]}, {Key: &y, Path: p[:2]}, {Key: &x, Path: p[:2]}}, Perm: uint32(i) + 5})
					}
				}
			}
			for v := uint32(0); v < 33*8; v++ { // every bit of a key flipped, put in on both sides of it
				x, y := fixed(int(v%3)), fixed(int(v%3)+1)
				near := c16op{Edit: "near", V: v>>3<<8 | v&7<<5}
				yield(c16{M: 2, Ops: []c16op{{Key: &x, Path: []uint32{0, 1}}, near, {Ask: "s"}, {Key: &y, Path: []uint32{0, 1}}, near}})
				yield(c16{M: 2, Ops: []c16op{{Key: &x, Path: []uint32{0, 1}}, {Key: &y, Path: []uint32{0, 1}}, {Ask: "sha"}, {Edit: "inplace", V: v&1<<12 | v>>3<<4 | v&7}, {Ask: "sha"}}})
			}
			// many keys, in order but for one thing
			for n := uint32(2); n <= 15; n++ {
				for i := uint32(0); i < n; i++ {
					ops := []c16op{{Edit: "fill", V: n - 1}}
					for j := uint32(0); j < n; j++ {
						if (i+j+n)%3 > 0 && j != i+1 {
							continue
						}
						ops = append(ops, c16op{Edit: "almost", V: i<<4 | j<<12}, c16op{Ask: "s"}, c16op{Edit: "almost", V: i<<4 | j<<12 | 1}, c16op{Ask: "s"})
					}
					ops = append(ops, c16op{Edit: "almost", V: i<<4 | 2}, c16op{Ask: "s"}, c16op{Edit: "almost", V: i<<4 | 3}, c16op{Ask: "s"})
					yield(c16{M: 2, Ops: ops})
				}
			}
			// all orders of five keys, asking after each
			var perm func(rest, order []int)
			perm = func(rest, order []int) {
				if len(rest) == 0 {
					var ops []c16op
					for _, k := range order {
						x := fixed(k)
						ops = append(ops, c16op{Key: &x, Path: []uint32{0, 0}}, c16op{Ask: "s"})
					}
					yield(c16{M: 3, Ops: ops})
					return
				}
				for i := range rest {
					r := append(append([]int{}, rest[:i]...), rest[i+1:]...)
					perm(r, append(append([]int{}, order...), rest[i]))
				}
			}
			perm([]int{0, 1, 2, 3, 4}, nil)
			// every small edit of one key's text
			good := ref.B58Check(fixed(3).payload())
			for i := 0; i < len(good); i++ {
				for _, s := range []string{good[:i] + good[i+1:], good[:i] + "2" + good[i+1:], good[:i] + "1" + good[i:], good[:i] + "0" + good[i+1:]} {
					s := s
					yield(c16{M: 2, Ops: []c16op{{Key: &k0, Path: []uint32{0, 0}}, {Text: &s, Path: []uint32{0, 0}}}})
				}
			}
			for d := 250; d <= 255; d++ {
				x := fixed(1)
				x.Depth = byte(d)
				yield(c16{M: 2, Ops: []c16op{{Key: &k0, Path: []uint32{0, 0}}, {Key: &x, Path: []uint32{0, 0}}}})
			}
			for b := 0; b < 32; b++ { // every bit of the path
				yield(c16{M: 2, Ops: []c16op{{Key: &k0, Path: []uint32{1 << b, 1}}, {Key: &k0, Path: []uint32{1, 1 << b}}, {Ask: "sha"}}})
				x := fixed(2)
				x.Priv = true
				yield(c16{M: 2, Ops: []c16op{{Key: &x, Path: []uint32{1 << b, 1}}, {Key: &x, Path: []uint32{1, 1 << b}}, {Ask: "sha"}}})
			}
		},
		Check: check16,
		Classify: func(c c16) (bool, []string) {
			n, bad := 0, 0
			asks := 0
			for _, o := range c.Ops {
				switch {
				case o.Key != nil && len(o.Path) == 2:
					n++
				case o.Key != nil || o.Text != nil:
					bad++
				default:
					asks++
				}
			}
			l := []string{countLabel("keys", n), fmt.Sprintf("threshold valid=%v", c.M >= 2 && c.M <= 16)}
			if bad > 0 {
				l = append(l, "refused additions")
			}
			if asks > 0 {
				l = append(l, "asked on the way")
			}
			return n > 1 || bad > 0 && n > 0 || c.M < 2 || c.M > 16, l
		},
		Quick: 40000, Thorough: 150000,
	})

	pbt.Register(pbt.Def[c17]{
		ID:     "C17",
		NoKeep: true,
		Rule:   "Electrum partial redeem scripts of 2 to 16 extended keys with any 16-bit path elements, intact (compared with a reference derivation and with adding the keys one by one) or corrupted: a byte changed, inserted or dropped, cut at either end, another count, threshold or terminator, keys with another lead byte, too short or too long paths, invalid points; plus arbitrary bytes and text. Non-trivial: an intact script, or a corrupted one. The sweep takes every truncation and every byte of a two-key script with many values, and every threshold and count. Fields may be one another's relatives.",
		Assumptions: []string{
			"Left open: scripts without keys, thresholds above the number of keys, more than 16 keys, keys pushed with a longer length field than needed, extended keys with an unregistered version",
		},
		Gen: func(t *rapid.T) c17 {
			switch g.Int(t, 0, 9, "kind") {
			case 0:
				b := g.Raw(g.Elements(t, g.Int(t, 0, 6, "n"), 90, "el"))
				return c17{Raw: &b}
			case 1:
				s := badHex(t)
				return c17{Text: &s}
			case 2, 3, 4:
				return genElectrum(t)
			}
			c := genElectrum(t)
			switch g.Int(t, 0, 9, "corrupt") {
			case 0:
				c.N = g.Pick(t, []int{-17, -2, -1, 1, 2, 16, 175}, "count")
			case 1:
				c.M = g.Pick(t, []int{0, 1, 16, 17, 32, 175, 26}, "threshold")
			case 2:
				c.End = g.Pick(t, []string{"none", "ad", "ac", "af", "aeae", "01ae", "ae00", "00ae", "ae61"}, "end")
			case 3:
				k := &c.Keys[g.Int(t, 0, len(c.Keys)-1, "which")]
				switch g.Int(t, 0, 3, "pathlen") {
				case 0:
					k.Path = nil
				case 1:
					k.Path = k.Path[:1]
				default:
					k.Path = append(k.Path, 0)
				}
			case 4:
				s := g.Pick(t, []string{"", "fe", "00", "ffff", "04"}, "lead")
				c.Keys[g.Int(t, 0, len(c.Keys)-1, "which")].Lead = &s
			case 5:
				k := &c.Keys[g.Int(t, 0, len(c.Keys)-1, "which")]
				k.Key.Priv = false
				k.Key.Body = g.Pick(t, []string{"02" + strings.Repeat("00", 32), "05" + strings.Repeat("11", 32), "03" + strings.Repeat("ff", 32), "00" + strings.Repeat("00", 32)}, "body")
			case 6:
				c.Keys[g.Int(t, 0, len(c.Keys)-1, "which")].Key.Depth = byte(g.Int(t, 253, 255, "depth"))
			default:
				c.Edit = g.Int(t, 1, 6, "edit")
				c.At = g.Int(t, 0, 90*len(c.Keys), "at")
				c.V = int(g.Byte(t, "v"))
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c17)) {
			two := func() c17 {
				return c17{M: 2, Keys: []c17key{{Key: fixed(0), Path: []int{0, 0}}, {Key: fixed(1), Path: []int{1, 513}}}}
			}
			yield(two())
			n := len(two().text()) / 2
			for at := 0; at < n; at++ {
				for _, e := range []int{1, 3, 5} {
					c := two()
					c.Edit, c.At = e, at
					yield(c)
				}
				vals := []int{0, 1, 2, 3, 0x4c, 0x50, 0x51, 0x52, 0x53, 0x54, 0x60, 0x7f, 0x80, 0xac, 0xae, 0xff}
				if thorough {
					vals = nil
					for v := 0; v < 256; v++ {
						vals = append(vals, v)
					}
				}
				for _, v := range vals {
					for _, e := range []int{2, 4} {
						c := two()
						c.Edit, c.At, c.V = e, at, v
						yield(c)
					}
				}
			}
			for k := 0; k < 4; k++ { // keys that are one another's relatives, and paths that are
				x := fixed(k)
				x.Priv = k%2 == 1
				x.Depth = byte(k)
				for i, y := range relatedKeys(x) {
					for _, p := range [][4]int{{i, k, i, k}, {i, k, k, i}, {i, i, k, k}, {i << 8, k, i, k << 8}} {
						c := c17{M: 2, Keys: []c17key{{Key: x, Path: p[:2]}, {Key: y, Path: p[2:]}}}
						yield(c)
						c.Keys = append(c.Keys, c17key{Key: y, Path: p[:2]}, c17key{Key: x, Path: p[2:]})
						yield(c)
					}
				}
			}
			for a := 0; a < 16; a++ { // every two bits of a path
				for b := 0; b < 16; b++ {
					yield(c17{M: 2, Keys: []c17key{{Key: fixed(0), Path: []int{1 << a, 1 << b}}, {Key: fixed(1), Path: []int{65535 ^ 1<<a, 1<<b - 1}}}})
				}
			}
			for k := 1; k <= 16; k++ {
				for m := 0; m <= 20; m++ {
					c := c17{M: m}
					for i := 0; i < k; i++ {
						c.Keys = append(c.Keys, c17key{Key: fixed(i), Path: []int{i, i << 8}})
					}
					yield(c)
					if m == 2 {
						for d := -k - 1; d <= 17; d++ {
							c.N = d
							yield(c)
						}
					}
				}
			}
			for a := 0; a < 256; a++ { // short scripts
				r := g.Raw([]byte{byte(a)})
				yield(c17{Raw: &r})
				for b := 0; b < 256; b++ {
					r := g.Raw([]byte{byte(a), byte(b)})
					yield(c17{Raw: &r})
					q := g.Raw([]byte{0x52, byte(a), byte(b)})
					yield(c17{Raw: &q})
					if b < 8 {
						q := g.Raw([]byte{0x52, byte(a), 0x50 + byte(b), 0xae})
						yield(c17{Raw: &q})
					}
				}
			}
			intact := c17{M: 2, Keys: []c17key{{Key: fixed(0), Path: []int{0, 0}}, {Key: fixed(1), Path: []int{1, 513}}}}
			for _, s := range append(badHexOf(intact.text()), "") {
				s := s
				yield(c17{Text: &s})
			}
			for n := 0; n <= 200; n++ { // a key push of every length
				r := g.Raw(append(append([]byte{0x52}, ref.Push(append([]byte{0xff}, g.Pat(n, 9).Bytes()...))...), 0x51, 0xae))
				yield(c17{Raw: &r})
				p := fixed(0).payload()
				for len(p) < n {
					p = append(p, 0)
				}
				one := ref.Push(append([]byte{0xff}, append(p, 0, 0, 0, 0)...))
				odd := ref.Push(append([]byte{0xff}, p[:n]...))
				r2 := g.Raw(append(append(append([]byte{0x52}, one...), odd...), 0x52, 0xae))
				yield(c17{Raw: &r2})
			}
		},
		Check: check17,
		Classify: func(c c17) (bool, []string) {
			_, _, v, _, _ := electrum(c.text())
			l := []string{[]string{"must be refused", "must convert", "left open"}[v], countLabel("keys", len(c.Keys))}
			if c.Edit > 0 {
				l = append(l, fmt.Sprintf("edit %d", c.Edit))
			}
			return len(c.Keys) > 0, l
		},
		Quick: 19800, Thorough: 150000,
	})
}
