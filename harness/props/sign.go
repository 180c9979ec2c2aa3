package props

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/bitcoinsv/bsvd/chaincfg/chainhash"
	"github.com/bitcoinsv/bsvd/txscript"
	"github.com/bitcoinsv/bsvd/wire"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/ref"
)

// genKey draws a valid private key (32 bytes, below the group order).
func genKey(t *rapid.T, label string) string {
	var b []byte
	switch g.Int(t, 0, 9, label+".kind") {
	case 3: // one of a few families of keys that resemble one another
		return g.Pick(t, keyFamilies(), label+".family")
	case 0: // small scalar
		b = make([]byte, 32)
		b[31] = byte(g.Int(t, 1, 255, label+".small"))
	case 1: // just below the order
		n := new(big.Int).Sub(bsvec.S256().N, big.NewInt(int64(g.Int(t, 1, 20, label+".below"))))
		b = n.FillBytes(make([]byte, 32))
	case 2: // a public key, hash or checksum with rare bytes
		b = new(big.Int).SetUint64(g.Pick(t, g.MinedKeys, label+".mined")).FillBytes(make([]byte, 32))
	default:
		b = g.Pat(32, uint32(g.Int(t, 3, 1<<30, label+".seed"))).Bytes()
		b[0] &= 0x7f
		b[31] |= 1
	}
	return g.HexOf(b)
}

// keyRelatives are the valid keys that stand in a simple relation to a key: its
// negative (the same x coordinate), multiples, neighbours, keys that agree with
// it in their low or high bytes.
func keyRelatives(key string) []string {
	n := bsvec.S256().N
	d := new(big.Int).SetBytes(g.Unhex(key))
	var out []string
	add := func(x *big.Int) {
		x = new(big.Int).Mod(x, n)
		if x.Sign() > 0 {
			out = append(out, fmt.Sprintf("%064x", x))
		}
	}
	add(d)
	add(new(big.Int).Neg(d))
	for _, k := range []int64{-2, -1, 1, 2, 255, 256} {
		add(new(big.Int).Add(d, big.NewInt(k)))
	}
	add(new(big.Int).Lsh(d, 1))
	add(new(big.Int).Lsh(d, 8))
	add(new(big.Int).Rsh(d, 8))
	add(new(big.Int).ModInverse(d, n))
	for bit := 7; bit < 256; bit += 31 {
		add(new(big.Int).Xor(d, new(big.Int).Lsh(big.NewInt(1), uint(bit))))
	}
	other := ref.Sha256d(g.Unhex(key))
	other[0] &= 0x7f
	for _, k := range []int{1, 2, 4, 8, 16, 24, 28, 31} {
		b := append(append([]byte{}, other[:32-k]...), g.Unhex(key)[32-k:]...) // the same low bytes
		add(new(big.Int).SetBytes(b))
		b = append(append([]byte{}, g.Unhex(key)[:k]...), other[k:]...) // the same high bytes
		add(new(big.Int).SetBytes(b))
	}
	for _, r := range g.Relatives(g.Unhex(key)) {
		add(new(big.Int).SetBytes(r))
	}
	return out
}

// keyFamilies are three keys with their relatives.
var keyFamilies = sync.OnceValue(func() []string {
	var out []string
	for _, s := range []uint32{5, 1013} {
		b := g.Pat(32, s).Bytes()
		b[0] &= 0x7f
		out = append(out, keyRelatives(g.HexOf(b))...)
	}
	return append(out, keyRelatives(fmt.Sprintf("%064x", 9))...)
})

func privKey(hex string) *bsvec.PrivateKey {
	k, _ := bsvec.PrivKeyFromBytes(bsvec.S256(), g.Unhex(hex))
	return k
}

// pubKey is the compressed public key, computed with bsvec.
func pubKey(hex string) []byte { return privKey(hex).PubKey().SerializeCompressed() }

func msgTx(t *ref.Tx) *wire.MsgTx {
	m := wire.NewMsgTx(int32(t.Version))
	m.LockTime = t.Lock
	for _, in := range t.In {
		var h chainhash.Hash
		copy(h[:], in.Hash)
		ti := wire.NewTxIn(wire.NewOutPoint(&h, in.Vout), in.Script)
		ti.Sequence = in.Seq
		m.AddTxIn(ti)
	}
	for _, o := range t.Out {
		m.AddTxOut(wire.NewTxOut(int64(o.Sats), o.Script))
	}
	return m
}

const engineFlags = txscript.ScriptBip16 | txscript.ScriptVerifyDERSignatures | txscript.ScriptVerifyStrictEncoding | txscript.ScriptVerifyLowS |
	txscript.ScriptVerifyMinimalData | txscript.ScriptVerifyNullFail | txscript.ScriptVerifySigPushOnly | txscript.ScriptVerifyCleanStack | txscript.ScriptVerifyBip143SigHash

// engine runs bsvd's script interpreter on an input; nil means accepted.
func engine(t *ref.Tx, idx int, prev []byte, value uint64) error {
	vm, err := txscript.NewEngine(prev, msgTx(t), idx, engineFlags, nil, nil, int64(value))
	if err != nil {
		return err
	}
	return vm.Execute()
}

// checkUnlock checks the form of a P2PKH unlocking script: minimal push of a
// strict low-S DER signature and the flag byte, then of the compressed key.
func checkUnlock(s, pub []byte, flag byte) error {
	e, ok := ref.Tokenise(s)
	if !ok || len(e) != 2 || !e[0].Push || !e[1].Push {
		return fmt.Errorf("unlocking script %x is not two pushes", s)
	}
	if want := append(ref.Push(e[0].Data), ref.Push(e[1].Data)...); !bytes.Equal(want, s) {
		return fmt.Errorf("unlocking script %x has non-minimal pushes", s)
	}
	if err := same("public key in the unlocking script", e[1].Data, pub); err != nil {
		return err
	}
	sig := e[0].Data
	if len(sig) < 9 || sig[len(sig)-1] != flag {
		return fmt.Errorf("signature %x does not end in flag %02x", sig, flag)
	}
	return strictDER(sig[:len(sig)-1])
}

// strictDER is BIP66 plus the low-S rule.
func strictDER(s []byte) error {
	bad := func(why string) error { return fmt.Errorf("signature %x: %s", s, why) }
	if len(s) < 8 || len(s) > 72 || s[0] != 0x30 || int(s[1]) != len(s)-2 {
		return bad("not a DER sequence")
	}
	rl := int(s[3])
	if s[2] != 2 || rl == 0 || 5+rl >= len(s) {
		return bad("bad R")
	}
	sl := int(s[5+rl])
	if s[4+rl] != 2 || sl == 0 || 6+rl+sl != len(s) {
		return bad("bad S")
	}
	r, sv := s[4:4+rl], s[6+rl:]
	for _, v := range [][]byte{r, sv} {
		if v[0]&0x80 != 0 || len(v) > 1 && v[0] == 0 && v[1]&0x80 == 0 {
			return bad("integer not in minimal positive form")
		}
	}
	half := new(big.Int).Rsh(bsvec.S256().N, 1)
	if new(big.Int).SetBytes(sv).Cmp(half) > 0 {
		return bad("S is not low")
	}
	return nil
}

var forkFlags = []byte{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3}

// flagOf is the flag for a byte, through the package's names where it has one.
func flagOf(b byte) sighash.Flag {
	switch b {
	case 0x41:
		return sighash.AllForkID
	case 0x42:
		return sighash.NoneForkID
	case 0x43:
		return sighash.SingleForkID
	case 0xc1:
		return sighash.All | sighash.AnyOneCanPayForkID
	case 0xc2:
		return sighash.NoneForkID | sighash.AnyOneCanPay
	case 0xc3:
		return sighash.Single | sighash.ForkID | sighash.AnyOneCanPay
	case 0xc0:
		return sighash.AnyOneCanPayForkID
	case 0x40:
		return sighash.ForkID | sighash.Old
	case 0xe2:
		return 0x20 | sighash.None | sighash.AnyOneCanPayForkID
	case 0x5f:
		return sighash.ForkID | sighash.Mask
	}
	return sighash.Flag(b)
}

func effFlag(f byte) byte {
	if f == 0 {
		return 0x41
	}
	return f
}

// minedVouts are the transactions with rare digests and signatures.
func minedVouts(yield func(flag byte, tx g.Tx)) {
	for _, v := range g.MinedVouts41 {
		yield(0x41, g.MinedTx(uint32(v)))
	}
	for _, v := range g.MinedVoutsC3 {
		yield(0xc3, g.MinedTx(uint32(v)))
	}
	g.Pairs(g.MinedVoutTwins, func(v uint64) { yield(0x41, g.MinedTx(uint32(v))) })
}
