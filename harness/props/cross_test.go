package props

// The reference models against bsvd. Not part of any check: it is run while
// developing, with go test ./props.

import (
	"bytes"
	"testing"

	"github.com/bitcoinsv/bsvd/txscript"
	"github.com/bitcoinsv/bsvd/wire"
	"github.com/bitcoinsv/bsvutil/base58"
	"github.com/bitcoinsv/bsvutil/hdkeychain"
	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/ref"
)

func TestWireAgainstBsvd(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		tx := g.GenTx(t, g.TxOpt{MaxIn: 6, MaxOut: 6, MaxScript: 700, Prev: true}).Ref()
		if len(tx.In) == 0 {
			return // bsvd reads a zero count as a witness marker
		}
		var b bytes.Buffer
		m := msgTx(tx)
		if err := m.Serialize(&b); err != nil || !bytes.Equal(b.Bytes(), tx.Bytes()) {
			t.Fatalf("encoding differs: %v", err)
		}
		if m.TxHash().String() != tx.ID() {
			t.Fatal("id differs")
		}
		back, p := ref.ParseTx(tx.Bytes())
		if !p.OK || !p.Minimal || !bytes.Equal(back.Bytes(), tx.Bytes()) {
			t.Fatal("parse")
		}
		cut := tx.Bytes()[:g.Int(t, 0, len(tx.Bytes())-1, "cut")]
		if _, p := ref.ParseTx(cut); p.OK {
			t.Fatal("truncation parses")
		}
		var w wire.MsgTx
		if w.Deserialize(bytes.NewReader(cut)) == nil {
			t.Fatal("truncation parses with bsvd")
		}
	})
}

func TestDigestAgainstBsvd(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		tx := g.GenTx(t, g.TxOpt{MaxIn: 6, MaxOut: 6, MaxScript: 60}).Ref()
		if len(tx.In) == 0 {
			return
		}
		m := msgTx(tx)
		prev := g.Elements(t, g.Int(t, 0, 5, "n"), 80, "prev")
		if _, ok := ref.Tokenise(prev); !ok {
			return
		}
		sats := g.U64(t, "sats")
		idx := g.Int(t, 0, len(tx.In)-1, "idx")
		flag := g.Pick(t, forkFlags, "flag")
		got, err := txscript.CalcSignatureHash(prev, txscript.NewTxSigHashes(m), txscript.SigHashType(flag), m, idx, int64(sats), true)
		if err != nil {
			return
		}
		if !bytes.Equal(got, tx.SigHash(idx, prev, sats, flag)) && bytes.IndexByte(prev, 0xab) < 0 {
			t.Fatalf("digest differs for %x flag %x", prev, flag)
		}
	})
}

func TestTemplatesAgainstBsvd(t *testing.T) {
	for seed := uint32(3); seed < 40; seed++ {
		for _, s := range templates(seed) {
			near(s, []byte{0, 1, 0x51, 0x76, 0xff}, func(b []byte) {
				c := txscript.GetScriptClass(b)
				if (c == txscript.PubKeyHashTy) != ref.IsP2PKH(b) {
					t.Fatalf("p2pkh %x", b)
				}
				if (c == txscript.ScriptHashTy) != ref.IsP2SH(b) {
					t.Fatalf("p2sh %x", b)
				}
			})
		}
	}
}

func TestTextFormsAgainstBsvutil(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		b := g.Bytes(t, 60, "b")
		if base58.Encode(b) != ref.B58Encode(b) {
			t.Fatalf("base58 %x", b)
		}
		if d, ok := ref.B58Decode(base58.Encode(b)); !ok || !bytes.Equal(d, b) {
			t.Fatalf("base58 back %x", b)
		}
		h := genHash20(t)
		if base58.CheckEncode(h, 0) != ref.Address(h, true) || base58.CheckEncode(h, 0x6f) != ref.Address(h, false) {
			t.Fatalf("address %x", h)
		}
		x := genExtKey(t)
		x.Ver, x.Body = "", ""
		text := ref.B58Check(x.payload())
		k, ok := ref.ParseExtKeyText(text)
		l, err := hdkeychain.NewKeyFromString(text)
		if !ok || err != nil {
			t.Fatalf("%v %v", ok, err)
		}
		i := g.U32(t, "child")
		c, short, ok := k.Child(i)
		lc, err := l.Child(i)
		if ok != (err == nil) {
			t.Fatalf("child %d: %v %v", i, ok, err)
		}
		if ok && !(short && i>>31 == 1) {
			p, _ := lc.ECPubKey()
			if !bytes.Equal(p.SerializeCompressed(), c.Pub) {
				t.Fatalf("child %d of %s: %x", i, text, c.Pub)
			}
		}
	})
}
