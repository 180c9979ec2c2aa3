package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type c01 struct {
	Tx    g.Tx   `json:"tx"`
	Trail g.Blob `json:"trail"` // bytes after a single input or output
	// Edits are made afterwards to the same transaction.
	Edits []g.Edit `json:"edits,omitempty"`
}

func checkRoundTrip(c c01) error {
	want := c.Tx.Ref()
	wire := want.Bytes()
	tx := c.Tx.Lib()
	if err := same("ToBytes", tx.ToBytes(), wire); err != nil {
		return err
	}
	text := hex.EncodeToString(wire)
	if err := sameStr("ToString", tx.ToString(), text); err != nil {
		return err
	}
	for _, how := range []string{"bytes", "hex", "HEX"} {
		var back *transaction.Transaction
		var err error
		switch how {
		case "bytes":
			back, err = transaction.NewFromBytes(reused(wire, func(b []byte) { _, _ = transaction.NewFromBytes(b) }))
		case "hex":
			back, err = transaction.NewFromString(text)
		case "HEX":
			if len(wire) > 2000 {
				continue
			}
			back, err = transaction.NewFromString(strings.ToUpper(text))
		}
		if err != nil {
			return fmt.Errorf("parsing the %s of a valid transaction (%d bytes): %v", how, len(wire), err)
		}
		if err := txFields(back, want); err != nil {
			return fmt.Errorf("parsed from %s: %v", how, err)
		}
		spoilTx(back)
		if err := same("re-serialised", back.ToBytes(), wire); err != nil {
			return err
		}
	}
	trail := c.Trail.Bytes()
	pick := func(n int) []int { // first, last, and a middle one
		if n == 0 {
			return nil
		}
		return []int{0, n / 2, n - 1}
	}
	for _, k := range pick(len(want.In)) {
		b := ref.InBytes(want.In[k])
		if err := same("Input.ToBytes", tx.Inputs[k].ToBytes(false), b); err != nil {
			return err
		}
		for _, buf := range [][]byte{reused(b, func(b []byte) { _, _, _ = input.NewFromBytes(b) }), append(append([]byte{}, b...), trail...)} {
			i, n, err := input.NewFromBytes(buf)
			if err != nil {
				return fmt.Errorf("input.NewFromBytes of a valid input (%d of %d bytes): %v", len(b), len(buf), err)
			}
			if n != len(b) {
				return fmt.Errorf("input.NewFromBytes used %d bytes, the input has %d", n, len(b))
			}
			if err := inFields("input alone", i, want.In[k]); err != nil {
				return err
			}
			spoilInputs(i)
		}
	}
	for _, k := range pick(len(want.Out)) {
		b := ref.OutBytes(want.Out[k])
		if err := same("Output.ToBytes", tx.Outputs[k].ToBytes(), b); err != nil {
			return err
		}
		for _, buf := range [][]byte{reused(b, func(b []byte) { _, _, _ = output.NewFromBytes(b) }), append(append([]byte{}, b...), trail...)} {
			o, n, err := output.NewFromBytes(buf)
			if err != nil {
				return fmt.Errorf("output.NewFromBytes of a valid output (%d of %d bytes): %v", len(b), len(buf), err)
			}
			if n != len(b) {
				return fmt.Errorf("output.NewFromBytes used %d bytes, the output has %d", n, len(b))
			}
			if err := outFields("output alone", o, want.Out[k]); err != nil {
				return err
			}
			spoilOutputs(o)
			if err := sameStr("GetLockingScriptHexString", o.GetLockingScriptHexString(), hex.EncodeToString(want.Out[k].Script)); err != nil {
				return err
			}
		}
	}
	return edited(tx, c.Tx.Flat(), c.Edits, func(tx *transaction.Transaction, m g.Tx) error {
		want := m.Ref()
		if err := firstErr(same("ToBytes", tx.ToBytes(), want.Bytes()), sameStr("ToString", tx.ToString(), hex.EncodeToString(want.Bytes()))); err != nil {
			return err
		}
		for k := range want.In {
			if err := same("Input.ToBytes", tx.Inputs[k].ToBytes(false), ref.InBytes(want.In[k])); err != nil {
				return err
			}
		}
		for k := range want.Out {
			if err := same("Output.ToBytes", tx.Outputs[k].ToBytes(), ref.OutBytes(want.Out[k])); err != nil {
				return err
			}
		}
		return nil
	})
}

// edited makes the edits one by one and checks after each.
func edited(tx *transaction.Transaction, m g.Tx, es []g.Edit, check func(*transaction.Transaction, g.Tx) error) error {
	for n, e := range es {
		m = g.Edited(tx, m, e)
		if err := check(tx, m); err != nil {
			return fmt.Errorf("after edit %d (%s): %v", n, e.K, err)
		}
	}
	return nil
}

// sweepScriptLens: every small length and every boundary.
func sweepScriptLens(thorough bool, f func(n int)) {
	top := 320
	if thorough {
		top = 3000
	}
	for n := 0; n <= top; n++ {
		f(n)
	}
	for _, n := range bigLens(top, 1<<21) {
		f(n)
	}
}

const (
	id1 = "00112233445566778899aabbccddeeff0123456789abcdef0f1e2d3c4b5a6978"
	id2 = "ffeeddccbbaa99887766554433221100fedcba9876543210f0e1d2c3b4a59687"
	id0 = "0000000000000000000000000000000000000000000000000000000000000000"
)

func init() {
	pbt.Register(pbt.Def[c01]{
		ID: "C01",
		Rule: "random transactions (0..40 inputs/outputs, now and then up to 3000, scripts of 0..70000 bytes in template, element and raw shapes, edge and literal-derived 32/64-bit values) " +
			"plus a sweep over script lengths and counts across every compact-size boundary; non-trivial: has an input and an output, or a count or script length above 75. One case in three is a history: the transaction is changed in place or replaced between the calls, and checked again each time. Inputs, outputs and scripts of a transaction may be equal, or be one object several times. Parts may be relatives of one another (equal, backwards, digests, one inside the other); the sweep takes 64 such relations. The sweep also takes counts up to 70000. It takes ids of special shapes and lengths taken from the code's literals. Results are overwritten between the calls: later ones must not notice. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c01 {
			c := c01{Tx: g.GenTx(t, g.TxOpt{MaxIn: 40, MaxOut: 40, MaxScript: 70000, Huge: true, NilScript: true}), Trail: g.AnyBlob(t, 60, "trail")}
			if g.Chance(t, 3, "edits?") {
				c.Edits, c.Tx.Shared = g.GenEdits(t, 4, 300, "edit"), 0
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c01)) {
			sweepScriptLens(thorough, func(n int) {
				s := g.Pat(n, uint32(n)+3)
				yield(c01{Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id1, Vout: uint32(n), Seq: 0xffffffff, Script: &s}}, Out: []g.TxOut{{Sats: uint64(n), Script: g.Pat(n%3, 5)}}}, Trail: g.Pat(n%7, 2)})
				yield(c01{Tx: g.Tx{Version: 2, In: []g.TxIn{{ID: id1, Vout: 1, Seq: uint32(n)}}, Out: []g.TxOut{{Sats: 1 << 40, Script: s}, {Script: g.Pat(1, 1)}}, Lock: uint32(n)}, Trail: g.Pat(n%5, 1)})
			})
			for sh := 1; sh < 8; sh++ { // the same objects again
				s := g.Pat(9, 3)
				in, out := g.TxIn{ID: id1, Vout: 3, Seq: 5, Script: &s}, g.TxOut{Sats: 7, Script: s}
				yield(c01{Tx: g.Tx{Version: 1, In: []g.TxIn{in, in, {ID: id1}, in}, Out: []g.TxOut{out, out, {Sats: 7}, out}, Shared: sh}})
			}
			counts := []int{0, 1, 2, 3, 4, 5, 16, 17, 64, 100, 127, 128, 200, 251, 252, 253, 254, 255, 256, 257, 258, 512, 1000, 4096, 10000, 65534, 65535, 65536}
			if !thorough {
				counts = append(counts, g.SweepLens(4200)...)
			} else {
				counts = append(counts, g.SweepLens(70000)...)
			}
			for _, n := range counts {
				c := c01{Tx: g.Tx{Version: 1, Out: []g.TxOut{{Sats: 5, Script: g.Raw([]byte{0x51})}}}}
				if n > 0 {
					c.Tx.In = []g.TxIn{{ID: id1, Rep: n}}
				}
				yield(c)
				c = c01{Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id1}}}}
				if n > 0 {
					c.Tx.Out = []g.TxOut{{Sats: 1, Script: g.Pat(1, 2), Rep: n}}
				}
				yield(c)
			}
			g.AllShapes(32, func(h []byte) {
				s := g.Raw(h)
				yield(c01{Tx: g.Tx{Version: uint32(h[3]), In: []g.TxIn{{ID: hex.EncodeToString(h), Vout: uint32(h[31]), Seq: uint32(h[0]) << 24, Script: &s}}, Out: []g.TxOut{{Sats: uint64(h[9]) << 56, Script: s}}}, Trail: s})
			})
			g.Pairs(g.MinedLockTwins, func(v uint64) {
				x := g.MinedTx(0)
				x.Lock = uint32(v * 0x9e3779b1)
				yield(c01{Tx: x})
			})
			g.Texts(func(b g.Blob) {
				yield(c01{Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id1, Script: &b}}, Out: []g.TxOut{{Sats: 1, Script: b}}}, Trail: b})
			})
			g.RelatedTxs(false, func(x g.Tx) { yield(c01{Tx: x, Trail: g.Pat(len(x.In), 9)}) })
			for bit := 0; bit < 64; bit++ {
				for _, d := range []uint64{0, ^uint64(0)} {
					v := uint64(1)<<bit + d
					yield(c01{Tx: g.Tx{Version: uint32(v), Lock: uint32(v >> 3), In: []g.TxIn{{ID: id1, Vout: uint32(v), Seq: uint32(^v)}}, Out: []g.TxOut{{Sats: v, Script: g.Pat(2, 2)}}}})
				}
			}
		},
		Check: checkRoundTrip,
		Classify: func(c c01) (bool, []string) {
			l := txLabels(c.Tx)
			f := c.Tx.Flat()
			nt := len(f.In) > 0 && len(f.Out) > 0 || len(f.In) > 75 || len(f.Out) > 75
			return nt, l
		},
		Quick: 130000, Thorough: 975000,
	})

	type c02 struct {
		Kind string `json:"kind"` // tx, in, out, hex
		B    g.Blob `json:"b"`
		Text string `json:"text,omitempty"`
		How  string `json:"how,omitempty"`
	}
	check02 := func(c c02) error {
		b := c.B.Bytes()
		switch c.Kind {
		case "work":
			return work02(c.How)
		case "hex":
			tx, err := transaction.NewFromString(c.Text)
			if !isHex(c.Text) {
				return mustErr(fmt.Sprintf("NewFromString(%q), which is not hex", c.Text), err)
			}
			want, p := ref.ParseTx(g.Unhex(strings.ToLower(c.Text)))
			return judgeTx(tx, err, want, p, g.Unhex(strings.ToLower(c.Text)))
		case "tx":
			want, p := ref.ParseTx(b)
			tx, err := transaction.NewFromBytes(reused(b, func(b []byte) { _, _ = transaction.NewFromBytes(b) }))
			if e := judgeTx(tx, err, want, p, b); e != nil {
				return e
			}
			tx2, err2 := transaction.NewFromString(hex.EncodeToString(b))
			if (err == nil) != (err2 == nil) {
				return fmt.Errorf("NewFromBytes says %v, NewFromString says %v of %s", err, err2, short(b))
			}
			if err == nil {
				spoilTx(tx)
				spoilTx(tx2)
				return txFields(tx2, want)
			}
		case "in":
			want, p := ref.ParseIn(b)
			i, n, err := input.NewFromBytes(reused(b, func(b []byte) { _, _, _ = input.NewFromBytes(b) }))
			if !p.OK {
				return mustErr("input.NewFromBytes of truncated input "+short(b), err)
			}
			if err != nil {
				if p.Minimal {
					return fmt.Errorf("input.NewFromBytes rejects a valid input: %v", err)
				}
				return nil
			}
			if n != p.Used {
				return fmt.Errorf("input.NewFromBytes used %d bytes, want %d, of %s", n, p.Used, short(b))
			}
			if err := inFields("input", i, want); err != nil {
				return err
			}
			spoilInputs(i)
			return same("input re-serialised", i.ToBytes(false), ref.InBytes(want))
		case "out":
			want, p := ref.ParseOut(b)
			o, n, err := output.NewFromBytes(reused(b, func(b []byte) { _, _, _ = output.NewFromBytes(b) }))
			if !p.OK {
				return mustErr("output.NewFromBytes of truncated output "+short(b), err)
			}
			if err != nil {
				if p.Minimal {
					return fmt.Errorf("output.NewFromBytes rejects a valid output: %v", err)
				}
				return nil
			}
			if n != p.Used {
				return fmt.Errorf("output.NewFromBytes used %d bytes, want %d, of %s", n, p.Used, short(b))
			}
			if err := outFields("output", o, want); err != nil {
				return err
			}
			spoilOutputs(o)
			return same("output re-serialised", o.ToBytes(), ref.OutBytes(want))
		}
		return nil
	}
	hostile := []uint64{0, 1, 2, 0xfc, 0xfd, 0xff, 0x100, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffc0, 0x7ffffffffffffff0, 0x7ffffffffffffffb, 0x7fffffffffffffff,
		0x8000000000000000, 0x8000000000000001, 0xffffffffffffffd0, 0xffffffffffffffd7, 0xfffffffffffffff0, 0xfffffffffffffff8, 0xfffffffffffffffb, 0xfffffffffffffffc, 0xffffffffffffffff}
	wide := func(v uint64, form int) []byte { // compact size in a chosen, possibly too wide, form
		switch form {
		case 0:
			return ref.Compact(v)
		case 1:
			return []byte{0xfd, byte(v), byte(v >> 8)}
		case 2:
			return []byte{0xfe, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
		}
		b := []byte{0xff}
		for i := 0; i < 8; i++ {
			b = append(b, byte(v>>(8*i)))
		}
		return b
	}
	// prefixes of a transaction ending just where a compact size comes
	spots := func(tx *ref.Tx) [][2]int { // [start,end) of every compact size in the wire form
		var s [][2]int
		pos := 4
		mark := func(v int) { n := len(ref.Compact(uint64(v))); s = append(s, [2]int{pos, pos + n}); pos += n }
		mark(len(tx.In))
		for _, in := range tx.In {
			pos += 36
			mark(len(in.Script))
			pos += len(in.Script) + 4
		}
		mark(len(tx.Out))
		for _, o := range tx.Out {
			pos += 8
			mark(len(o.Script))
			pos += len(o.Script)
		}
		return s
	}
	splice := func(b []byte, at [2]int, with []byte) []byte {
		r := append([]byte{}, b[:at[0]]...)
		r = append(r, with...)
		return append(r, b[at[1]:]...)
	}
	pbt.Register(pbt.Def[c02]{
		ID: "C02",
		Rule: "valid encodings of transactions, inputs and outputs that are truncated, extended, have bytes changed, or have one count or length replaced by a hostile or non-minimal one; raw bytes; text around hex; " +
			"all prefixes of several transactions in the sweep; non-trivial: at least 10 bytes that are not a plain valid encoding. The work of parsing (allocations, time) is compared for inputs that claim much and hold little. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c02 {
			if g.Chance(t, 12, "hex") {
				tx := g.GenTx(t, g.TxOpt{MaxIn: 2, MaxOut: 2, MaxScript: 30}).Ref().Bytes()
				s := []byte(hex.EncodeToString(tx))
				k := g.Int(t, 0, len(s)-1, "at")
				switch g.Int(t, 0, 3, "how") {
				case 0:
					s[k] = byte(g.Int(t, 32, 126, "ch"))
				case 1:
					s = append(s[:k], s[k+1:]...)
				case 2:
					s = append(s[:k], append([]byte{g.Pick(t, []byte(" gGxX\n\x00-+0a"), "ch")}, s[k:]...)...)
				case 3:
					s = []byte("0x" + string(s))
				}
				return c02{Kind: "hex", Text: string(bytes.ToValidUTF8(s, []byte("?"))), How: "text"}
			}
			kind := g.Pick(t, []string{"tx", "tx", "tx", "in", "out"}, "kind")
			var b []byte
			var sp [][2]int
			tx := g.GenTx(t, g.TxOpt{MaxIn: 4, MaxOut: 4, MaxScript: 300}).Ref()
			switch kind {
			case "tx":
				b, sp = tx.Bytes(), spots(tx)
			case "in":
				if len(tx.In) == 0 {
					tx.In = append(tx.In, ref.In{Hash: make([]byte, 32)})
				}
				b = ref.InBytes(tx.In[0])
				sp = [][2]int{{36, 36 + len(ref.Compact(uint64(len(tx.In[0].Script))))}}
			case "out":
				if len(tx.Out) == 0 {
					tx.Out = append(tx.Out, ref.Out{})
				}
				b = ref.OutBytes(tx.Out[0])
				sp = [][2]int{{8, 8 + len(ref.Compact(uint64(len(tx.Out[0].Script))))}}
			}
			how := g.Pick(t, []string{"truncate", "extend", "flip", "hostile", "hostile", "widen", "raw", "valid", "cutlen"}, "how")
			switch how {
			case "truncate":
				b = b[:g.Int(t, 0, len(b)-1, "cut")]
			case "extend":
				b = append(b, g.BytesN(t, g.Int(t, 1, 20, "n"), "ext")...)
			case "flip":
				for n := g.Int(t, 1, 4, "n"); n > 0; n-- {
					b[g.Int(t, 0, len(b)-1, "at")] = g.Byte(t, "v")
				}
			case "hostile":
				at := g.Pick(t, sp, "spot")
				v := g.Pick(t, hostile, "v") - uint64(g.Int(t, 0, 60, "d"))
				b = splice(b, at, wide(v, 3))
				if g.Bool(t, "cut") {
					b = b[:g.Int(t, at[0], len(b), "cutat")]
				}
			case "cutlen": // ends inside or just after a length field
				at := g.Pick(t, sp, "spot")
				b = append(append([]byte{}, b[:at[0]]...), wide(g.U64(t, "v"), g.Int(t, 0, 3, "form"))...)
				b = b[:g.Int(t, at[0], len(b), "cutat")]
			case "widen":
				at := g.Pick(t, sp, "spot")
				v, _, _ := ref.ReadCompact(b[at[0]:])
				b = splice(b, at, wide(v, g.Int(t, 1, 3, "form")))
			case "raw":
				b = g.Bytes(t, 200, "raw")
			}
			return c02{Kind: kind, B: g.Raw(b), How: how}
		},
		Sweep: func(thorough bool, yield func(c02)) {
			s1, s2 := g.Pat(5, 7), g.Pat(260, 11)
			txs := []g.Tx{
				{Version: 1, In: []g.TxIn{{ID: id1, Vout: 1, Seq: 2, Script: &s1}}, Out: []g.TxOut{{Sats: 3, Script: s1}}},
				{Version: 1, In: []g.TxIn{{ID: id1, Script: &s2}, {ID: id1, Script: &s1}}, Out: []g.TxOut{{Sats: 3, Script: s2}, {Script: g.Blob{}}}, Lock: 9},
				{Version: 1},
				{Version: 1, In: []g.TxIn{{ID: id1}}},
				{Version: 1, Out: []g.TxOut{{Sats: 1}}},
			}
			for _, tx := range txs {
				r := tx.Ref()
				b := r.Bytes()
				for k := 0; k <= len(b); k++ {
					yield(c02{Kind: "tx", B: g.Raw(b[:k]), How: "truncate"})
				}
				for k := 1; k <= 12; k++ {
					yield(c02{Kind: "tx", B: g.Raw(append(append([]byte{}, b...), make([]byte, k)...)), How: "extend"})
					yield(c02{Kind: "tx", B: g.Raw(append(append([]byte{}, b...), b[:k%len(b)]...)), How: "extend"})
				}
				for _, at := range spots(r) {
					for _, v := range hostile {
						for form := 0; form < 4; form++ {
							m := splice(b, at, wide(v, form))
							yield(c02{Kind: "tx", B: g.Raw(m), How: "hostile"})
							for k := at[0]; k <= at[0]+9 && k <= len(m); k++ {
								if v == 0xff {
									yield(c02{Kind: "tx", B: g.Raw(m[:k]), How: "cutlen"})
								}
							}
						}
					}
				}
				for _, in := range r.In {
					ib := ref.InBytes(in)
					for k := 0; k <= len(ib); k++ {
						yield(c02{Kind: "in", B: g.Raw(ib[:k]), How: "truncate"})
					}
					for _, v := range hostile {
						for form := 0; form < 4; form++ {
							yield(c02{Kind: "in", B: g.Raw(append(append([]byte{}, ib[:36]...), append(wide(v, form), ib[37:]...)...)), How: "hostile"})
						}
					}
				}
				for _, o := range r.Out {
					ob := ref.OutBytes(o)
					for k := 0; k <= len(ob); k++ {
						yield(c02{Kind: "out", B: g.Raw(ob[:k]), How: "truncate"})
					}
					for _, v := range hostile {
						for form := 0; form < 4; form++ {
							yield(c02{Kind: "out", B: g.Raw(append(append([]byte{}, ob[:8]...), append(wide(v, form), ob[9:]...)...)), How: "hostile"})
						}
					}
				}
				h := hex.EncodeToString(b)
				for _, s := range badHexOf(h) {
					yield(c02{Kind: "hex", Text: s, How: "text"})
				}
				for _, s := range []string{h[:len(h)-1], h + "0", "0x" + h, " " + h, h + "\n", strings.ToUpper(h), "zz" + h[2:], h[:10] + "g" + h[11:], ""} {
					yield(c02{Kind: "hex", Text: s, How: "text"})
				}
			}
			for _, how := range []string{"inputs", "outputs", "both", "script", "cut inputs", "cut outputs"} {
				yield(c02{Kind: "work", How: how})
			}
			for n := 0; n <= 64; n++ {
				for s := uint32(0); s < 4; s++ {
					for _, k := range []string{"tx", "in", "out"} {
						yield(c02{Kind: k, B: g.Pat(n, s), How: "raw"})
					}
				}
			}
		},
		Check: check02,
		Classify: func(c c02) (bool, []string) {
			return (c.B.Len() >= 10 || c.Kind == "hex" || c.Kind == "work") && c.How != "valid", []string{c.Kind + "/" + c.How}
		},
		Quick: 680000, Thorough: 10200000,
	})

	type c03 struct {
		Tx  g.Tx `json:"tx"`
		Raw bool `json:"raw"` // parse it from bytes instead of building it
		// Edits are made afterwards to the same transaction.
		Edits []g.Edit `json:"edits,omitempty"`
	}
	check03 := func(c c03) error {
		want := c.Tx.Ref()
		var tx *transaction.Transaction
		if c.Raw {
			var err error
			if tx, err = transaction.NewFromBytes(want.Bytes()); err != nil {
				return fmt.Errorf("parse: %v", err)
			}
		} else {
			tx = c.Tx.Lib()
		}
		if err := facts03(tx, want); err != nil {
			return err
		}
		m := c.Tx.Flat()
		for k := range m.In { // a parsed transaction has every script
			if c.Raw && m.In[k].Script == nil {
				m.In[k].Script = &g.Blob{}
			}
		}
		return edited(tx, m, c.Edits, func(tx *transaction.Transaction, m g.Tx) error { return facts03(tx, m.Ref()) })
	}
	pbt.Register(pbt.Def[c03]{
		ID:     "C03",
		NoKeep: true,
		Rule: "random transactions as for C01, a third of them coinbase-like (one input, all-zero or nearly all-zero id, edge indexes and sequences), built field by field or parsed; " +
			"non-trivial: more than one output, or a coinbase-like input. One case in three is a history: the transaction is changed in place or replaced between the calls, and checked again each time. Inputs, outputs and scripts of a transaction may be equal, or be one object several times. Parts may be relatives of one another (equal, backwards, digests, one inside the other); the sweep takes 64 such relations. The sweep also takes counts up to 70000. It takes transactions whose ids have rare shapes (found by search), ids of special shapes, and every single bit of a coinbase's null id.",
		Gen: func(t *rapid.T) c03 {
			c := c03{Tx: g.GenTx(t, g.TxOpt{MaxIn: 10, MaxOut: 40, MaxScript: 600, Huge: true, NilScript: true}), Raw: g.Bool(t, "raw")}
			if g.Chance(t, 3, "coinbase") {
				in := g.GenIn(t, g.TxOpt{MaxScript: 100})
				id := make([]byte, 32)
				switch g.Int(t, 0, 3, "near") {
				case 0:
					id[g.Int(t, 0, 31, "at")] = g.Byte(t, "v")
				}
				in.ID = hex.EncodeToString(id)
				in.Vout = g.Pick(t, []uint32{0xffffffff, 0xffffffff, 0xffffffff, 0, 1, 0xfffffffe, 0x7fffffff}, "vout")
				if g.Bool(t, "anyseq") {
					in.Seq = g.U32(t, "seq")
				}
				c.Tx.In = []g.TxIn{in}
				if g.Chance(t, 4, "two") {
					c.Tx.In = append(c.Tx.In, in)
				}
			}
			if g.Chance(t, 3, "edits?") {
				c.Edits, c.Tx.Shared = g.GenEdits(t, 5, 200, "edit"), 0
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c03)) {
			for n := 0; n <= 300; n++ {
				tx := g.Tx{Version: 1, In: []g.TxIn{{ID: id1, Vout: uint32(n)}}}
				if n > 0 {
					tx.Out = []g.TxOut{{Sats: uint64(n) << 33, Rep: n}}
				}
				yield(c03{Tx: tx, Raw: n%2 == 0})
			}
			for _, n := range bigCounts(300) {
				yield(c03{Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id1, Rep: n}}, Out: []g.TxOut{{Sats: 1 << 50}, {Sats: 5}}}, Raw: n%2 == 0})
				yield(c03{Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id0, Vout: 0xffffffff, Seq: 0xffffffff}}, Out: []g.TxOut{{Sats: 1 << 50, Rep: n}}}, Raw: n%2 == 1})
			}
			for sh := 0; sh < 8; sh++ { // the same objects again
				in, out := g.TxIn{ID: id1, Vout: 3, Seq: 5}, g.TxOut{Sats: 7, Script: g.Pat(3, 4)}
				yield(c03{Tx: g.Tx{Version: 1, In: []g.TxIn{in, in}, Out: []g.TxOut{out, out, {Sats: 7}, out}, Shared: sh}})
				in.ID, in.Vout = id0, 0xffffffff
				yield(c03{Tx: g.Tx{Version: 1, In: []g.TxIn{in, in}, Out: []g.TxOut{out, out}, Shared: sh}})
			}
			for bit := 0; bit < 256; bit++ { // ids one bit away from zero
				id := make([]byte, 32)
				id[bit/8] = 1 << (bit % 8)
				yield(c03{Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: hex.EncodeToString(id), Vout: 0xffffffff, Seq: 0xffffffff}}, Out: []g.TxOut{{Sats: 1}}}, Raw: bit%2 == 0})
			}
			g.AllShapes(32, func(h []byte) {
				yield(c03{Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: hex.EncodeToString(h), Vout: 0xffffffff, Seq: 0xffffffff}}, Out: []g.TxOut{{Sats: 1}}}, Raw: h[0]%2 == 0})
			})
			for _, seq := range []uint32{0, 1, 0xfffffffe, 0xffffffff, 0x80000000} {
				for _, vout := range []uint32{0, 1, 0xfffffffe, 0xffffffff} {
					for nin := 1; nin <= 2; nin++ {
						yield(c03{Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id0, Vout: vout, Seq: seq, Rep: nin}}, Out: []g.TxOut{{Sats: 1}}}})
						yield(c03{Tx: g.Tx{Version: 1, In: []g.TxIn{{ID: id0, Vout: vout, Seq: seq, Rep: nin}}, Out: []g.TxOut{{Sats: 1}}}, Raw: true})
					}
				}
			}
			for b1 := 0; b1 < 64; b1++ {
				yield(c03{Tx: g.Tx{Version: 1, Out: []g.TxOut{{Sats: 1 << b1}, {Sats: 1<<b1 - 1}, {Sats: 1<<b1 + 1}}}})
			}
			g.RelatedTxs(false, func(x g.Tx) { yield(c03{Tx: x}); yield(c03{Tx: x, Raw: true}) })
			for _, v := range g.MinedLocks {
				x := g.MinedTx(0)
				x.Lock = uint32(v)
				yield(c03{Tx: x})
				yield(c03{Tx: x, Raw: true})
			}
			for _, raw := range []bool{false, true} {
				g.Pairs(g.MinedLockTwins, func(v uint64) {
					x := g.MinedTx(0)
					x.Lock = uint32(v * 0x9e3779b1)
					yield(c03{Tx: x, Raw: raw})
				})
			}
		},
		Check: check03,
		Classify: func(c c03) (bool, []string) {
			f := c.Tx.Flat()
			l := txLabels(c.Tx)[:2]
			cb := len(f.In) > 0 && f.In[0].ID == id0
			if cb {
				l = append(l, "coinbase-like")
			}
			return cb || len(f.Out) > 1, l
		},
		Quick: 400000, Thorough: 3000000,
	})
}

// facts03 compares what a transaction says of itself with the reference.
func facts03(tx *transaction.Transaction, want *ref.Tx) error {
	if err := sameStr("GetTxID", tx.GetTxID(), want.ID()); err != nil {
		return err
	}
	if tx.InputCount() != len(want.In) || tx.OutputCount() != len(want.Out) {
		return fmt.Errorf("counts: got %d,%d want %d,%d", tx.InputCount(), tx.OutputCount(), len(want.In), len(want.Out))
	}
	ins, outs := tx.GetInputs(), tx.GetOutputs()
	if len(ins) != len(want.In) || len(outs) != len(want.Out) {
		return fmt.Errorf("lists: got %d,%d want %d,%d", len(ins), len(outs), len(want.In), len(want.Out))
	}
	for k := range ins {
		if err := inFields(fmt.Sprintf("GetInputs()[%d]", k), ins[k], want.In[k]); err != nil {
			return err
		}
	}
	var sum uint64
	for k := range outs {
		if err := outFields(fmt.Sprintf("GetOutputs()[%d]", k), outs[k], want.Out[k]); err != nil {
			return err
		}
		sum += want.Out[k].Sats
	}
	if got := tx.GetTotalOutputSatoshis(); got != sum {
		return fmt.Errorf("GetTotalOutputSatoshis: got %d, want %d", got, sum)
	}
	null := len(want.In) == 1 && bytes.Equal(want.In[0].Hash, make([]byte, 32))
	switch got := tx.IsCoinbase(); {
	case null && want.In[0].Vout == 0xffffffff && !got:
		return fmt.Errorf("IsCoinbase is false for a transaction spending the null outpoint (sequence %x)", want.In[0].Seq)
	case !null && got:
		return fmt.Errorf("IsCoinbase is true for a transaction with %d inputs, first id %x", len(want.In), firstHash(want))
	}
	return nil
}

func firstHash(t *ref.Tx) []byte {
	if len(t.In) == 0 {
		return nil
	}
	return t.In[0].Hash
}

// judgeTx compares a parse with the reference parse.
func judgeTx(tx *transaction.Transaction, err error, want *ref.Tx, p ref.Parsed, b []byte) error {
	if !p.OK {
		return mustErr("parsing "+short(b)+", which is not exactly one transaction,", err)
	}
	if err != nil {
		if p.Minimal {
			return fmt.Errorf("a valid transaction is rejected: %v (%s)", err, short(b))
		}
		return nil // a non-minimal length prefix may be refused
	}
	if e := txFields(tx, want); e != nil {
		return e
	}
	return same("re-serialised", tx.ToBytes(), want.Bytes())
}

// work02 parses long transactions and asks for an answer in a hundred times
// the time it should take: work quadratic in the length runs away.
func work02(how string) error {
	for _, n := range []int{20000, 60000, 150000} {
		tx := g.Tx{Version: 1}
		in, out := g.TxIn{ID: id1, Script: &g.Blob{}, Rep: n}, g.TxOut{Script: g.Pat(1, 3), Rep: n}
		switch how {
		case "inputs", "cut inputs":
			tx.In = []g.TxIn{in}
		case "outputs", "cut outputs":
			tx.Out = []g.TxOut{out}
		case "script":
			s := g.Pat(40*n, 3)
			tx.In, tx.Out = []g.TxIn{{ID: id1, Script: &s}}, []g.TxOut{{Script: s}}
		default:
			tx.In, tx.Out = []g.TxIn{in}, []g.TxOut{out}
		}
		b := tx.Ref().Bytes()
		if strings.HasPrefix(how, "cut") {
			b = b[:len(b)-5]
		}
		best := time.Hour
		for try := 0; try < 3 && best > 3*time.Second; try++ {
			start := time.Now()
			_, err := transaction.NewFromBytes(b)
			if d := time.Since(start); d < best {
				best = d
			}
			if (err == nil) == strings.HasPrefix(how, "cut") {
				return fmt.Errorf("parsing %d bytes (%s): %v", len(b), how, err)
			}
		}
		if best > 3*time.Second {
			return fmt.Errorf("parsing a transaction of %d bytes (%s, %d of them) took %v", len(b), how, n, best)
		}
	}
	return nil
}
