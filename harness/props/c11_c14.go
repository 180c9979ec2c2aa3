package props

import (
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction/output"
	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/keep"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// genAddressText draws valid addresses, small edits of them, other payloads
// under a correct or damaged checksum, and plain text.
func genAddressText(t *rapid.T) string {
	h := genHash20(t)
	a := ref.Address(h, g.Bool(t, "main"))
	switch g.Int(t, 0, 9, "akind") {
	case 0, 1:
		return a
	case 2, 3, 4:
		s := a
		for k := g.Int(t, 1, 2, "edits"); k > 0; k-- {
			s = editText(t, s, "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl +/")
		}
		return s
	case 5: // another version byte or length, right checksum
		v := g.Byte(t, "version")
		if g.Bool(t, "pkhversion") {
			v = g.Pick(t, []byte{0, 0x6f}, "v")
		}
		return ref.B58Check(append([]byte{v}, g.BytesN(t, g.Pick(t, []int{0, 1, 18, 19, 20, 20, 21, 22, 32, 40}, "n"), "payload")...))
	case 6: // right length, random or nearly right checksum
		b := append([]byte{g.Pick(t, []byte{0, 0, 0x6f, 5, 0xc4}, "v")}, h...)
		c := append([]byte{}, ref.Sha256d(b)[:4]...)
		c[g.Int(t, 0, 3, "cb")] ^= byte(g.Int(t, 1, 255, "cx"))
		return ref.B58Encode(append(b, c...))
	case 7: // leading ones added or removed
		if g.Bool(t, "more") {
			return strings.Repeat("1", g.Int(t, 1, 8, "ones")) + a
		}
		return strings.TrimLeft(a, "1")
	case 8:
		return g.Pick(t, append(g.DictStrings(), "", " ", "1", "11111111111111111111111111", strings.Repeat("1", 25), strings.Repeat("1", 34), strings.Repeat("z", 34), " "+a, a+" ", a+"\n", strings.ToLower(a), strings.ToUpper(a), a+a, a+"\x00"), "text")
	}
	return string(g.AnyBlob(t, 60, "junk").Bytes())
}

func editText(t *rapid.T, s, alphabet string) string {
	if s == "" {
		return s
	}
	at := g.Int(t, 0, len(s)-1, "at")
	ch := string(g.Pick(t, []byte(alphabet), "ch"))
	switch g.Int(t, 0, 4, "edit") {
	case 0:
		return s[:at] + ch + s[at+1:]
	case 1:
		return s[:at] + ch + s[at:]
	case 2:
		return s[:at] + s[at+1:]
	case 3:
		if at+1 < len(s) {
			return s[:at] + s[at+1:at+2] + s[at:at+1] + s[at+2:]
		}
		return s + ch
	}
	b := g.Int(t, 0, len(s)-1, "bt")
	x := []byte(s)
	x[at], x[b] = x[b], x[at]
	return string(x)
}

// genHash20 draws a key hash, often with zero bytes in front.
func genHash20(t *rapid.T) []byte {
	h := g.BytesN(t, 20, "hash")
	if g.Chance(t, 3, "zeros") {
		for i := 0; i < g.Int(t, 1, 20, "nz"); i++ {
			h[i] = 0
		}
	}
	return h
}

// nearAddresses yields every single-character edit of an address.
func nearAddresses(a string, yield func(string)) {
	const alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl \t\r\n\v\x00\x7f\u00a0\u2028\ufeffé+/-_."
	yield(a)
	for i := 0; i < len(a); i++ {
		yield(a[:i] + a[i+1:])
		yield(a[:i])
		yield(a[i:])
		if i+1 < len(a) {
			yield(a[:i] + a[i+1:i+2] + a[i:i+1] + a[i+2:])
		}
		for _, c := range alpha {
			yield(a[:i] + string(c) + a[i+1:])
		}
	}
	for i := 0; i <= len(a); i++ {
		for _, c := range "1Zz0 \t\r\n\x00\u00a0\u200b\ufeff" {
			yield(a[:i] + string(c) + a[i:])
		}
	}
	for _, x := range []string{"1", "11", "1111"} {
		yield(x + a)
		yield(a + x)
		yield(strings.TrimPrefix(a, x))
	}
}

// ---- C11 ------------------------------------------------------------------

type c11 struct {
	Key  string  `json:"key,omitempty"`  // private key: start from its public key
	Hash string  `json:"hash,omitempty"` // or from a hash
	Sats uint64  `json:"sats"`
	Main bool    `json:"main"`
	Bad  string  `json:"bad,omitempty"` // hex hash address pubhex
	Text string  `json:"text,omitempty"`
	Tx   g.Tx    `json:"tx"` // the transaction paid from
	N    *g.Blob `json:"n,omitempty"`
	Form string  `json:"form,omitempty"` // serialisation of the key: "", uncompressed, hybrid
}

// keyIn serialises the public key in the given form.
func keyIn(form, key string) []byte {
	k := privKey(key).PubKey()
	switch form {
	case "uncompressed":
		return k.SerializeUncompressed()
	case "hybrid":
		return k.SerializeHybrid()
	}
	return k.SerializeCompressed()
}

func check11(c c11) error {
	tx := c.Tx.Lib()
	before := snapshot(tx)
	wasPaid := func(what string, err error) error {
		if err == nil {
			return fmt.Errorf("%s gave no error", what)
		}
		if e := before.diff(snapshot(tx), -1); e != nil {
			return fmt.Errorf("%s failed and changed the transaction: %v", what, e)
		}
		return nil
	}
	switch c.Bad {
	case "hex": // not hex
		if isHex(c.Text) {
			return nil
		}
		_, e1 := script.NewP2PKHFromPubKeyHashStr(c.Text)
		_, e2 := output.NewP2PkhFromPubKeyHash(c.Text, c.Sats)
		_, e3 := script.NewP2PKHFromPubKeyStr(c.Text)
		_, e4 := output.NewHashPuzzle("secret", c.Text, c.Sats)
		return firstErr(mustErr(fmt.Sprintf("NewP2PKHFromPubKeyHashStr(%q)", c.Text), e1), mustErr(fmt.Sprintf("NewP2PkhFromPubKeyHash(%q)", c.Text), e2),
			mustErr(fmt.Sprintf("NewP2PKHFromPubKeyStr(%q)", c.Text), e3), mustErr(fmt.Sprintf("NewHashPuzzle(%q)", c.Text), e4))
	case "hash": // hex of another length than 20 bytes
		b := c.N.Bytes()
		if len(b) == 20 {
			return nil
		}
		h := hex.EncodeToString(b)
		_, e1 := script.NewP2PKHFromPubKeyHashStr(h)
		_, e2 := output.NewP2PkhFromPubKeyHash(h, c.Sats)
		return firstErr(mustErr(fmt.Sprintf("NewP2PKHFromPubKeyHashStr of %d bytes", len(b)), e1), mustErr(fmt.Sprintf("NewP2PkhFromPubKeyHash of %d bytes", len(b)), e2))
	case "address":
		if _, h, ok := ref.ParseAddress(c.Text); ok {
			c.Key, c.Hash, c.Main = "", hex.EncodeToString(h), c.Text[0] == '1'
			break
		}
		_, e1 := script.NewP2PKHFromAddress(c.Text)
		_, e2 := output.NewP2PKHFromAddress(c.Text, c.Sats)
		return firstErr(mustErr(fmt.Sprintf("script.NewP2PKHFromAddress(%q)", c.Text), e1), mustErr(fmt.Sprintf("output.NewP2PKHFromAddress(%q)", c.Text), e2),
			wasPaid(fmt.Sprintf("PayTo(%q)", c.Text), tx.PayTo(c.Text, c.Sats)))
	}
	var h []byte
	type built struct {
		how string
		s   *script.Script
		err error
	}
	var all []built
	add := func(how string, s *script.Script, err error) { all = append(all, built{how, s, err}) }
	if c.Key != "" {
		pub := keyIn(c.Form, c.Key)
		h = ref.Hash160(pub)
		s, err := script.NewP2PKHFromPubKeyBytes(reused(pub, func(b []byte) { _, _ = script.NewP2PKHFromPubKeyBytes(b) }))
		add("NewP2PKHFromPubKeyBytes", s, err)
		s, err = script.NewP2PKHFromPubKeyStr(hex.EncodeToString(pub))
		add("NewP2PKHFromPubKeyStr", s, err)
		s, err = script.NewP2PKHFromPubKeyStr(strings.ToUpper(hex.EncodeToString(pub)))
		add("NewP2PKHFromPubKeyStr (upper case)", s, err)
	} else {
		h = g.Unhex(c.Hash)
	}
	want := ref.P2PKH(h)
	hh := hex.EncodeToString(h)
	s, err := script.NewP2PKHFromPubKeyHashStr(hh)
	add("NewP2PKHFromPubKeyHashStr", s, err)
	s, err = script.NewP2PKHFromPubKeyHashStr(strings.ToUpper(hh))
	add("NewP2PKHFromPubKeyHashStr (upper case)", s, err)
	for _, main := range []bool{c.Main, !c.Main} {
		s, err = script.NewP2PKHFromAddress(ref.Address(h, main))
		add("script.NewP2PKHFromAddress "+ref.Address(h, main), s, err)
	}
	addr := ref.Address(h, c.Main)
	fromOut := func(how string, o *output.Output, err error) error {
		if err != nil || o == nil {
			return fmt.Errorf("%s: %v", how, err)
		}
		if o.Satoshis != c.Sats {
			return fmt.Errorf("%s: %d satoshis, want %d", how, o.Satoshis, c.Sats)
		}
		add(how, o.LockingScript, nil)
		return nil
	}
	o, err := output.NewP2PkhFromPubKeyHash(hh, c.Sats)
	if err := fromOut("output.NewP2PkhFromPubKeyHash", o, err); err != nil {
		return err
	}
	o, err = output.NewP2PKHFromAddress(addr, c.Sats)
	if err := fromOut("output.NewP2PKHFromAddress", o, err); err != nil {
		return err
	}
	if err := tx.PayTo(addr, c.Sats); err != nil {
		return fmt.Errorf("PayTo(%s): %v", addr, err)
	}
	after := snapshot(tx)
	if len(after.Out) != len(before.Out)+1 {
		return fmt.Errorf("PayTo made %d outputs of %d", len(after.Out), len(before.Out))
	}
	if err := fromOut("PayTo", tx.Outputs[len(tx.Outputs)-1], nil); err != nil {
		return err
	}
	after.Out = after.Out[:len(before.Out)]
	if e := before.diff(after, -1); e != nil {
		return fmt.Errorf("PayTo changed something else: %v", e)
	}
	for _, b := range all {
		if b.err != nil || b.s == nil {
			return fmt.Errorf("%s for hash %x: %v", b.how, h, b.err)
		}
		if err := same(b.how, []byte(*b.s), want); err != nil {
			return err
		}
		spoilScripts(b.s)
		if !b.s.IsP2PKH() {
			return fmt.Errorf("%s: %x is not recognised as P2PKH", b.how, want)
		}
		got, err := b.s.GetPublicKeyHash()
		if err != nil {
			return fmt.Errorf("GetPublicKeyHash of %x: %v", want, err)
		}
		if err := same("extracted hash", got, h); err != nil {
			return err
		}
	}
	return nil
}

// ---- C12 ------------------------------------------------------------------

type c12 struct {
	Key  string  `json:"key,omitempty"`
	Hash *g.Blob `json:"hash,omitempty"`
	Text *string `json:"text,omitempty"`
	Raw  *g.Blob `json:"raw,omitempty"` // a text that is not valid UTF-8
	Pay  *g.Blob `json:"pay,omitempty"` // any payload for Base58EncodeMissingChecksum
	Bad  string  `json:"bad,omitempty"` // not hex
	Form string  `json:"form,omitempty"`
}

func textOf(s *string, raw *g.Blob) string {
	if raw != nil {
		return string(raw.Bytes())
	}
	if s == nil {
		return ""
	}
	return *s
}

func spoilAddress(a *address.Address) {
	keep.AtEnd(func() { a.AddressString, a.PublicKeyHash = "1"+a.AddressString, "00"+a.PublicKeyHash[2:] })
}

func checkParse(s string) error {
	_, h, ok := ref.ParseAddress(s)
	a, err := address.NewFromString(s)
	if !ok {
		if err == nil {
			return fmt.Errorf("NewFromString(%q) gave %+v and no error", s, a)
		}
		return nil
	}
	if err != nil || a == nil {
		return fmt.Errorf("NewFromString(%q): %v", s, err)
	}
	spoilAddress(a)
	return firstErr(sameStr("hash of "+s, a.PublicKeyHash, hex.EncodeToString(h)), sameStr("address string", a.AddressString, s))
}

func check12(c c12) error {
	switch {
	case c.Text != nil || c.Raw != nil:
		return checkParse(textOf(c.Text, c.Raw))
	case c.Pay != nil:
		b := reused(c.Pay.Bytes(), func(b []byte) { _ = address.Base58EncodeMissingChecksum(b) })
		return sameStr("Base58EncodeMissingChecksum", address.Base58EncodeMissingChecksum(b), ref.B58Check(c.Pay.Bytes()))
	case c.Bad != "":
		if isHex(c.Bad) {
			return nil
		}
		for _, main := range []bool{true, false} {
			if _, err := address.NewFromPublicKeyString(c.Bad, main); err == nil {
				return fmt.Errorf("NewFromPublicKeyString(%q) gave no error", c.Bad)
			}
		}
		return nil
	}
	for _, main := range []bool{true, false} {
		type made struct {
			how string
			a   *address.Address
			err error
		}
		var all []made
		var h []byte
		if c.Key != "" {
			pub := keyIn(c.Form, c.Key)
			h = ref.Hash160(pub)
			a, err := address.NewFromPublicKeyString(hex.EncodeToString(pub), main)
			all = append(all, made{"NewFromPublicKeyString", a, err})
			if c.Form == "" { // a key object has the address of its compressed form
				k, err := bsvec.ParsePubKey(pub, bsvec.S256())
				if err != nil {
					return fmt.Errorf("bsvec does not parse its own key %x: %v", pub, err)
				}
				if was := *k; c.Key[len(c.Key)-1]%2 == 0 { // the object held another key before
					*k = *privKey(c.Key[1:] + "3").PubKey()
					_, _ = address.NewFromPublicKey(k, main)
					*k = was
				}
				a, err = address.NewFromPublicKey(k, main)
				all = append(all, made{"NewFromPublicKey", a, err})
			}
		} else {
			h = c.Hash.Bytes()
		}
		a, err := address.NewFromPublicKeyHash(reused(h, func(b []byte) { _, _ = address.NewFromPublicKeyHash(b, main) }), main)
		if len(h) != 20 {
			if err == nil {
				return fmt.Errorf("NewFromPublicKeyHash of %d bytes gave %+v and no error", len(h), a)
			}
			continue
		}
		all = append(all, made{"NewFromPublicKeyHash", a, err})
		want := ref.Address(h, main)
		for _, m := range all {
			if m.err != nil || m.a == nil {
				return fmt.Errorf("%s for hash %x: %v", m.how, h, m.err)
			}
			spoilAddress(m.a)
			if err := firstErr(sameStr(m.how+" address", m.a.AddressString, want), sameStr(m.how+" hash", m.a.PublicKeyHash, hex.EncodeToString(h))); err != nil {
				return err
			}
		}
		if err := checkParse(want); err != nil {
			return err
		}
	}
	return nil
}

// ---- C13 and C14 ----------------------------------------------------------

// parse276 reads a BIP276 text. open is set for texts the properties leave
// open: upper-case hex, network or version zero, or an empty prefix.
func parse276(s string) (prefix string, network, version int, data []byte, ok, open bool) {
	k := strings.LastIndexByte(s, ':')
	if k < 0 {
		return
	}
	rest := s[k+1:]
	if len(rest) < 12 || !isHex(rest) {
		return
	}
	low := strings.ToLower(rest)
	b := g.Unhex(low)
	n := len(b)
	if hex.EncodeToString(ref.Sha256d([]byte(s[:k+1] + low[:len(low)-8]))[:4]) != low[len(low)-8:] {
		return
	}
	return s[:k], int(b[0]), int(b[1]), b[2 : n-4], true, low != rest || b[0] == 0 || b[1] == 0 || k == 0
}

type c13 struct {
	Text *string `json:"text,omitempty"`
	Raw  *g.Blob `json:"raw,omitempty"`
}

func check13(c c13) error {
	s := textOf(c.Text, c.Raw)
	got, err := address.ValidateAddress(s)
	if got != (err == nil) {
		return fmt.Errorf("ValidateAddress(%q) = %v with error %v", s, got, err)
	}
	want := false
	if strings.HasPrefix(s, "bitcoin-script:") {
		prefix, _, _, _, ok, open := parse276(s)
		if ok && open {
			return nil
		}
		want = ok && prefix == "bitcoin-script"
	} else {
		_, _, want = ref.ParseAddress(s)
		_, perr := address.NewFromString(s)
		if (perr == nil) != got {
			return fmt.Errorf("ValidateAddress(%q) = %v, but parsing the address says %v", s, got, perr)
		}
	}
	if got != want {
		return fmt.Errorf("ValidateAddress(%q) = %v (%v), want %v", s, got, err, want)
	}
	return nil
}

type c14 struct {
	Prefix  string  `json:"prefix,omitempty"`
	PRaw    *g.Blob `json:"praw,omitempty"`
	Network int     `json:"network,omitempty"`
	Version int     `json:"version,omitempty"`
	Data    g.Blob  `json:"data"`
	Text    *string `json:"text,omitempty"` // instead: decode this text
	Raw     *g.Blob `json:"raw,omitempty"`
}

// names276 compares the package's named values with the standard's.
func names276() error {
	if address.PrefixScript != "bitcoin-script" || address.PrefixTemplate != "bitcoin-template" {
		return fmt.Errorf("the standard's prefixes are %q and %q", address.PrefixScript, address.PrefixTemplate)
	}
	if address.CurrentVersion != 1 || address.NetworkMainnet != 1 || address.NetworkTestnet != 2 {
		return fmt.Errorf("current version %d, mainnet %d, testnet %d; want 1, 1 and 2", address.CurrentVersion, address.NetworkMainnet, address.NetworkTestnet)
	}
	return nil
}

func check14(c c14) error {
	if c.Text != nil || c.Raw != nil {
		return decode276(textOf(c.Text, c.Raw))
	}
	prefix := c.Prefix
	if c.PRaw != nil {
		prefix = string(c.PRaw.Bytes())
	}
	data := c.Data.Bytes()
	if err := names276(); err != nil {
		return err
	}
	data = reused(data, func(b []byte) { _ = address.EncodeBIP276(prefix, c.Network, c.Version, b) })
	text := address.EncodeBIP276(prefix, c.Network, c.Version, data)
	if c.Network < 1 || c.Network > 255 || c.Version < 1 || c.Version > 255 {
		return sameStr(fmt.Sprintf("EncodeBIP276 with network %d, version %d", c.Network, c.Version), text, "ERROR")
	}
	if err := sameStr("EncodeBIP276", text, ref.BIP276(prefix, c.Network, c.Version, data)); err != nil {
		return err
	}
	if prefix == "" {
		return nil
	}
	p, v, n, d, err := address.DecodeBIP276(text)
	if err != nil {
		return fmt.Errorf("DecodeBIP276(%.300q): %v", text, err)
	}
	if p != prefix || v != c.Version || n != c.Network {
		return fmt.Errorf("DecodeBIP276(%.300q) = prefix %q, version %d, network %d; want %q, %d, %d", text, p, v, n, prefix, c.Version, c.Network)
	}
	return same("BIP276 data", d, data)
}

func decode276(s string) error {
	prefix, network, version, data, ok, open := parse276(s)
	p, v, n, d, err := address.DecodeBIP276(s)
	if !ok {
		if err == nil {
			return fmt.Errorf("DecodeBIP276(%.300q) gave %q, version %d, network %d, data %x and no error", s, p, v, n, d)
		}
		return nil
	}
	if err != nil {
		if open {
			return nil
		}
		return fmt.Errorf("DecodeBIP276(%.300q): %v", s, err)
	}
	if p != prefix || v != version || n != network {
		return fmt.Errorf("DecodeBIP276(%.300q) = prefix %q, version %d, network %d; want %q, %d, %d", s, p, v, n, prefix, version, network)
	}
	return same("BIP276 data", d, data)
}

var prefixes = []string{"bitcoin-script", "bitcoin-script", "bitcoin-template", "a", "a:b", "x:0101", "0101", ":", "é", "with space", "new\nline", "\n", "bitcoin-script:", "ff:", "%s%d", "tab\t", "B"}

func genPrefix(t *rapid.T) (string, *g.Blob) {
	switch g.Int(t, 0, 3, "prefixkind") {
	case 0:
		b := g.AnyBlob(t, 40, "prefix")
		if b.Len() == 0 {
			return "p", nil
		}
		return "", &b
	case 1:
		return string(g.Pick(t, []rune("abcXYZ:0159-_ \nµ"), "c1")) + string(g.Pick(t, []rune("abcXYZ:0159-_ \nµ"), "c2")), nil
	}
	return g.Pick(t, prefixes, "prefix"), nil
}

func gen276Byte(t *rapid.T, label string) int {
	switch g.Int(t, 0, 9, label+"?") {
	case 0:
		return g.Pick(t, []int{0, -1, 256, 257, -255, 512, 1 << 20, -1 << 31, 1 << 40, 65537}, label)
	case 1, 2:
		return g.Pick(t, []int{1, 2, 9, 10, 15, 16, 17, 99, 100, 127, 128, 254, 255, 0x10, 0x12, 0x99, 0xa0, 0xff}, label)
	}
	return g.Int(t, 1, 255, label)
}

func gen276Text(t *rapid.T) string {
	p := g.Pick(t, prefixes, "prefix")
	if g.Bool(t, "std") {
		p = "bitcoin-script"
		if g.Chance(t, 4, "near") { // under a right checksum
			p = editText(t, p, "bitcoinscrpBITCOINSCRPelmta-_: .1\n\x00")
		}
	}
	n, v := g.Int(t, 1, 255, "n"), g.Int(t, 1, 255, "v")
	if g.Chance(t, 3, "low") {
		n, v = g.Int(t, 1, 2, "n12"), 1
	}
	s := ref.BIP276(p, n, v, g.AnyBlob(t, 120, "data").Bytes())
	switch g.Int(t, 0, 8, "tkind") {
	case 0, 1:
		return s
	case 2, 3, 4:
		for k := g.Int(t, 1, 2, "edits"); k > 0; k-- {
			s = editText(t, s, "0123456789abcdefABCDEFgG: -\nx")
		}
		return s
	case 5: // right form, checksum of something else
		k := strings.LastIndexByte(s, ':')
		body := s[:len(s)-8]
		switch g.Int(t, 0, 3, "cs") {
		case 0:
			return body + hex.EncodeToString(ref.Sha256d([]byte(body[k+1:]))[:4])
		case 1:
			return body + hex.EncodeToString(ref.Sha256d(g.Unhex(body[k+1:]))[:4])
		case 2:
			return body + hex.EncodeToString(ref.Sha256d([]byte(body))[28:])
		}
		x := g.Unhex(s[len(s)-8:])
		x[g.Int(t, 0, 3, "cb")] ^= byte(g.Int(t, 1, 255, "cx"))
		return body + hex.EncodeToString(x)
	case 6: // truncated
		return s[:g.Int(t, 0, len(s), "keep")]
	case 7: // network or version rendered otherwise, right checksum over that
		b := fmt.Sprintf("%s:%d%d%x", p, n, v, g.AnyBlob(t, 20, "d").Bytes())
		return b + hex.EncodeToString(ref.Sha256d([]byte(b))[:4])
	}
	return p + ":" + string(g.AnyBlob(t, 30, "junk").Bytes())
}

func init() {
	pbt.Register(pbt.Def[c11]{
		ID: "C11",
		Rule: "random valid keys and 20-byte hashes, amounts and networks: seven builders compared with the standard 25-byte script, payment onto a random transaction; one case in three uses malformed hex, a hash of another length or an (almost always) invalid address; " +
			"non-trivial: a script was built, or an error expected. The sweep takes hashes of special shapes and keys whose hashes or coordinates have rare shapes (found by search). Keys and hashes may be one another's relatives. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c11 {
			c := c11{Sats: g.U64(t, "sats"), Main: g.Bool(t, "main"), Tx: g.GenTx(t, g.TxOpt{MaxIn: 2, MaxOut: 3, MaxScript: 40, NilScript: true})}
			switch g.Int(t, 0, 8, "kind") {
			case 0:
				c.Bad, c.Text = "hex", badHex(t)
				if g.Bool(t, "len40") {
					b := []byte(hex.EncodeToString(genHash20(t)))
					b[g.Int(t, 0, 39, "at")] = g.Pick(t, []byte("gGzx "), "ch")
					c.Text = string(b)
				}
			case 1:
				c.Bad = "hash"
				b := g.AnyBlob(t, 80, "hash")
				if b.Len() == 20 {
					b = g.Pat(g.Pick(t, []int{0, 1, 19, 21, 25, 32, 33, 40}, "n"), 9)
				}
				c.N = &b
			case 2:
				c.Bad, c.Text = "address", genAddressText(t)
				if !isUTF8(c.Text) {
					c.Text = "x" + hex.EncodeToString([]byte(c.Text))
				}
			case 3, 4:
				c.Hash = hex.EncodeToString(genHash20(t))
			default:
				c.Key = genKey(t, "key")
				c.Form = g.Pick(t, []string{"", "", "", "uncompressed", "hybrid"}, "form")
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c11)) {
			for n := 0; n <= 80; n++ {
				if n != 20 {
					b := g.Pat(n, uint32(n)|4)
					yield(c11{Bad: "hash", N: &b})
				}
			}
			for _, n := range bigLens(80, 1<<17) { // lengths that agree with 20 in their low bits, and others
				b := g.Pat(n, uint32(n)|4)
				yield(c11{Bad: "hash", N: &b})
			}
			for _, n := range []int{20 + 1<<8, 20 + 1<<9, 20 + 1<<16, 20 * 256} {
				b := g.Pat(n, 5)
				yield(c11{Bad: "hash", N: &b})
			}
			g.AllShapes(20, func(h []byte) { yield(c11{Hash: hex.EncodeToString(h), Sats: uint64(h[3]), Main: h[19]%2 == 0}) })
			for k := 0; k < 4; k++ { // relatives one after the other, into transactions that hold the like already
				h := g.Pat(20, uint32(8*k)|5).Bytes()
				for i, r := range g.Relatives(h) {
					p, q := g.Raw(ref.P2PKH(h)), g.Raw(ref.P2PKH(r))
					for j := 0; j < 4; j++ {
						x := g.Tx{Version: 1, In: []g.TxIn{{ID: g.Pat(32, 7).Hex(), Script: &q, Prev: &p, Sats: uint64(i)}}, Out: []g.TxOut{{Sats: uint64(i), Script: p}, {Sats: uint64(i), Script: q}, {Sats: 1, Script: q}}[:i%4]}
						yield(c11{Hash: hex.EncodeToString([][]byte{h, r}[j&1]), Sats: uint64(i), Main: j < 2, Tx: x})
					}
				}
			}
			for z := 0; z <= 20; z++ {
				h := append(make([]byte, z), g.Pat(20-z, 77).Bytes()...)
				yield(c11{Hash: hex.EncodeToString(h), Sats: uint64(z)})
				yield(c11{Hash: hex.EncodeToString(ref.Rev(h)), Sats: uint64(z) << 56, Main: true})
			}
			for k := 1; k < 64; k++ {
				yield(c11{Key: fmt.Sprintf("%064x", k), Sats: uint64(k) * 1e8, Main: k%2 == 0})
				yield(c11{Key: fmt.Sprintf("%064x", k), Sats: uint64(k), Form: []string{"uncompressed", "hybrid"}[k%2]})
			}
			for n, k := range g.MinedKeys {
				yield(c11{Key: fmt.Sprintf("%064x", k), Sats: 5, Main: n%2 == 0})
				yield(c11{Key: fmt.Sprintf("%064x", k), Sats: 5, Form: "uncompressed"})
			}
			g.Pairs(g.MinedKeyTwins, func(k uint64) { yield(c11{Key: fmt.Sprintf("%064x", k), Sats: 5, Main: true}) })
			for _, h := range []string{g.Pat(20, 6).Hex(), hex.EncodeToString(keyIn("", fmt.Sprintf("%064x", 77)))} {
				for _, x := range badHexOf(h) {
					yield(c11{Bad: "hex", Text: x})
				}
			}
			nearAddresses(ref.Address(g.Pat(20, 99).Bytes(), true), func(s string) { yield(c11{Bad: "address", Text: s, Sats: 5}) })
			for v := 0; v < 256; v++ {
				yield(c11{Bad: "address", Text: ref.B58Check(append([]byte{byte(v)}, g.Pat(20, 98).Bytes()...))})
			}
		},
		Check: check11,
		Classify: func(c c11) (bool, []string) {
			l := "built from key"
			if c.Bad != "" {
				l = "bad " + c.Bad
			} else if c.Hash != "" {
				l = "built from hash"
			}
			return true, []string{l}
		},
		Quick: 600000, Thorough: 4500000,
	})

	pbt.Register(pbt.Def[c12]{
		ID: "C12",
		Rule: "random keys and hashes (a third with leading zero bytes) turned into addresses of both networks by every constructor and parsed back; address texts: valid, one or two edits away, other versions or lengths under a right checksum, damaged checksums, leading ones added or dropped, arbitrary text; " +
			"the sweep takes every single-character edit of fixed addresses, every version byte and payload length; non-trivial: all but arbitrary text and wrong-length hashes. The sweep takes hashes of special shapes, keys of rare shapes (found by search), texts of the code's literals, look-alike characters and payloads around the right one. Keys come in families of relatives, and nil stands beside empty. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c12 {
			switch g.Int(t, 0, 9, "kind") {
			case 0, 1:
				return c12{Key: genKey(t, "key"), Form: g.Pick(t, []string{"", "", "", "uncompressed", "hybrid"}, "form")}
			case 2, 3:
				b := g.Raw(genHash20(t))
				return c12{Hash: &b}
			case 4:
				b := g.AnyBlob(t, 64, "anyhash")
				return c12{Hash: &b}
			case 5:
				b := g.AnyBlob(t, 120, "pay")
				return c12{Pay: &b}
			case 6:
				if g.Chance(t, 4, "badhex") {
					return c12{Bad: badHex(t)}
				}
			}
			s := genAddressText(t)
			if !isUTF8(s) {
				b := g.Raw([]byte(s))
				return c12{Raw: &b}
			}
			return c12{Text: &s}
		},
		Sweep: func(thorough bool, yield func(c12)) {
			text := func(s string) { yield(c12{Text: &s}) }
			sweepAddressTexts(thorough, text)
			yield(c12{Hash: &g.Nil})
			yield(c12{Pay: &g.Nil})
			for n := 0; n <= 70; n++ {
				b := g.Pat(n, uint32(n)|4)
				yield(c12{Hash: &b})
				yield(c12{Pay: &b})
				z := g.Pat(n, 0)
				yield(c12{Pay: &z})
				zt := g.Blob{N: n, T: "0105ff"}
				yield(c12{Pay: &zt})
			}
			g.AllShapes(20, func(h []byte) {
				b := g.Raw(h)
				yield(c12{Hash: &b})
				yield(c12{Pay: &b})
			})
			for _, n := range bigLens(70, 5000) {
				b := g.Pat(n, uint32(n)|4)
				yield(c12{Hash: &b})
				yield(c12{Pay: &b})
				text(ref.B58Encode(b.Bytes()))
				text(ref.B58Check(append([]byte{0}, b.Bytes()...)))
			}
			for z := 0; z <= 20; z++ {
				b := g.Raw(append(make([]byte, z), g.Pat(20-z, 77).Bytes()...))
				yield(c12{Hash: &b})
			}
			g.Texts(func(b g.Blob) {
				yield(c12{Raw: &b})
				yield(c12{Pay: &b})
			})
			for k := 1; k < 64; k++ {
				yield(c12{Key: fmt.Sprintf("%064x", k)})
			}
			for n, k := range keyFamilies() {
				yield(c12{Key: k, Form: []string{"", "", "uncompressed", "hybrid"}[n%4]})
				yield(c12{Key: k})
			}
			for _, k := range g.MinedKeys {
				yield(c12{Key: fmt.Sprintf("%064x", k)})
				yield(c12{Key: fmt.Sprintf("%064x", k), Form: "uncompressed"})
			}
			g.Pairs(g.MinedKeyTwins, func(k uint64) { yield(c12{Key: fmt.Sprintf("%064x", k)}) })
			for _, h := range []string{g.Pat(20, 6).Hex(), hex.EncodeToString(keyIn("", fmt.Sprintf("%064x", 77)))} {
				for _, x := range badHexOf(h) {
					yield(c12{Bad: x})
				}
			}
		},
		Check: check12,
		Classify: func(c c12) (bool, []string) {
			switch {
			case c.Raw != nil:
				return false, []string{"text: invalid UTF-8"}
			case c.Text != nil:
				return textClass(*c.Text)
			case c.Pay != nil:
				return true, []string{"payload encoded"}
			case c.Bad != "":
				return false, []string{"key not hex"}
			case c.Key != "":
				return true, []string{"key"}
			}
			return c.Hash.Len() == 20, []string{fmt.Sprintf("hash of 20 bytes: %v", c.Hash.Len() == 20)}
		},
		Quick: 600000, Thorough: 4500000,
	})

	pbt.Register(pbt.Def[c13]{
		ID: "C13",
		Rule: "address texts as in C12 and BIP276 texts (valid, one or two edits away, damaged, truncated or mis-rendered), validated and compared with the reference parsers; the sweep takes every single-character edit of fixed addresses and of a BIP276 text, every version byte and length; " +
			"non-trivial: decodes as Base58 to 20..30 bytes, or starts with bitcoin-script:. The sweep takes hashes of special shapes.",
		Gen: func(t *rapid.T) c13 {
			var s string
			if g.Chance(t, 3, "276") {
				s = gen276Text(t)
			} else {
				s = genAddressText(t)
			}
			if !isUTF8(s) {
				b := g.Raw([]byte(s))
				return c13{Raw: &b}
			}
			return c13{Text: &s}
		},
		Sweep: func(thorough bool, yield func(c13)) {
			text := func(s string) { yield(c13{Text: &s}) }
			sweepAddressTexts(thorough, text)
			sweep276(text)
		},
		Check: check13,
		Classify: func(c c13) (bool, []string) {
			s := textOf(c.Text, c.Raw)
			if strings.HasPrefix(s, "bitcoin-script:") {
				_, _, _, _, ok, _ := parse276(s)
				return true, []string{fmt.Sprintf("BIP276 valid=%v", ok)}
			}
			return textClass(s)
		},
		Quick: 2400000, Thorough: 12000000,
	})

	pbt.Register(pbt.Def[c14]{
		ID: "C14",
		Rule: "prefixes (also with colons, newlines and arbitrary bytes), networks and versions (one in ten outside 1..255) and data of 0..2000 bytes encoded and decoded; texts: valid, one or two edits away, truncated, with foreign checksums or mis-rendered fields; " +
			"the sweep takes all 65025 network/version pairs (quick: a grid) and every single-character edit of fixed texts; non-trivial: network and version differ, or a damaged text. The sweep takes every text in the code as prefix, and long data. Prefix, versions and data may be one another's relatives, and nil stands beside empty. Arguments lie in memory that held other contents in earlier calls.",
		Assumptions: []string{"upper-case hex, zero network or version, and an empty prefix in a text to decode are left open"},
		Gen: func(t *rapid.T) c14 {
			if g.Bool(t, "text") {
				s := gen276Text(t)
				if !isUTF8(s) {
					b := g.Raw([]byte(s))
					return c14{Raw: &b}
				}
				return c14{Text: &s}
			}
			c := c14{Network: gen276Byte(t, "network"), Version: gen276Byte(t, "version"), Data: g.AnyBlob(t, 2000, "data")}
			c.Prefix, c.PRaw = genPrefix(t)
			return c
		},
		Sweep: func(thorough bool, yield func(c14)) {
			yield(c14{Prefix: "bitcoin-script", Network: 1, Version: 1, Data: g.Nil})
			yield(c14{Prefix: "x", Network: 2, Version: 255, Data: g.Nil})
			step := 9
			if thorough {
				step = 1
			}
			for n := -1; n <= 257; n += step {
				for v := -1; v <= 257; v++ {
					yield(c14{Prefix: "bitcoin-script", Network: n, Version: v, Data: g.Pat(n&3, 2)})
					yield(c14{Prefix: "p", Network: v, Version: n, Data: g.Pat(v&7, 9)})
				}
			}
			top := 2500
			if thorough {
				top = 20000
			}
			for n := 0; n <= top; n++ {
				yield(c14{Prefix: "bitcoin-script", Network: 2, Version: 17, Data: g.Pat(n, uint32(n)|4)})
				if n <= 260 {
					yield(c14{Prefix: "bitcoin-template", Network: 1, Version: 200, Data: g.Pat(n, 0)})
				}
			}
			for k, n := range bigLens(260, 1<<20) {
				yield(c14{Prefix: "bitcoin-script", Network: 1 + k%255, Version: 255 - k%255, Data: g.Pat(n, uint32(n)|4)})
				if n <= 1<<16 {
					p := g.Pat(n, uint32(n)|8)
					yield(c14{PRaw: &p, Network: 1, Version: 2, Data: g.Pat(k%9, 8)})
					yield(c14{Prefix: strings.Repeat("ab", n/2) + "c", Network: 1, Version: 2, Data: g.Pat(k%9, 8)})
				}
			}
			for _, p := range append(prefixes, g.DictStrings()...) {
				if p != "" {
					yield(c14{Prefix: p, Network: 3, Version: 250, Data: g.Pat(9, 8)})
				}
			}
			for k, p := range prefixes { // data that repeats other parts of the text
				if p == "" {
					continue
				}
				for n := 1; n < 256; n += 17 {
					whole := ref.BIP276(p, n, n, g.Pat(5, 8).Bytes())
					for _, d := range []string{p, p + ":", ":" + p, whole, hex.EncodeToString([]byte(whole)), whole[len(p)+1:], whole[len(whole)-8:], fmt.Sprintf("%02x%02x", n, n), fmt.Sprint(n, n), string(ref.Sha256d([]byte(whole))[:4]), string(ref.Sha256d(nil)[:4]), fmt.Sprintf("%c%c", n, n)} {
						yield(c14{Prefix: p, Network: n, Version: n, Data: g.Raw([]byte(d))})
						yield(c14{Prefix: p, Network: n, Version: 256 - n, Data: g.Raw([]byte(d + d))})
					}
					if inner := g.Raw([]byte(whole)); k < 4 { // a prefix that is itself a text
						yield(c14{PRaw: &inner, Network: n, Version: n, Data: g.Raw([]byte(p))})
					}
				}
			}
			g.Texts(func(b g.Blob) {
				yield(c14{PRaw: &b, Network: 3, Version: 250, Data: g.Pat(2, 8)})
				yield(c14{Prefix: "bitcoin-script", Network: 1, Version: 1, Data: b})
			})
			for b := 0; b < 256; b++ {
				r := g.Raw([]byte{byte(b)})
				yield(c14{PRaw: &r, Network: 3, Version: 250, Data: g.Pat(2, 8)})
			}
			sweep276(func(s string) { yield(c14{Text: &s}) })
		},
		Check: check14,
		Classify: func(c c14) (bool, []string) {
			if c.Text != nil || c.Raw != nil {
				_, _, _, _, ok, open := parse276(textOf(c.Text, c.Raw))
				return !ok, []string{fmt.Sprintf("text valid=%v open=%v", ok, open)}
			}
			in := c.Network >= 1 && c.Network <= 255 && c.Version >= 1 && c.Version <= 255
			return c.Network != c.Version, []string{fmt.Sprintf("encode in range=%v", in), lenLabel("data", c.Data.Len())}
		},
		Quick: 600000, Thorough: 9000000,
	})
}

func isUTF8(s string) bool { return strings.ToValidUTF8(s, "") == s }

func textClass(s string) (bool, []string) {
	b, ok := ref.B58Decode(s)
	if len(s) > 100 || !ok {
		return false, []string{"text: not Base58"}
	}
	_, _, valid := ref.ParseAddress(s)
	return len(b) >= 20 && len(b) <= 30, []string{fmt.Sprintf("text: valid=%v", valid)}
}

func sweepAddressTexts(thorough bool, yield func(string)) {
	seeds := []uint32{5, 6}
	if thorough {
		for k := uint32(0); k < 40; k++ {
			seeds = append(seeds, 100+k)
		}
	}
	for _, s := range seeds {
		h := g.Pat(20, s).Bytes()
		nearAddresses(ref.Address(h, true), yield)
		nearAddresses(ref.Address(h, false), yield)
	}
	nearAddresses(ref.Address(make([]byte, 20), true), yield)
	nearAddresses(ref.Address(append(make([]byte, 3), g.Pat(17, 9).Bytes()...), true), yield)
	for v := 0; v < 256; v++ {
		for _, n := range []int{18, 19, 20, 21, 22} {
			yield(ref.B58Check(append([]byte{byte(v)}, g.Pat(n, uint32(v)|8).Bytes()...)))
		}
	}
	for n := 0; n <= 60; n++ {
		yield(ref.B58Check(g.Pat(n, 0).Bytes()))
		yield(ref.B58Check(g.Blob{H: "6f", N: n, S: 9}.Bytes()))
		yield(ref.B58Encode(g.Pat(n, 0).Bytes()))
		yield(strings.Repeat("z", n))
	}
	g.AllShapes(20, func(h []byte) { // any hash will do
		yield(ref.Address(h, true))
		yield(ref.Address(h, false))
	})
	for i := 0; i < 32; i++ { // one checksum bit wrong
		for _, v := range []byte{0, 0x6f} {
			b := append([]byte{v}, g.Pat(20, 123).Bytes()...)
			c := append([]byte{}, ref.Sha256d(b)[:4]...)
			c[i/8] ^= 1 << (i % 8)
			yield(ref.B58Encode(append(b, c...)))
		}
	}
	for _, s := range append(g.DictStrings(), "", " ", "\n", "bitcoin-script", "bitcoin-script:", "bitcoin-template:", "BITCOIN-SCRIPT:") {
		yield(s)
	}
}

func sweep276(yield func(string)) {
	for _, base := range []string{ref.BIP276("bitcoin-script", 1, 1, []byte("fake script")), ref.BIP276("bitcoin-script", 2, 0x1a, nil), ref.BIP276("bitcoin-template", 0x99, 0xa9, []byte{0, 1, 2, 255}),
		ref.BIP276("bitcoin-script:x", 1, 1, []byte("fake script"))} {
		yield(base)
		for i := range base {
			yield(base[:i])
			yield(base[i:])
			yield(base[:i] + base[i+1:])
			for _, c := range "0123456789abcdefABCDEFgG: -\n\x00é" {
				yield(base[:i] + string(c) + base[i+1:])
				yield(base[:i] + string(c) + base[i:])
			}
		}
		for _, x := range []string{"0", "00", "\n", " ", ":", "g"} {
			yield(base + x)
			yield(x + base)
		}
	}
	for n := 0; n < 256; n++ { // every network and version under a right checksum
		yield(ref.BIP276("bitcoin-script", n, 1, []byte{1, 2}))
		yield(ref.BIP276("bitcoin-script", 1, n, []byte{1, 2}))
		yield(ref.BIP276("bitcoin-template", n, 255-n, []byte{1, 2}))
		yield(ref.BIP276("bitcoin-script", n, 255-n, nil))
	}
	// prefixes that are nearly a named one, under a right checksum
	near := func(p string) {
		if p != "" {
			yield(ref.BIP276(p, 1, 1, []byte{1, 2, 3}))
			yield(ref.BIP276(p, 2, 1, nil))
		}
	}
	for _, p := range []string{"bitcoin-script", "bitcoin-template"} {
		for i := range p {
			near(p[:i])
			near(p[i:])
			near(p[:i] + p[i+1:])
			near(p[:i] + strings.ToUpper(p[i:i+1]) + p[i+1:])
			near(strings.ToUpper(p[:i]) + p[i:])
			near(p[:i] + strings.ToUpper(p[i:]))
			for _, c := range []string{"-", "_", " ", ":", "x", "0", "\n", "\x00", "\u00ad", "\u200b", "\u0456"} {
				near(p[:i] + c + p[i:])
				near(p[:i] + c + p[i+1:])
			}
		}
		for _, x := range []string{" ", "\t", "\n", "\r\n", ":", "::", "//", "x", "\x00", "\ufeff", "web+", "uri:", p, p + ":", ":" + p} {
			near(x + p)
			near(p + x)
		}
		near(strings.Title(p))
		near("bitcoin")
		near("script")
		near("bitcoinscript")
		near("bitcoin-scripts")
		near("bitcoin:script")
		near("bitcoin-\u017fcript")
		near("b\u0131tcoin-script")
	}
	for n := 0; n < 24; n++ { // right form, too short
		yield("bitcoin-script:" + strings.Repeat("0", n))
		yield("x:" + strings.Repeat("1", n))
	}
}
