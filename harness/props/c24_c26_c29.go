package props

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"

	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/utils"
	"golang.org/x/crypto/ripemd160"
	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// ---- C24 ------------------------------------------------------------------

type c24 struct {
	V    uint64  `json:"v"`
	Tail g.Blob  `json:"tail"`
	Raw  *g.Blob `json:"raw,omitempty"` // decode these bytes instead
}

func check24(c c24) error {
	if c.Raw != nil {
		b := c.Raw.Bytes()
		v, n, ok := ref.ReadCompact(b)
		b = reused(b, func(b []byte) { _, _ = utils.DecodeVarInt(b) })
		got, size := utils.DecodeVarInt(b)
		if !bytes.Equal(b, c.Raw.Bytes()) {
			return fmt.Errorf("DecodeVarInt changed its argument")
		}
		if ok && (got != v || size != n) {
			return fmt.Errorf("DecodeVarInt(%s) = %d, %d, want %d, %d", short(b), got, size, v, n)
		}
		return nil // for a truncated form it only must not crash
	}
	want := ref.Compact(c.V)
	enc := utils.VarInt(c.V)
	if err := same(fmt.Sprintf("VarInt(%d)", c.V), enc, want); err != nil {
		return err
	}
	got, size := utils.DecodeVarInt(reused(enc, func(b []byte) { _, _ = utils.DecodeVarInt(b) }))
	if got != c.V || size != len(want) {
		return fmt.Errorf("DecodeVarInt(%x) = %d, %d, want %d, %d", want, got, size, c.V, len(want))
	}
	got, size = utils.DecodeVarInt(append(append([]byte{}, enc...), c.Tail.Bytes()...))
	if got != c.V || size != len(want) {
		return fmt.Errorf("DecodeVarInt(%x and %d more bytes) = %d, %d, want %d, %d", want, c.Tail.Len(), got, size, c.V, len(want))
	}
	// every longer form of the value
	for _, f := range []struct {
		lead byte
		w    int
	}{{0xfd, 2}, {0xfe, 4}, {0xff, 8}} {
		if f.w < 8 && c.V>>(8*f.w) != 0 {
			continue
		}
		b := append([]byte{f.lead}, binary.LittleEndian.AppendUint64(nil, c.V)[:f.w]...)
		got, size = utils.DecodeVarInt(reused(append(b, c.Tail.Bytes()...), func(b []byte) { _, _ = utils.DecodeVarInt(b) }))
		if got != c.V || size != 1+f.w {
			return fmt.Errorf("DecodeVarInt(%x and %d more bytes) = %d, %d, want %d, %d", b, c.Tail.Len(), got, size, c.V, 1+f.w)
		}
	}
	return nil
}

// ---- C25 ------------------------------------------------------------------

type c25 struct {
	Data g.Blob `json:"data"`
	Lib  bool   `json:"lib,omitempty"` // long data: compare with the other libraries only
}

func check25(c c25) error {
	sha := func(b []byte) []byte { s := sha256.Sum256(b); return s[:] }
	rip := func(b []byte) []byte { r := ripemd160.New(); r.Write(b); return r.Sum(nil) }
	if !c.Lib {
		sha, rip = ref.SHA256, ref.RIPEMD160
	}
	for _, f := range []struct {
		name string
		lib  func([]byte) []byte
		want []byte
	}{{"Sha256", crypto.Sha256, sha(c.Data.Bytes())}, {"Sha256d", crypto.Sha256d, sha(sha(c.Data.Bytes()))},
		{"Ripemd160", crypto.Ripemd160, rip(c.Data.Bytes())}, {"Hash160", crypto.Hash160, rip(sha(c.Data.Bytes()))}} {
		b := reused(c.Data.Bytes(), func(b []byte) { _ = f.lib(b) })
		if err := same(f.name, f.lib(b), f.want); err != nil {
			return err
		}
		if !bytes.Equal(b, c.Data.Bytes()) {
			return fmt.Errorf("%s changed its argument", f.name)
		}
	}
	return nil
}

// ---- C26 ------------------------------------------------------------------

type c26 struct {
	Key   g.Blob  `json:"key"` // 16, 24 or 32 bytes
	Text  g.Blob  `json:"text"`
	IV    *g.Blob `json:"iv,omitempty"` // decrypt a reference ciphertext with this IV
	Again int     `json:"again,omitempty"`
	Flip  []int   `json:"flip,omitempty"` // bits of the ciphertext to damage
	Cut   int     `json:"cut,omitempty"`  // keep this many bytes plus one... 0: all
	Junk  *g.Blob `json:"junk,omitempty"` // decrypt arbitrary bytes
}

// cfb is AES-CFB with full-block feedback.
func cfb(b cipher.Block, iv, in []byte, encrypt bool) []byte {
	out := make([]byte, len(in))
	prev := append([]byte{}, iv...)
	for i := 0; i < len(in); i += 16 {
		var ks [16]byte
		b.Encrypt(ks[:], prev)
		for j := i; j < i+16 && j < len(in); j++ {
			out[j] = in[j] ^ ks[j-i]
		}
		if i+16 <= len(in) {
			if encrypt {
				prev = append([]byte{}, out[i:i+16]...)
			} else {
				prev = append([]byte{}, in[i:i+16]...)
			}
		}
	}
	return out
}

func check26(c c26) error {
	key := c.Key.Bytes()
	block, err := aes.NewCipher(key)
	if err != nil {
		return fmt.Errorf("bad case: %v", err)
	}
	text := c.Text.Bytes()
	decrypts := func(what string, ct []byte) error {
		orig := append([]byte{}, ct...)
		for k := 0; k <= 1+c.Again; k++ { // once to four times
			give, behind := ct, []byte(nil)
			if k == 0 {
				give = reused(ct, func(b []byte) { _, _ = crypto.Decrypt(block, b) })
			}
			if (k+len(ct))%2 == 0 { // the ciphertext in front of other bytes
				buf := append(append([]byte{}, ct...), g.Pat(5+len(ct), uint32(len(ct))+3).Bytes()...)
				give, behind = buf[:len(ct)], buf[len(ct):]
			}
			got, err := crypto.Decrypt(block, give)
			if err != nil {
				return fmt.Errorf("%s: decryption %d: %v", what, k+1, err)
			}
			if behind != nil {
				if err := firstErr(same(what+": the bytes behind the ciphertext", behind, g.Pat(5+len(ct), uint32(len(ct))+3).Bytes()), same(what+": the ciphertext in a buffer, after decryption", give, orig)); err != nil {
					return err
				}
			}
			if err := same(fmt.Sprintf("%s: decryption %d", what, k+1), got, c.Text.Bytes()); err != nil {
				return err
			}
			if err := same(what+": the ciphertext after decryption", ct, orig); err != nil {
				return err
			}
		}
		return nil
	}
	// total: whatever the bytes, no crash and no change to them
	total := func(what string, ct []byte) error {
		orig := append([]byte{}, ct...)
		ct = reused(ct, func(b []byte) { _, _ = crypto.Decrypt(block, b) })
		got, err := crypto.Decrypt(block, ct)
		if len(ct) < 16 && err == nil {
			return fmt.Errorf("%s: %d bytes decrypt to %x without an error", what, len(ct), got)
		}
		return same(what+": the bytes after decryption", ct, orig)
	}
	if c.Junk != nil {
		return total("arbitrary bytes", c.Junk.Bytes())
	}
	b64 := []byte(base64.StdEncoding.EncodeToString(c.Text.Bytes()))
	if c.IV != nil {
		iv := c.IV.Bytes()
		return decrypts("reference ciphertext", append(append([]byte{}, iv...), cfb(block, iv, b64, true)...))
	}
	ivs := map[string]bool{}
	var cts [][]byte
	for k := 0; k < 2; k++ {
		give, behind := reused(text, func(b []byte) { _, _ = crypto.Encrypt(block, b) }), []byte(nil)
		if (k+len(text))%2 == 0 { // the text in front of other bytes
			buf := append(append([]byte{}, text...), g.Pat(40+len(text), 7).Bytes()...)
			give, behind = buf[:len(text)], buf[len(text):]
		}
		ct, err := crypto.Encrypt(block, give)
		if err != nil {
			return fmt.Errorf("Encrypt: %v", err)
		}
		if !bytes.Equal(give, c.Text.Bytes()) {
			return fmt.Errorf("Encrypt changed the plaintext")
		}
		if behind != nil && !bytes.Equal(behind, g.Pat(40+len(text), 7).Bytes()) {
			return fmt.Errorf("Encrypt changed the bytes behind the plaintext")
		}
		if len(ct) != 16+len(b64) {
			return fmt.Errorf("ciphertext of %d bytes for %d bytes of text, want %d", len(ct), len(text), 16+len(b64))
		}
		if err := same("decrypted body", cfb(block, ct[:16], ct[16:], false), b64); err != nil {
			return err
		}
		if ivs[string(ct[:16])] {
			return fmt.Errorf("two encryptions share the IV %x", ct[:16])
		}
		ivs[string(ct[:16])] = true
		cts = append(cts, ct)
	}
	for k, ct := range cts {
		if err := decrypts(fmt.Sprintf("encryption %d", k+1), ct); err != nil {
			return err
		}
	}
	if len(c.Flip) > 0 || c.Cut > 0 {
		ct := cts[0]
		for _, f := range c.Flip {
			f %= 8 * len(ct)
			ct[f/8] ^= 1 << (f % 8)
		}
		if c.Cut > 0 && c.Cut-1 < len(ct) {
			ct = ct[:c.Cut-1]
		}
		return total("damaged ciphertext", ct)
	}
	return nil
}

// oneByte is a random source that fills one byte per read, as io.Reader allows.
type oneByte struct{ io.Reader }

func (r oneByte) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return r.Reader.Read(p)
}

// init is the body of the processes that freshIVs starts.
func init() {
	switch os.Getenv("VH_IV_CHILD") {
	case "print": // the IVs a new process draws
		block, err := aes.NewCipher(make([]byte, 16))
		for k := 0; err == nil && k < 40; k++ {
			var ct []byte
			if ct, err = crypto.Encrypt(block, []byte("same")); err == nil && len(ct) >= 16 {
				fmt.Printf("%x\n", ct[:16])
			}
		}
		os.Exit(0)
	case "slow": // the IVs drawn from a source that reads byte by byte
		rand.Reader = oneByte{rand.Reader}
		if err := ivSpread(make([]byte, 16), 400); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		os.Exit(0)
	}
}

// freshIVs looks at encryption in other processes: IVs must not come again in
// a new process, nor suffer from a random source that reads byte by byte.
func freshIVs() error {
	self, err := os.Executable()
	if err != nil {
		return nil
	}
	child := func(mode string) (string, error) {
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "VH_IV_CHILD="+mode)
		out, err := cmd.Output()
		return string(out), err
	}
	seen := map[string]bool{}
	for k := 0; k < 4; k++ {
		out, err := child("print")
		if err != nil {
			return nil // the process could not be run
		}
		for _, iv := range strings.Fields(out) {
			if seen[iv] {
				return fmt.Errorf("a new process uses the IV %s again", iv)
			}
			seen[iv] = true
		}
	}
	out, err := child("slow")
	if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == 3 {
		return fmt.Errorf("with a random source that reads byte by byte: %s", out)
	}
	return nil
}

// ivSpread encrypts many times and looks at the IVs as a set: all distinct
// and no byte position constant.
func ivSpread(key []byte, n int) error {
	block, err := aes.NewCipher(key)
	if err != nil {
		return err
	}
	seen := map[string]bool{}
	var first [][]byte
	var vals [16]map[byte]bool
	for i := range vals {
		vals[i] = map[byte]bool{}
	}
	for k := 0; k < n; k++ {
		ct, err := crypto.Encrypt(block, []byte("same"))
		if err != nil || len(ct) < 16 {
			return fmt.Errorf("Encrypt: %v", err)
		}
		if seen[string(ct[:16])] {
			return fmt.Errorf("IV %x used twice in %d encryptions", ct[:16], k+1)
		}
		seen[string(ct[:16])] = true
		if len(first) < 300 {
			first = append(first, append([]byte{}, ct[:16]...))
		}
		for i := range vals {
			vals[i][ct[i]] = true
		}
	}
	if r := rank(first); len(first) == 300 && r < 128 {
		return fmt.Errorf("the bits of %d IVs depend on one another: their differences have rank %d, not 128", len(first), r)
	}
	for i := range vals {
		// 400 uniform draws give about 202 distinct bytes; below 120 is impossible in practice
		if len(vals[i]) < 120 {
			return fmt.Errorf("byte %d of the IV takes only %d values in %d encryptions", i, len(vals[i]), n)
		}
	}
	return nil
}

// rank is the dimension of the differences of 16-byte strings to the first of
// them, as vectors of bits. It is 128 for a few hundred random ones (but for one
// chance in 2^170), and less if a bit is constant or follows from others.
func rank(l [][]byte) int {
	var basis [128][]byte
	n := 0
	for _, x := range l[min(1, len(l)):] {
		v := append([]byte{}, x...)
		for i := range v {
			v[i] ^= l[0][i]
		}
		for bit := 0; bit < 128; bit++ {
			if v[bit/8]>>(bit%8)&1 == 0 {
				continue
			}
			if basis[bit] == nil {
				basis[bit] = v
				n++
				break
			}
			for i := range v {
				v[i] ^= basis[bit][i]
			}
		}
	}
	return n
}

// ---- C29 ------------------------------------------------------------------

type c29 struct {
	Rev   *g.Blob  `json:"rev,omitempty"`
	Hex   *string  `json:"hex,omitempty"` // hex digits, any number
	Sort  []g.Blob `json:"sort,omitempty"`
	A     *g.Blob  `json:"a,omitempty"` // equality
	B     *g.Blob  `json:"b,omitempty"`
	V     uint32   `json:"v,omitempty"`
	L     uint32   `json:"l,omitempty"`     // little-endian bytes
	Dec32 *string  `json:"dec32,omitempty"` // Decode32Byte
	All   string   `json:"all,omitempty"`   // equality of every two strings of N bytes out of these (hex)
	N     int      `json:"n,omitempty"`
}

// allEqual compares every two strings of n bytes over an alphabet.
func allEqual(abc []byte, n int) error {
	words := [][]byte{{}}
	for ; n > 0; n-- {
		var longer [][]byte
		for _, w := range words {
			for _, a := range abc {
				longer = append(longer, append(append([]byte{}, w...), a))
			}
		}
		words = longer
	}
	for i, a := range words {
		for j, b := range words {
			if utils.Equals(a, b) != (i == j) {
				return fmt.Errorf("Equals(%x, %x) = %v", a, b, i != j)
			}
		}
	}
	return nil
}

func check29(c c29) error {
	switch {
	case c.Rev != nil:
		b := reused(c.Rev.Bytes(), func(b []byte) { _ = utils.ReverseBytes(b) })
		r := utils.ReverseBytes(b)
		if err := firstErr(same("ReverseBytes", r, ref.Rev(c.Rev.Bytes())), same("the argument of ReverseBytes", b, c.Rev.Bytes()), same("ReverseBytes twice", utils.ReverseBytes(r), b)); err != nil {
			return err
		}
		if len(r) > 0 { // the result is a copy
			r[0] ^= 0xff
			r[len(r)-1] ^= 0x55
		}
		return same("the argument after changing the result", b, c.Rev.Bytes())
	case c.Hex != nil:
		s := *c.Hex
		p := s
		if len(p)%2 == 1 {
			p = "0" + p
		}
		want := ""
		for i := 0; i < len(p); i += 2 {
			want = p[i:i+2] + want
		}
		got := utils.ReverseHexString(s)
		if err := sameStr(fmt.Sprintf("ReverseHexString(%q)", s), got, want); err != nil {
			return err
		}
		return sameStr(fmt.Sprintf("ReverseHexString of ReverseHexString(%q)", s), utils.ReverseHexString(got), p)
	case c.Sort != nil:
		list := reusedList(expand(c.Sort), func(l [][]byte) { _ = utils.SortByteArrays(append([][]byte{}, l...)) })
		want := expand(c.Sort)
		sort.SliceStable(want, func(i, j int) bool { return bytes.Compare(want[i], want[j]) < 0 })
		got := utils.SortByteArrays(list)
		if len(got) != len(want) {
			return fmt.Errorf("SortByteArrays of %d strings gave %d", len(want), len(got))
		}
		for k := range want {
			if err := same(fmt.Sprintf("sorted string %d of %d", k, len(want)), got[k], want[k]); err != nil {
				return err
			}
		}
		return nil
	case c.All != "":
		return allEqual(g.Unhex(c.All), c.N)
	case c.A != nil:
		b := c.B.Bytes()
		a := reused(c.A.Bytes(), func(a []byte) { _ = utils.Equals(a, b) })
		want := bytes.Equal(a, b)
		if got := utils.Equals(a, b); got != want {
			return fmt.Errorf("Equals(%s, %s) = %v", short(a), short(b), got)
		}
		b = reused(b, func(b []byte) { _ = utils.Equals(a, b) })
		if got := utils.Equals(a, b); got != want {
			return fmt.Errorf("Equals(%s, %s) = %v", short(a), short(b), got)
		}
		if got := utils.Equals(b, a); got != want {
			return fmt.Errorf("Equals(%s, %s) = %v", short(b), short(a), got)
		}
		if !utils.Equals(a, c.A.Bytes()) {
			return fmt.Errorf("Equals(%s, itself) = false", short(a))
		}
		return firstErr(same("argument of Equals", a, c.A.Bytes()), same("argument of Equals", b, c.B.Bytes()))
	case c.Dec32 != nil:
		s := *c.Dec32
		got, err := utils.Decode32Byte(s)
		want, derr := hex.DecodeString(s)
		if derr != nil || len(want) != 32 {
			if err == nil {
				return fmt.Errorf("Decode32Byte(%q) = %x and no error", s, got)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("Decode32Byte(%q): %v", s, err)
		}
		return same("Decode32Byte", got[:], want)
	}
	if c.L < 4 {
		return nil
	}
	want := make([]byte, c.L)
	binary.LittleEndian.PutUint32(want, c.V)
	return same(fmt.Sprintf("GetLittleEndianBytes(%d, %d)", c.V, c.L), utils.GetLittleEndianBytes(c.V, c.L), want)
}

func genHexDigits(t *rapid.T, n int) string {
	b := []byte(g.BlobN(t, (n+1)/2, "digits").Hex()[:n])
	if g.Chance(t, 3, "case") {
		b = []byte(strings.ToUpper(string(b)))
	}
	return string(b)
}

func init() {
	pbt.Register(pbt.Def[c24]{
		ID:   "C24",
		Rule: "64-bit values skewed to the boundaries of the four forms, encoded, decoded alone and in front of other bytes, and decoded from every longer form; and arbitrary bytes decoded. Non-trivial: a value of at least 0xfd or bytes given outright. The sweep takes 0..70000 (thorough: 0..2^21), the neighbours of every power of two, and every value of each byte. Nil stands beside empty. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c24 {
			if g.Chance(t, 4, "raw") {
				b := g.AnyBlob(t, 20, "raw")
				if g.Bool(t, "lead") {
					b = g.Raw(append([]byte{g.Pick(t, []byte{0xfc, 0xfd, 0xfe, 0xff}, "form")}, b.Bytes()...))
				}
				return c24{Raw: &b}
			}
			return c24{V: g.U64(t, "v"), Tail: g.AnyBlob(t, 20, "tail")}
		},
		Sweep: func(thorough bool, yield func(c24)) {
			top := uint64(70000)
			if thorough {
				top = 1 << 21
			}
			for v := uint64(0); v <= top; v++ {
				yield(c24{V: v})
			}
			for b := 0; b < 64; b++ {
				for d := -3; d <= 3; d++ {
					yield(c24{V: 1<<b + uint64(d), Tail: g.Pat(b%4, 5)})
				}
			}
			for b := 0; b < 256; b++ {
				for k := 0; k < 8; k++ {
					yield(c24{V: uint64(b) << (8 * k)})
					yield(c24{V: ^(uint64(b) << (8 * k)), Tail: g.Raw([]byte{byte(b)})})
				}
				for n := 0; n < 12; n++ {
					r := g.Raw(append([]byte{byte(b)}, g.Pat(n, uint32(n)+3).Bytes()...))
					yield(c24{Raw: &r})
				}
			}
			yield(c24{Raw: &g.Blob{}})
			yield(c24{Raw: &g.Nil})
		},
		Check: check24,
		Classify: func(c c24) (bool, []string) {
			if c.Raw != nil {
				_, _, ok := ref.ReadCompact(c.Raw.Bytes())
				return true, []string{fmt.Sprintf("raw complete=%v", ok)}
			}
			return c.V >= 0xfd, []string{fmt.Sprintf("form of %d bytes", len(ref.Compact(c.V)))}
		},
		Quick: 4000000, Thorough: 15000000,
	})

	pbt.Register(pbt.Def[c25]{
		ID:   "C25",
		Rule: "byte strings of 0..2000 bytes against SHA-256 and RIPEMD-160 written from their specifications, and longer ones (to 2 MB) against the Go libraries. Non-trivial: at least one byte. The sweep takes every length 0..1100 in four patterns and every single bit of a 130-byte string, and one of 2^25+3 bytes (thorough: 2^28+9). It takes inputs whose digests have rare shapes (found by search) and contents of special shapes. Pairs of strings that have a half, a sum or a checksum in common come one after the other; nil stands beside empty. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c25 {
			if g.Chance(t, 60, "long") {
				return c25{Data: g.BlobN(t, g.Int(t, 2000, 300000, "n"), "data"), Lib: true}
			}
			return c25{Data: g.AnyBlob(t, 2000, "data")}
		},
		Sweep: func(thorough bool, yield func(c25)) {
			for n := 0; n <= 1100; n++ {
				for _, s := range []uint32{0, 1, 2, uint32(n) + 3} {
					yield(c25{Data: g.Pat(n, s)})
				}
			}
			for bit := 0; bit < 130*8; bit++ {
				b := make([]byte, 130)
				b[bit/8] = 1 << (bit % 8)
				yield(c25{Data: g.Raw(b)})
			}
			for b := 0; b < 256; b++ {
				yield(c25{Data: g.Raw([]byte{byte(b)})})
			}
			yield(c25{Data: g.Nil})
			for _, l := range [][]uint64{g.MinedSha256, g.MinedSha256d, g.MinedRipemd160, g.MinedHash160} {
				for _, v := range l {
					yield(c25{Data: g.Raw(binary.LittleEndian.AppendUint64(nil, v))})
				}
			}
			top := 13000
			if thorough {
				top = 140000
			}
			for n := 1101; n <= top; n++ {
				yield(c25{Data: g.Pat(n, 8), Lib: true})
			}
			for _, n := range bigLens(top, 1<<22) {
				yield(c25{Data: g.Pat(n, 8), Lib: true})
			}
			for n := 1; n <= 70; n++ {
				g.AllShapes(n, func(b []byte) { yield(c25{Data: g.Raw(b)}) })
			}
			for _, n := range []int{2, 3, 4, 5, 8, 16, 20, 25, 32, 33, 64, 65, 80, 100, 256, 1000} { // one after the other
				g.Twins(n, func(a, b []byte) {
					yield(c25{Data: g.Raw(a)})
					yield(c25{Data: g.Raw(b)})
					yield(c25{Data: g.Raw(a)})
				})
			}
			yield(c25{Data: g.Pat(1<<16, 8)})
			yield(c25{Data: g.Pat(1<<25+3, 8), Lib: true})
			if thorough {
				yield(c25{Data: g.Pat(1<<26+5, 8), Lib: true})
				yield(c25{Data: g.Pat(1<<28+9, 8), Lib: true})
			}
		},
		Check: check25,
		Classify: func(c c25) (bool, []string) {
			return c.Data.Len() > 0, []string{lenLabel("length", c.Data.Len()), fmt.Sprintf("last block %d", c.Data.Len()%64/8*8)}
		},
		Quick: 200000, Thorough: 3000000,
	})

	pbt.Register(pbt.Def[c26]{
		ID:     "C26",
		NoKeep: true,
		Rule:   "AES keys of the three sizes and plaintexts of 0..70000 bytes: two encryptions checked against an AES-CFB reference for their form, distinct IVs, repeated decryption with the ciphertext compared before and after, decryption of reference ciphertexts under any IV, and damaged, truncated and arbitrary ciphertexts. Non-trivial: a plaintext of at least one byte. The sweep takes every plaintext length 0..300 per key size, every truncation, and the spread of 150000 IVs, those of four new processes, and those drawn from a random source that reads byte by byte. It takes every text in the code and every plaintext length to 13000 (thorough: 140000). Arguments may be one another's relatives, nil stands beside empty, and the bits of the IVs are looked at for linear dependence. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c26 {
			c := c26{Key: g.BlobN(t, g.Pick(t, []int{16, 24, 32}, "keylen"), "key"), Text: g.AnyBlob(t, 70000, "text"), Again: g.Int(t, 0, 2, "again")}
			switch g.Int(t, 0, 5, "kind") {
			case 0:
				b := g.BlobN(t, 16, "iv")
				c.IV = &b
			case 1:
				b := g.AnyBlob(t, 300, "junk")
				c.Junk = &b
			case 2:
				for k := g.Int(t, 1, 4, "flips"); k > 0; k-- {
					c.Flip = append(c.Flip, g.Int(t, 0, 100000, "bit"))
				}
			case 3:
				c.Cut = 1 + g.Int(t, 0, 200, "cut")
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c26)) {
			for _, kl := range []int{16, 24, 32} {
				key := g.Pat(kl, uint32(kl)+3)
				yield(c26{Key: key, Text: g.Nil, Again: 1})
				yield(c26{Key: key, Junk: &g.Nil})
				for n := 0; n <= 300; n++ {
					yield(c26{Key: key, Text: g.Pat(n, uint32(n)+3), Again: 1})
					iv := g.Pat(16, uint32(n))
					yield(c26{Key: key, Text: g.Pat(n, uint32(n)+3), IV: &iv})
					j := g.Pat(n, uint32(n)+8)
					yield(c26{Key: key, Junk: &j})
					yield(c26{Key: key, Text: g.Pat(100, 5), Cut: n + 1})
				}
				for bit := 0; bit < 60*8; bit++ {
					yield(c26{Key: key, Text: g.Pat(30, 5), Flip: []int{bit}})
				}
			}
			g.Texts(func(b g.Blob) {
				yield(c26{Key: g.Pat(16, 9), Text: b})
				yield(c26{Key: g.Pat(32, 9), Text: b, Junk: &b})
			})
			for k := 0; k < 6; k++ { // arguments that are one another's relatives
				key := g.Pat([]int{16, 24, 32}[k%3], uint32(8*k)|6)
				kb := key.Bytes()
				for _, r := range g.Relatives(kb) {
					for _, text := range [][]byte{r, kb, []byte(hex.EncodeToString(r)), []byte(base64.StdEncoding.EncodeToString(r)), append(append([]byte{}, r...), kb...), r[:16], append(r[:16:16], r[:16]...), bytes.Repeat(r[:1], 48)} {
						iv := g.Raw(r[:16])
						yield(c26{Key: key, Text: g.Raw(text), Again: 1})
						yield(c26{Key: key, Text: g.Raw(text), IV: &iv})
						j := g.Raw(text)
						yield(c26{Key: key, Junk: &j})
					}
				}
			}
			top := 13000
			if thorough {
				top = 140000
			}
			for n := 301; n <= top; n++ {
				yield(c26{Key: g.Pat(16+n%3*8, uint32(n)|4), Text: g.Pat(n, uint32(n)|4), Again: -1})
			}
			for k, n := range bigLens(300, 1<<20) {
				key, iv := g.Pat([]int{16, 24, 32}[k%3], uint32(k)+3), g.Pat(16, uint32(n))
				if n <= 1<<18 || k%8 == 0 {
					yield(c26{Key: key, Text: g.Pat(n, uint32(n)|4)})
				}
				yield(c26{Key: key, Text: g.Pat(n, uint32(n)|4), IV: &iv})
			}
			yield(c26{Key: g.Pat(16, 9), Again: spreadMark})
		},
		Check: func(c c26) error {
			if c.Again == spreadMark {
				return firstErr(ivSpread(c.Key.Bytes(), 400), ivSpread(c.Key.Bytes(), 150000), freshIVs())
			}
			return check26(c)
		},
		Classify: func(c c26) (bool, []string) {
			l := []string{fmt.Sprintf("AES-%d", 8*c.Key.Len())}
			switch {
			case c.Again == spreadMark:
				l = append(l, "150000 IVs")
			case c.IV != nil:
				l = append(l, "reference ciphertext")
			case c.Junk != nil:
				return c.Junk.Len() > 0, append(l, "arbitrary bytes")
			case len(c.Flip) > 0:
				l = append(l, "bit flips")
			case c.Cut > 0:
				l = append(l, "truncated")
			default:
				l = append(l, lenLabel("text", c.Text.Len()))
			}
			return c.Text.Len() > 0 || c.Again == spreadMark, l
		},
		Quick: 200000, Thorough: 1500000,
	})

	pbt.Register(pbt.Def[c29]{
		ID:     "C29",
		NoKeep: true,
		Rule:   "byte strings of 0..70000 bytes to reverse, hex of every parity, lists of up to 40 byte strings sharing prefixes to sort, pairs of nearly equal byte strings, 32-bit values with lengths 4..40, and hex texts around 32 bytes; compared with straightforward references. Non-trivial: more than one byte, or a list of at least two, or a text. The sweep takes every length 0..300 and every single-byte difference in strings up to 70 bytes. It takes contents of special shapes and lengths from the code. Equality is tried on every two short strings over small alphabets and on pairs that have a half, a sum or a checksum in common; nil stands beside empty. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c29 {
			switch g.Int(t, 0, 5, "kind") {
			case 0:
				b := g.AnyBlob(t, 70000, "rev")
				return c29{Rev: &b}
			case 1:
				s := genHexDigits(t, g.Len(t, 400, "n"))
				return c29{Hex: &s}
			case 2:
				c := c29{Sort: []g.Blob{}}
				for k := g.Int(t, 0, 40, "n"); k > 0; k-- {
					if len(c.Sort) > 0 && g.Chance(t, 3, "near") {
						b := g.Pick(t, c.Sort, "other").Bytes()
						c.Sort = append(c.Sort, g.Raw(edit(t, b)))
						continue
					}
					c.Sort = append(c.Sort, g.AnyBlob(t, 40, "item"))
				}
				return c
			case 3:
				a := g.AnyBlob(t, 200, "a")
				b := g.Raw(a.Bytes())
				if g.Bool(t, "differ") {
					b = g.Raw(edit(t, a.Bytes()))
				}
				return c29{A: &a, B: &b}
			case 4:
				return c29{V: g.U32(t, "v"), L: uint32(g.Int(t, 4, 40, "l"))}
			}
			s := genHexDigits(t, g.Pick(t, []int{0, 1, 2, 32, 62, 63, 64, 64, 64, 64, 65, 66, 68, 128}, "n"))
			if g.Chance(t, 4, "bad") {
				s = badHex(t)
			}
			return c29{Dec32: &s}
		},
		Sweep: func(thorough bool, yield func(c29)) {
			for _, n := range []int{2, 3, 4, 5, 7, 8, 9, 16, 20, 25, 32, 33, 64, 65, 80, 100, 128, 256, 1000, 4096, 65536} {
				g.Twins(n, func(a, b []byte) {
					x, y := g.Raw(a), g.Raw(b)
					yield(c29{A: &x, B: &y})
					if n < 100 {
						yield(c29{Sort: []g.Blob{x, y, x, y}})
						yield(c29{Sort: []g.Blob{y, x}})
						yield(c29{Rev: &x})
						yield(c29{Rev: &y})
						s := x.Hex()
						yield(c29{Hex: &s})
						s2 := y.Hex()
						yield(c29{Hex: &s2})
						yield(c29{Dec32: &s})
						yield(c29{Dec32: &s2})
					}
				})
			}
			yield(c29{All: g.HexOf(g.Pat(256, 2).Bytes()), N: 1})
			yield(c29{All: g.HexOf(g.Pat(48, 2).Bytes()), N: 2})
			yield(c29{All: "2041617f8081c1ff3f30", N: 3})
			yield(c29{All: "000102ff7f80", N: 4})
			yield(c29{All: "0001", N: 10})
			yield(c29{All: "00ff55", N: 6})
			yield(c29{Rev: &g.Nil})
			yield(c29{A: &g.Nil, B: &g.Blob{}})
			yield(c29{A: &g.Nil, B: &g.Nil})
			yield(c29{Sort: []g.Blob{{}, g.Nil, g.Pat(1, 0), g.Nil, {}}})
			for n := 0; n <= 300; n++ {
				b := g.Pat(n, uint32(n)+2)
				yield(c29{Rev: &b})
				s := g.Pat((n+1)/2, uint32(n)+3).Hex()[:n]
				yield(c29{Hex: &s})
				u := strings.ToUpper(s)
				yield(c29{Hex: &u})
				yield(c29{Dec32: &s})
				z := strings.Repeat("0", n)
				yield(c29{Dec32: &z})
				yield(c29{A: &b, B: &g.Blob{}})
				yield(c29{A: &b, B: &b})
			}
			for _, n := range []int{1, 2, 3, 4, 20, 32, 33} {
				g.AllShapes(n, func(x []byte) {
					b, y, s := g.Raw(x), g.Raw(ref.Rev(x)), hex.EncodeToString(x)
					yield(c29{Rev: &b})
					yield(c29{Hex: &s})
					yield(c29{Dec32: &s})
					yield(c29{A: &b, B: &y})
				})
			}
			top := 3000
			if thorough {
				top = 30000
			}
			for n := 301; n < top; n++ {
				b := g.Pat(n, uint32(n)+2)
				yield(c29{Rev: &b})
			}
			for _, n := range bigLens(300, 1<<21) {
				b := g.Pat(n, uint32(n)+2)
				yield(c29{Rev: &b})
				yield(c29{A: &b, B: &b})
				for _, at := range []int{0, 1, n / 2, n - 2, n - 1} { // one byte differs
					x := b.Bytes()
					x[at] ^= 0x80
					o := g.Raw(x)
					yield(c29{A: &b, B: &o})
				}
				o := g.Pat(n-1, uint32(n)+2)
				yield(c29{A: &b, B: &o})
				if n <= 1<<14 || thorough && n <= 1<<17 {
					s := g.Pat((n+1)/2, uint32(n)+3).Hex()[:n]
					yield(c29{Hex: &s})
				}
				if n <= 4200 {
					l := []g.Blob{}
					for k := 0; k < n; k++ {
						l = append(l, g.Pat(k%5, uint32(k*7919%n)+3))
					}
					yield(c29{Sort: l})
				}
			}
			for n := 1; n <= 70; n++ {
				for i := 0; i < n; i++ {
					a := g.Pat(n, 7)
					x := a.Bytes()
					x[i]++
					b := g.Raw(x)
					yield(c29{A: &a, B: &b})
					c := g.Raw(a.Bytes()[:i])
					yield(c29{A: &a, B: &c})
					yield(c29{Sort: []g.Blob{b, a, c, a}})
				}
			}
			// almost in order: one pair swapped, one string moved, two runs, the
			// other way round
			for _, n := range []int{2, 3, 5, 7, 8, 9, 11, 12, 13, 16, 17, 20, 25, 31, 32, 33, 40, 41, 49, 50, 51, 60, 64, 65, 100, 128, 129, 200, 256, 257, 300, 1000} {
				item := func(k int) g.Blob { return g.Raw([]byte{byte(k >> 8), byte(k), 7}) }
				base := func() (l []g.Blob) {
					for k := 0; k < n; k++ {
						l = append(l, item(k))
					}
					return l
				}
				yield(c29{Sort: base()})
				step := max(n/12, 1)
				for i := 0; i < n; i += step {
					for _, j := range []int{i + 1, i + 2, n / 2, n - 1, n - 2, (i*7 + 3) % n} {
						if j <= i || j >= n {
							continue
						}
						l := base()
						l[i], l[j] = l[j], l[i]
						yield(c29{Sort: l})
						l = base() // i moved behind j
						x := l[i]
						copy(l[i:j], l[i+1:j+1])
						l[j] = x
						yield(c29{Sort: l})
						l = base() // j moved before i
						x = l[j]
						copy(l[i+1:j+1], l[i:j])
						l[i] = x
						yield(c29{Sort: l})
					}
					l := base() // two runs, and one run backwards
					yield(c29{Sort: append(append([]g.Blob{}, l[i:]...), l[:i]...)})
					for a, b := i, n-1; a < b; a, b = a+1, b-1 {
						l[a], l[b] = l[b], l[a]
					}
					yield(c29{Sort: l})
					l = base()
					l[i] = item(n / 3) // one string twice
					yield(c29{Sort: l})
				}
			}
			for n := 0; n <= 80; n++ {
				for _, mode := range []int{0, 1, 2, 3} {
					l := []g.Blob{}
					for k := 0; k < n; k++ {
						switch mode {
						case 0:
							l = append(l, g.Pat(k%7, uint32(n*31+k*17)&0xffff+3))
						case 1:
							l = append(l, g.Raw([]byte{byte(n - k)}))
						case 2:
							l = append(l, g.Raw([]byte{byte(k / 2), byte(255 - k)}))
						case 3:
							l = append(l, g.Pat(33, uint32(k%5)+3))
						}
					}
					yield(c29{Sort: l})
				}
			}
			for b := 0; b < 32; b++ {
				for l := uint32(4); l < 20; l++ {
					yield(c29{V: 1 << b, L: l})
					yield(c29{V: ^uint32(1 << b), L: l})
				}
			}
			for _, l := range []uint32{255, 256, 65536, 1 << 20} {
				yield(c29{V: 0xdeadbeef, L: l})
			}
			good := g.Pat(32, 5).Hex()
			for _, s := range badHexOf(good) {
				s := s
				yield(c29{Dec32: &s})
			}
			for i := 0; i < 64; i++ {
				for _, ch := range "g G-\x00" {
					s := good[:i] + string(ch) + good[i+1:]
					yield(c29{Dec32: &s})
				}
			}
		},
		Check: check29,
		Classify: func(c c29) (bool, []string) {
			switch {
			case c.Rev != nil:
				return c.Rev.Len() > 1, []string{"reverse", lenLabel("length", c.Rev.Len())}
			case c.Hex != nil:
				return len(*c.Hex) > 2, []string{fmt.Sprintf("reverse hex, odd=%v", len(*c.Hex)%2 == 1)}
			case c.Sort != nil:
				return len(c.Sort) > 1, []string{"sort", countLabel("strings", len(c.Sort))}
			case c.A != nil:
				return c.A.Len() > 0, []string{fmt.Sprintf("equals=%v", bytes.Equal(c.A.Bytes(), c.B.Bytes()))}
			case c.Dec32 != nil:
				return true, []string{fmt.Sprintf("decode 32, valid=%v", isHex(*c.Dec32) && len(*c.Dec32) == 64)}
			}
			return c.V > 0, []string{"little-endian"}
		},
		Quick: 1200000, Thorough: 9000000,
	})
}

const spreadMark = 1000000
