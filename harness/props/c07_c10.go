package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"sync"
	"syscall"
	"unicode/utf8"

	"github.com/libsv/libsv/script"
	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// ---- C07 ------------------------------------------------------------------

type c07op struct {
	Kind  string   `json:"kind"` // data hex HEX text array strings op badhex
	Items []g.Blob `json:"items,omitempty"`
	Op    byte     `json:"op,omitempty"`
	Text  string   `json:"text,omitempty"`
}

type c07 struct {
	Base  g.Blob  `json:"base"` // the script before
	Spare int     `json:"spare,omitempty"`
	Ops   []c07op `json:"ops"`
	Huge  uint64  `json:"huge,omitempty"` // only the prefix of an item of this size
}

func expand(items []g.Blob) [][]byte {
	var out [][]byte
	for _, i := range items {
		out = append(out, i.Bytes())
	}
	return out
}

var hugeMap struct {
	once sync.Once
	b    []byte
}

// hugeItem is an untouched mapping: it has a length but takes no memory.
func hugeItem(n uint64) []byte {
	hugeMap.once.Do(func() {
		const size = 1<<32 + 1<<16
		if b, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE); err == nil {
			hugeMap.b = b
		}
	})
	if hugeMap.b == nil {
		return nil
	}
	return hugeMap.b[:n]
}

func check07(c c07) error {
	if c.Huge != 0 {
		b := hugeItem(c.Huge)
		if b == nil {
			return nil
		}
		p, err := script.GetPushDataPrefix(b)
		if err != nil {
			return fmt.Errorf("GetPushDataPrefix of %d bytes: %v", c.Huge, err)
		}
		return same(fmt.Sprintf("push prefix for %d bytes", c.Huge), p, ref.PushPrefix(c.Huge))
	}
	var all [][]byte
	hasEmpty := false
	base := c.Base.Bytes()
	want := append([]byte{}, base...)
	buf := make([]byte, len(base), len(base)+c.Spare)
	copy(buf, base)
	s := script.NewFromBytes(buf)
	for k, op := range c.Ops {
		items := expand(op.Items)
		all = append(all, items...)
		var add []byte
		for _, it := range items {
			hasEmpty = hasEmpty || len(it) == 0
			add = append(add, ref.Push(it)...)
		}
		var err error
		fails := false
		switch op.Kind {
		case "data":
			for _, it := range items {
				err = firstErr(err, s.AppendPushData(reused(it, func(b []byte) { _ = new(script.Script).AppendPushData(b) })))
			}
		case "hex", "HEX":
			for _, it := range items {
				h := hex.EncodeToString(it)
				if op.Kind == "HEX" {
					h = strings.ToUpper(h)
				}
				err = firstErr(err, s.AppendPushDataHexString(h))
			}
		case "text":
			for _, it := range items {
				err = firstErr(err, s.AppendPushDataString(string(it)))
			}
		case "array":
			err = s.AppendPushDataArray(reusedList(items, func(l [][]byte) { _ = new(script.Script).AppendPushDataArray(l) }))
		case "strings":
			var strs []string
			for _, it := range items {
				strs = append(strs, string(it))
			}
			err = s.AppendPushDataStrings(strs)
		case "op":
			s.AppendOpCode(op.Op)
			add = []byte{op.Op}
		case "badhex":
			fails = true
			add = nil
			if isHex(op.Text) {
				return nil // shrunk into a valid text: not a case
			}
			if s.AppendPushDataHexString(op.Text) == nil {
				return fmt.Errorf("step %d: AppendPushDataHexString(%q) gave no error", k, op.Text)
			}
		}
		if err != nil && !fails {
			return fmt.Errorf("step %d (%s): %v", k, op.Kind, err)
		}
		want = append(want, add...)
		if err := same(fmt.Sprintf("script after step %d (%s)", k, op.Kind), []byte(*s), want); err != nil {
			return err
		}
		if err := sameStr("ToString", s.ToString(), hex.EncodeToString(want)); err != nil {
			return err
		}
	}
	var enc []byte
	before := expandFlat(c.Ops)
	for k, it := range all {
		p, err := script.GetPushDataPrefix(it)
		if err != nil {
			return fmt.Errorf("GetPushDataPrefix(%d bytes): %v", len(it), err)
		}
		if err := same(fmt.Sprintf("push prefix for %d bytes", len(it)), p, ref.PushPrefix(uint64(len(it)))); err != nil {
			return err
		}
		if err := same("item handed to the encoder", it, before[k]); err != nil {
			return err
		}
		enc = append(enc, ref.Push(it)...)
	}
	spoilScripts(s)
	got, err := script.EncodeParts(reusedList(all, func(l [][]byte) { _, _ = script.EncodeParts(l) }))
	if err != nil {
		return fmt.Errorf("EncodeParts: %v", err)
	}
	if err := same("EncodeParts", got, enc); err != nil {
		return err
	}
	if hasEmpty {
		return nil
	}
	parts, err := script.DecodeParts(got)
	if err != nil {
		return fmt.Errorf("DecodeParts of what EncodeParts gave: %v", err)
	}
	return sameParts(parts, all)
}

func expandFlat(ops []c07op) [][]byte {
	var out [][]byte
	for _, o := range ops {
		out = append(out, expand(o.Items)...)
	}
	return out
}

func sameParts(got, want [][]byte) error {
	if len(got) != len(want) {
		return fmt.Errorf("decoded %d parts, want %d", len(got), len(want))
	}
	for k := range want {
		if err := same(fmt.Sprintf("part %d of %d", k, len(want)), got[k], want[k]); err != nil {
			return err
		}
	}
	return nil
}

func genItems(t *rapid.T, lo, hi, maxLen int) []g.Blob {
	var out []g.Blob
	for k := g.Int(t, lo, hi, "items"); k > 0; k-- {
		b := g.AnyBlob(t, maxLen, "item")
		if b.Len() == 0 && !g.Chance(t, 3, "empty") {
			b = g.Raw([]byte{g.Byte(t, "one")})
		}
		out = append(out, b)
	}
	if len(out) > 0 && len(out) < hi && g.Chance(t, 4, "echo?") { // an item again, several times
		b := g.Pick(t, out, "echo")
		for k := g.Int(t, 1, min(hi-len(out), 4), "echoes"); k > 0 && b.Len() < 2000; k-- {
			at := g.Int(t, 0, len(out), "echo at")
			if g.Bool(t, "behind") {
				at = len(out)
			}
			out = append(out[:at:at], append([]g.Blob{b}, out[at:]...)...)
		}
	}
	return out
}

// same items n times over.
func echoed(n, size int) []g.Blob {
	l := make([]g.Blob, n)
	for k := range l {
		l[k] = g.Pat(size, uint32(size)|4)
	}
	return l
}

var badHexTexts = []string{"0", "abc", "zz", "0x00", "00 ", " 00", "0g", "g0", "00\n", "é0", "OP_DUP", "00-1", "\x00\x00", "0O", "1l"}

// ---- C08 ------------------------------------------------------------------

type c08 struct {
	Parts []g.Blob `json:"parts"` // concatenated
	Cut   int      `json:"cut,omitempty"`
	Bad   string   `json:"bad,omitempty"`
}

func (c c08) bytes() []byte {
	var b []byte
	for _, p := range c.Parts {
		b = append(b, p.Bytes()...)
	}
	if c.Cut > 0 && c.Cut <= len(b) {
		b = b[:len(b)-c.Cut]
	}
	return b
}

func check08(c c08) error {
	if c.Bad != "" {
		if isHex(c.Bad) {
			return nil
		}
		if _, err := script.DecodeStringParts(c.Bad); err == nil {
			return fmt.Errorf("DecodeStringParts(%q) gave no error", c.Bad)
		}
		if _, err := script.NewFromHexString(c.Bad); err == nil {
			return fmt.Errorf("NewFromHexString(%q) gave no error", c.Bad)
		}
		return nil
	}
	b := c.bytes()
	elems, ok := ref.Tokenise(b)
	var want [][]byte
	for _, e := range elems {
		want = append(want, e.Part())
	}
	judge := func(how string, parts [][]byte, err error) error {
		if (err == nil) != ok {
			return fmt.Errorf("%s of %s: error %v, but decodable is %v", how, short(b), err, ok)
		}
		if !ok {
			return nil
		}
		if err := sameParts(parts, want); err != nil {
			return fmt.Errorf("%s of %s: %v", how, short(b), err)
		}
		return nil
	}
	parts, err := script.DecodeParts(reused(b, func(b []byte) { _, _ = script.DecodeParts(b) }))
	if err := judge("DecodeParts", parts, err); err != nil {
		return err
	}
	// the same behind other bytes of one buffer: nothing past the end is read
	buf := append(append([]byte{}, b...), bytes.Repeat([]byte{0x51}, 300)...)
	parts, err = script.DecodeParts(buf[:len(b)])
	if err := judge("DecodeParts (slice of a longer buffer)", parts, err); err != nil {
		return err
	}
	h := hex.EncodeToString(b)
	texts := []string{h}
	if len(b) < 5000 {
		texts = append(texts, strings.ToUpper(h))
	}
	for _, h := range texts {
		parts, err = script.DecodeStringParts(h)
		if err := judge("DecodeStringParts", parts, err); err != nil {
			return err
		}
		s, err := script.NewFromHexString(h)
		if err != nil || s == nil {
			return fmt.Errorf("NewFromHexString: %v", err)
		}
		if err := same("NewFromHexString", []byte(*s), b); err != nil {
			return err
		}
		spoilScripts(s)
	}
	s := script.NewFromBytes(append([]byte{}, b...))
	if err := same("NewFromBytes", []byte(*s), b); err != nil {
		return err
	}
	return sameStr("ToString", s.ToString(), h)
}

// ---- C09 ------------------------------------------------------------------

type c09 struct {
	Script *g.Blob  `json:"script,omitempty"`
	Words  []string `json:"words,omitempty"`
	Seps   string   `json:"seps,omitempty"` // "", or an unusual separator between words
}

var opByName = map[string]byte{}

func init() {
	for _, o := range opcodes {
		opByName[o.Name] = o.Value
	}
}

// assemble is the reference assembler.
func assemble(words []string) (b []byte, ok bool) {
	for _, w := range words {
		if v, named := opByName[w]; named {
			b = append(b, v)
		} else if isHex(w) && w != "" {
			b = append(b, ref.Push(g.Unhex(strings.ToLower(w)))...)
		} else {
			return nil, false
		}
	}
	return b, true
}

func check09(c c09) error {
	if c.Script != nil {
		return asmOf(c.Script.Bytes())
	}
	want, ok := assemble(c.Words)
	sep := " "
	if c.Seps != "" {
		sep = c.Seps
	}
	text := strings.Join(c.Words, sep)
	s, err := script.NewFromASM(text)
	if !ok {
		if err == nil {
			return fmt.Errorf("NewFromASM(%q) gave no error", text)
		}
		return nil
	}
	if err != nil {
		if c.Seps != "" { // unusual spacing may be refused
			return nil
		}
		return fmt.Errorf("NewFromASM(%q): %v", text, err)
	}
	if err := same(fmt.Sprintf("NewFromASM(%.200q)", text), scriptBytes(s), want); err != nil {
		return err
	}
	spoilScripts(s)
	return asmOf(want)
}

// asmOf checks the rendering of a script and its way back.
func asmOf(b []byte) error {
	elems, ok := ref.Tokenise(b)
	text, err := reusedScript(b, func(s *script.Script) { _, _ = s.ToASM() }).ToASM()
	if (err == nil) != ok {
		return fmt.Errorf("ToASM of %s: error %v, but decodable is %v", short(b), err, ok)
	}
	if !ok {
		return nil
	}
	var words []string
	if text != "" {
		words = strings.Split(text, " ")
	}
	if len(words) != len(elems) {
		return fmt.Errorf("ToASM of %s: %d words for %d elements: %.300q", short(b), len(words), len(elems), text)
	}
	var minimal []byte
	for k, e := range elems {
		w := words[k]
		if e.Push && len(e.Data) > 0 {
			if strings.ToLower(w) != hex.EncodeToString(e.Data) {
				return fmt.Errorf("ToASM of %s: word %d is %.200q for the push of %s", short(b), k, w, short(e.Data))
			}
			minimal = append(minimal, ref.Push(e.Data)...)
			continue
		}
		op := e.Op
		if e.Push {
			op = 0 // an empty push, in its shortest form
		}
		if v, named := opByName[w]; !named || v != op {
			return fmt.Errorf("ToASM of %s: word %d is %q for opcode %02x", short(b), k, w, op)
		}
		minimal = append(minimal, op)
	}
	back, err := script.NewFromASM(text)
	if err != nil {
		return fmt.Errorf("NewFromASM of what ToASM gave (%.300q): %v", text, err)
	}
	spoilScripts(back)
	return same(fmt.Sprintf("ASM round trip through %.300q", text), scriptBytes(back), minimal)
}

func checkOpcodeTable() error {
	for _, o := range opcodes {
		if o.Const != o.Value {
			return fmt.Errorf("the constant for %s is %02x, in Bitcoin it is %02x", o.Name, o.Const, o.Value)
		}
	}
	return nil
}

// ---- C10 ------------------------------------------------------------------

type c10 struct {
	S g.Blob `json:"s"`
}

func check10(c c10) error {
	b := c.S.Bytes()
	s := reusedScript(b, func(s *script.Script) {
		_, _, _, _, _ = s.IsP2PKH(), s.IsP2PK(), s.IsP2SH(), s.IsData(), s.IsMultisigOut()
		_, _ = s.GetPublicKeyHash()
	})
	for _, p := range []struct {
		name string
		got  bool
		want bool
	}{
		{"IsP2PKH", s.IsP2PKH(), ref.IsP2PKH(b)},
		{"IsP2PK", s.IsP2PK(), ref.IsP2PK(b)},
		{"IsP2SH", s.IsP2SH(), ref.IsP2SH(b)},
		{"IsData", s.IsData(), ref.IsData(b)},
	} {
		if p.got != p.want {
			return fmt.Errorf("%s(%s) = %v, want %v", p.name, short(b), p.got, p.want)
		}
	}
	ms, want := s.IsMultisigOut(), ref.IsMultisig(b)
	if want == ref.Yes && !ms || want == ref.No && ms {
		return fmt.Errorf("IsMultisigOut(%s) = %v", short(b), ms)
	}
	h, err := s.GetPublicKeyHash()
	if ref.IsP2PKH(b) {
		if err != nil {
			return fmt.Errorf("GetPublicKeyHash(%s): %v", short(b), err)
		}
		if err := same("GetPublicKeyHash", h, b[3:23]); err != nil {
			return err
		}
	} else if err == nil {
		return fmt.Errorf("GetPublicKeyHash(%s) = %x without an error", short(b), h)
	}
	return same("script after the predicates", []byte(*s), b)
}

// templates draws one instance of each recognised script.
func templates(seed uint32) [][]byte {
	h := g.Pat(20, seed|8).Bytes()
	k33 := append([]byte{2 + byte(seed&1)}, g.Pat(32, seed|16).Bytes()...)
	k65 := append([]byte{[]byte{4, 6, 7}[seed%3]}, g.Pat(64, seed|32).Bytes()...)
	multi := func(m, n int, keys ...[]byte) []byte {
		b := []byte{0x50 + byte(m)}
		for _, k := range keys {
			b = append(b, ref.Push(k)...)
		}
		return append(b, 0x50+byte(n), 0xae)
	}
	k2 := append([]byte{3}, g.Pat(32, seed|64).Bytes()...)
	return [][]byte{
		ref.P2PKH(h),
		append(append([]byte{0xa9, 20}, h...), 0x87),
		append(ref.Push(k33), 0xac),
		append(ref.Push(k65), 0xac),
		append([]byte{0x00, 0x6a}, ref.Push(h)...),
		append([]byte{0x6a}, ref.Push(h)...),
		multi(1, 1, k33),
		multi(2, 2, k33, k2),
		multi(2, 3, k33, k65, k2),
		multi(2, 3, []byte{0x11}, []byte{0x22}, []byte{0x33}),
	}
}

// join puts elements back together after one edit.
func reencode(e ref.Elem, form int) []byte {
	if !e.Push {
		if form == 0 { // the opcode byte as data
			return []byte{1, e.Op}
		}
		return []byte{0x4c, 1, e.Op}
	}
	return g.PushForm(e.Data, form)
}

// near yields the neighbours of a script: every truncation, deletion, single
// byte insertion and change, and every element re-encoded, dropped, doubled.
func near(b []byte, vals []byte, yield func([]byte)) {
	cat := func(xs ...[]byte) []byte { return bytes.Join(xs, nil) }
	yield(b)
	for i := range b {
		yield(b[:i])
		yield(b[i:])
		yield(cat(b[:i], b[i+1:]))
		for _, v := range vals {
			yield(cat(b[:i], []byte{v}, b[i+1:]))
		}
	}
	for i := 0; i <= len(b); i++ {
		for _, v := range vals[:min(6, len(vals))] {
			yield(cat(b[:i], []byte{v}, b[i:]))
		}
	}
	elems, ok := ref.Tokenise(b)
	if !ok {
		return
	}
	raw := func(k int) []byte {
		end := len(b)
		if k+1 < len(elems) {
			end = elems[k+1].Start
		}
		return b[elems[k].Start:end]
	}
	for k, e := range elems {
		pre, post := b[:e.Start], b[e.Start+len(raw(k)):]
		for form := 0; form < 3; form++ {
			yield(cat(pre, reencode(e, form), post))
		}
		yield(cat(pre, post))
		yield(cat(pre, raw(k), raw(k), post))
		for _, x := range [][]byte{{0x00}, {0x4c, 0x00}, {0x4d, 0, 0}, {0x4e, 0, 0, 0, 0}, {0x4c}, {0x4d, 1}, {0x4e, 255, 255, 255, 255}, {0x4d, 255, 255}} {
			yield(cat(pre, x, post))
			yield(cat(pre, x, raw(k), post))
		}
		for j := k + 1; j < len(elems); j++ { // two elements swapped
			pj := b[elems[j].Start+len(raw(j)):]
			yield(cat(pre, raw(j), b[e.Start+len(raw(k)):elems[j].Start], raw(k), pj))
		}
	}
	// every element pushed as data at once
	for form := 0; form < 2; form++ {
		var all []byte
		for _, e := range elems {
			all = append(all, reencode(e, form)...)
		}
		yield(all)
	}
}

func allBytes() []byte {
	v := make([]byte, 256)
	for i := range v {
		v[i] = byte(i)
	}
	return v
}

func init() {
	pbt.Register(pbt.Def[c07]{
		ID: "C07",
		Rule: "scripts built by 1..8 appends (single, batch, hex, text items and opcodes, now and then malformed hex) onto an existing script with spare capacity, items of 0..70000 bytes at every prefix boundary; the sweep takes every length to 700, all boundary lengths to 16 MB and the bare prefix up to 2^32-1; " +
			"non-trivial: at least one item above 75 bytes or at least two appends. The sweep takes many items at once (up to 4200 and around the lengths in the code), and every text in the code as an item, and items of 2^24 and 2^25 bytes and around. Nil and empty items are tried apart. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c07 {
			c := c07{Base: g.AnyBlob(t, 120, "base"), Spare: g.Pick(t, []int{0, 0, 1, 50, 300}, "spare")}
			for k := g.Int(t, 1, 8, "ops"); k > 0; k-- {
				op := c07op{Kind: g.Pick(t, []string{"data", "hex", "HEX", "text", "array", "strings", "op", "badhex"}, "kind")}
				switch op.Kind {
				case "op":
					op.Op = g.Byte(t, "op")
				case "badhex":
					op.Text = g.Pick(t, badHexTexts, "text")
				case "array", "strings":
					op.Items = genItems(t, 0, 5, 70000)
				default:
					op.Items = genItems(t, 1, 2, 70000)
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c07)) {
			kinds := []string{"data", "hex", "text", "array", "strings"}
			one := func(n int, kind string) {
				yield(c07{Base: g.Pat(n%5, 2), Spare: n % 3 * 100, Ops: []c07op{{Kind: kind, Items: []g.Blob{g.Pat(n, uint32(n)|4)}}}})
			}
			for _, k := range kinds { // nil slices
				yield(c07{Ops: []c07op{{Kind: k, Items: []g.Blob{g.Nil}}}})
				yield(c07{Base: g.Pat(3, 2), Ops: []c07op{{Kind: k, Items: []g.Blob{g.Nil}}, {Kind: k, Items: []g.Blob{{}}}}})
			}
			yield(c07{Ops: []c07op{{Kind: "array", Items: []g.Blob{g.Nil, g.Pat(2, 9), g.Nil, {}, g.Pat(3, 9), g.Nil}}}})
			for n := 0; n <= 700; n++ {
				for _, k := range kinds {
					one(n, k)
				}
			}
			for _, n := range bigLens(0, 1<<21) {
				one(n, kinds[n%5])
				one(n, "array")
				// followed by another item, so that a wrong length shows
				yield(c07{Ops: []c07op{{Kind: "array", Items: []g.Blob{g.Pat(n, 7), g.Pat(3, 9), g.Pat(n+1, 1)}}}})
			}
			for _, n := range g.SweepLens(4200) { // many items
				for _, size := range []int{0, 1, 75, 76, 256} {
					if n > 1100 && size > 76 {
						continue
					}
					yield(c07{Ops: []c07op{{Kind: []string{"array", "strings"}[n%2], Items: repeated(n, size)}}})
				}
				if n <= 1100 {
					yield(c07{Ops: []c07op{{Kind: kinds[n%3], Items: repeated(n, 33)}}}) // one at a time
				}
				if n <= 130 {
					c := c07{}
					for k := 0; k < n; k++ {
						c.Ops = append(c.Ops, c07op{Kind: kinds[k%3], Items: []g.Blob{g.Pat(k%90, uint32(k)|4)}})
					}
					yield(c)
				}
			}
			for v := 0; v < 256; v++ {
				yield(c07{Base: g.Pat(2, 2), Ops: []c07op{{Kind: "op", Op: byte(v)}, {Kind: "data", Items: []g.Blob{g.Raw([]byte{byte(v)})}}, {Kind: "array", Items: []g.Blob{g.Raw([]byte{byte(v), byte(v)}), g.Raw([]byte{byte(v)})}}}})
			}
			for _, n := range []uint64{1<<24 - 1, 1 << 24, 1 << 25, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1} {
				yield(c07{Huge: n})
			}
			g.Texts(func(b g.Blob) {
				for _, k := range kinds {
					yield(c07{Ops: []c07op{{Kind: k, Items: []g.Blob{b}}}})
				}
			})
			for _, x := range badHexOf(g.Pat(20, 6).Hex()) {
				yield(c07{Base: g.Pat(3, 2), Ops: []c07op{{Kind: "badhex", Text: x}}})
			}
		},
		Check: check07,
		Classify: func(c c07) (bool, []string) {
			if c.Huge != 0 {
				return true, []string{"prefix only"}
			}
			m := 0
			for _, o := range c.Ops {
				for _, i := range o.Items {
					m = max(m, i.Len())
				}
			}
			return m > 75 || len(c.Ops) > 1, []string{lenLabel("longest item", m), countLabel("appends", len(c.Ops))}
		},
		Quick: 132000, Thorough: 2000000,
	})

	pbt.Register(pbt.Def[c08]{
		ID: "C08",
		Rule: "byte strings: random bytes, element sequences with pushes in every form, claimed lengths around what is there, cut at any point, and non-hex texts; the sweep takes all 1- and 2-byte scripts, every opcode in context, and length fields with every kind of claim at 8-, 16-, 31- and 32-bit limits; " +
			"non-trivial: holds at least one push opcode (complete or not). The sweep takes scripts of up to a million elements, decoded within the CPU limit, and every byte followed by a cut element behind 22 beginnings. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c08 {
			if g.Chance(t, 30, "bad") {
				return c08{Bad: badHex(t)}
			}
			var c c08
			for k := g.Int(t, 0, 6, "parts"); k > 0; k-- {
				switch g.Int(t, 0, 5, "part") {
				case 0:
					c.Parts = append(c.Parts, g.AnyBlob(t, 300, "raw"))
				case 1: // a push claiming n bytes, with d more or fewer there
					n := g.Len(t, 70000, "claim")
					form := g.Int(t, 0, 3, "form")
					var p []byte
					switch {
					case form == 0 && n <= 75:
						p = []byte{byte(n)}
					case form <= 1 && n <= 255:
						p = []byte{76, byte(n)}
					case form <= 2 && n <= 65535:
						p = []byte{77, byte(n), byte(n >> 8)}
					default:
						p = []byte{78, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
					}
					there := max(0, n+g.Pick(t, []int{0, 0, 0, -1, 1, -2, 5, -n}, "there"))
					c.Parts = append(c.Parts, g.Blob{H: hex.EncodeToString(p), N: there, S: uint32(g.Int(t, 0, 1<<20, "seed"))})
				case 2: // an absurd claim
					v := g.U32(t, "v") | uint32(g.Pick(t, []int{0, 0x7fffffff, 0x80000000, 0xffffff00}, "or"))
					p := []byte{78, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
					if g.Bool(t, "short") {
						p = []byte{77, byte(v), byte(v>>8) | 0xf0}
					}
					c.Parts = append(c.Parts, g.Blob{H: hex.EncodeToString(p), N: g.Len(t, 400, "n"), S: 2})
				default:
					c.Parts = append(c.Parts, g.Raw(g.Elements(t, 8, 300, "els")))
				}
			}
			if g.Chance(t, 4, "cut") {
				c.Cut = g.Int(t, 1, 12, "cutn")
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c08)) {
			for a := 0; a < 256; a++ {
				yield(c08{Parts: []g.Blob{g.Raw([]byte{byte(a)})}})
				for b := 0; b < 256; b++ {
					yield(c08{Parts: []g.Blob{g.Raw([]byte{byte(a), byte(b)})}})
				}
				for n := 0; n <= 80; n++ { // every direct length
					yield(c08{Parts: []g.Blob{{H: fmt.Sprintf("51%02x", a), N: n, S: 2}}})
				}
			}
			for n := 0; n <= 255; n++ {
				for d := -2; d <= 2; d++ {
					if n+d < 0 {
						continue
					}
					yield(c08{Parts: []g.Blob{{H: fmt.Sprintf("4c%02x", n), N: n + d, S: 9}}})
					yield(c08{Parts: []g.Blob{{H: fmt.Sprintf("4d%02x00", n), N: n + d, S: 9}}})
					yield(c08{Parts: []g.Blob{{H: fmt.Sprintf("4e%02x000000", n), N: n + d, S: 9}}})
				}
			}
			for _, n := range bigLens(0, 1<<21) {
				for d := -1; d <= 1; d++ {
					if n+d < 0 {
						continue
					}
					le := []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
					if n <= 65535 {
						yield(c08{Parts: []g.Blob{{H: "4d" + hex.EncodeToString(le[:2]), N: n + d, S: 9}, g.Raw([]byte{0x51})}})
					}
					yield(c08{Parts: []g.Blob{{H: "4e" + hex.EncodeToString(le), N: n + d, S: 9}, g.Raw([]byte{0x51})}})
				}
			}
			// something in front of an element that is cut off
			for _, front := range []string{"00", "51", "6a", "006a", "4c00", "4c006a", "4d0000", "4d00006a", "4e00000000", "4e000000006a", "0100", "01006a", "516a", "4f6a", "60", "6a6a", "63", "006300", "0063", "0363757204", "ac", "ae"} {
				for b := 0; b < 256; b++ {
					for _, cut := range []string{"", "4c", "4c01", "4cff00", "4d", "4d01", "4d0100", "4dffff00", "4e", "4e01", "4e0100", "4e010000", "4e01000000", "4effffffff", "01", "0200", "4b00", "00", "6a", "4c00", "0151"} {
						yield(c08{Parts: []g.Blob{{H: fmt.Sprintf("%s%02x%s", front, b, cut)}}})
						if b == 0 {
							yield(c08{Parts: []g.Blob{{H: front + cut}}})
						}
					}
				}
			}
			for _, n := range bigElems() { // many elements
				for _, e := range []string{"51", "00", "0101", "4c00", "ff", "02aa4c"} {
					if n > 4200 && e != "51" {
						continue
					}
					yield(c08{Parts: []g.Blob{{N: n * len(e) / 2, R: e}}})
				}
			}
			for n := 65400; n <= 65535; n++ {
				for have := 0; have <= 12; have++ {
					yield(c08{Parts: []g.Blob{{H: fmt.Sprintf("4d%02x%02x", n&255, n>>8), N: have, S: 2}}})
				}
			}
			for _, v := range []uint32{0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xfffffff8, 0xfffffff9, 0xfffffffa, 0xfffffffb, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff, 1 << 24, 1 << 16} {
				for have := 0; have <= 20; have++ {
					yield(c08{Parts: []g.Blob{{H: fmt.Sprintf("4e%02x%02x%02x%02x", v&255, v>>8&255, v>>16&255, v>>24), N: have, S: 2}}})
				}
			}
			for _, x := range badHexOf("76a914" + g.Pat(20, 6).Hex() + "88ac") {
				yield(c08{Bad: x})
			}
			if thorough {
				for i := 0; i < 1<<24; i += 7 {
					yield(c08{Parts: []g.Blob{g.Raw([]byte{byte(i), byte(i >> 8), byte(i >> 16)})}})
				}
			}
		},
		Check: check08,
		Classify: func(c c08) (bool, []string) {
			if c.Bad != "" {
				return false, []string{"not hex"}
			}
			b := c.bytes()
			e, ok := ref.Tokenise(b)
			push := !ok
			for _, x := range e {
				push = push || x.Push
			}
			return push, []string{fmt.Sprintf("decodable=%v", ok), countLabel("elements", len(e))}
		},
		Quick: 370000, Thorough: 5550000,
	})

	pbt.Register(pbt.Def[c09]{
		ID: "C09",
		Rule: "half: random scripts (every opcode, pushes of every length and form, some undecodable) rendered as ASM and assembled again; half: ASM texts of opcode names and hex words, some with one bad word or unusual spacing, assembled and rendered back; " +
			"the sweep takes every name, every single opcode, every one-byte push and all push lengths to 300; non-trivial: at least two elements or words. The sweep takes up to 4200 elements and words, long words, and every odd word (comment marks, quotes, other languages' notation, the code's own texts) alone and at every place in a text. Arguments lie in memory that held other contents in earlier calls.",
		Assumptions: []string{"the opcode table is bsvd's txscript.OpcodeByName plus the aliases OP_ZERO, OP_ONE, OP_BASE"},
		Gen: func(t *rapid.T) c09 {
			if g.Bool(t, "script") {
				b := g.Elements(t, 10, 300, "els")
				switch g.Int(t, 0, 9, "twist") {
				case 0:
					if len(b) > 0 {
						b = b[:len(b)-g.Int(t, 1, min(len(b), 4), "cut")]
					}
				case 1:
					x := g.AnyBlob(t, 70000, "big").Bytes()
					b = append(b, ref.Push(x)...)
				case 2:
					b = append(b, g.AnyBlob(t, 30, "junk").Bytes()...)
				}
				x := g.Raw(b)
				return c09{Script: &x}
			}
			c := c09{}
			for k := g.Int(t, 0, 10, "words"); k > 0; k-- {
				if g.Bool(t, "op") {
					c.Words = append(c.Words, g.Pick(t, opcodes, "name").Name)
				} else {
					h := g.AnyBlob(t, 400, "hex").Hex()
					if h == "" {
						h = "00"
					}
					if g.Chance(t, 5, "upper") {
						h = strings.ToUpper(h)
					}
					c.Words = append(c.Words, h)
				}
			}
			if g.Chance(t, 6, "bad") {
				w := badWord(t)
				at := g.Int(t, 0, len(c.Words), "at")
				c.Words = append(c.Words[:at:at], append([]string{w}, c.Words[at:]...)...)
			} else if g.Chance(t, 15, "sep") {
				c.Seps = g.Pick(t, []string{"  ", "   "}, "seps")
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c09)) {
			yield(c09{})
			for _, n := range bigLens(0, 1<<20) { // long words that are not hex
				h := g.Pat(n/2+1, uint32(n)|4).Hex()[:n]
				if n%2 == 0 {
					h += "1"
				}
				if n <= 1<<18 || n%5 == 0 {
					yield(c09{Words: []string{h}})
				}
				yield(c09{Words: []string{"OP_DUP", h[:len(h)/2] + "g" + h[len(h)/2:], "00"}})
			}
			s := func(b []byte) { x := g.Raw(b); yield(c09{Script: &x}) }
			for _, o := range opcodes {
				yield(c09{Words: []string{o.Name}})
				yield(c09{Words: []string{o.Name, "abcd", o.Name}})
				yield(c09{Words: []string{strings.ToLower(o.Name)}})
				yield(c09{Words: []string{strings.TrimPrefix(o.Name, "OP_") + "x"}})
				yield(c09{Words: []string{o.Name + "x", "00"}})
			}
			for v := 0; v < 256; v++ {
				s([]byte{byte(v)})
				s([]byte{1, byte(v)})
				s([]byte{1, byte(v), 0x76})
				s([]byte{0x4c, 1, byte(v), byte(v)})
				yield(c09{Words: []string{fmt.Sprintf("%02x", v)}})
				yield(c09{Words: []string{"OP_DUP", fmt.Sprintf("%02X", v), "OP_1"}})
			}
			for n := 0; n <= 300; n++ {
				for form := 0; form < 3; form++ {
					s(append(g.PushForm(g.Pat(n, uint32(n)|4).Bytes(), form), 0xac))
				}
				s(append(ref.Push(g.Pat(n, uint32(n)|8).Bytes()), 0x61))
			}
			for _, n := range bigLens(0, 1<<21) {
				s(append(ref.Push(g.Pat(n, 9).Bytes()), 0x61))
			}
			for _, n := range g.SweepLens(4200) { // many elements, many words
				for _, e := range []string{"51", "00", "0101", "76a9", "02aabb"} {
					b := g.Blob{N: n * len(e) / 2, R: e}
					yield(c09{Script: &b})
				}
				var w, d []string
				for k := 0; k < n; k++ {
					w = append(w, opcodes[(k+n)%len(opcodes)].Name)
					d = append(d, fmt.Sprintf("%02x", k&255), "OP_DROP")
				}
				if n > 0 {
					yield(c09{Words: w})
					yield(c09{Words: d[:n]})
				}
			}
			for _, n := range bigLens(0, 1<<20) { // long words
				if n == 0 {
					continue
				}
				yield(c09{Words: []string{"OP_RETURN", g.Pat(n, uint32(n)|4).Hex(), "OP_1"}})
			}
			for _, b := range templates(77) {
				near(b, []byte{0, 0x4c, 0xff}, func(x []byte) { s(x) })
			}
			odd := append([]string{}, badWords...)
			for _, w := range g.DictStrings() {
				if w = strings.TrimSpace(w); w != "" && !strings.Contains(w, " ") {
					odd = append(odd, w, w+"ab", w+"OP_DUP", "ab"+w, "OP_DUP"+w)
				}
			}
			for _, w := range odd {
				yield(c09{Words: []string{w}})
				yield(c09{Words: []string{w, "OP_DUP"}})
				yield(c09{Words: []string{"OP_DUP", w}})
				yield(c09{Words: []string{"OP_DUP", w, "00"}})
				yield(c09{Words: []string{"OP_DUP", "aabb", w, "OP_1", w, "00"}})
			}
		},
		Check: func(c c09) error {
			if err := checkOpcodeTable(); err != nil {
				return err
			}
			return check09(c)
		},
		Classify: func(c c09) (bool, []string) {
			if c.Script != nil {
				e, ok := ref.Tokenise(c.Script.Bytes())
				return len(e) > 1, []string{"script to ASM", fmt.Sprintf("decodable=%v", ok)}
			}
			_, ok := assemble(c.Words)
			return len(c.Words) > 1, []string{"ASM to script", fmt.Sprintf("valid=%v", ok)}
		},
		Quick: 800000, Thorough: 12000000,
	})

	pbt.Register(pbt.Def[c10]{
		ID: "C10",
		Rule: "template instances (P2PKH, P2SH, P2PK with 33/65-byte keys, data, multisig), one random edit of one (byte change, insertion, deletion, truncation, re-encoded or swapped element), element sequences and raw bytes; " +
			"the sweep takes every such single edit of fixed instances with all 256 byte values, all 1- and 2-byte scripts and all multisig opcode combinations; non-trivial: at least two elements, or undecodable. The sweep takes hashes and keys of special shapes and multisig scripts of up to thousands of keys. Arguments lie in memory that held other contents in earlier calls.",
		Assumptions: []string{"multisig scripts with no keys or with an empty push among them are left open"},
		Gen: func(t *rapid.T) c10 {
			switch g.Int(t, 0, 5, "kind") {
			case 0:
				return c10{g.AnyBlob(t, 300, "raw")}
			case 1:
				return c10{g.Raw(g.Elements(t, 7, 70, "els"))}
			case 2:
				return c10{g.Raw(genMultisigLike(t))}
			}
			b := g.Pick(t, templates(uint32(g.Int(t, 1, 1<<30, "seed"))), "template")
			for k := g.Int(t, 0, 2, "edits"); k > 0; k-- {
				b = edit(t, b)
			}
			return c10{g.Raw(b)}
		},
		Sweep: func(thorough bool, yield func(c10)) {
			y := func(b []byte) { yield(c10{g.Raw(b)}) }
			y(nil)
			for a := 0; a < 256; a++ {
				y([]byte{byte(a)})
				for b := 0; b < 256; b++ {
					y([]byte{byte(a), byte(b)})
				}
			}
			seeds := []uint32{1, 2, 3}
			if thorough {
				seeds = append(seeds, 4, 5, 6, 7, 8, 9, 10, 11)
			}
			for _, seed := range seeds {
				for _, b := range templates(seed) {
					near(b, allBytes(), y)
				}
			}
			g.AllShapes(20, func(h []byte) {
				y(ref.P2PKH(h))
				y(append(append([]byte{0xa9, 20}, h...), 0x87))
				y(append([]byte{0x6a}, ref.Push(h)...))
				y(append([]byte{0, 0x6a}, ref.Push(h)...))
			})
			for _, v := range []byte{2, 3, 4, 6, 7} {
				n := 32
				if v > 3 {
					n = 64
				}
				g.AllShapes(n, func(x []byte) {
					k := append([]byte{v}, x...)
					y(append(ref.Push(k), 0xac))
					y(append(append([]byte{0x51}, ref.Push(k)...), 0x51, 0xae))
				})
			}
			for _, n := range bigLens(0, 1<<20) { // long data
				y(append([]byte{0x6a}, ref.Push(g.Pat(n, 9).Bytes())...))
				y(append([]byte{0, 0x6a}, ref.Push(g.Pat(n, 9).Bytes())...))
				y(append([]byte{0, 0x6a}, g.Pat(n, 9).Bytes()...))
				y(append(ref.Push(append([]byte{2}, g.Pat(n, 9).Bytes()...)), 0xac))
				y(append(ref.P2PKH(g.Pat(20, 9).Bytes()), g.Pat(n, 9).Bytes()...))
			}
			// multisig: any first, last-but-one and last opcode
			ops := []byte{0, 1, 0x4f, 0x50, 0x51, 0x52, 0x53, 0x60, 0x61, 0xac, 0xad, 0xae, 0xaf}
			for _, a := range ops {
				for _, m := range ops {
					for _, z := range ops {
						b := append([]byte{a}, ref.Push(g.Pat(33, 9).Bytes())...)
						y(append(append(append([]byte{}, b...), ref.Push(g.Pat(33, 7).Bytes())...), m, z))
						y(append(append([]byte{}, b...), m, z))
						y([]byte{a, m, z})
						y([]byte{a, 0x4c, 0, m, z})
						y([]byte{a, 0x76, m, z})
					}
				}
			}
			for _, n := range g.SweepLens(70000) { // many keys
				var b []byte
				for k := 0; k < n; k++ {
					b = append(b, 2, byte(k), byte(k>>8))
				}
				for k, m := range []byte{0x51, 0x60, 0, 0x53} {
					if n > 4200 && k > 0 {
						break
					}
					s := append(append([]byte{m}, b...), 0x60, 0xae)
					y(s)
					s[len(s)-1] = 0xac
					y(s)
					s[len(s)-1], s[len(s)-2] = 0xae, 0x61
					y(s)
				}
				if n > 0 && n <= 4200 { // an opcode among the keys
					s := append(append([]byte{0x52}, b...), 0x60, 0xae)
					s[1+3*(n/2)] = 0x61
					y(s)
					y(append(append(append([]byte{0x52}, b...), 0x76), 0x60, 0xae))
				}
			}
			for n := 1; n <= 17; n++ {
				for m := 0; m <= 16; m++ {
					b := []byte{0x50 + byte(m)}
					if m == 0 {
						b[0] = 0
					}
					for k := 0; k < n; k++ {
						b = append(b, ref.Push(append([]byte{2}, g.Pat(32, uint32(k)+5).Bytes()...))...)
					}
					y(append(b, 0x50+byte(n), 0xae))
				}
			}
			for n := 0; n <= 70; n++ { // key-like pushes of every length and version
				for v := 0; v < 10; v++ {
					d := append([]byte{byte(v)}, g.Pat(n, 9).Bytes()...)
					for form := 0; form < 2; form++ {
						y(append(g.PushForm(d, form), 0xac))
					}
					y(append(ref.Push(d), 0xac))
					y(append(ref.Push(d), 0x01, 0xac))
				}
			}
		},
		Check: check10,
		Classify: func(c c10) (bool, []string) {
			b := c.S.Bytes()
			e, ok := ref.Tokenise(b)
			l := []string{fmt.Sprintf("decodable=%v", ok)}
			for _, p := range []struct {
				n string
				v bool
			}{{"P2PKH", ref.IsP2PKH(b)}, {"P2PK", ref.IsP2PK(b)}, {"P2SH", ref.IsP2SH(b)}, {"data", ref.IsData(b)}, {"multisig", ref.IsMultisig(b) == ref.Yes}, {"multisig left open", ref.IsMultisig(b) == ref.Open}} {
				if p.v {
					l = append(l, p.n)
				}
			}
			return len(e) > 1 || !ok, l
		},
		Quick: 1500000, Thorough: 11250000,
	})
}

var badWords = []string{"0", "abc", "zz", "0x00", "OP_", "OP_NOSUCH", "op_dup", "DUP", "OP_DATA_76", "OP_17", "OP_256", "-1", "1", "OP-DUP", "00,00", "<00>", "0g", "\x00", "é0", "OP_DUP,OP_DUP", "nil", "OP_FALSEOP_RETURN", "'aa'",
	"//", "#", "/*", "*/", ";", "--", "%", "//pay", "#pay", ";pay", "--pay", "/*pay*/", "rem", "REM", "...", "\\", "|", "&&", "$", "@", "!", "?", "*", "+", "-", "=", "(", ")", "{", "}", "[", "]", "<", ">", "<sig>", "<>", "\"\"", "''", "``", "[ALL]", "end", "EOF", "nop", "OP_PUSH", "OP_PUSHDATA", "OP_DATA", "PUSHDATA1", "OP_PUSHDATA3", "OP_RETURN2", "0x51:1", "1:51", "51//", "51#"}

func badWord(t *rapid.T) string {
	switch g.Int(t, 0, 3, "badkind") {
	case 0:
		return g.Pick(t, badWords, "word")
	case 1: // odd number of digits
		h := g.HexOf(g.BytesN(t, g.Int(t, 1, 40, "n"), "hex"))
		return h[1:]
	case 2: // one foreign character in hex
		h := []byte(g.HexOf(g.BytesN(t, g.Int(t, 1, 40, "n"), "hex")))
		h[g.Int(t, 0, len(h)-1, "at")] = g.Pick(t, []byte("gGzOlx_-."), "ch")
		return string(h)
	}
	n := g.Pick(t, opcodes, "name").Name
	return strings.Replace(n, "_", "", 1) + "_"
}

// decorations are what people put around hex digits.
var decorations = []string{" ", "  ", "\t", "\n", "\r\n", "\x00", "0x", "0X", "x", "X", "h", "H", "#", "'", "\"", "\"\"", "-", "+", ":", "::", "_", ",", ".", ";", "$", "&H", "=", "==", "%", "\\x", "hex:", "\u200b", "\ufeff", "\u00a0", "{", "}", "[", "]", "(", ")", "<", ">", "/", "g", "G", "l", "O", "o", "\u0660", "\uff10"}

// decorate makes texts that are nearly h, hexadecimal digits, and are not
// hexadecimal.
func decorate(h, d string) []string {
	n := len(h)
	at := n / 4 * 2
	all := []string{d + h, h + d, d + h + d, h[:at] + d + h[at:], d + d + h}
	if n > len(d) { // of the same length
		all = append(all, d+h[len(d):], d+h[:n-len(d)], h[:n-len(d)]+d, h[:n-len(d)-at%2]+d)
	}
	if n <= 200 {
		var pairs []string
		for i := 0; i+2 <= n; i += 2 {
			pairs = append(pairs, h[i:i+2])
		}
		all = append(all, strings.Join(pairs, d), d+strings.Join(pairs, d), strings.Join(pairs, d)+d)
	}
	var out []string
	for _, s := range all {
		if _, err := hex.DecodeString(s); err != nil && utf8.ValidString(s) {
			out = append(out, s)
		}
	}
	return out
}

// badHexOf are the texts of decorate with all decorations, and the words of
// the code; and badHexTexts.
func badHexOf(h string) []string {
	out := append([]string{}, badHexTexts...)
	for _, d := range decorations {
		out = append(out, decorate(h, d)...)
	}
	for _, d := range g.DictStrings() {
		if len(d) > 0 && len(d) <= 20 {
			out = append(out, decorate(h, d)...)
		}
	}
	for k := 1; k < len(h) && k < 140; k += 2 { // an odd number of digits
		out = append(out, h[k:], h[:len(h)-k])
	}
	wide := []rune(h)
	for i, r := range wide {
		if r < 0x80 {
			wide[i] = r + 0xfee0
		}
	}
	return append(out, string(wide), h+"0", "0"+h)
}

func badHex(t *rapid.T) string {
	switch g.Int(t, 0, 3, "badkind") {
	case 0:
		return g.Pick(t, badHexTexts, "word")
	case 3:
		d := g.Pick(t, decorations, "decoration")
		if w := g.DictStrings(); len(w) > 0 && g.Chance(t, 4, "word of the code") {
			d = g.Pick(t, w, "decoration")
		}
		l := decorate(g.HexOf(g.BytesN(t, g.Pick(t, []int{1, 4, 20, 25, 32, 32, 33, 60}, "n"), "hex")), d)
		if len(l) > 0 {
			return g.Pick(t, l, "how")
		}
	case 1:
		h := g.HexOf(g.BytesN(t, g.Int(t, 1, 60, "n"), "hex"))
		return h[1:]
	}
	h := []byte(g.HexOf(g.BytesN(t, g.Int(t, 1, 60, "n"), "hex")))
	h[g.Int(t, 0, len(h)-1, "at")] = g.Pick(t, []byte("gGzOlx_- .\n"), "ch")
	return string(h)
}

func genMultisigLike(t *rapid.T) []byte {
	n := g.Int(t, 0, 5, "keys")
	m := g.Int(t, 0, 6, "m")
	b := []byte{0x50 + byte(m)}
	for k := 0; k < n; k++ {
		switch g.Int(t, 0, 7, "key") {
		case 0:
			b = append(b, g.Element(t, 40, "el")...)
		case 1:
			b = append(b, 0x65+byte(g.Int(t, 0, 60, "op")))
		default:
			b = append(b, ref.Push(g.BytesN(t, g.Pick(t, []int{1, 33, 33, 33, 65, 80}, "klen"), "key"))...)
		}
	}
	b = append(b, 0x50+byte(g.Int(t, 0, 17, "n")), 0xae)
	if g.Chance(t, 3, "edit") {
		b = edit(t, b)
	}
	return b
}

// edit makes one small change to a script.
func edit(t *rapid.T, b []byte) []byte {
	if len(b) == 0 {
		return []byte{g.Byte(t, "b")}
	}
	at := g.Int(t, 0, len(b)-1, "at")
	switch g.Int(t, 0, 6, "edit") {
	case 0:
		c := append([]byte{}, b...)
		c[at] = g.Byte(t, "b")
		return c
	case 1:
		return append(append(append([]byte{}, b[:at]...), g.Byte(t, "b")), b[at:]...)
	case 2:
		return append(append([]byte{}, b[:at]...), b[at+1:]...)
	case 3:
		return append([]byte{}, b[:at]...)
	case 4:
		return append(append([]byte{}, b...), g.Element(t, 30, "el")...)
	case 5:
		c := append([]byte{}, b...)
		c[at] ^= 1 << g.Int(t, 0, 7, "bit")
		return c
	}
	e, ok := ref.Tokenise(b)
	if !ok || len(e) == 0 {
		return b
	}
	k := g.Int(t, 0, len(e)-1, "elem")
	end := len(b)
	if k+1 < len(e) {
		end = e[k+1].Start
	}
	return append(append(append([]byte{}, b[:e[k].Start]...), reencode(e[k], g.Int(t, 0, 2, "form"))...), b[end:]...)
}
