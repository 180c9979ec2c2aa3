package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/bitcoinsv/bsvd/chaincfg/chainhash"
	"github.com/bitcoinsv/bsvd/wire"
	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/utils"
	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/keep"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// leaves are n transaction ids in hash byte order.
type leaves struct {
	N     int    `json:"n"`
	S     uint32 `json:"s,omitempty"`
	Mode  int    `json:"mode,omitempty"` // 0 distinct, 1 equal, 2 zero, 3 pairs equal, 4 zero bytes at the ends, 5 last repeated, 6 shapes, 7 pairs whose parent has zero or ff bytes at an end, 8 neighbours much alike, 9 pairs whose parents are much alike, 10 relatives of one another, 11 every third the parent of two others, 12 ids that are nodes of another part of the tree
	Upper bool   `json:"upper,omitempty"`
	Alt   []int  `json:"alt,omitempty"` // these ids (modulo n) are others
}

func altHash(s uint32, k int) []byte { return g.Pat(32, 3+(s^uint32(k)*40503+77)&0x7fffffff).Bytes() }

func (l leaves) hashes() [][]byte {
	out := make([][]byte, l.N)
	for k := range out {
		j := k
		switch l.Mode {
		case 1:
			j = 0
		case 3:
			j = k / 2
		case 5:
			if k == l.N-1 && k > 0 {
				j = k - 1
			}
		}
		out[k] = g.Pat(32, 3+(l.S+uint32(j)*2654435761)&0x7fffffff).Bytes()
		switch l.Mode {
		case 2:
			out[k] = make([]byte, 32)
		case 6:
			out[k] = g.Shape(32, int(l.S&0xffff)+k)
		case 7:
			out[k] = g.MinedLeaf(0)
			if k%2 == 1 {
				out[k] = g.MinedLeaf(g.MinedSiblings[(int(l.S&0xffff)+k/2)%len(g.MinedSiblings)])
			}
		case 8:
			out[k] = twinLeaves()[(int(l.S&0xffff)+k)%len(twinLeaves())]
		case 9:
			out[k] = g.MinedLeaf(0)
			if k%2 == 1 {
				out[k] = g.MinedLeaf(g.MinedSiblingTwins[(int(l.S&0xffff)+k/2)%len(g.MinedSiblingTwins)])
			}
		case 10:
			base := g.Pat(32, 3+l.S&0xff).Bytes()
			if k >= 40 {
				base = out[k-40]
			}
			rel := g.Relatives(base)
			out[k] = rel[(k+int(l.S>>8&0xff))%len(rel)]
		case 11:
			if k%3 == 2 {
				out[k] = ref.Sha256d(append(append([]byte{}, out[k-2]...), out[k-1]...))
			} else if k > 3 && k%12 == 3 {
				out[k] = out[k-1]
			}
		case 4:
			copy(out[k], []byte{0, 0, 0})
			out[k][31] = byte(k)
			out[k][30] = 0
		}
	}
	if l.Mode == 12 {
		grafts(out, l.S)
	}
	for _, a := range l.Alt {
		if l.N > 0 {
			out[a%l.N] = altHash(l.S, a)
		}
	}
	return out
}

// grafts makes runs of one, two or four leaves equal nodes elsewhere in the
// tree, so that two nodes of different rows are equal.
func grafts(l [][]byte, seed uint32) {
	for k := seed % 3; k < 3; k++ {
		rows := [][][]byte{l}
		for len(rows[len(rows)-1]) > 1 {
			var up [][]byte
			for row, i := rows[len(rows)-1], 0; i < len(row); i += 2 {
				up = append(up, ref.Sha256d(append(append([]byte{}, row[i]...), row[min(i+1, len(row)-1)]...)))
			}
			rows = append(rows, up)
		}
		pick := func(n int) int {
			seed = seed*1664525 + 1013904223
			return int(seed>>9) % n
		}
		size := 1 << pick(3)
		from := rows[pick(len(rows))]
		to, at := pick(len(l)), pick(len(from))
		if pick(2) == 0 { // where the first branches are
			to, at = size, size
		}
		to, at = to/size*size, at/size*size
		if to+size <= len(l) && at+size <= len(from) {
			copy(l[to:to+size], append([][]byte{}, from[at:at+size]...))
		}
	}
}

// twinLeaves are hashes that have much in common with their neighbours.
var twinLeaves = sync.OnceValue(func() (l [][]byte) {
	g.Twins(32, func(a, b []byte) { l = append(l, a, b) })
	return l
})

// ids are the same as the hex a caller passes.
func (l leaves) ids() []string {
	out := make([]string, l.N)
	for k, h := range l.hashes() {
		out[k] = hex.EncodeToString(ref.Rev(h))
		if l.Upper {
			out[k] = strings.ToUpper(out[k])
		}
	}
	return out
}

func genLeaves(t *rapid.T, max int) leaves {
	l := leaves{S: g.U32(t, "seed"), Mode: g.Pick(t, []int{0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12}, "mode"), Upper: g.Chance(t, 5, "upper")}
	switch g.Int(t, 0, 3, "nkind") {
	case 0:
		l.N = g.Int(t, 1, min(max, 9), "n")
	case 1:
		l.N = g.Int(t, 1, min(max, 70), "n")
	case 2:
		l.N = min(max, 1<<g.Int(t, 0, 10, "log")+g.Int(t, 0, 2, "d"))
	default:
		l.N = g.Int(t, 1, max, "n")
	}
	for k := max0(g.Int(t, -3, 2, "alts")); k > 0; k-- {
		l.Alt = append(l.Alt, g.Int(t, 0, 4096, "alt"))
	}
	return l
}

func max0(n int) int { return max(n, 0) }

func depthOf(n int) int {
	d := 0
	for n > 1 {
		n = (n + 1) / 2
		d++
	}
	return d
}

// ---- C18 ------------------------------------------------------------------

type c18 struct {
	Leaves leaves `json:"leaves"`
	Other  string `json:"other,omitempty"` // another first id
	// Swap: one by one, these ids (modulo n) become others, and the branches
	// are asked for again; then the first list's once more.
	Swap []int `json:"swap,omitempty"`
}

func check18(c c18) error {
	ids := c.Leaves.ids()
	hashes := c.Leaves.hashes()
	root, path := ref.Merkle(hashes, 0)
	given := append([]string{}, ids...)
	given = reusedTexts(given, func(l []string) { _ = block.GetMerkleBranches(l) })
	br := block.GetMerkleBranches(given)
	for k := range ids {
		if given[k] != ids[k] {
			return fmt.Errorf("GetMerkleBranches changed id %d of its argument", k)
		}
	}
	if len(br) != len(path) {
		return fmt.Errorf("%d ids: %d branches, want %d", len(ids), len(br), len(path))
	}
	first := reused(hashes[0], func(b []byte) { _ = block.BuildMerkleRootFromCoinbase(b, br) })
	if err := same(fmt.Sprintf("root of %d ids", len(ids)), block.BuildMerkleRootFromCoinbase(first, br), root); err != nil {
		return err
	}
	got := block.BuildMerkleRootFromCoinbase(first, reusedTexts(br, func(l []string) { _ = block.BuildMerkleRootFromCoinbase(first, l) }))
	if err := same(fmt.Sprintf("root of %d ids", len(ids)), got, root); err != nil {
		return err
	}
	if len(c.Swap) > 0 && len(ids) > 1 {
		kept := append([]string{}, br...)
		list := append([]string{}, ids...)
		hs := append([][]byte{}, hashes...)
		for _, at := range c.Swap {
			k := at % len(ids)
			hs[k] = altHash(c.Leaves.S, at+1)
			list[k] = hex.EncodeToString(ref.Rev(hs[k]))
			r, p := ref.Merkle(hs, 0)
			b := block.GetMerkleBranches(list)
			if len(b) != len(p) {
				return fmt.Errorf("%d ids, with id %d replaced: %d branches, want %d", len(ids), k, len(b), len(p))
			}
			if err := same(fmt.Sprintf("root of %d ids, with id %d replaced", len(ids), k), block.BuildMerkleRootFromCoinbase(append([]byte{}, hs[0]...), b), r); err != nil {
				return err
			}
		}
		again := block.GetMerkleBranches(given)
		if err := same(fmt.Sprintf("root of %d ids, asked for again", len(ids)), block.BuildMerkleRootFromCoinbase(append([]byte{}, hashes[0]...), again), root); err != nil {
			return err
		}
		for k := range br {
			if br[k] != kept[k] {
				return fmt.Errorf("branch %d of the first list changed later from %s to %s", k, kept[k], br[k])
			}
		}
	}
	if c.Other != "" {
		given[0] = c.Other
		h := ref.Rev(g.Unhex(c.Other))
		if len(ids) > 1 || true {
			br2 := block.GetMerkleBranches(given)
			if len(br2) != len(br) {
				return fmt.Errorf("another first id gives %d branches, not %d", len(br2), len(br))
			}
			for k := range br {
				if !strings.EqualFold(br[k], br2[k]) {
					return fmt.Errorf("branch %d depends on the first id: %s and %s", k, br[k], br2[k])
				}
			}
		}
		hashes[0] = h
		root, _ = ref.Merkle(hashes, 0)
		got = block.BuildMerkleRootFromCoinbase(append([]byte{}, h...), br)
		return same("root after replacing the first id", got, root)
	}
	return nil
}

// ---- C19 ------------------------------------------------------------------

type c19 struct {
	Leaves leaves   `json:"leaves"`
	Pos    int      `json:"pos"`
	Mut    string   `json:"mut,omitempty"` // id path pos drop extra swap badid badpath
	A      int      `json:"a,omitempty"`
	B      int      `json:"b,omitempty"`
	Text   string   `json:"text,omitempty"`
	Path   []string `json:"path,omitempty"` // a proof given outright, with Text the id
}

func check19(c c19) error {
	var id string
	var path []string
	var pos int
	if c.Leaves.N > 0 {
		hashes := c.Leaves.hashes()
		pos = c.Pos
		root, sib := ref.Merkle(hashes, pos)
		id = c.Leaves.ids()[pos]
		for _, s := range sib {
			x := hex.EncodeToString(ref.Rev(s))
			if c.Leaves.Upper {
				x = strings.ToUpper(x)
			}
			path = append(path, x)
		}
		got, err := block.MerkleRootFromBranches(id, pos, reusedTexts(path, func(l []string) { _, _ = block.MerkleRootFromBranches(id, pos, l) }))
		if err != nil {
			return fmt.Errorf("position %d of %d: %v", pos, c.Leaves.N, err)
		}
		if err := sameStr(fmt.Sprintf("root from position %d of %d", pos, c.Leaves.N), strings.ToLower(got), hex.EncodeToString(ref.Rev(root))); err != nil {
			return err
		}
	} else {
		id, path, pos = c.Text, append([]string{}, c.Path...), c.Pos
	}
	flip := func(s string, bit int) string {
		b := g.Unhex(s)
		bit = ((bit % (8 * len(b))) + 8*len(b)) % (8 * len(b))
		b[bit/8] ^= 1 << (bit % 8)
		return hex.EncodeToString(b)
	}
	bad := false
	switch c.Mut {
	case "id":
		id = flip(id, c.A)
	case "path":
		if len(path) > 0 {
			k := c.A % len(path)
			path[k] = flip(path[k], c.B)
		}
	case "pos":
		pos = c.A
	case "drop":
		if len(path) > 0 {
			k := c.A % len(path)
			path = append(path[:k:k], path[k+1:]...)
		}
	case "extra":
		for k := 0; k <= c.A%70; k++ {
			path = append(path, hex.EncodeToString(g.Pat(32, uint32(k+5)).Bytes()))
		}
	case "swap":
		if len(path) > 1 {
			a, b := c.A%len(path), c.B%len(path)
			path[a], path[b] = path[b], path[a]
		}
	case "badid":
		id, bad = c.Text, !isHex(c.Text)
	case "badpath":
		if len(path) == 0 {
			return nil
		}
		path[c.A%len(path)], bad = c.Text, !isHex(c.Text)
	}
	if (c.Mut == "badid" || c.Mut == "badpath") && !bad {
		return nil
	}
	given := reusedTexts(append([]string{}, path...), func(l []string) { _, _ = block.MerkleRootFromBranches(id, pos, l) })
	got, err := block.MerkleRootFromBranches(id, pos, given)
	for k := range path {
		if path[k] != given[k] {
			return fmt.Errorf("MerkleRootFromBranches changed path element %d", k)
		}
	}
	if bad || pos < 0 || len(path) < 63 && pos>>len(path) != 0 {
		if err == nil {
			return fmt.Errorf("MerkleRootFromBranches(%q, %d, %q) = %s and no error", id, pos, path, got)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("MerkleRootFromBranches(%q, %d, %d elements): %v", id, pos, len(path), err)
	}
	var sib [][]byte
	for _, p := range path {
		sib = append(sib, ref.Rev(g.Unhex(p)))
	}
	want := ref.Fold(ref.Rev(g.Unhex(id)), pos, sib)
	return sameStr(fmt.Sprintf("root from id %s, position %d, path %q", id, pos, path), strings.ToLower(got), hex.EncodeToString(ref.Rev(want)))
}

// ---- C20 ------------------------------------------------------------------

type c20 struct {
	Version uint32 `json:"version"`
	Prev    string `json:"prev"` // as displayed
	Root    string `json:"root"`
	Time    string `json:"time"`
	Bits    string `json:"bits"`
	Nonce   string `json:"nonce"`
	Upper   bool   `json:"upper,omitempty"`
}

func check20(c c20) error {
	prev := c.Prev
	if c.Upper {
		prev = strings.ToUpper(prev)
	}
	args := [][]byte{g.Unhex(c.Root), g.Unhex(c.Time), g.Unhex(c.Bits), g.Unhex(c.Nonce)}
	want := []byte{byte(c.Version), byte(c.Version >> 8), byte(c.Version >> 16), byte(c.Version >> 24)}
	want = append(want, ref.Rev(g.Unhex(c.Prev))...)
	for _, h := range []string{c.Root, c.Time, c.Bits, c.Nonce} {
		want = append(want, g.Unhex(h)...)
	}
	for k := range args { // each in memory that held another one before
		args[k] = reused(args[k], func(b []byte) {
			a := append([][]byte{}, args...)
			a[k] = b
			_ = block.BuildBlockHeader(c.Version, prev, a[0], a[1], a[2], a[3])
		})
		if err := same("header", block.BuildBlockHeader(c.Version, prev, args[0], args[1], args[2], args[3]), want); err != nil {
			return err
		}
	}
	got := block.BuildBlockHeader(c.Version, prev, args[0], args[1], args[2], args[3])
	for k, h := range []string{c.Root, c.Time, c.Bits, c.Nonce} {
		if !bytes.Equal(args[k], g.Unhex(h)) {
			return fmt.Errorf("BuildBlockHeader changed its argument %d to %x", k, args[k])
		}
	}
	if err := same("header", got, want); err != nil {
		return err
	}
	if len(got) != 80 {
		return fmt.Errorf("header of %d bytes", len(got))
	}
	var h wire.BlockHeader
	if err := h.Deserialize(bytes.NewReader(got)); err != nil {
		return fmt.Errorf("bsvd does not parse the header: %v", err)
	}
	le := func(s string) uint32 {
		b := g.Unhex(s)
		return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
	}
	root, _ := chainhash.NewHash(g.Unhex(c.Root))
	if uint32(h.Version) != c.Version || h.PrevBlock.String() != c.Prev || h.MerkleRoot != *root || uint32(h.Timestamp.Unix()) != le(c.Time) || h.Bits != le(c.Bits) || h.Nonce != le(c.Nonce) {
		return fmt.Errorf("parsed header %+v is not %+v", h, c)
	}
	bh := h.BlockHash()
	return same("block hash", bh[:], ref.Sha256d(got))
}

// related20 makes fields of a header from one another: the root and the
// previous hash, and the four-byte fields.
func related20(c c20, how int, yield func(c20)) {
	rel := g.Relatives(g.Unhex(c.Prev))
	c.Root = hex.EncodeToString(rel[how%len(rel)])
	how /= len(rel)
	v := []byte{byte(c.Version), byte(c.Version >> 8), byte(c.Version >> 16), byte(c.Version >> 24)}
	four := [][]byte{g.Unhex(c.Time), g.Unhex(c.Bits), g.Unhex(c.Nonce)}
	for k := range four {
		src := [][]byte{four[k], four[(k+1)%3], v, ref.Rev(v), ref.Rev(four[(k+2)%3]), g.Unhex(c.Prev)[:4], g.Unhex(c.Prev)[28:], g.Unhex(c.Root)[:4]}
		four[k] = src[how%len(src)]
		how /= len(src)
	}
	c.Time, c.Bits, c.Nonce = hex.EncodeToString(four[0]), hex.EncodeToString(four[1]), hex.EncodeToString(four[2])
	yield(c)
}

// ---- C21 ------------------------------------------------------------------

type c21 struct {
	Height uint32  `json:"height"`
	Value  uint64  `json:"value"`
	Text   g.Blob  `json:"text"`
	Hash   string  `json:"hash,omitempty"` // pay this key hash
	Main   bool    `json:"main,omitempty"`
	Addr   *string `json:"addr,omitempty"` // or this text
	WC     *g.Blob `json:"wc,omitempty"`
	BadWC  *string `json:"badwc,omitempty"`
	Upper  bool    `json:"upper,omitempty"`
	Miner  g.Blob  `json:"miner"`
	Nonces string  `json:"nonces"` // 12 bytes
	Split  int     `json:"split"`
}

func check21(c c21) error {
	addr := ref.Address(g.Unhex(c.Hash+strings.Repeat("00", 20-len(c.Hash)/2)), c.Main)
	if c.Addr != nil {
		addr = *c.Addr
	}
	_, h, ok := ref.ParseAddress(addr)
	wc := ""
	if c.WC != nil {
		wc = c.WC.Hex()
		if c.Upper {
			wc = strings.ToUpper(wc)
		}
	}
	if c.BadWC != nil {
		wc = *c.BadWC
	}
	if c.Addr != nil && !ok || !isHex(wc) {
		c1, c2, err := block.GetCoinbaseParts(c.Height, c.Value, wc, string(c.Text.Bytes()), addr, c.Miner.Bytes())
		if err == nil {
			return fmt.Errorf("GetCoinbaseParts with address %q and commitment %q: %x %x and no error", addr, wc, c1, c2)
		}
		return nil
	}
	miner := reused(c.Miner.Bytes(), func(b []byte) {
		_, _, _ = block.GetCoinbaseParts(c.Height, c.Value, wc, string(c.Text.Bytes()), addr, b)
	})
	c1, c2, err := block.GetCoinbaseParts(c.Height, c.Value, wc, string(c.Text.Bytes()), addr, miner)
	if err != nil {
		return fmt.Errorf("GetCoinbaseParts(%d, %d, %q, ..., %q): %v", c.Height, c.Value, wc, addr, err)
	}
	if !bytes.Equal(miner, c.Miner.Bytes()) {
		return fmt.Errorf("GetCoinbaseParts changed the miner id")
	}
	nonces := g.Unhex(c.Nonces)
	e1, e2 := hex.EncodeToString(nonces[:c.Split]), hex.EncodeToString(nonces[c.Split:])
	if c.Upper {
		e1, e2 = strings.ToUpper(e1), strings.ToUpper(e2)
	}
	p1, p2 := append([]byte{}, c1...), append([]byte{}, c2...)
	// joined by appending, as a caller may
	head := append(c1, nonces...)
	if !bytes.Equal(p2, c2) {
		return fmt.Errorf("appending the extra nonces to the first part changed the second: %x to %x", p2, c2)
	}
	if err := same("BuildCoinbase and the parts joined by hand", block.BuildCoinbase(c1, c2, e1, e2), append(head, c2...)); err != nil {
		return err
	}
	c1 = reused(c1, func(b []byte) { _ = block.BuildCoinbase(b, c2, e1, e2) })
	early := block.BuildCoinbase(c1, c2, e1, e2)
	c2 = reused(c2, func(b []byte) { _ = block.BuildCoinbase(c1, b, e1, e2) })
	whole := block.BuildCoinbase(c1, c2, e1, e2)
	if err := same("BuildCoinbase again", early, whole); err != nil {
		return err
	}
	if !bytes.Equal(p1, c1) || !bytes.Equal(p2, c2) {
		return fmt.Errorf("BuildCoinbase changed its parts")
	}
	text := c.Text.Bytes()
	in := ref.In{Hash: make([]byte, 32), Vout: 0xffffffff, Seq: 0xffffffff}
	in.Script = []byte{3, byte(c.Height), byte(c.Height >> 8), byte(c.Height >> 16)}
	in.Script = append(in.Script, text[:min(len(text), 84)]...)
	in.Script = append(in.Script, nonces...)
	want := &ref.Tx{Version: 1, In: []ref.In{in}, Out: []ref.Out{{Sats: c.Value, Script: ref.P2PKH(h)}}}
	if wc != "" {
		want.Out = append(want.Out, ref.Out{Script: c.WC.Bytes()})
	}
	if len(miner) > 0 {
		want.Out = append(want.Out, ref.Out{Script: miner})
	}
	if len(in.Script) > 100 {
		return fmt.Errorf("reference input script of %d bytes", len(in.Script))
	}
	got, p := ref.ParseTx(whole)
	if !p.OK || got == nil {
		return fmt.Errorf("the joined coinbase %s does not parse", short(whole))
	}
	tx, err := transaction.NewFromBytes(whole)
	if err != nil {
		return fmt.Errorf("the joined coinbase %s does not parse: %v", short(whole), err)
	}
	if !tx.IsCoinbase() {
		return fmt.Errorf("the joined coinbase %s is not a coinbase", short(whole))
	}
	if err := txFields(tx, want); err != nil {
		return err
	}
	spoilTx(tx)
	return same("joined coinbase", whole, want.Bytes())
}

// ---- C22 ------------------------------------------------------------------

type c22 struct {
	Bits  uint32  `json:"bits"`
	Bits2 *uint32 `json:"bits2,omitempty"` // compare difficulties with these
	Upper bool    `json:"upper,omitempty"`
	Text  *string `json:"text,omitempty"`
}

// compact is the integer that compact bits stand for.
func compactInt(bits uint32) *big.Int {
	m := big.NewInt(int64(bits & 0x7fffff))
	e := int(bits >> 24)
	if e >= 3 {
		m.Lsh(m, uint(8*(e-3)))
	} else {
		m.Rsh(m, uint(8*(3-e)))
	}
	if bits&0x800000 != 0 {
		m.Neg(m)
	}
	return m
}

var genesisTarget = new(big.Int).Lsh(big.NewInt(0xffff), 208)

func near64(what string, got float64, want *big.Float, tol float64) error {
	w, _ := want.Float64()
	if got == w {
		return nil
	}
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return fmt.Errorf("%s: got %v, want %v", what, got, w)
	}
	d := new(big.Float).SetPrec(200).Sub(new(big.Float).SetPrec(200).SetFloat64(got), want)
	d.Abs(d)
	lim := new(big.Float).SetPrec(200).Mul(new(big.Float).Abs(want), big.NewFloat(tol))
	lim.Add(lim, big.NewFloat(5e-324))
	if d.Cmp(lim) > 0 {
		return fmt.Errorf("%s: got %v, want %v", what, got, w)
	}
	return nil
}

func check22(c c22) error {
	if c.Text != nil {
		if isHex(*c.Text) && len(*c.Text) == 8 {
			return nil
		}
		_, e1 := block.ExpandTargetFrom(*c.Text)
		_, e2 := block.ExpandTargetFromAsInt(*c.Text)
		_, e3 := block.DifficultyFromBits(*c.Text)
		return firstErr(mustErr(fmt.Sprintf("ExpandTargetFrom(%q)", *c.Text), e1), mustErr(fmt.Sprintf("ExpandTargetFromAsInt(%q)", *c.Text), e2), mustErr(fmt.Sprintf("DifficultyFromBits(%q)", *c.Text), e3))
	}
	one := func(bits uint32) (*big.Int, float64, bool, error) {
		text := fmt.Sprintf("%08x", bits)
		if c.Upper {
			text = strings.ToUpper(text)
		}
		want := compactInt(bits)
		got, err := block.ExpandTargetFromAsInt(text)
		if err != nil || got == nil {
			return nil, 0, false, fmt.Errorf("ExpandTargetFromAsInt(%s): %v", text, err)
		}
		if got.Cmp(want) != 0 {
			return nil, 0, false, fmt.Errorf("ExpandTargetFromAsInt(%s) = %x, want %x", text, got, want)
		}
		keep.AtEnd(func() { got.Add(got, big.NewInt(12345)) })
		s, err := block.ExpandTargetFrom(text)
		if want.Sign() >= 0 {
			if want.BitLen() > 256 {
				if err == nil {
					return nil, 0, false, fmt.Errorf("ExpandTargetFrom(%s) = %s for a target of %d bits", text, s, want.BitLen())
				}
			} else if err != nil || s != fmt.Sprintf("%064x", want) {
				return nil, 0, false, fmt.Errorf("ExpandTargetFrom(%s) = %q, %v, want %064x", text, s, err, want)
			}
		}
		d, err := block.DifficultyFromBits(text)
		if want.Sign() <= 0 {
			return want, 0, false, nil // nothing is said about these
		}
		if err != nil {
			if want.BitLen() <= 256 {
				return nil, 0, false, fmt.Errorf("DifficultyFromBits(%s): %v", text, err)
			}
			return want, 0, false, nil
		}
		q := new(big.Float).SetPrec(200).SetInt(genesisTarget)
		q.Quo(q, new(big.Float).SetPrec(200).SetInt(want))
		return want, d, true, near64(fmt.Sprintf("DifficultyFromBits(%s)", text), d, q, 1e-14)
	}
	t1, d1, ok1, err := one(c.Bits)
	if err != nil || c.Bits2 == nil {
		return err
	}
	t2, d2, ok2, err := one(*c.Bits2)
	if err != nil || !ok1 || !ok2 {
		return err
	}
	if cmp := t1.Cmp(t2); cmp == 0 && d1 != d2 || cmp < 0 && d1 < d2 || cmp > 0 && d1 > d2 {
		return fmt.Errorf("bits %08x and %08x: targets %x and %x have difficulties %v and %v", c.Bits, *c.Bits2, t1, t2, d1, d2)
	}
	return nil
}

// ---- C23 ------------------------------------------------------------------

type c23 struct {
	Coin string  `json:"coin,omitempty"`
	Diff uint64  `json:"diff,omitempty"`
	Secs uint64  `json:"secs,omitempty"` // float64 bits, a positive number
	Rate *uint64 `json:"rate,omitempty"` // float64 bits: display this
}

var units = []struct {
	name string
	exp  int
}{{"ZH/s", 21}, {"EH/s", 18}, {"PH/s", 15}, {"TH/s", 12}, {"GH/s", 9}, {"MH/s", 6}, {"kH/s", 3}, {"H/s", 0}}

var shownRate = regexp.MustCompile(`^([0-9]+\.[0-9][0-9]) ([kMGTPEZ]?H/s)$`)

func checkDisplay(v float64) error {
	s := utils.HumanHash(v)
	m := shownRate.FindStringSubmatch(s)
	if m == nil {
		return fmt.Errorf("HumanHash(%v) = %q", v, s)
	}
	exact := new(big.Float).SetPrec(2000).SetFloat64(v)
	for _, u := range units {
		ten := new(big.Float).SetPrec(2000).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(u.exp)), nil))
		if u.exp > 0 && exact.Cmp(ten) < 0 {
			continue
		}
		if m[2] != u.name {
			return fmt.Errorf("HumanHash(%v) = %q, want the unit %s", v, s, u.name)
		}
		want := new(big.Float).SetPrec(2000).Quo(exact, ten)
		got, _, err := big.ParseFloat(m[1], 10, 2000, big.ToNearestEven)
		if err != nil {
			return fmt.Errorf("HumanHash(%v) = %q: %v", v, s, err)
		}
		d := new(big.Float).SetPrec(2000).Sub(got, want)
		d.Abs(d)
		lim := new(big.Float).SetPrec(2000).Mul(want, big.NewFloat(4e-16)) // the division may round
		lim.Add(lim, big.NewFloat(0.005000000001))
		if d.Cmp(lim) > 0 {
			return fmt.Errorf("HumanHash(%v) = %q, want %s %s", v, s, want.Text('f', 4), u.name)
		}
		return nil
	}
	return nil
}

func check23(c c23) error {
	if c.Rate != nil {
		v := math.Float64frombits(*c.Rate)
		if v < 0 || math.IsNaN(v) || math.IsInf(v, 0) {
			return nil
		}
		return checkDisplay(v)
	}
	secs := math.Float64frombits(c.Secs)
	if !(secs > 0) || math.IsInf(secs, 0) {
		return nil
	}
	got := block.DifficultyToHashrate(c.Coin, c.Diff, secs)
	t := genesisTarget
	if strings.HasPrefix(c.Coin, "R") {
		t = compactInt(0x207fffff)
	}
	f := func(i *big.Int) *big.Float { return new(big.Float).SetPrec(400).SetInt(i) }
	want := f(new(big.Int).Lsh(big.NewInt(1), 256))
	want.Quo(want, f(t))
	want.Mul(want, f(new(big.Int).SetUint64(c.Diff)))
	want.Quo(want, new(big.Float).SetPrec(400).SetFloat64(secs))
	w, _ := want.Float64()
	if math.IsInf(w, 0) || w != 0 && w < 1e-300 {
		return nil // beyond what a float64 holds
	}
	if err := near64(fmt.Sprintf("DifficultyToHashrate(%q, %d, %v)", c.Coin, c.Diff, secs), got, want, 1e-13); err != nil {
		return err
	}
	return checkDisplay(got)
}

func genFloat(t *rapid.T, label string) float64 {
	switch g.Int(t, 0, 5, label+"?") {
	case 0:
		return float64(g.Int(t, 0, 2000, label))
	case 1: // around a power of ten
		v := math.Pow10(g.Int(t, 0, 24, label+".p")) * g.Pick(t, []float64{1, 0.999, 0.99999, 0.995, 0.9949999, 999.99, 999.995, 5, 10, 100, 12.345, 12.355}, label+".m")
		return math.Float64frombits(math.Float64bits(v) + uint64(g.Int(t, 0, 4, label+".ulp")) - 2)
	case 2:
		return float64(g.U64(t, label))
	case 3:
		return math.Float64frombits(g.Raw64(t, label) & 0x7fffffffffffffff)
	}
	return math.Pow(10, float64(g.Int(t, 0, 26000, label+".e"))/1000)
}

// ---------------------------------------------------------------------------

func init() {
	pbt.Register(pbt.Def[c18]{
		ID:   "C18",
		Rule: "lists of 1 to 3000 transaction ids (distinct, equal, zero, with zero bytes at the ends, with the last repeated; either hex case), with the first id replaced by another: the branches' root is compared with a reference merkle tree, their number with its depth. Non-trivial: at least two ids. The sweep takes every count 1..1100. It takes leaves of rare shapes, and pairs whose parents have rare shapes (found by search). Ids may be relatives of one another and equal nodes elsewhere in the tree. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c18 {
			c := c18{Leaves: genLeaves(t, 3000), Other: g.Hash32(t, "other")}
			for k := max0(g.Int(t, -2, 3, "swaps")); k > 0; k-- {
				c.Swap = append(c.Swap, g.Int(t, 0, 4096, "swap"))
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c18)) {
			top := 1100
			if thorough {
				top = 4200
			}
			for n := 1; n <= top; n++ {
				c := c18{Leaves: leaves{N: n, S: uint32(n)}, Other: g.Pat(32, uint32(n)+9).Hex()}
				if n < 70 {
					for k := 0; k < n; k++ {
						c.Swap = append(c.Swap, k)
					}
				}
				yield(c)
				if n < 300 {
					for mode := 1; mode <= 12; mode++ {
						yield(c18{Leaves: leaves{N: n, S: uint32(n), Mode: mode, Upper: n%2 == 0}, Other: g.Pat(32, uint32(n)+9).Hex()})
						if mode >= 10 || n < 10 { // the other first id is a relative of an id that is there
							l := leaves{N: n, S: uint32(n) << 8, Mode: mode}
							rel := g.Relatives(l.hashes()[n/2])
							yield(c18{Leaves: l, Other: hex.EncodeToString(rel[n%len(rel)])})
						}
					}
				}
			}
			for n := 3; n <= 40; n++ { // nodes that are equal
				for k := 0; k < 100; k++ {
					yield(c18{Leaves: leaves{N: n, S: uint32(k * 7919), Mode: 12, Upper: k%5 == 0}, Other: g.Pat(32, uint32(n)+9).Hex()})
				}
			}
			for _, n := range []int{4095, 4096, 4097, 10000, 65535, 65537} {
				yield(c18{Leaves: leaves{N: n, S: 77}, Other: g.Pat(32, 1).Hex()})
			}
		},
		Check: check18,
		Classify: func(c c18) (bool, []string) {
			return c.Leaves.N > 1, []string{fmt.Sprintf("depth=%d", depthOf(c.Leaves.N)), fmt.Sprintf("mode=%d", c.Leaves.Mode)}
		},
		Quick: 20000, Thorough: 75000,
	})

	pbt.Register(pbt.Def[c19]{
		ID:   "C19",
		Rule: "proofs at any position of trees of 1 to 400 ids, checked against the reference root; then one change to the id, a path element, the position (any integer), the path's length or order, or a non-hex text, checked against the reference fold or to be an error; also proofs of up to 70 elements given outright. Non-trivial: a tree of at least two leaves, or a path given outright. The sweep takes every position of every tree up to 70 leaves, and every position -70..300 for short paths. It takes leaves and siblings whose parents have rare shapes (found by search). Ids may be relatives of one another and equal nodes elsewhere in the tree. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c19 {
			c := c19{}
			if g.Chance(t, 4, "outright") {
				c.Text = g.Hash32(t, "id")
				for k := g.Pick(t, []int{0, 1, 2, 5, 16, 31, 32, 33, 62, 63, 64, 65, 70}, "len"); k > 0; k-- {
					c.Path = append(c.Path, g.Hash32(t, "sibling"))
				}
				c.Pos = genPos(t, len(c.Path))
				return c
			}
			c.Leaves = genLeaves(t, 400)
			c.Pos = g.Int(t, 0, c.Leaves.N-1, "pos")
			c.Mut = g.Pick(t, []string{"id", "path", "pos", "pos", "drop", "extra", "swap", "badid", "badpath"}, "mut")
			c.A, c.B = g.Int(t, 0, 300, "a"), g.Int(t, 0, 300, "b")
			switch c.Mut {
			case "pos":
				c.A = genPos(t, depthOf(c.Leaves.N))
			case "badid", "badpath":
				c.Text = badHex(t)
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c19)) {
			top := 70
			if thorough {
				top = 270
			}
			for n := 1; n <= top; n++ {
				for p := 0; p < n; p++ {
					l := leaves{N: n, S: uint32(n), Upper: p%3 == 0, Mode: []int{0, 0, 0, 5, 1, 6, 7, 8, 9, 10, 11, 12}[p%12]}
					yield(c19{Leaves: l, Pos: p, Mut: "pos", A: p + 1<<depthOf(n)})
					yield(c19{Leaves: l, Pos: p, Mut: "pos", A: p - 1<<depthOf(n)})
					yield(c19{Leaves: l, Pos: p, Mut: "pos", A: -p - 1})
					if depthOf(n) > 0 {
						yield(c19{Leaves: l, Pos: p, Mut: "pos", A: p ^ 1})
						yield(c19{Leaves: l, Pos: p, Mut: "path", A: p, B: p * 7})
						yield(c19{Leaves: l, Pos: p, Mut: "drop", A: p})
					}
				}
			}
			for d := 1; d <= 70; d++ { // elements that repeat: the id itself, one another, zero
				same, self := make([]string, d), make([]string, d)
				x := g.Pat(32, 3)
				node := ref.Rev(x.Bytes())
				for k := range same {
					same[k] = []string{g.Pat(32, 3).Hex(), strings.Repeat("00", 32), g.Pat(32, 60).Hex()}[d%3]
					self[k] = hex.EncodeToString(ref.Rev(node)) // the node's own value
					node = ref.Sha256d(append(append([]byte{}, node...), node...))
				}
				for _, p := range []int{0, 1, 2, 5, 1<<(d%62) - 1, 1 << (d % 62)} {
					yield(c19{Text: x.Hex(), Path: same, Pos: p})
					yield(c19{Text: x.Hex(), Path: self, Pos: p})
				}
			}
			for k := 0; k < 8; k++ { // siblings that are relatives of the id, the node or one another
				x := g.Pat(32, uint32(8*k)|7).Bytes()
				for i, a := range g.Relatives(x) {
					for j, b := range g.Relatives(a) {
						if k > 0 && (i+j)%3 > 0 {
							continue
						}
						for _, p := range []int{0, 1, 2, 3, 5} {
							node := ref.Sha256d(append(append([]byte{}, x...), a...))
							path := []string{hex.EncodeToString(a), hex.EncodeToString(b), hex.EncodeToString(g.Relatives(node)[(i+j)%15])}
							yield(c19{Text: hex.EncodeToString(x), Path: path[:1+(i+j+p)%3], Pos: p & (1<<(1+(i+j+p)%3) - 1)})
						}
					}
				}
			}
			g.Twins(32, func(a, b []byte) { // one after the other: a's climb must not serve for b
				x, y, o := hex.EncodeToString(a), hex.EncodeToString(b), g.Pat(32, 3).Hex()
				for _, p := range []int{0, 1} {
					for _, id := range []string{x, y, x} {
						yield(c19{Text: id, Path: []string{o}, Pos: p})
						yield(c19{Text: o, Path: []string{id}, Pos: p})
						yield(c19{Text: o, Path: []string{o, id, o}, Pos: p})
					}
				}
			})
			for d := 0; d <= 70; d++ {
				var path []string
				for k := 0; k < d; k++ {
					path = append(path, g.Pat(32, uint32(k)+50).Hex())
				}
				pos := []int{-1, 0, 1, -1 << 63, 1<<63 - 1, -1 << 62, 1 << 62}
				for b := 1; b < 63; b++ {
					pos = append(pos, 1<<b, 1<<b-1, -1<<b)
				}
				if d < 8 {
					for p := -70; p <= 300; p++ {
						pos = append(pos, p)
					}
				}
				for _, p := range pos {
					yield(c19{Text: g.Pat(32, 3).Hex(), Path: path, Pos: p})
				}
			}
			for _, s := range badHexOf(g.Pat(32, 3).Hex()) {
				yield(c19{Leaves: leaves{N: 3, S: 1}, Pos: 1, Mut: "badid", Text: s})
				yield(c19{Leaves: leaves{N: 1, S: 1}, Mut: "badid", Text: s})
				yield(c19{Leaves: leaves{N: 3, S: 1}, Pos: 1, Mut: "badpath", Text: s})
				yield(c19{Leaves: leaves{N: 3, S: 1}, Pos: 1, Mut: "badpath", A: 1, Text: s})
			}
		},
		Check: check19,
		Classify: func(c c19) (bool, []string) {
			if c.Leaves.N == 0 {
				return len(c.Path) > 0, []string{"outright", countLabel("path", len(c.Path)), fmt.Sprintf("negative=%v", c.Pos < 0)}
			}
			m := c.Mut
			if m == "pos" && c.A < 0 {
				m = "negative pos"
			}
			return c.Leaves.N > 1, []string{"change " + m, fmt.Sprintf("depth=%d", depthOf(c.Leaves.N))}
		},
		Quick: 480000, Thorough: 2400000,
	})

	pbt.Register(pbt.Def[c20]{
		ID:   "C20",
		Rule: "headers of any version, previous hash (either hex case), root, time, bits and nonce; the 80 bytes are compared with the reference layout, read back with bsvd/wire and hashed. Non-trivial: a previous hash that is not palindromic and fields not all zero. The sweep sets each single bit of the header. It takes fields of special shapes and fields that are relatives of one another (equal, backwards, digests, parts). Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c20 {
			four := func(l string) string { return g.BlobN(t, 4, l).Hex() }
			c := c20{Version: g.U32(t, "version"), Prev: g.Hash32(t, "prev"), Root: g.Hash32(t, "root"), Time: four("time"), Bits: four("bits"), Nonce: four("nonce"), Upper: g.Chance(t, 4, "upper")}
			if g.Chance(t, 4, "related") {
				related20(c, g.Int(t, 0, 1<<20, "how"), func(r c20) { c = r })
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c20)) {
			for k := 0; k < g.Shapes(32); k++ {
				four := func(d int) string { return hex.EncodeToString(g.Shape(4, k+d)) }
				a, b := hex.EncodeToString(g.Shape(32, k)), hex.EncodeToString(g.Shape(32, 3*k))
				yield(c20{Version: uint32(k), Prev: a, Root: b, Time: four(0), Bits: four(1), Nonce: four(7)})
				yield(c20{Version: ^uint32(k), Prev: b, Root: a, Time: four(5), Bits: four(9), Nonce: four(99), Upper: true})
			}
			for k := 0; k < 40; k++ { // fields that are one another's relatives
				c := c20{Version: uint32(k) * 0x9e3779b1, Prev: g.Pat(32, uint32(2*k)|3).Hex(), Root: g.Pat(32, uint32(4*k)|9).Hex(), Time: g.Pat(4, uint32(k)+5).Hex(), Bits: g.Pat(4, uint32(k)+9).Hex(), Nonce: g.Pat(4, uint32(k)+13).Hex()}
				if k == 0 {
					c.Version = 1
				}
				for how := 0; how < 32*10; how++ {
					related20(c, how, yield)
				}
				for k := 0; k < 40; k++ {
					related20(c, 32*10*k*7+k, yield)
				}
			}
			for bit := 0; bit < 640; bit++ {
				for _, inv := range []byte{0, 0xff} {
					b := bytes.Repeat([]byte{inv}, 80)
					b[bit/8] ^= 1 << (bit % 8)
					yield(c20{Version: uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24, Prev: hex.EncodeToString(b[4:36]), Root: hex.EncodeToString(b[36:68]),
						Time: hex.EncodeToString(b[68:72]), Bits: hex.EncodeToString(b[72:76]), Nonce: hex.EncodeToString(b[76:])})
				}
			}
		},
		Check: check20,
		Classify: func(c c20) (bool, []string) {
			p := g.Unhex(c.Prev)
			v := "version<2^31"
			if c.Version>>31 == 1 {
				v = "version>=2^31"
			}
			return !bytes.Equal(p, ref.Rev(p)), []string{v, fmt.Sprintf("upper=%v", c.Upper)}
		},
		Quick: 2400000, Thorough: 6000000,
	})

	pbt.Register(pbt.Def[c21]{
		ID:   "C21",
		Rule: "coinbases of any height below 2^24, value, text of 0..300 bytes (any bytes), address of either network, optional witness commitment (0..400 bytes) and miner id (0..70000 bytes), and every split of 12 nonce bytes; compared with a reference transaction and parsed by the library and the reference. Also invalid addresses and commitments. Non-trivial: a text over 84 bytes, an optional output, or an error case. The sweep takes every text length 0..300, every split, every miner id and commitment length 0..600 and edits of an address. It takes every text in the code and hashes of special shapes. Arguments may be one another's relatives. Arguments lie in memory that held other contents in earlier calls.",
		Gen: func(t *rapid.T) c21 {
			c := c21{Height: uint32(g.U64(t, "height")) & 0xffffff, Value: g.U64(t, "value"), Hash: hex.EncodeToString(genHash20(t)), Main: g.Bool(t, "main"),
				Nonces: g.BlobN(t, 12, "nonces").Hex(), Split: g.Int(t, 0, 12, "split"), Upper: g.Chance(t, 4, "upper")}
			switch g.Int(t, 0, 3, "textlen") {
			case 0:
				c.Text = g.BlobN(t, g.Int(t, 80, 90, "n"), "text")
			default:
				c.Text = g.AnyBlob(t, 300, "text")
			}
			if g.Bool(t, "wc") {
				b := g.AnyBlob(t, 400, "commitment")
				c.WC = &b
			}
			if g.Bool(t, "miner") {
				c.Miner = g.AnyBlob(t, 70000, "minerid")
			}
			switch g.Int(t, 0, 9, "bad") {
			case 0:
				s := genAddressText(t)
				c.Addr = &s
			case 1:
				s := badHex(t)
				c.BadWC = &s
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c21)) {
			base := func(k int) c21 {
				return c21{Height: uint32(k * 7919 & 0xffffff), Value: uint64(k) * 1234567891234567, Hash: g.Pat(20, uint32(k)+3).Hex(), Main: k%2 == 0, Nonces: g.Pat(12, uint32(k)+4).Hex(), Split: k % 13}
			}
			for n := 0; n <= 300; n++ {
				c := base(n)
				c.Text = g.Pat(n, uint32(n)+3)
				yield(c)
				c.Text = g.Blob{N: n, R: "c3a9"} // text whose cut may fall inside a character
				yield(c)
			}
			for n := 0; n <= 600; n++ {
				c := base(n)
				b := g.Pat(n, uint32(n)+3)
				c.WC = &b
				yield(c)
				d := base(n)
				d.Miner = b
				yield(d)
				d.WC = &b
				d.Text = g.Pat(n%120, 2)
				yield(d)
			}
			k := 0
			g.Texts(func(b g.Blob) {
				c := base(k)
				c.Text = b
				yield(c)
				c.WC, c.Miner, c.Text = &b, b, g.Blob{}
				yield(c)
				k++
			})
			for _, n := range bigLens(300, 1<<20) {
				c := base(n)
				b := g.Pat(n, 5)
				c.Miner = b
				yield(c)
				c = base(n)
				c.Text = b
				yield(c)
				c.WC = &b
				c.Text = g.Blob{}
				yield(c)
			}
			for s := 0; s <= 12; s++ {
				c := base(s)
				c.Split = s
				yield(c)
			}
			for k := 0; k < g.Shapes(20); k++ {
				c := base(k)
				c.Hash, c.Nonces, c.Text = hex.EncodeToString(g.Shape(20, k)), hex.EncodeToString(g.Shape(12, k)), g.Raw(g.Shape(40+k%61, k))
				yield(c)
				c.Text, c.Miner = g.Blob{}, g.Raw(g.Shape(33, k))
				b := g.Raw(g.Shape(38, k))
				c.WC = &b
				yield(c)
			}
			for k := 0; k < 200; k++ { // arguments that are one another's relatives
				c := base(k)
				h := g.Unhex(c.Hash)
				rel := g.Relatives(h)
				r := g.Raw(rel[k%len(rel)])
				switch k % 7 {
				case 0:
					c.Miner, c.Text = r, r
				case 1:
					c.WC, c.Miner = &r, r
				case 2:
					s := g.Raw(ref.P2PKH(h)) // the commitment is the paying script
					c.WC, c.Miner = &s, s
				case 3:
					s := g.Raw(ref.OutBytes(ref.Out{Sats: c.Value, Script: ref.P2PKH(h)}))
					c.WC, c.Text = &s, s
				case 4: // texts that are other arguments in writing
					c.Text = g.Raw([]byte([]string{c.Hash, ref.Address(h, c.Main), c.Nonces, fmt.Sprint(c.Height), fmt.Sprint(c.Value)}[k/7%5]))
					c.Miner = c.Text
				case 5:
					c.Nonces = c.Hash[:24]
					c.Text = g.Raw(g.Unhex(c.Nonces))
				case 6:
					c.Value = uint64(c.Height)
					c.Text = g.Raw([]byte{3, byte(c.Height), byte(c.Height >> 8), byte(c.Height >> 16)})
					m := g.Raw(append([]byte{0x6a}, h...))
					c.WC = &m
				}
				yield(c)
			}
			for h := uint32(0); h < 70000; h++ {
				if h > 1100 && h%37 != 0 && !thorough {
					continue
				}
				c := base(int(h % 1000))
				c.Height = h
				yield(c)
			}
			for b := 0; b < 24; b++ {
				c := base(b)
				c.Height = 1<<b - 1
				yield(c)
				c.Height = (1<<b + 1) & 0xffffff
				yield(c)
				c.Height = 1 << b
				yield(c)
				c.Height = 0xffffff ^ 1<<b
				yield(c)
			}
			for b := 0; b < 64; b++ {
				c := base(b)
				c.Value = 1 << b
				yield(c)
				c.Value--
				yield(c)
			}
			nearAddresses(ref.Address(g.Pat(20, 9).Bytes(), true), func(s string) {
				if isUTF8(s) {
					c := base(3)
					c.Addr = &s
					yield(c)
				}
			})
			for _, s := range badHexOf("6a24aa21a9ed" + g.Pat(32, 3).Hex()) {
				if isUTF8(s) {
					s := s
					c := base(4)
					c.BadWC = &s
					yield(c)
				}
			}
		},
		Check: check21,
		Classify: func(c c21) (bool, []string) {
			l := []string{lenLabel("text", c.Text.Len())}
			switch {
			case c.BadWC != nil:
				return true, []string{"bad commitment"}
			case c.Addr != nil:
				_, _, ok := ref.ParseAddress(*c.Addr)
				return true, []string{fmt.Sprintf("address text valid=%v", ok)}
			}
			if c.Text.Len() > 84 {
				l = append(l, "text truncated")
			}
			if c.WC != nil && c.WC.Len() > 0 {
				l = append(l, "commitment")
			}
			if c.Miner.Len() > 0 {
				l = append(l, "miner id")
			}
			return len(l) > 1, l
		},
		Quick: 800000, Thorough: 3000000,
	})

	pbt.Register(pbt.Def[c22]{
		ID:   "C22",
		Rule: "compact bits (any 32-bit value, skewed to edges of exponent and mantissa; either hex case) alone and in pairs, and texts that are not eight hex digits; compared with big-integer arithmetic. Non-trivial: a non-zero mantissa, or a text that must be refused. The sweep takes every exponent 0..255 with edge mantissas of both signs, neighbouring pairs, representations of the same target under different exponents, and hex texts of every length up to 40.",
		Assumptions: []string{
			"Left open: the 64-digit form of negative targets, the difficulty of zero and negative targets, and whether a target beyond 256 bits has a difficulty",
		},
		Gen: func(t *rapid.T) c22 {
			if g.Chance(t, 6, "text") {
				s := badHex(t)
				if g.Bool(t, "length") {
					s = g.HexOf(g.BytesN(t, g.Pick(t, []int{0, 1, 2, 3, 5, 6, 7, 8, 16, 32}, "n"), "hex"))
				}
				return c22{Text: &s}
			}
			bits := func(l string) uint32 {
				m := g.U32(t, l)
				switch g.Int(t, 0, 3, l+".e") {
				case 0:
					return m
				case 1:
					return m&0x7fffff | uint32(g.Int(t, 0, 40, l+".exp"))<<24
				}
				return m&0x7fffff | uint32(g.Int(t, 0, 33, l+".exp"))<<24
			}
			c := c22{Bits: bits("bits"), Upper: g.Chance(t, 4, "upper")}
			if g.Bool(t, "pair") {
				b := bits("bits2")
				switch g.Int(t, 0, 3, "rel") {
				case 0:
					b = c.Bits + uint32(g.Int(t, 0, 4, "d")) - 2
				case 1: // the same target, exponent one larger
					b = c.Bits&0xff000000 + 1<<24 | c.Bits&0x7fffff>>8
				}
				c.Bits2 = &b
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c22)) {
			ms := []uint32{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x3fffff, 0x400000, 0x7ffffe, 0x7fffff, 0x123456, 0x00ffff}
			for b := 0; b < 24; b++ {
				ms = append(ms, 1<<b, 1<<b+1)
			}
			if thorough {
				for k := uint32(0); k < 4000; k++ {
					ms = append(ms, k*2097)
				}
			}
			for e := uint32(0); e < 256; e++ {
				for _, m := range ms {
					for _, sign := range []uint32{0, 0x800000} {
						bits := e<<24 | m&0x7fffff | sign
						next := bits + 1
						yield(c22{Bits: bits, Bits2: &next, Upper: m&1 == 1})
						up := (e+1)<<24 | m&0x7fffff>>8 | sign
						yield(c22{Bits: bits, Bits2: &up})
					}
				}
			}
			for n := 0; n <= 40; n++ {
				for _, d := range "0f1" {
					if n == 8 {
						continue
					}
					s := strings.Repeat(string(d), n)
					yield(c22{Text: &s})
				}
			}
			for _, s := range append(badHexOf("1d00ffff"), "1d00fff", "1d00ffff00", "0x1d00ffff", " 1d00ffff", "1d00ffff ", "1d00fffg", "g1d00ff0", "1d 0ffff", "486604799", "-1d00fff") {
				if isUTF8(s) {
					s := s
					yield(c22{Text: &s})
				}
			}
			for i := 0; i < 8; i++ {
				for _, ch := range "gG xO-\x00" {
					s := "1d00ffff"[:i] + string(ch) + "1d00ffff"[i+1:]
					yield(c22{Text: &s})
				}
			}
		},
		Check: check22,
		Classify: func(c c22) (bool, []string) {
			if c.Text != nil {
				return true, []string{"bad text"}
			}
			t := compactInt(c.Bits)
			l := "positive"
			switch {
			case t.Sign() < 0:
				l = "negative"
			case t.Sign() == 0:
				l = "zero"
			case t.BitLen() > 256:
				l = "beyond 256 bits"
			case c.Bits>>24 < 3:
				l = "exponent below 3"
			}
			return c.Bits&0x7fffff != 0, []string{l, fmt.Sprintf("pair=%v", c.Bits2 != nil)}
		},
		Quick: 2400000, Thorough: 9000000,
	})

	f := math.Float64bits
	pbt.Register(pbt.Def[c23]{
		ID:   "C23",
		Rule: "tickers (real ones, every first byte, arbitrary text), any 64-bit difficulty, positive block times, compared with 400-bit arithmetic; rates displayed over every unit boundary, compared with exact decimal arithmetic. Non-trivial: a non-zero difficulty, or a rate of at least 1. The sweep takes every first byte of a ticker, all pairs of printable characters, words of the code and the domain in either case, and the neighbouring floats of every power of ten.",
		Gen: func(t *rapid.T) c23 {
			if g.Bool(t, "display") {
				v := f(genFloat(t, "rate"))
				return c23{Rate: &v}
			}
			c := c23{Diff: g.U64(t, "diff"), Secs: f(g.Pick(t, []float64{600, 1, 7, 0.5, 1e-9, 1e9, 60, 120.25}, "secs"))}
			if g.Bool(t, "anysecs") {
				c.Secs = f(genFloat(t, "secs"))
			}
			switch g.Int(t, 0, 2, "coin") {
			case 0:
				c.Coin = g.Pick(t, append(g.DictStrings(), "BSV", "RSV", "RBSV", "BCH", "R", "", "r", "rSV", "BR", "BTC", "RBTC", " R", "тест"), "coin")
			default:
				s := string(g.Pick(t, []byte("RrBQSTb5 "), "first")) + strings.Repeat("R", g.Int(t, 0, 3, "rest"))
				c.Coin = s
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c23)) {
			for b := 1; b < 128; b++ {
				for _, rest := range []string{"", "SV", "RRR"} {
					yield(c23{Coin: string(rune(b)) + rest, Diff: 22000, Secs: f(600)})
				}
			}
			for a := byte(' '); a < 127; a++ {
				for b := byte(' '); b < 127; b++ {
					yield(c23{Coin: string([]byte{a, b}), Diff: 22000, Secs: f(600)})
					yield(c23{Coin: string([]byte{a, b}) + "SV", Diff: 22000, Secs: f(600)})
				}
			}
			for _, w := range append(g.DictStrings(), "rtest", "regtest", "reg", "regression", "testnet", "stn", "main", "mainnet", "bsv", "rbsv", "bitcoin", "\u0280BSV", "\uff32", "\u211dSV", "\u00aeSV", "\x00R", "\tR", "\nRSV", "-R", "(RSV)", "\ufeffR") {
				if isUTF8(w) {
					for _, c := range []string{w, strings.ToUpper(w), strings.ToLower(w), strings.ToUpper(w[:1]) + w[1:], "R" + w, "r" + w, w + "R", w + "-R"} {
						yield(c23{Coin: c, Diff: 22000, Secs: f(600)})
					}
				}
			}
			for b := 0; b < 64; b++ {
				for _, secs := range []float64{0.001, 1, 7, 600, 86400} {
					yield(c23{Coin: "BSV", Diff: 1 << b, Secs: f(secs)})
					yield(c23{Coin: "RSV", Diff: 1<<b - 1, Secs: f(secs)})
				}
			}
			yield(c23{Coin: "", Diff: 7, Secs: f(600)})
			yield(c23{Coin: "BSV", Diff: math.MaxUint64, Secs: f(1)})
			for e := 0; e <= 30; e++ {
				p, _ := strconv.ParseFloat(fmt.Sprintf("1e%d", e), 64)
				for d := -3; d <= 3; d++ {
					v := f(p) + uint64(d)
					yield(c23{Rate: &v})
				}
				for k := 1; k < 1000; k++ {
					v := f(p * float64(k) / 7)
					yield(c23{Rate: &v})
					w := f(p * (1 - float64(k)/1e5))
					yield(c23{Rate: &w})
				}
			}
			for _, x := range []float64{0, 0.004, 0.005, 0.006, 0.5, 5e-324, math.MaxFloat64, 999.994, 999.995, 999.996} {
				v := f(x)
				yield(c23{Rate: &v})
			}
		},
		Check: check23,
		Classify: func(c c23) (bool, []string) {
			if c.Rate != nil {
				v := math.Float64frombits(*c.Rate)
				e := 0
				if v >= 1 {
					e = min(int(math.Log10(v))/3*3, 24)
				}
				return v >= 1, []string{"display", fmt.Sprintf("rate~1e%d", e)}
			}
			return c.Diff > 0, []string{"estimate", fmt.Sprintf("regtest=%v", strings.HasPrefix(c.Coin, "R"))}
		},
		Quick: 2400000, Thorough: 9000000,
	})
}

func genPos(t *rapid.T, d int) int {
	switch g.Int(t, 0, 4, "poskind") {
	case 0:
		return g.Int(t, -5, 5, "pos")
	case 1:
		if d < 62 {
			return 1<<d + g.Int(t, -2, 2, "pos")
		}
		return 1<<62 + g.Int(t, -2, 2, "pos")
	case 2:
		if d < 62 {
			return -(1 << d) + g.Int(t, -2, 2, "pos")
		}
		return -1<<63 + g.Int(t, 0, 3, "pos")
	case 3:
		return int(g.U64(t, "pos"))
	}
	if d < 62 {
		return g.Int(t, 0, 1<<d-1, "pos")
	}
	return int(g.Raw64(t, "pos") >> 1)
}
