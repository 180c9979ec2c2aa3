package ref

import (
	"crypto/hmac"
	"crypto/sha512"
	"math/big"

	"github.com/bitcoinsv/bsvd/bsvec"
)

// ExtKey is a parsed BIP32 extended key.
type ExtKey struct {
	Version [4]byte
	Depth   byte
	Chain   []byte
	Priv    *big.Int // nil for a public key
	Pub     []byte   // compressed
}

// ParseExtKey reads the 78-byte payload of an extended key.
func ParseExtKey(p []byte) (*ExtKey, bool) {
	if len(p) != 78 {
		return nil, false
	}
	k := &ExtKey{Depth: p[4], Chain: append([]byte{}, p[13:45]...)}
	copy(k.Version[:], p[:4])
	body := p[45:]
	if body[0] == 0 {
		d := new(big.Int).SetBytes(body[1:])
		if d.Sign() == 0 || d.Cmp(bsvec.S256().N) >= 0 {
			return nil, false
		}
		k.Priv, k.Pub = d, pubOf(d)
		return k, true
	}
	if body[0] != 2 && body[0] != 3 {
		return nil, false
	}
	if _, _, ok := point(body); !ok {
		return nil, false
	}
	k.Pub = append([]byte{}, body...)
	return k, true
}

// ParseExtKeyText reads the Base58Check form.
func ParseExtKeyText(s string) (*ExtKey, bool) {
	b, ok := B58Decode(s)
	if !ok || len(b) != 82 || string(Sha256d(b[:78])[:4]) != string(b[78:]) {
		return nil, false
	}
	return ParseExtKey(b[:78])
}

func pubOf(d *big.Int) []byte {
	x, y := bsvec.S256().ScalarBaseMult(d.FillBytes(make([]byte, 32)))
	return compress(x, y)
}

func compress(x, y *big.Int) []byte {
	b := make([]byte, 33)
	b[0] = 2 + byte(y.Bit(0))
	x.FillBytes(b[1:])
	return b
}

// point decompresses a public key with plain modular arithmetic.
func point(b []byte) (x, y *big.Int, ok bool) {
	p := bsvec.S256().P
	x = new(big.Int).SetBytes(b[1:])
	if x.Cmp(p) >= 0 {
		return nil, nil, false
	}
	y2 := new(big.Int).Exp(x, big.NewInt(3), p)
	y2.Add(y2, big.NewInt(7)).Mod(y2, p)
	y = new(big.Int).ModSqrt(y2, p)
	if y == nil {
		return nil, nil, false
	}
	if y.Bit(0) != uint(b[0]&1) {
		y.Sub(p, y)
	}
	return x, y, true
}

// Child derives a child key. ok is false where BIP32 has none (a hardened
// child of a public key, a depth beyond 255). short reports that the derived
// private key begins with a zero byte.
func (k *ExtKey) Child(i uint32) (child *ExtKey, short, ok bool) {
	if k.Depth == 255 || k.Priv == nil && i>>31 == 1 {
		return nil, false, false
	}
	var data []byte
	if i>>31 == 1 {
		data = append(make([]byte, 1), k.Priv.FillBytes(make([]byte, 32))...)
	} else {
		data = append(data, k.Pub...)
	}
	data = append(data, byte(i>>24), byte(i>>16), byte(i>>8), byte(i))
	mac := hmac.New(sha512.New, k.Chain)
	mac.Write(data)
	sum := mac.Sum(nil)
	il := new(big.Int).SetBytes(sum[:32])
	c := &ExtKey{Version: k.Version, Depth: k.Depth + 1, Chain: sum[32:]}
	n := bsvec.S256().N
	if il.Cmp(n) >= 0 {
		return nil, false, false
	}
	if k.Priv != nil {
		c.Priv = new(big.Int).Add(il, k.Priv)
		c.Priv.Mod(c.Priv, n)
		if c.Priv.Sign() == 0 {
			return nil, false, false
		}
		c.Pub = pubOf(c.Priv)
		return c, c.Priv.BitLen() <= 248, true
	}
	x, y, good := point(k.Pub)
	if !good {
		return nil, false, false
	}
	x1, y1 := bsvec.S256().ScalarBaseMult(sum[:32])
	x, y = bsvec.S256().Add(x1, y1, x, y)
	c.Pub = compress(x, y)
	return c, false, true
}
