package ref

import "bytes"

// Elem is a script element: an opcode, or pushed data.
type Elem struct {
	Push   bool
	Op     byte   // the opcode byte (for pushes, the push opcode)
	Data   []byte // pushed data
	Start  int    // offset of the element
	Prefix int    // bytes before the data, for pushes
}

// Tokenise splits a script into elements. ok is false when a push or its
// length field runs past the end.
func Tokenise(s []byte) (elems []Elem, ok bool) {
	for i := 0; i < len(s); {
		op := s[i]
		e := Elem{Op: op, Start: i}
		n, w := uint64(0), 0
		switch {
		case op == 0 || op > 78:
			elems = append(elems, e)
			i++
			continue
		case op <= 75:
			n = uint64(op)
		case op == 76:
			w = 1
		case op == 77:
			w = 2
		case op == 78:
			w = 4
		}
		if len(s)-i-1 < w {
			return elems, false
		}
		for k := w; k >= 1; k-- {
			n = n<<8 | uint64(s[i+k])
		}
		e.Prefix = 1 + w
		if uint64(len(s)-i-e.Prefix) < n {
			return elems, false
		}
		e.Push = true
		e.Data = s[i+e.Prefix : i+e.Prefix+int(n)]
		elems = append(elems, e)
		i += e.Prefix + int(n)
	}
	return elems, true
}

// Part is what decoding shows for the element: pushed data, or the opcode.
func (e Elem) Part() []byte {
	if e.Push {
		return e.Data
	}
	return []byte{e.Op}
}

// PushPrefix is the shortest length prefix for n bytes of data.
func PushPrefix(n uint64) []byte {
	switch {
	case n <= 75:
		return []byte{byte(n)}
	case n <= 255:
		return []byte{76, byte(n)}
	case n <= 65535:
		return []byte{77, byte(n), byte(n >> 8)}
	}
	return []byte{78, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
}

// Push is the minimal push of data.
func Push(d []byte) []byte { return append(PushPrefix(uint64(len(d))), d...) }

// P2PKH is the standard script paying a key hash.
func P2PKH(h []byte) []byte {
	b := []byte{0x76, 0xa9, 0x14}
	b = append(b, h...)
	return append(b, 0x88, 0xac)
}

// IsP2PKH: DUP HASH160 <20> EQUALVERIFY CHECKSIG, the canonical 25 bytes.
func IsP2PKH(s []byte) bool {
	return len(s) == 25 && bytes.Equal(s[:3], []byte{0x76, 0xa9, 20}) && bytes.Equal(s[23:], []byte{0x88, 0xac})
}

// IsP2SH: HASH160 <20> EQUAL, the canonical 23 bytes.
func IsP2SH(s []byte) bool {
	return len(s) == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87
}

// IsData: OP_RETURN or OP_FALSE OP_RETURN at the front.
func IsData(s []byte) bool {
	return bytes.HasPrefix(s, []byte{0x6a}) || bytes.HasPrefix(s, []byte{0x00, 0x6a})
}

// IsP2PK: <public key> CHECKSIG.
func IsP2PK(s []byte) bool {
	e, ok := Tokenise(s)
	if !ok || len(e) != 2 || !e[0].Push || e[1].Push || e[1].Op != 0xac {
		return false
	}
	k := e[0].Data
	switch len(k) {
	case 33:
		return k[0] == 2 || k[0] == 3
	case 65:
		return k[0] == 4 || k[0] == 6 || k[0] == 7
	}
	return false
}

func smallInt(e Elem) bool { return !e.Push && (e.Op == 0 || e.Op >= 0x51 && e.Op <= 0x60) }

// Verdict of a predicate whose statement leaves some scripts open.
type Verdict int

// Verdicts.
const (
	No Verdict = iota
	Yes
	Open
)

// IsMultisig: small integer, pushed keys, small integer, CHECKMULTISIG. Open
// for scripts of that shape the statement does not settle: no keys at all, or
// an empty push among the keys. The integers need not agree with the number of
// keys: the statement's template does not ask for it.
func IsMultisig(s []byte) Verdict {
	e, ok := Tokenise(s)
	if !ok || len(e) < 3 {
		return No
	}
	n := len(e)
	if !smallInt(e[0]) || !smallInt(e[n-2]) || e[n-1].Push || e[n-1].Op != 0xae {
		return No
	}
	open := n == 3
	for _, k := range e[1 : n-2] {
		if !k.Push && k.Op != 0 {
			return No
		}
		if len(k.Data) == 0 {
			open = true
		}
	}
	if open {
		return Open
	}
	return Yes
}
