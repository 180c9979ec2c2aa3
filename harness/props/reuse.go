package props

import (
	"github.com/libsv/libsv/script"
)

// Callers reuse their buffers: what a call makes of a buffer must not depend
// on what the same memory held in an earlier call.

// reused is a buffer holding b. Before, when it held other bytes of the same
// length, warm was called on it.
func reused(b []byte, warm func(buf []byte)) []byte {
	if len(b) == 0 {
		return b
	}
	buf := make([]byte, len(b))
	if len(b) > 1<<16 { // one is enough for the long ones
		stale(buf, b)
		warm(buf)
		copy(buf, b)
		return buf
	}
	fill := byte(0xff)
	if b[0] == fill {
		fill = 0
	}
	for i := range buf {
		buf[i] = fill
	}
	warm(buf)
	stale(buf, b)
	warm(buf)
	copy(buf, b)
	return buf
}

// stale fills buf with b but for one byte, anywhere.
func stale(buf, b []byte) {
	copy(buf, b)
	n := uint32(len(b))
	h := n * 0x9e3779b1
	for _, i := range []int{0, len(b) / 3, len(b) / 2, len(b) - 1} {
		h = (h ^ uint32(b[i])) * 0x85ebca6b
		h ^= h >> 13
	}
	buf[h%n] ^= 1 << (h >> 20 % 8)
}

// reusedList is a list holding items, in the same memory as when warm was
// called: once with another list, once with one item changed in place.
func reusedList(items [][]byte, warm func(l [][]byte)) [][]byte {
	if len(items) == 0 || len(items) > 300 {
		return items
	}
	l := make([][]byte, len(items))
	for k := range l {
		l[k] = append([]byte{}, items[len(items)-1-k]...)
		if len(items) == 1 {
			l[k] = append(l[k], 7)
		}
	}
	warm(l)
	for k := range l {
		l[k] = append([]byte(nil), items[k]...)
	}
	for k := range l {
		if len(l[k]) > 0 {
			stale(l[k], items[k])
			warm(l)
			copy(l[k], items[k])
			break
		}
	}
	for k := range l { // nil as given
		if items[k] == nil {
			l[k] = nil
		}
	}
	return l
}

// reusedTexts is a list of texts in the same memory as when warm was called
// with one of them exchanged: the last, the first, the middle one.
func reusedTexts(items []string, warm func(l []string)) []string {
	if len(items) == 0 || len(items) > 300 {
		return items
	}
	l := append([]string{}, items...)
	for _, k := range []int{len(l) - 1, 0, len(l) / 2} {
		l[k] = other64(items[k])
		warm(l)
		l[k] = items[k]
	}
	return l
}

// other64 is another text of the same length, hex if s is.
func other64(s string) string {
	if s == "" {
		return s
	}
	b := []byte(s)
	k := len(b) / 2
	if b[k] == '1' {
		b[k] = '2'
	} else {
		b[k] = '1'
	}
	return string(b)
}

// reusedScript is a script in the same memory as when warm was called.
func reusedScript(b []byte, warm func(s *script.Script)) *script.Script {
	buf := make([]byte, len(b))
	s := script.NewFromBytes(buf)
	if len(b) == 0 {
		warm(s)
		return s
	}
	stale(buf, b)
	warm(s)
	copy(buf, b)
	return s
}
