// Package keep remembers byte slices and texts that the code under test has returned,
// and tells when one of them is changed by a later call.
package keep

import (
	"fmt"
	"strings"
)

type kept struct {
	what string
	live []byte
	text string
	was  string
}

const limit = 1 << 20 // bytes of copies kept for one case or history

var (
	on    bool
	list  []kept
	total int
)

// Reset forgets everything, but for a few results that it keeps for long, and
// turns the record on or off.
func Reset(active bool) {
	for _, k := range list {
		Long(k.what, k.live, k.text)
	}
	on, list, total, ends = active, list[:0], 0, nil
}

// What is kept for long: results of earlier cases. The first few stay for
// ever, the others until another one takes their place.
const (
	longs   = 2048
	forever = 256
	oneIn   = 8
)

var (
	long []kept
	tick uint64
	lost error // what was found changed
)

// Long may remember a result for many cases.
func Long(what string, live []byte, text string) {
	tick++
	if off || cap(live) > 4096 || len(text) > 4096 || len(live)+len(text) == 0 {
		return
	}
	x := tick * 0x9e3779b97f4a7c15
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	if len(long) >= forever && x%oneIn != 0 {
		return
	}
	k := kept{what, live, text, string(live) + strings.Clone(text)}
	if len(long) < longs {
		long = append(long, k)
		return
	}
	i := forever + int(x/oneIn%(longs-forever))
	if err := long[i].changed(); err != nil && lost == nil {
		lost = err
	}
	long[i] = k
}

// CheckLong says whether a result of an earlier case has changed since. It
// looks at all of them when all is set and at every 256th call.
func CheckLong(all bool) error {
	looks++
	if all || looks%256 == 0 {
		for _, k := range long {
			if err := k.changed(); err != nil && lost == nil {
				lost = err
			}
		}
	}
	err := lost
	if err != nil {
		long, lost = nil, nil
	}
	return err
}

var looks uint64

func (k kept) changed() error {
	if string(k.live)+k.text != k.was {
		return fmt.Errorf("%s: bytes returned in an earlier case were changed by later calls: %.200x to %.200x", k.what, k.was, string(k.live)+k.text)
	}
	return nil
}

var off bool

// Off makes this package do nothing until On, so that checks can run in
// several goroutines.
func Off() { on, off = false, true }

// On ends Off.
func On() { off = false }

var ends []func()

// AtEnd has f called when the case has held: to change a result that the
// caller owns, which later calls must not notice.
func AtEnd(f func()) {
	if !off {
		ends = append(ends, f)
	}
}

// Spoil changes results of the case that has just held, half of the bytes
// kept and whatever AtEnd was given. Later cases of the history must not
// notice.
func Spoil() {
	for _, f := range ends {
		f()
	}
	ends = nil
	for i, k := range list {
		if i%2 == 1 {
			for j := range k.live {
				k.live[j] ^= 0x5a
			}
		}
	}
	for i, k := range list { // slices may overlap
		list[i].was = string(k.live) + k.text
	}
}

// Bytes remembers b.
func Bytes(what string, b []byte) {
	if !on || len(b) == 0 || total+len(b) > limit || len(list) >= 512 {
		return
	}
	total += len(b)
	list = append(list, kept{what, b, "", string(b)})
}

// Text remembers s, which only changes when it was made from a buffer by
// unsafe means.
func Text(what, s string) {
	if !on || len(s) == 0 || total+len(s) > limit || len(list) >= 512 {
		return
	}
	total += len(s)
	list = append(list, kept{what, nil, s, strings.Clone(s)})
}

// Check says whether a remembered slice has changed since.
func Check() error {
	for _, k := range list {
		if string(k.live)+k.text != k.was {
			return fmt.Errorf("%s: the bytes returned earlier were changed by a later call: %.200x to %.200x", k.what, k.was, string(k.live)+k.text)
		}
	}
	return nil
}

// Edit checks what is remembered of this case, lets f change results in
// place, and remembers them as they are then.
func Edit(f func()) error {
	if off {
		f()
		return nil
	}
	err := Check()
	f()
	for i, k := range list {
		list[i].was = string(k.live) + k.text
	}
	return err
}
