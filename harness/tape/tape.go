// Package tape records the draws of a generator run and plays them back with
// a few of them changed. A case made from a changed tape differs from the
// first one in a detail or two, and is as valid as any other, because the
// generator itself made it. Histories of such near-identical cases show state
// that the code under test carries from one call into the next.
package tape

import "pgregory.net/rapid"

type entry struct {
	label string
	occ   int
}

// Tape holds the draws of one generator run.
type Tape struct {
	raw    map[string][]uint64
	blob   map[string][][]byte
	order  []entry // raw draws, in order
	border []entry // blob draws, in order

	// while playing
	play   bool
	seen   map[string]int
	bseen  map[string]int
	redraw map[entry]int // how to change this draw
	bend   map[entry]int
}

var cur *Tape

// Record runs gen and keeps its draws.
func Record(gen func()) *Tape {
	t := &Tape{raw: map[string][]uint64{}, blob: map[string][][]byte{}}
	cur = t
	defer func() { cur = nil }()
	gen()
	return t
}

// Replay runs gen on t's draws, some of them changed.
func Replay(rt *rapid.T, t *Tape, gen func()) {
	p := &Tape{raw: t.raw, blob: t.blob, play: true, seen: map[string]int{}, bseen: map[string]int{}, redraw: map[entry]int{}, bend: map[entry]int{}}
	for k := 1 + pick(rt, 2, "tape.n"); k > 0; k-- {
		if len(t.border) > 0 && pick(rt, 2, "tape.blob") == 1 {
			p.bend[t.border[pick(rt, len(t.border), "tape.pos")]] = pick(rt, 6, "tape.how")
		} else if len(t.order) > 0 {
			p.redraw[t.order[pick(rt, len(t.order), "tape.pos")]] = pick(rt, 6, "tape.how")
		}
	}
	cur = p
	defer func() { cur = nil }()
	gen()
}

// Pick draws from 0..n-1, off the tape.
func Pick(rt *rapid.T, n int, label string) int { return pick(rt, n, label) }

func pick(rt *rapid.T, n int, label string) int { return int(mixed(rt, label) % uint64(n)) }

func mixed(rt *rapid.T, label string) uint64 {
	r := rapid.Uint64().Draw(rt, label)
	if r < 16 {
		return r
	}
	x := r * 0x9e3779b97f4a7c15
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

// Raw64 draws a 64-bit value, close to uniform apart from the small values
// that shrinking heads for, or takes it from the tape.
func Raw64(rt *rapid.T, label string) uint64 {
	t := cur
	if t == nil {
		return mixed(rt, label)
	}
	if !t.play {
		v := mixed(rt, label)
		t.order = append(t.order, entry{label, len(t.raw[label])})
		t.raw[label] = append(t.raw[label], v)
		return v
	}
	e := entry{label, t.seen[label]}
	t.seen[label]++
	old := t.raw[label]
	if e.occ >= len(old) {
		return mixed(rt, label)
	}
	v := old[e.occ]
	how, change := t.redraw[e]
	if !change {
		return v
	}
	switch how {
	case 0:
		return v + 1
	case 1:
		return v - 1
	case 2: // another draw of the same label
		return old[pick(rt, len(old), "tape.other")]
	case 3:
		return v ^ 1<<pick(rt, 64, "tape.bit")
	}
	return mixed(rt, label)
}

// Blob is told the bytes just drawn under a label, and gives the bytes to use
// instead, or nil to keep them.
func Blob(rt *rapid.T, label string, b []byte) []byte {
	t := cur
	if t == nil || len(b) == 0 {
		return nil
	}
	if !t.play {
		t.border = append(t.border, entry{label, len(t.blob[label])})
		t.blob[label] = append(t.blob[label], b)
		return nil
	}
	e := entry{label, t.bseen[label]}
	t.bseen[label]++
	how, change := t.bend[e]
	if !change {
		return nil
	}
	c := append([]byte{}, b...)
	n := len(c)
	switch how {
	case 0:
		c[n-1] ^= byte(1 + pick(rt, 255, "tape.x"))
	case 1:
		c[0] ^= byte(1 + pick(rt, 255, "tape.x"))
	case 2:
		c[n/2] ^= byte(1 + pick(rt, 255, "tape.x"))
	case 3: // the same bytes in another order
		i, j := pick(rt, n, "tape.i"), pick(rt, n, "tape.j")
		c[i], c[j] = c[j], c[i]
	case 4: // another blob of the label, when it has the same length
		old := t.blob[label]
		if len(old) > 0 {
			if o := old[pick(rt, len(old), "tape.other")]; len(o) == n {
				copy(c, o)
			}
		}
	default:
		c[pick(rt, n, "tape.i")] ^= byte(1 + pick(rt, 255, "tape.x"))
	}
	return c
}
