package props

import (
	"fmt"
	"os"
	"testing"
	"time"
)

// TestC34Noise prints what stays behind on the tree as it is (set C34=1).
func TestC34Noise(t *testing.T) {
	if os.Getenv("C34") == "" {
		t.Skip()
	}
	for k, op := range opNames {
		out, err := newCapture()
		if err != nil {
			t.Fatal(err)
		}
		c := c34{Ops: []string{op}, Seed: uint32(k) << 20}
		if err := c.rounds(out, 20, 4); err != nil {
			out.restore()
			t.Fatal(err)
		}
		a, s := look(), time.Now()
		err = c.rounds(out, 1000, 4)
		b := look()
		out.restore()
		fmt.Printf("%-12s %6d bytes kept, %v a round, %v\n", op, b.mem-a.mem, time.Since(s)/1000, err)
	}
}
