package props

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"testing"

	"verif/harness/pbt"
)

// TestC33Costs prints what the functions of C33 cost (set C33=1).
func TestC33Costs(t *testing.T) {
	if os.Getenv("C33") == "" {
		t.Skip()
	}
	type worst struct{ cpu, mem float64 }
	w := map[string]worst{}
	c33watch = func(c c33, n int, cpu, mem float64) {
		if n < 1<<16 {
			return
		}
		x := w[c.Fn]
		x.cpu, x.mem = max(x.cpu, cpu/float64(n)), max(x.mem, mem/float64(n))
		w[c.Fn] = x
	}
	r := pbt.Lookup("C33")
	rec := pbt.NewRecorder()
	r.RunSweep(os.Getenv("C33") == "2", 0, 1, rec)
	if rec.Fail != nil {
		b, _ := json.Marshal(rec.Fail)
		t.Errorf("%s", b)
	}
	var names []string
	for n := range w {
		names = append(names, n)
	}
	sort.Slice(names, func(a, b int) bool { return w[names[a]].cpu > w[names[b]].cpu })
	for _, n := range names {
		fmt.Printf("%-40s %.3f us/byte %.0f bytes/byte\n", n, w[n].cpu, w[n].mem)
	}
}
