package props

import (
	"errors"
	"fmt"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verif/harness/g"
	"verif/harness/pbt"
)

// ---- C34 ------------------------------------------------------------------

// c34 makes every listed call again and again, each round on other data.
type c34 struct {
	Ops    []string `json:"ops"`
	Seed   uint32   `json:"seed"`
	Rounds int      `json:"rounds"`
}

const (
	// What may stay behind: a cache of fixed size, a pool, a table made once.
	c34Slack = 40 << 10 // without looking further
	c34Max   = 2 << 20  // in the end
)

// outside is what the process shows of itself.
type outside struct {
	goroutines, files int
	logging           string
	dir, environment  string
	threads           int
	mem               int64
}

func openFiles() int {
	l, _ := os.ReadDir("/proc/self/fd")
	return len(l)
}

func look() outside {
	var ms runtime.MemStats
	for k := 0; k < 3; k++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&ms)
	var o outside
	o.mem = int64(ms.HeapAlloc)
	o.goroutines = runtime.NumGoroutine()
	o.files = openFiles()
	o.logging = fmt.Sprintf("%d %q", log.Flags(), log.Prefix())
	o.dir, _ = os.Getwd()
	o.environment = strings.Join(os.Environ(), "\n")
	o.threads = runtime.GOMAXPROCS(0)
	return o
}

// capture sends what is written to standard output and standard error to
// files; restore brings them back.
type capture struct {
	file  [3]*os.File
	saved [3]int
}

func newCapture() (*capture, error) {
	c := &capture{}
	for fd := 1; fd <= 2; fd++ {
		f, err := os.CreateTemp("", "vh-out")
		if err != nil {
			return nil, err
		}
		_ = os.Remove(f.Name())
		c.file[fd] = f
		if c.saved[fd], err = syscall.Dup(fd); err != nil {
			return nil, err
		}
		if err := syscall.Dup3(int(f.Fd()), fd, 0); err != nil {
			return nil, err
		}
	}
	return c, nil
}

func (c *capture) restore() {
	for fd := 1; fd <= 2; fd++ {
		if c.file[fd] == nil {
			continue
		}
		_ = syscall.Dup3(c.saved[fd], fd, 0)
		_ = syscall.Close(c.saved[fd])
		_ = c.file[fd].Close()
	}
}

// size is how much was written to the descriptor.
func (c *capture) size(fd int) int64 {
	var st syscall.Stat_t
	_ = syscall.Fstat(int(c.file[fd].Fd()), &st)
	return st.Size
}

func (c *capture) text(fd int) string {
	b := make([]byte, 300)
	n, _ := c.file[fd].ReadAt(b, 0)
	return string(b[:n])
}

// c34lens are lengths of data, besides the usual short ones.
var c34lens = []int{300, 1100, 5000, 70000, 20000}

func seed2(seed uint32) int { return int(seed * 2654435761 >> 20) }

// c34world numbers the worlds of this process: data seen before would leave
// nothing new behind.
var c34world uint32

// rounds makes the calls on n more worlds, each with so many pairs of
// arguments.
func (c c34) rounds(out *capture, n, variants int) error { return c.roundsOf(out, n, variants, nil) }

// roundsOf does so with data of the given lengths besides the usual.
func (c c34) roundsOf(out *capture, n, variants int, lens []int) error {
	for k := 0; k < n; k++ {
		c34world++
		seed := c.Seed + c34world
		w := fixedWorld(seed*2654435761, 0)
		if len(lens) > 0 {
			l := lens[k%len(lens)]
			w.Bufs = []g.Blob{g.Pat(l, seed|32), g.Pat(l+seed2(seed)%l, seed|64)}
			script := g.Pat(l, seed|4)
			w.Tx.In[0].Script, w.Tx.Out[0].Script = &script, g.Pat(l, seed|8)
		}
		e := w.build()
		for j, name := range c.Ops {
			op, ok := ops[name]
			if !ok {
				return errors.New("no call " + name)
			}
			if len(lens) > 0 && (name == "reversehex" || name == "base58") {
				continue // quadratic
			}
			x := (seed*31 + uint32(j)) * 2246822519
			for v := 0; v < variants; v++ {
				x ^= x << 13
				x ^= x >> 17
				x ^= x << 5
				r, before := &result{}, out.size(2)
				op(e, x>>7, x>>3^x<<11, r)
				if out.size(1) > 0 {
					return fmt.Errorf("%s wrote to standard output: %q", name, out.text(1))
				}
				if out.size(2) > before && !strings.Contains(r.text.String(), "err=true") {
					return fmt.Errorf("%s succeeded and wrote to standard error: %q", name, out.text(2))
				}
			}
		}
	}
	return nil
}

func check34(c c34) (err error) {
	out, err := newCapture()
	if err != nil {
		return nil // no room for a file: nothing can be said
	}
	defer out.restore()
	old := debug.SetGCPercent(100)
	defer debug.SetGCPercent(old)
	if err := c.rounds(out, 20, 4); err != nil { // tables, pools, caches of fixed size
		return err
	}
	if err := c.files(out); err != nil {
		return err
	}
	before := look()
	if err := c.rounds(out, c.Rounds, 4); err != nil {
		return err
	}
	if err := c.roundsOf(out, 2*len(c34lens), 4, c34lens); err != nil {
		return err
	}
	after := look()
	for k := 0; k < 50 && after.goroutines > before.goroutines; k++ {
		time.Sleep(100 * time.Millisecond) // some may be about to end
		after.goroutines = runtime.NumGoroutine()
	}
	if after.goroutines > before.goroutines {
		return fmt.Errorf("%d rounds of %v left %d goroutines behind", c.Rounds, c.Ops, after.goroutines-before.goroutines)
	}
	if after.files > before.files {
		return fmt.Errorf("%d rounds of %v left %d files open", c.Rounds, c.Ops, after.files-before.files)
	}
	for _, p := range [][3]string{{"the log settings", before.logging, after.logging}, {"the working directory", before.dir, after.dir}, {"the environment", before.environment, after.environment},
		{"the number of processors used", fmt.Sprint(before.threads), fmt.Sprint(after.threads)}} {
		if p[1] != p[2] {
			return fmt.Errorf("%v changed %s from %q to %q", c.Ops, p[0], p[1], p[2])
		}
	}
	if after.mem-before.mem <= c34Slack {
		return nil
	}
	return c.leak(out, after.mem-before.mem)
}

// files makes a few rounds without collecting garbage: a file that is only
// closed once the collector finds it is open until then.
func (c c34) files(out *capture) error {
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	limit := debug.SetMemoryLimit(512 << 20)
	defer debug.SetMemoryLimit(limit)
	a := look().files
	if err := c.roundsOf(out, len(c34lens), 4, c34lens); err != nil {
		return err
	}
	if b := openFiles(); b > a {
		return fmt.Errorf("a few rounds of %v left %d files open", c.Ops, b-a)
	}
	return nil
}

// leak finds out whether memory that stayed behind keeps growing: it takes
// the call that keeps the most and makes it many times.
func (c c34) leak(out *capture, first int64) error {
	type kept struct {
		op  string
		mem int64
	}
	var l []kept
	for _, op := range c.Ops {
		one := c34{Ops: []string{op}, Seed: c.Seed}
		a := look()
		if err := one.rounds(out, 400, 4); err != nil {
			return err
		}
		l = append(l, kept{op, look().mem - a.mem})
	}
	sort.SliceStable(l, func(a, b int) bool { return l[a].mem > l[b].mem })
	one := c34{Ops: []string{l[0].op}, Seed: c.Seed}
	a, n, began := look(), 0, time.Now()
	for n < 60000 && time.Since(began) < 2*time.Minute {
		if err := one.rounds(out, 1000, 40); err != nil {
			return err
		}
		n += 1000
		if b := look(); b.mem-a.mem > c34Max {
			return fmt.Errorf("%d rounds of %s left %d kB behind (and %d rounds of %v left %d kB)", n, l[0].op, (b.mem-a.mem)>>10, c.Rounds, c.Ops, first>>10)
		}
	}
	return nil
}

func init() {
	pbt.Register(pbt.Def[c34]{
		ID: "C34",
		Rule: "calls from the table of C27 (all of the library's functions, with valid and with refused arguments), made for hundreds of rounds, each round on other data, four times with other arguments (keys, scripts, transactions, ids, addresses, texts). " +
			"A few rounds without garbage collection, on data of up to 140 kB, must leave no file open. After 20 rounds and again after the last, the memory in use once collected, the goroutines, the open files, the log settings, environment and directory are compared, and nothing may have been written to standard output, nor to standard error by a call that succeeded. " +
			"Memory that stayed behind (over 40 kB) is followed up: the call that keeps most of it is made for up to 60000 rounds, and has failed once 2 MB stay, so that a cache of fixed size passes. Non-trivial: at least 100 rounds. The sweep takes every call alone, and all together.",
		Gen: func(t *rapid.T) c34 {
			c := c34{Seed: uint32(g.Raw64(t, "seed")), Rounds: g.Int(t, 20, 300, "rounds")}
			for k := g.Int(t, 1, 12, "n"); k > 0; k-- {
				c.Ops = append(c.Ops, g.Pick(t, opNames, "op"))
			}
			return c
		},
		Sweep: func(thorough bool, yield func(c34)) {
			n := 1500
			if thorough {
				n = 15000
			}
			for k, op := range opNames {
				yield(c34{Ops: []string{op}, Seed: uint32(k) << 20, Rounds: 2 * n})
			}
			for k := uint32(0); k < 8; k++ {
				yield(c34{Ops: opNames, Seed: 5<<24 + k<<18, Rounds: n / 3})
			}
		},
		Check: check34,
		Classify: func(c c34) (bool, []string) {
			var l []string
			for _, op := range c.Ops {
				l = append(l, "op "+op)
			}
			return c.Rounds >= 100, l
		},
		Quick: 120, Thorough: 2400, CaseCPU: 600, History: -1, NoKeep: true,
	})
}
