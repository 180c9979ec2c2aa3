// vh runs the property checks.
//
//	vh check ID             run the check of one property (VERIF_TIER, VERIF_SEED)
//	vh replay FILE          run one saved case
//	vh list                 list the properties
//	vh sample ID N          print N generated cases
//	vh worker/one ...       internal: one shard, one case
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/pbt"
	_ "verif/harness/props"
)

const (
	shards     = 8
	maxJournal = 64 << 20
	heapLimit  = 2500 << 20
	addrLimit  = 16 << 30

	// a quick check generates for at most this long (it takes seconds, but
	// the machine may be busy, or the code slow)
	quickLimit = 8 * time.Minute

	exitHeld      = 0
	exitViolation = 1
	exitWatchdog  = 3
	exitError     = 5 // not 2, which the Go runtime uses for a crash
)

func root() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check ID | replay FILE | list | sample ID N")
		os.Exit(exitError)
	}
	switch os.Args[1] {
	case "list":
		for _, id := range pbt.IDs() {
			r := pbt.Lookup(id)
			fmt.Printf("%s quick=%d thorough=%d race=%v\n", id, r.Budget(false), r.Budget(true), r.NeedsRace())
		}
	case "describe":
		for _, id := range pbt.IDs() {
			r := pbt.Lookup(id)
			b, _ := json.Marshal(map[string]any{"id": id, "rule": r.RuleText(), "assumptions": r.Assumes(), "quick": r.Budget(false), "thorough": r.Budget(true)})
			fmt.Println(string(b))
		}
	case "sample":
		n, _ := strconv.Atoi(os.Args[3])
		for _, s := range mustLookup(os.Args[2]).SampleJSON(n) {
			fmt.Println(string(s))
		}
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "worker":
		os.Exit(worker(os.Args[2:]))
	case "one":
		os.Exit(one(os.Args[2]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(exitError)
	}
}

func mustLookup(id string) pbt.Runner {
	r := pbt.Lookup(id)
	if r == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		os.Exit(exitError)
	}
	return r
}

// replayFile is what a failure is saved as.
type replayFile struct {
	Property string          `json:"property"`
	Stage    string          `json:"stage,omitempty"`
	Error    string          `json:"error,omitempty"`
	Note     string          `json:"note,omitempty"`
	Case     json.RawMessage `json:"case,omitempty"`
	Shard    *shardSpec      `json:"shard,omitempty"` // set when only the whole shard reproduces the failure
}

type shardSpec struct {
	Tier  string `json:"tier"`
	Shard int    `json:"shard"`
	Seed  uint64 `json:"seed"`
}

type workerResult struct {
	Evals      int
	Corpus     int
	Sweep      int
	Random     int
	Histories  int
	Labels     map[string]int
	Nontrivial []uint64
	Samples    []json.RawMessage
	Fail       *pbt.Failure
	RapidError string
}

// ---- worker ---------------------------------------------------------------

func limits(race bool) {
	runtime.GOMAXPROCS(2)
	if !race {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: addrLimit, Max: addrLimit})
	} else {
		runtime.GOMAXPROCS(8)
	}
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	debug.SetGCPercent(200)
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// watch ends the process when one case uses too much processor time or
// memory, or waits for something that never comes. It judges work done (CPU
// seconds) and the states of goroutines, not the clock on the wall: a process
// that gets no processor time is not at fault.
func watch(cpuLimit float64, caseNo *int64, busy *int32, stop func(reason string)) {
	last, start := int64(-1), 0.0
	began, looked := time.Now(), time.Now()
	var st stall
	for {
		time.Sleep(100 * time.Millisecond)
		n := atomic.LoadInt64(caseNo)
		if n != last || atomic.LoadInt32(busy) == 0 {
			last, start = n, cpuSeconds()
			began, looked, st = time.Now(), time.Now(), stall{}
			continue
		}
		if time.Since(began) > 10*time.Second && time.Since(looked) > time.Second {
			looked = time.Now()
			if reason := st.look(); reason != "" {
				stop(reason)
			}
		}
		if used := cpuSeconds() - start; used > cpuLimit {
			stop(fmt.Sprintf("the case did not finish within %.0f seconds of processor time", cpuLimit))
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heapLimit {
			stop(fmt.Sprintf("the case uses more than %d MB of memory", heapLimit>>20))
		}
	}
}

// stall recognises a case all of whose goroutines wait, unchanged, on locks,
// channels or timers.
type stall struct {
	seen  string
	times int
}

const (
	stallLooks = 20  // seconds of waiting on locks and channels
	sleepLooks = 120 // seconds when a timer is involved
)

func (s *stall) look() string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	sig, sleeping, where := "", false, ""
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, body, _ := strings.Cut(g, "\n")
		if !strings.Contains(body, "verif/harness/props.") && !strings.Contains(body, "libsv/libsv/") {
			continue
		}
		state := head[strings.IndexByte(head, '[')+1:]
		state, _, _ = strings.Cut(strings.TrimRight(state, "]:"), ",")
		switch {
		case state == "sleep":
			sleeping = true
		case strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "semacquire"), strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"):
		default:
			*s = stall{}
			return "" // running, or about to
		}
		sig += state + body
		if strings.Contains(body, "libsv/libsv/") {
			where = g
		}
	}
	if sig == "" || sig != s.seen {
		*s = stall{seen: sig}
		return ""
	}
	s.times++
	if s.times >= sleepLooks || s.times >= stallLooks && !sleeping {
		return "the case waits for something that never happens:\n" + firstLines(where, 20)
	}
	return ""
}

func worker(args []string) int {
	id, tier := args[0], args[1]
	shard, _ := strconv.Atoi(args[2])
	seed, _ := strconv.ParseUint(args[3], 10, 64)
	dir := args[4]
	r := mustLookup(id)
	limits(r.NeedsRace())

	jf, err := os.OpenFile(filepath.Join(dir, "journal"), os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	if err := jf.Truncate(maxJournal); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	jm, err := syscall.Mmap(int(jf.Fd()), 0, maxJournal, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}

	rec := pbt.NewRecorder()
	var caseNo int64
	var busy int32
	var current []byte
	var mu sync.Mutex
	rec.Journal = func(raw []byte) {
		mu.Lock()
		current = raw
		mu.Unlock()
		if len(raw) <= maxJournal-4 {
			binary.LittleEndian.PutUint32(jm, 0)
			copy(jm[4:], raw)
			binary.LittleEndian.PutUint32(jm, uint32(len(raw)))
		}
		atomic.AddInt64(&caseNo, 1)
		atomic.StoreInt32(&busy, 1)
	}
	rec.Done = func() {
		atomic.StoreInt32(&busy, 0)
		binary.LittleEndian.PutUint32(jm, 0)
	}
	var res workerResult
	write := func() error {
		b, err := json.Marshal(res)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dir, "result.json"), b, 0o600)
	}
	go watch(r.CPULimit(), &caseNo, &busy, func(reason string) {
		mu.Lock()
		raw := append([]byte{}, current...)
		mu.Unlock()
		res = workerResult{Evals: 1, Fail: &pbt.Failure{Case: raw, Error: reason, Stage: "watchdog"}}
		_ = write()
		os.Exit(exitWatchdog)
	})

	thorough := tier == "thorough"
	if !thorough {
		rec.Deadline = time.Now().Add(quickLimit)
	}
	if shard == 0 {
		rec.Stage = "corpus"
		files, _ := filepath.Glob(filepath.Join(root(), "corpus", id, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return exitError
			}
			var rf replayFile
			if err := json.Unmarshal(b, &rf); err != nil {
				fmt.Fprintln(os.Stderr, f, err)
				return exitError
			}
			if r.CheckJSON(rf.Case, rec) != nil {
				break
			}
		}
	}
	res.Corpus = rec.Evals
	if rec.Fail == nil {
		r.RunSweep(thorough, shard, shards, rec)
	}
	res.Sweep = rec.Evals - res.Corpus
	if rec.Fail == nil {
		n := r.Budget(thorough)
		part := n / shards
		if shard < n%shards {
			part++
		}
		r.RunRandom(part, mix(seed, uint64(shard)), rec)
	}
	res.Random = rec.Evals - res.Corpus - res.Sweep
	res.Histories = rec.Histories
	res.Evals, res.Labels, res.Samples, res.Fail = rec.Evals, rec.Labels, rec.Samples, rec.Fail
	for h := range rec.Nontrivial {
		res.Nontrivial = append(res.Nontrivial, h)
	}
	if rec.Fail == nil {
		res.RapidError = pbt.RapidError
	}
	if err := write(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	return exitHeld
}

func mix(seed, shard uint64) uint64 {
	x := seed*0x9e3779b97f4a7c15 + (shard+1)*0xbf58476d1ce4e5b9
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	if x == 0 {
		x = 1
	}
	return x
}

// one runs one saved case in this process.
func one(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	r := mustLookup(rf.Property)
	limits(r.NeedsRace())
	rec := pbt.NewRecorder()
	var caseNo int64
	busy := int32(1)
	go watch(r.CPULimit(), &caseNo, &busy, func(reason string) {
		fmt.Println(reason)
		os.Exit(exitWatchdog)
	})
	if err := r.CheckJSON(rf.Case, rec); err != nil {
		fmt.Println(err)
		return exitViolation
	}
	return exitHeld
}

// ---- parent ---------------------------------------------------------------

type shardRun struct {
	shard  int
	code   int
	signal syscall.Signal
	out    string
	res    *workerResult
	stuck  []byte // case in the journal of a worker that died
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		p = os.Args[0]
	}
	return p
}

func childEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
}

var (
	liveMu sync.Mutex
	live   = map[*exec.Cmd]bool{}
	stopIt bool
)

func killAll() {
	liveMu.Lock()
	stopIt = true
	for c := range live {
		_ = c.Process.Kill()
	}
	liveMu.Unlock()
}

func runChild(args ...string) (code int, sig syscall.Signal, out string) {
	cmd := exec.Command(self(), args...)
	cmd.Env = childEnv()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var sb limitedBuf
	cmd.Stdout, cmd.Stderr = &sb, &sb
	runtime.LockOSThread() // Pdeathsig is tied to the thread that forks
	defer runtime.UnlockOSThread()
	liveMu.Lock()
	if stopIt {
		liveMu.Unlock()
		return -1, syscall.SIGTERM, ""
	}
	if err := cmd.Start(); err != nil {
		liveMu.Unlock()
		return exitError, 0, err.Error()
	}
	live[cmd] = true
	liveMu.Unlock()
	err := cmd.Wait()
	liveMu.Lock()
	delete(live, cmd)
	liveMu.Unlock()
	if err == nil {
		return 0, 0, sb.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			return -1, ws.Signal(), sb.String()
		}
		return ws.ExitStatus(), 0, sb.String()
	}
	return exitError, 0, err.Error()
}

type limitedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if room := 1<<16 - len(l.b); room > 0 {
		if len(p) > room {
			l.b = append(l.b, p[:room]...)
		} else {
			l.b = append(l.b, p...)
		}
	}
	return len(p), nil
}
func (l *limitedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return string(l.b) }

func runShard(id, tier string, shard int, seed uint64, tmp string) shardRun {
	sr := shardRun{shard: shard}
	dir, err := os.MkdirTemp(tmp, "w")
	if err != nil {
		sr.code, sr.out = exitError, err.Error()
		return sr
	}
	sr.code, sr.signal, sr.out = runChild("worker", id, tier, strconv.Itoa(shard), strconv.FormatUint(seed, 10), dir)
	if b, err := os.ReadFile(filepath.Join(dir, "result.json")); err == nil {
		var wr workerResult
		if json.Unmarshal(b, &wr) == nil {
			sr.res = &wr
		}
	}
	if sr.code != 0 || sr.res == nil {
		if f, err := os.Open(filepath.Join(dir, "journal")); err == nil {
			var n [4]byte
			if _, err := f.ReadAt(n[:], 0); err == nil {
				if l := binary.LittleEndian.Uint32(n[:]); l > 0 && l <= maxJournal {
					sr.stuck = make([]byte, l)
					_, _ = f.ReadAt(sr.stuck, 4)
				}
			}
			f.Close()
		}
	}
	_ = os.RemoveAll(dir)
	return sr
}

func firstLines(s string, n int) string {
	lines := strings.Split(strings.TrimSpace(s), "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n")
}

func check(id string) int {
	r := mustLookup(id)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var seed int64 = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			// any text is a usable seed
			v = 0
			for _, c := range []byte(s) {
				v = v*131 + int64(c)
			}
		}
		seed = v
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(tmp)

	runs := make([]shardRun, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			runs[i] = runShard(id, tier, i, uint64(seed), tmp)
			if runs[i].signal == syscall.SIGKILL && !stopped() {
				// ended from outside (memory ran low, say): once more
				runs[i] = runShard(id, tier, i, uint64(seed), tmp)
			}
			if failed(runs[i]) {
				killAll()
			}
		}(i)
	}
	wg.Wait()
	liveMu.Lock()
	stopIt = false
	liveMu.Unlock()

	var total workerResult
	total.Labels = map[string]int{}
	nt := map[uint64]struct{}{}
	var first *shardRun
	var broken *shardRun
	for i := range runs {
		sr := &runs[i]
		if sr.res != nil {
			total.Evals += sr.res.Evals
			total.Corpus += sr.res.Corpus
			total.Sweep += sr.res.Sweep
			total.Random += sr.res.Random
			total.Histories += sr.res.Histories
			for l, n := range sr.res.Labels {
				total.Labels[l] += n
			}
			for _, h := range sr.res.Nontrivial {
				nt[h] = struct{}{}
			}
			if len(total.Samples) < 8 {
				k := 2
				if len(sr.res.Samples) < k {
					k = len(sr.res.Samples)
				}
				total.Samples = append(total.Samples, sr.res.Samples[:k]...)
			}
			if sr.res.RapidError != "" && broken == nil {
				broken = sr
				sr.out += "\nrapid: " + sr.res.RapidError
			}
		}
		if failed(*sr) {
			if first == nil {
				first = sr
			}
		} else if sr.res == nil && sr.signal != syscall.SIGKILL && sr.signal != syscall.SIGTERM && broken == nil {
			broken = sr
		} else if sr.res == nil && broken == nil {
			broken = sr // killed; matters only if nothing failed
		}
	}
	violations := 0
	verdict := exitHeld
	var path, msg string
	if first != nil {
		verdict, path, msg = confirm(id, tier, uint64(seed), first, tmp)
		if verdict == exitViolation {
			violations = 1
		}
	} else if broken != nil {
		verdict = exitError
		msg = fmt.Sprintf("shard %d gave no answer (exit %d signal %v):\n%s", broken.shard, broken.code, broken.signal, firstLines(broken.out, 40))
	}
	if verdict == exitHeld && (len(nt) < 1 || len(total.Samples) < 1) {
		verdict, msg = exitError, "no non-trivial case was generated"
	}
	if err := writeEvidence(r, tier, seed, &total, len(nt), violations, time.Since(start).Seconds()); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if verdict == exitHeld {
			verdict = exitError
		}
	}
	fmt.Printf("%s tier=%s seed=%d cases=%d (corpus %d, sweep %d, random %d) distinct_nontrivial=%d wall=%.1fs\n",
		id, tier, seed, total.Evals, total.Corpus, total.Sweep, total.Random, len(nt), time.Since(start).Seconds())
	switch verdict {
	case exitViolation:
		fmt.Println(firstLines(msg, 30))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	case exitError:
		fmt.Fprintln(os.Stderr, "ERROR:", msg)
	}
	return verdict
}

func stopped() bool { liveMu.Lock(); defer liveMu.Unlock(); return stopIt }

// failed: the worker has a failing case to show (a reported failure, or a
// case in the journal it died on).
func failed(sr shardRun) bool {
	if sr.res != nil && sr.res.Fail != nil {
		return true
	}
	return (sr.code != 0 || sr.res == nil) && sr.signal == 0 && sr.stuck != nil ||
		sr.signal != 0 && sr.signal != syscall.SIGKILL && sr.signal != syscall.SIGTERM && sr.stuck != nil
}

// confirm writes the replay file and runs it in a fresh process.
func confirm(id, tier string, seed uint64, sr *shardRun, tmp string) (int, string, string) {
	rf := replayFile{Property: id}
	if sr.res != nil && sr.res.Fail != nil {
		rf.Case, rf.Error, rf.Stage = sr.res.Fail.Case, sr.res.Fail.Error, sr.res.Fail.Stage
	} else {
		rf.Case, rf.Stage = sr.stuck, "crash"
		rf.Error = fmt.Sprintf("the process died on this case (exit %d, signal %v):\n%s", sr.code, sr.signal, firstLines(sr.out, 30))
	}
	dir := filepath.Join(root(), "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return exitError, "", err.Error()
	}
	path := filepath.Join(dir, id+".json")
	save := func() error {
		b, err := json.MarshalIndent(rf, "", " ")
		if err != nil {
			return err
		}
		return os.WriteFile(path, b, 0o644)
	}
	if err := save(); err != nil {
		return exitError, "", err.Error()
	}
	tries := 1
	if mustLookup(id).NeedsRace() {
		tries = 10
	}
	for k := 0; k < tries; k++ {
		if code, sig, out := runChild("one", path); code != exitHeld && code != exitError && sig != syscall.SIGKILL {
			if rf.Stage == "crash" || rf.Stage == "watchdog" {
				rf.Error = firstLines(out, 30)
				_ = save()
			}
			return exitViolation, path, rf.Error
		}
	}
	// The case alone passes in a fresh process: what came before it matters.
	// Then the reproduction is the shard's whole, deterministic history.
	rf.Shard = &shardSpec{Tier: tier, Shard: sr.shard, Seed: seed}
	rf.Note = "the case fails only after the cases before it; replay runs the whole shard"
	if err := save(); err != nil {
		return exitError, "", err.Error()
	}
	again := runShard(id, tier, sr.shard, seed, tmp)
	if failed(again) {
		return exitViolation, path, rf.Error
	}
	return exitError, path, "a failure did not reproduce: " + rf.Error
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	if rf.Shard != nil {
		tmp, err := os.MkdirTemp("", "vh-replay-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		defer os.RemoveAll(tmp)
		sr := runShard(rf.Property, rf.Shard.Tier, rf.Shard.Shard, rf.Shard.Seed, tmp)
		if failed(sr) {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
			return exitViolation
		}
		if sr.res == nil {
			return exitError
		}
		fmt.Println("held")
		return exitHeld
	}
	code, sig, out := runChild("one", file)
	fmt.Print(out)
	switch {
	case code == exitHeld:
		fmt.Println("held")
		return exitHeld
	case code == exitError || sig == syscall.SIGKILL:
		return exitError
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return exitViolation
}

func writeEvidence(r pbt.Runner, tier string, seed int64, t *workerResult, nt, violations int, wall float64) error {
	dir := filepath.Join(root(), "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	ev := map[string]any{
		"property": r.Name(),
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         t.Evals,
			"distinct_nontrivial": nt,
			"rule":                r.RuleText(),
			"samples":             t.Samples,
			"by_source":           map[string]int{"corpus": t.Corpus, "sweep": t.Sweep, "random": t.Random},
			"histories":           t.Histories,
			"classes":             t.Labels,
		},
		"assumptions": r.Assumes(),
		"wall_s":      wall,
		"violations":  violations,
	}
	if r.Assumes() == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, r.Name()+".json"), append(b, '\n'), 0o644)
}
