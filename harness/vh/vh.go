// Package vh is the common part of all verification harnesses: deterministic random numbers per case,
// the record of what was observed, and the watchdog that distinguishes a blocked goroutine from a slow machine.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Run is one run of the check of one property.
type Run struct {
	ID       string
	Seed     int64
	Thorough bool

	mu           sync.Mutex
	out          *os.File
	only         string
	part, parts  int
	evaluations  int
	distinct     map[uint64]struct{}
	samples      []any
	counters     map[string]int
	violations   int
	firstFailure time.Time
	msgs         map[string]int
	rule         string
	start        time.Time
	inconclusive []string
}

type record map[string]any

// Start the run. The parameters are taken from the environment.
func Start(id string) *Run {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := &Run{
		ID: id, Seed: seed, Thorough: os.Getenv("VERIF_TIER") == "thorough",
		distinct: map[uint64]struct{}{}, counters: map[string]int{}, msgs: map[string]int{}, start: time.Now(),
		only: os.Getenv("VERIF_CASE"),
	}
	fmt.Sscanf(os.Getenv("VERIF_PART"), "%d/%d", &r.part, &r.parts)
	r.out = os.Stdout // os.Stdout is replaced by some checks
	if name := os.Getenv("VERIF_OUT"); name != "" {
		f, err := os.OpenFile(name, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
		if err != nil {
			panic(err)
		}
		r.out = f
	}
	return r
}

func (r *Run) emit(rec record) {
	b, err := json.Marshal(rec)
	if err != nil {
		b, _ = json.Marshal(record{"t": rec["t"], "msg": fmt.Sprint(rec["msg"]), "case": fmt.Sprint(rec["case"]), "marshal_error": err.Error()})
	}
	b = append(b, '\n')
	r.out.Write(b)
}

// N scales the number of cases: quick cases normally, quick*factor in the thorough tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Rand returns the random numbers of one case; they depend on the seed and the name only.
func (r *Run) Rand(name string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s", r.Seed, r.ID, name)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// mine tells whether this process runs the case; several processes share the cases by VERIF_PART=i/n.
func (r *Run) mine(name string) bool {
	if r.parts < 2 {
		return true
	}
	if n, err := strconv.Atoi(name[strings.LastIndex(name, "/")+1:]); err == nil {
		return n%r.parts == r.part
	}
	h := fnv.New32a()
	h.Write([]byte(name))
	return int(h.Sum32()%uint32(r.parts)) == r.part
}

// Case runs one named case with its own random numbers. A panic is a violation.
func (r *Run) Case(name string, f func(c *C)) {
	if r.only != "" && r.only != name || !r.mine(name) {
		return
	}
	r.mu.Lock()
	r.evaluations++
	// a few violations are enough, also if every case takes long to fail
	stop := r.violations >= 20 || r.violations > 0 && time.Since(r.firstFailure) > time.Minute
	r.mu.Unlock()
	if stop {
		return
	}
	c := &C{Run: r, Name: name, Rand: r.Rand(name)}
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "case", name)
	}
	r.emitState(name)
	defer func() {
		if e := recover(); e != nil {
			if e == errAbort {
				return
			}
			stack := string(debug.Stack())
			c.fail(fmt.Sprintf("panic: %v", e), record{"stack": trim(stack, 6000)})
		}
	}()
	f(c)
}

// emitState notes the current case, so that the parent knows it if the process dies.
func (r *Run) emitState(name string) {
	if f := os.Getenv("VERIF_CURRENT"); f != "" {
		os.WriteFile(f, []byte(name), 0644)
	}
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// C is one case.
type C struct {
	*Run
	Name string
	*rand.Rand
	sub   string
	fails int
}

var errAbort = fmt.Errorf("case aborted")

// Key marks this case as distinct and non-trivial under the given key.
func (c *C) Key(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.mu.Lock()
	c.distinct[h.Sum64()] = struct{}{}
	c.mu.Unlock()
}

// Eval counts further evaluations within the case.
func (c *C) Eval(n int) {
	c.mu.Lock()
	c.evaluations += n
	c.mu.Unlock()
}

// Sample stores an actual case (at most 6).
func (c *C) Sample(s any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// Count something that was observed.
func (r *Run) Count(what string, n int) {
	r.mu.Lock()
	r.counters[what] += n
	r.mu.Unlock()
}

func (c *C) fail(msg string, detail any) {
	c.mu.Lock()
	c.fails++
	if c.violations == 0 {
		c.firstFailure = time.Now()
	}
	c.violations++
	c.msgs[msg]++
	c.mu.Unlock()
	c.emit(record{"t": "violation", "case": c.Name, "msg": trim(msg, 2000), "detail": detail})
	if os.Getenv("VERIF_FAILFAST") != "" { // only to evaluate mutants
		os.Exit(1)
	}
}

// Failf reports a violation and goes on.
func (c *C) Failf(format string, args ...any) {
	c.mu.Lock()
	n := c.fails
	c.mu.Unlock()
	if n >= 3 {
		panic(errAbort)
	}
	c.fail(fmt.Sprintf(format, args...), nil)
}

// FailWith reports a violation with its history.
func (c *C) FailWith(detail any, format string, args ...any) {
	c.fail(fmt.Sprintf(format, args...), detail)
}

// Abort ends the case.
func (c *C) Abort() { panic(errAbort) }

// Failed tells whether this case has a violation.
func (c *C) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.fails > 0
}

// Inconclusive notes that this case could not be decided.
func (c *C) Inconclusive(format string, args ...any) {
	c.mu.Lock()
	c.inconclusive = append(c.inconclusive, c.Name+": "+fmt.Sprintf(format, args...))
	c.mu.Unlock()
	c.emit(record{"t": "inconclusive", "case": c.Name, "msg": fmt.Sprintf(format, args...)})
}

// Patience is the time after which a step that does not return is examined.
var Patience = 20 * time.Second

// Within runs f in its own goroutine. If f does not return in time, all goroutines are dumped: if one of
// them is blocked inside of sdrainer's code, this is a violation, otherwise the case is inconclusive.
// In both cases the case is aborted; true means f returned.
func (c *C) Within(what string, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	c.Await(what, done)
}

// Await waits for the channel with the same watchdog as Within.
func (c *C) Await(what string, done <-chan any) {
	for attempt := 1; ; attempt++ {
		select {
		case e := <-done:
			if e != nil {
				if e == errAbort {
					panic(errAbort)
				}
				c.Failf("%s: panic: %v", what, e)
				panic(errAbort)
			}
			return
		case <-time.After(Patience):
		}
		blocked, all := BlockedInSdrainer()
		if blocked != "" {
			c.fail(fmt.Sprintf("%s does not return: a goroutine is blocked in sdrainer for more than %v", what, Patience), record{"blocked": trim(blocked, 6000)})
			c.Hard()
		}
		if attempt >= 4 {
			c.Inconclusive("%s did not return, but nothing is blocked in sdrainer: %s", what, trim(all, 4000))
			panic(errAbort)
		}
	}
}

// Hard ends the whole run after a violation that leaves the process in an unusable state.
func (r *Run) Hard() {
	r.Done()
	os.Exit(0)
}

// Reach waits until the condition holds. If this does not happen although nothing is in progress anymore
// (all goroutines in sdrainer's code wait for something), or although a lot of time passed, it is a violation, and the case is aborted.
func (c *C) Reach(cond func() bool, detail func() any, format string, args ...any) {
	for attempt := 1; ; attempt++ {
		if WaitForD(cond, Patience) {
			return
		}
		idle := 0
		for i := 0; i < 20; i++ {
			if Idle() {
				idle++
			}
			time.Sleep(20 * time.Millisecond)
		}
		if cond() {
			return
		}
		if idle > 0 || attempt >= 6 {
			var d any
			if detail != nil {
				d = detail()
			}
			c.fail(fmt.Sprintf(format, args...), d)
			panic(errAbort)
		}
	}
}

// BlockedInSdrainer returns the stacks of goroutines that are blocked in sdrainer's code.
func BlockedInSdrainer() (string, string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var result []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, rest, ok := strings.Cut(g, "\n")
		if !ok {
			continue
		}
		if !strings.Contains(rest, "github.com/ftl/sdrainer/") {
			continue
		}
		blocked := false
		for _, s := range []string{"chan send", "chan receive", "select", "semacquire", "sync.Mutex.Lock", "sync.RWMutex", "sync.WaitGroup", "sync.Cond.Wait", "IO wait"} {
			if strings.Contains(head, s) {
				blocked = true
			}
		}
		if blocked {
			result = append(result, g)
		}
	}
	return strings.Join(result, "\n\n"), string(buf)
}

// Idle tells whether all goroutines in sdrainer's code wait for something, i.e. everything given to it is processed.
func Idle() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, rest, _ := strings.Cut(g, "\n")
		rest, _, _ = strings.Cut(rest, "created by")
		if !strings.Contains(rest, "github.com/ftl/sdrainer/") {
			continue
		}
		if strings.Contains(rest, "go-dsp/fft") || !(strings.Contains(head, "[select") || strings.Contains(head, "[chan receive") || strings.Contains(head, "[IO wait")) {
			return false
		}
	}
	return true
}

// WaitFor polls the condition until it holds; false after the given number of Patience periods.
func WaitFor(cond func() bool) bool {
	return WaitForD(cond, Patience)
}

// WaitForD polls the condition until it holds, at most for d.
func WaitForD(cond func() bool, d time.Duration) bool {
	deadline := time.Now().Add(d)
	sleep := 50 * time.Microsecond
	for !cond() {
		if time.Now().After(deadline) {
			return cond()
		}
		time.Sleep(sleep)
		if sleep < 5*time.Millisecond {
			sleep *= 2
		}
	}
	return true
}

// Rule describes how cases are made and what is a non-trivial case.
func (r *Run) Rule(format string, args ...any) { r.rule = fmt.Sprintf(format, args...) }

// Done ends the run.
func (r *Run) Done() {
	r.mu.Lock()
	rec := record{"t": "done", "evaluations": r.evaluations, "distinct": len(r.distinct), "samples": r.samples,
		"counters": r.counters, "violations": r.violations, "rule": r.rule, "inconclusive": r.inconclusive, "wall_s": time.Since(r.start).Seconds()}
	r.mu.Unlock()
	r.emit(rec)
}

// Main dispatches to the check with the id of the first argument.
func Main(checks map[string]func(r *Run)) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness ID")
		os.Exit(2)
	}
	f, ok := checks[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", os.Args[1])
		os.Exit(2)
	}
	r := Start(os.Args[1])
	if name := os.Getenv("VERIF_PROFILE"); name != "" {
		if w, err := os.Create(name); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	f(r)
	r.Done()
}

// Parallel runs n cases on several goroutines.
func (r *Run) Parallel(workers, n int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}
