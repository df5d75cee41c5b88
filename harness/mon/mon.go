// Package mon is the monitor library shared by all checks: seeded random
// sources, event counters, distinct-state sets, the violation recorder and
// the stall detector. Everything in it is safe for concurrent use.
package mon

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.uber.org/zap"
)

// Violation is one recorded violation. Key identifies the failing input,
// call site or history independently of the run, so that it can be matched
// against the known findings.
type Violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Replay string `json:"replay"`
}

type result struct {
	Evaluations  int64            `json:"evaluations"`
	Distinct     int64            `json:"distinct_nontrivial"`
	Rule         string           `json:"rule"`
	Counters     map[string]int64 `json:"counters"`
	Sets         map[string]int   `json:"sets"`
	Samples      []string         `json:"samples"`
	Assumptions  []string         `json:"assumptions"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Complete     bool             `json:"complete"`
}

// Run is one execution of a check.
type Run struct {
	ID      string
	Seed    int64
	Quick   bool
	Scratch string
	Replays string

	out string

	mu       sync.Mutex
	counters map[string]*int64
	sets     map[string]map[string]struct{}
	samples  []string
	assume   []string
	viol     []Violation
	nviol    int64
	inconc   []string
	rule     string
	distinct string
	needs    map[string]int64
	known    map[string]bool
	perKey   map[string]int

	evals    int64
	progress int64
	phase    atomic.Value
	current  map[int64]string
	curSeq   int64
}

// MaxViolations is the number of violations after which Failed reports true
// and the check should wind up.
const MaxViolations = 12

// StallAfter is the time without any monitored event after which the
// execution is reported as hung.
var StallAfter = 150 * time.Second

// MemLimit is the heap size after which the execution is reported as runaway.
var MemLimit = uint64(14 << 30)

var theRun *Run

// Main runs a check. rule describes what counts as a distinct non-trivial
// evaluation; such evaluations are those recorded with r.Distinct("main", ..).
func Main(id, rule string, body func(r *Run)) {
	zap.ReplaceGlobals(zap.NewNop())
	// A zone other than UTC, so that local and recorded times differ.
	time.Local = time.FixedZone("VERIF", -(7*3600 + 45*60))
	out := flag.String("out", "", "result file")
	scratch := flag.String("scratch", "", "scratch directory")
	replays := flag.String("replays", "", "directory for replay files")
	child := flag.String("child", "", "run as a child process with this role")
	flag.Parse()
	if *child != "" {
		runChild(*child, flag.Args())
		return
	}

	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	if *scratch == "" {
		d, err := ioutil.TempDir("", "verif."+id+".")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		*scratch = d
	}
	if *replays == "" {
		*replays = filepath.Join(*scratch, "replays")
	}
	os.MkdirAll(*replays, 0755)
	r := &Run{
		ID: id, Seed: seed, Quick: os.Getenv("VERIF_TIER") != "thorough",
		Scratch: *scratch, Replays: *replays, out: *out,
		counters: map[string]*int64{}, sets: map[string]map[string]struct{}{},
		needs: map[string]int64{}, known: map[string]bool{}, perKey: map[string]int{}, rule: rule, current: map[int64]string{},
	}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), "\n") {
		if k != "" {
			r.known[k] = true
		}
	}
	theRun = r
	go r.watchdog()
	body(r)
	r.finish(true)
	if r.Failed() {
		os.Exit(1)
	}
	if len(r.inconc) > 0 {
		os.Exit(2)
	}
	os.Exit(0)
}

// Child roles: programs that need several processes register them before Main.
var children = map[string]func(args []string){}

func Child(role string, f func(args []string)) { children[role] = f }

func runChild(role string, args []string) {
	f, ok := children[role]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown child role %q\n", role)
		os.Exit(3)
	}
	f(args)
	os.Exit(0)
}

// N picks a size by tier.
func (r *Run) N(quick, thorough int) int {
	if r.Quick {
		return quick
	}
	return thorough
}

// Rng returns a generator determined by the seed and the label.
func (r *Run) Rng(label string, n ...int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%v", r.Seed, r.ID, label, n)
	return rand.New(rand.NewSource(int64(h.Sum64() & 0x7fffffffffffffff)))
}

// Tick records progress without counting anything.
func (r *Run) Tick() { atomic.AddInt64(&r.progress, 1) }

// Eval counts one oracle evaluation.
func (r *Run) Eval() {
	atomic.AddInt64(&r.evals, 1)
	atomic.AddInt64(&r.progress, 1)
}

func (r *Run) EvalN(n int) {
	atomic.AddInt64(&r.evals, int64(n))
	atomic.AddInt64(&r.progress, 1)
}

// Count adds n to a named event counter.
func (r *Run) Count(name string, n int64) {
	atomic.AddInt64(&r.progress, 1)
	r.mu.Lock()
	c := r.counters[name]
	if c == nil {
		c = new(int64)
		r.counters[name] = c
	}
	*c += n
	r.mu.Unlock()
}

// Max raises a named gauge.
func (r *Run) Max(name string, v int64) {
	r.mu.Lock()
	c := r.counters[name]
	if c == nil {
		c = new(int64)
		r.counters[name] = c
	}
	if v > *c {
		*c = v
	}
	r.mu.Unlock()
}

// Distinct adds a key to a named set of distinct states.
func (r *Run) Distinct(set, key string) {
	if len(key) > 64 {
		h := fnv.New64a()
		h.Write([]byte(key))
		key = fmt.Sprintf("%x", h.Sum64())
	}
	r.mu.Lock()
	s := r.sets[set]
	if s == nil {
		s = map[string]struct{}{}
		r.sets[set] = s
	}
	if len(s) < 2000000 {
		s[key] = struct{}{}
	}
	r.mu.Unlock()
	atomic.AddInt64(&r.progress, 1)
}

// Sample keeps a few observed examples for the evidence.
func (r *Run) Sample(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 10 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		r.samples = append(r.samples, s)
	}
}

func (r *Run) Assume(s string) {
	r.mu.Lock()
	r.assume = append(r.assume, s)
	r.mu.Unlock()
}

// Need makes the run inconclusive unless the counter reaches min.
func (r *Run) Need(counter string, min int64) {
	r.mu.Lock()
	r.needs[counter] = min
	r.mu.Unlock()
}

// Inconclusive records that part of the workload gave no answer.
func (r *Run) Inconclusive(format string, a ...interface{}) {
	r.mu.Lock()
	r.inconc = append(r.inconc, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

// Begin notes what a goroutine is doing, for the stall report.
func (r *Run) Begin(format string, a ...interface{}) func() {
	id := atomic.AddInt64(&r.curSeq, 1)
	s := fmt.Sprintf(format, a...)
	r.mu.Lock()
	r.current[id] = s
	r.mu.Unlock()
	return func() {
		r.mu.Lock()
		delete(r.current, id)
		r.mu.Unlock()
		atomic.AddInt64(&r.progress, 1)
	}
}

// Violate records a violation.
func (r *Run) Violate(key, format string, a ...interface{}) {
	detail := fmt.Sprintf(format, a...)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.perKey[key]++
	if r.known[key] {
		// a listed finding is reported once and does not end the run
		if r.perKey[key] > 1 {
			return
		}
	} else if atomic.AddInt64(&r.nviol, 1) > MaxViolations || r.perKey[key] > 4 {
		return
	}
	n := len(r.viol) + 1
	name := filepath.Join(r.Replays, fmt.Sprintf("%s-%d.txt", r.ID, n))
	txt := fmt.Sprintf("property: %s\nseed: %d\ntier-quick: %v\nkey: %s\n\n%s\n", r.ID, r.Seed, r.Quick, key, detail)
	if r.Replays != "" {
		ioutil.WriteFile(name, []byte(txt), 0644)
	}
	if len(detail) > 600 {
		detail = detail[:600] + "..."
	}
	r.viol = append(r.viol, Violation{key, detail, name})
}

// Failed reports whether enough violations were seen to wind up.
func (r *Run) Failed() bool { return atomic.LoadInt64(&r.nviol) > 0 }

// Enough reports whether the violation list is full.
func (r *Run) Enough() bool { return atomic.LoadInt64(&r.nviol) >= MaxViolations }

func (r *Run) finish(complete bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	res := result{
		Evaluations: atomic.LoadInt64(&r.evals), Rule: r.rule,
		Counters: map[string]int64{}, Sets: map[string]int{},
		Samples: r.samples, Assumptions: r.assume, Violations: r.viol,
		Complete: complete,
	}
	for k, v := range r.counters {
		res.Counters[k] = *v
	}
	for k, v := range r.sets {
		res.Sets[k] = len(v)
	}
	res.Distinct = int64(len(r.sets["main"]))
	if complete && atomic.LoadInt64(&r.nviol) == 0 {
		var names []string
		for k := range r.needs {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			got := int64(res.Sets[k])
			if c, ok := r.counters[k]; ok {
				got = *c
			}
			if got < r.needs[k] {
				r.inconc = append(r.inconc, fmt.Sprintf("observed only %d %s, need %d", got, k, r.needs[k]))
			}
		}
		if res.Evaluations == 0 {
			r.inconc = append(r.inconc, "nothing was evaluated")
		}
	}
	res.Inconclusive = r.inconc
	data, err := json.MarshalIndent(&res, "", " ")
	if err != nil {
		panic(err)
	}
	if r.out != "" {
		if err := ioutil.WriteFile(r.out, data, 0644); err != nil {
			panic(err)
		}
	} else {
		os.Stdout.Write(data)
		fmt.Println()
	}
}

func (r *Run) watchdog() {
	last := atomic.LoadInt64(&r.progress)
	var idle time.Duration
	const step = 500 * time.Millisecond
	prev := time.Now()
	for i := 0; ; i++ {
		time.Sleep(step)
		now := time.Now()
		d := now.Sub(prev)
		prev = now
		// a suspended machine must not look like a hang
		if d > 2*step {
			d = 2 * step
		}
		p := atomic.LoadInt64(&r.progress)
		if p != last {
			last = p
			idle = 0
		} else {
			idle += d
		}
		if idle >= StallAfter {
			r.abort("stall", fmt.Sprintf("no monitored event for %s", StallAfter))
		}
		if i%4 == 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > MemLimit {
				r.abort("memory", fmt.Sprintf("heap grew to %d MiB", ms.HeapAlloc>>20))
			}
		}
	}
}

// abort ends the run with a violation because it hangs or runs away.
func (r *Run) abort(key, what string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	r.mu.Lock()
	var cur []string
	for _, s := range r.current {
		cur = append(cur, s)
	}
	r.mu.Unlock()
	sort.Strings(cur)
	if len(cur) > 40 {
		cur = cur[:40]
	}
	r.Violate(key, "%s\nin progress:\n  %s\n\n%s", what, strings.Join(cur, "\n  "), buf)
	r.finish(false)
	os.Exit(1)
}

// Parallel runs n cases on w workers; f must be independent per case.
func (r *Run) Parallel(n, w int, f func(i int)) {
	if w <= 0 {
		w = runtime.GOMAXPROCS(0)
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || r.Enough() {
					return
				}
				f(i)
				r.Tick()
			}
		}()
	}
	wg.Wait()
}

// Within runs f and reports whether it ended before the stall limit. The
// stall clock only advances while no monitored event happens anywhere.
func (r *Run) Within(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	<-done
	return true
}

// Dir creates a directory below the scratch directory.
func (r *Run) Dir(name string) string {
	d := filepath.Join(r.Scratch, name)
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// Catch runs f and reports a panic in it.
func Catch(f func()) (msg string, panicked bool) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 16<<10)
			buf = buf[:runtime.Stack(buf, false)]
			msg = fmt.Sprintf("panic: %v\n%s", x, buf)
			panicked = true
		}
	}()
	f()
	return
}
