// C16: a tree visit passes every admitted directory once and hides no error.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"

	"vdiscverif/mon"
)

// tree maps directory URLs to their listings.
type tree struct {
	dirs map[string][]os.FileInfo
}

// oddNames are names that are no more special than others.
var oddNames = []string{".d%d", "..d%d", "...%d", "d%d.", " d%d ", "%d", "%d%%2e%%2e", "d%d?x=y", "d%d#z", "d%d:80", "\u00e9%d", "\xff%d", "lost+found%d", "d%d\\"}

func build(rng *rand.Rand, root string) *tree {
	t := &tree{dirs: map[string][]os.FileInfo{}}
	max := 1 + rng.Intn(60)
	var add func(url string, depth int)
	add = func(url string, depth int) {
		var fis []os.FileInfo
		var subs []string
		if rng.Intn(3) == 0 {
			fis = append(fis, mon.NewFI(".", 0, true), mon.NewFI("..", 0, true))
		}
		for k := rng.Intn(4); k > 0; k-- {
			fis = append(fis, mon.NewFI(fmt.Sprintf("f%d", k), int64(k), false))
		}
		n := rng.Intn(7)
		if depth == 0 {
			n = 1 + rng.Intn(12)
		}
		for k := 0; k < n && len(t.dirs)+len(subs) < max && depth < 9; k++ {
			// the same names in different places
			nm := fmt.Sprintf("d%d", k)
			if rng.Intn(3) == 0 {
				nm = fmt.Sprintf(oddNames[rng.Intn(len(oddNames))], k)
			}
			fis = append(fis, mon.NewFI(nm, 0, true))
			if url == "" {
				subs = append(subs, nm)
			} else {
				subs = append(subs, url+"/"+nm)
			}
		}
		rng.Shuffle(len(fis), func(a, b int) { fis[a], fis[b] = fis[b], fis[a] })
		t.dirs[url] = fis
		for _, s := range subs {
			add(s, depth+1)
		}
	}
	add(root, 0)
	return t
}

type world struct {
	r      *mon.Run
	label  string
	t      *tree
	conc   int
	depth  bool
	delay  func()
	prune  map[string]bool
	cancel func()
	what   string // what to do at event number at
	at     int64
	err    error // the injected failure
	n      int64

	mu      sync.Mutex
	busy    int
	maxBusy int
	visits  map[string]int
	listed  map[string]int
	fired   bool
	over    bool // the visit has returned
}

func (w *world) event(kind string) error {
	if atomic.AddInt64(&w.n, 1) < w.at || w.what == "" {
		return nil
	}
	if w.what == "cancel" {
		w.mu.Lock()
		w.fired = true
		w.mu.Unlock()
		w.cancel()
		return nil
	}
	if w.what == kind {
		w.mu.Lock()
		defer w.mu.Unlock()
		if !w.fired {
			w.fired = true
			return w.err
		}
	}
	return nil
}

func (w *world) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	w.mu.Lock()
	w.busy++
	if w.busy > w.maxBusy {
		w.maxBusy = w.busy
	}
	if w.busy > w.conc {
		w.r.Violate("limit", "%s: %d listings in progress", w.label, w.busy)
	}
	w.listed[url]++
	w.mu.Unlock()
	w.delay()
	w.mu.Lock()
	w.busy--
	w.mu.Unlock()
	if err := w.event("list"); err != nil {
		return nil, err
	}
	fis, ok := w.t.dirs[url]
	if !ok {
		return nil, os.ErrNotExist
	}
	return append([]os.FileInfo(nil), fis...), nil
}

func (w *world) VisitDir(url string, files []os.FileInfo) error {
	w.delay()
	w.r.Eval()
	w.r.Count("directories visited", 1)
	w.mu.Lock()
	w.visits[url]++
	w.mu.Unlock()
	want, ok := w.t.dirs[url]
	if !ok {
		w.r.Violate("unknown", "%s: visited %q, which does not exist", w.label, url)
	} else if names(files) != names(want) {
		w.r.Violate("listing", "%s: visited %q with [%s], want [%s]", w.label, url, names(files), names(want))
	}
	return w.event("visit")
}

func names(fs []os.FileInfo) string {
	var s []string
	for _, f := range fs {
		s = append(s, fmt.Sprintf("%s:%v", f.Name(), f.IsDir()))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func (w *world) ShouldVisitDir(url string) (bool, error) {
	if err := w.event("filter"); err != nil {
		return false, err
	}
	return !w.prune[url], nil
}

func (w *world) Concurrency() int { return w.conc }
func (w *world) DepthFirst() bool { return w.depth }

// plain hides the optional interfaces.
type plain struct{ w *world }

func (p plain) VisitDir(url string, files []os.FileInfo) error { return p.w.VisitDir(url, files) }

type reader struct{ *world }

func (r reader) Name() string { return "c16" }
func (r reader) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	return nil, os.ErrNotExist
}
func (r reader) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	return nil, os.ErrNotExist
}

func main() {
	mon.Main("C16", "distinct (tree, limit, order, filter, failure kind and point) visits judged", func(r *mon.Run) {
		base := runtime.NumGoroutine()
		r.Parallel(r.N(3000, 60000), 6, func(i int) { one(r, i) })
		r.Need("directories visited", 10000)
		r.Need("visits with a failure", 500)
		r.Need("visits cancelled", 200)
		r.Need("visits without a failure", 500)
		r.Need("visits reaching the limit", 200)
		// nothing keeps running after the visits have returned
		left := 0
		for k := 0; k < 600; k++ {
			if left = runtime.NumGoroutine() - base; left <= 2 {
				break
			}
			time.Sleep(50 * time.Millisecond)
			r.Tick()
		}
		r.Eval()
		if left > 2 && !r.Failed() {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			r.Violate("left", "%d threads of work are still there 30 s after all visits returned\n%s", left, mon.Trunc(string(buf), 3000))
		}
	})
}

func one(r *mon.Run, i int) {
	rng := r.Rng("visit", i)
	root := []string{"u://root", "", "/base/dir", "r"}[rng.Intn(4)]
	w := &world{
		r: r, t: build(rng, root), conc: []int{1, 2, 3, 4, 8, 100}[rng.Intn(6)], depth: rng.Intn(2) == 0,
		prune: map[string]bool{}, visits: map[string]int{}, listed: map[string]int{},
		delay: func() {}, err: mon.Fault(i),
	}
	if rng.Intn(3) > 0 {
		w.delay = mon.Delay(rng.Int63(), 60*time.Microsecond)
	}
	isPlain := rng.Intn(5) == 0
	if isPlain {
		w.conc, w.depth = 1<<30, false
	}
	var all []string
	for d := range w.t.dirs {
		all = append(all, d)
	}
	sort.Strings(all)
	for _, d := range all {
		if !isPlain && rng.Intn(8) == 0 {
			w.prune[d] = true
		}
	}
	admitted := map[string]bool{}
	var walk func(d string)
	walk = func(d string) {
		if w.prune[d] {
			return
		}
		admitted[d] = true
		for _, f := range w.t.dirs[d] {
			if n := f.Name(); f.IsDir() && n != "." && n != ".." {
				if d != "" {
					n = d + "/" + n
				}
				walk(n)
			}
		}
	}
	walk(root)
	if k := rng.Intn(6); k > 1 && len(admitted) > 0 {
		w.what = []string{"list", "visit", "filter", "cancel"}[k-2]
		if isPlain && w.what == "filter" {
			w.what = "list"
		}
		w.at = 1 + rng.Int63n(int64(3*len(admitted)))
		if rng.Intn(4) == 0 {
			w.at = 3*int64(len(admitted)) - rng.Int63n(3)
		}
		if isPlain {
			w.at = 1 + w.at*2/3
		}
	}
	w.label = fmt.Sprintf("visit %d: root %q, %d directories (%d admitted), limit %d, depth first %v, %s at event %d", i, root, len(w.t.dirs), len(admitted), w.conc, w.depth, w.what, w.at)
	defer r.Begin("%s", w.label)()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w.cancel = cancel
	var v driver.Visitor = w
	if isPlain {
		v = plain{w}
	}
	err := driver.Visit(ctx, reader{w}, root, v)
	r.Eval()
	w.mu.Lock()
	defer w.mu.Unlock()
	r.Distinct("main", fmt.Sprintf("%d %d %d %v %d %s %d", len(w.t.dirs), len(admitted), w.conc, w.depth, len(w.prune), w.what, w.at))
	if w.maxBusy == w.conc {
		r.Count("visits reaching the limit", 1)
	}
	complete := true
	for d := range admitted {
		if w.visits[d] != 1 {
			complete = false
		}
	}
	for d, n := range w.visits {
		if n > 1 {
			r.Violate("twice", "%s: directory %q was visited %d times", w.label, d, n)
			return
		}
		if !admitted[d] {
			r.Violate("filter", "%s: directory %q was visited although the filter does not admit it", w.label, d)
			return
		}
	}
	switch {
	case w.fired && w.what == "cancel":
		r.Count("visits cancelled", 1)
		if err == nil && !complete {
			r.Violate("cancel", "%s: success although it was cancelled and visited only %d of %d directories", w.label, len(w.visits), len(admitted))
		} else if err != nil && err != context.Canceled {
			r.Violate("cancel", "%s: cancelled visit returned %v", w.label, err)
		}
	case w.fired:
		r.Count("visits with a failure", 1)
		if !errors.Is(err, w.err) {
			r.Violate("error", "%s: returned %v instead of the injected failure %v", w.label, err, w.err)
		}
	default:
		r.Count("visits without a failure", 1)
		if err != nil {
			r.Violate("success", "%s: returned %v without any failure", w.label, err)
		} else if !complete {
			var miss []string
			for d := range admitted {
				if w.visits[d] == 0 {
					miss = append(miss, d)
				}
			}
			r.Violate("missing", "%s: directories never visited: %q", w.label, miss)
		}
	}
	if i < 4 {
		r.Sample("%s: %d visited, %v", w.label, len(w.visits), err)
	}
}
