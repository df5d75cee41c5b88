// C27: the cache check finds all damage; collection stops at its threshold.
package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/alecthomas/kong"
	"golang.org/x/sys/unix"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	vdisc_cli "github.com/NVIDIA/vdisc/pkg/vdisc/cli"

	"vdiscverif/mon"
)

var (
	scratch string
	serial  int32
	vt      *mon.VT
)

// source opens an object of the given content and size.
func source(id uint64, size int64, name int) (storage.Object, error) {
	url := fmt.Sprintf("vt://o/%d/%d/%d", id, size, name)
	vt.Put(url, &mon.VFile{Gen: true, ID: id, Len: size})
	return storage.Open(url)
}

// store is a cache directory filled through the cache itself.
type store struct {
	root   string
	slicer *caching.DiskSlicer
	cache  caching.Cache
}

func newStore(r *mon.Run, rng *rand.Rand, entries int) *store {
	s := &store{root: filepath.Join(scratch, fmt.Sprintf("c%d", atomic.AddInt32(&serial, 1)))}
	os.MkdirAll(s.root, 0777)
	bsize := int64([]int{1, 100, 1000, 4096, 70000}[rng.Intn(5)])
	if entries > 100 && bsize > 4096 {
		bsize = 100
	}
	s.slicer = caching.NewDiskSlicer(s.root, bsize)
	s.cache = caching.NewCache(s.slicer, 0, 1)
	s.fill(r, rng, entries, bsize)
	return s
}

func (s *store) fill(r *mon.Run, rng *rand.Rand, entries int, bsize int64) {
	for n := 0; n < entries; {
		k := 1 + rng.Intn(entries-n)
		size := int64(k)*bsize - rng.Int63n(bsize)
		o, err := source(uint64(rng.Int63()), size, rng.Intn(1000))
		if err != nil {
			r.Violate("open", "%v", err)
			return
		}
		c := s.cache.WithCaching(o)
		for off := int64(0); off < size; off += bsize {
			if m, err := c.ReadAt(make([]byte, 1), off); m != 1 {
				r.Violate("fill", "%v", err)
			}
		}
		c.Close()
		n += k
	}
	s.slicer.Wait()
}

// entries of a cache directory: regular files two levels below v0 that are
// neither locks nor temporary
func (s *store) entries() []string {
	var es []string
	filepath.Walk(s.root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && len(fi.Name()) == 30 && !strings.HasPrefix(fi.Name(), ".") {
			es = append(es, p)
		}
		return nil
	})
	return es
}

// snapshot describes everything below the root.
func (s *store) snapshot() map[string]string {
	m := map[string]string{}
	filepath.Walk(s.root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		d := fmt.Sprint(fi.Mode(), fi.ModTime().UnixNano())
		if fi.IsDir() {
			d = fmt.Sprint(fi.Mode())
		} else {
			b, _ := ioutil.ReadFile(p)
			d += fmt.Sprint(len(b), mon.Sum(b))
			for _, x := range []string{caching.XattrKey, caching.XattrChecksum} {
				v := make([]byte, 5000)
				n, err := unix.Getxattr(p, x, v)
				if err != nil {
					n = 0
				}
				d += fmt.Sprintf("|%x", v[:n])
			}
		}
		m[strings.TrimPrefix(p, s.root)] = d
		return nil
	})
	return m
}

func differ(a, b map[string]string) []string {
	var l []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			l = append(l, "gone: "+k)
		} else if v != w {
			l = append(l, "changed: "+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, "new: "+k)
		}
	}
	sort.Strings(l)
	return l
}

// litter adds what is no entry.
func (s *store) litter(rng *rand.Rand) {
	es := s.entries()
	for k := rng.Intn(4); k > 0 && len(es) > 0; k-- {
		e := es[rng.Intn(len(es))]
		ioutil.WriteFile(filepath.Join(filepath.Dir(e), ".lock."+filepath.Base(e)), nil, 0600)
	}
	for k := rng.Intn(4); k > 0 && len(es) > 0; k-- {
		e := es[rng.Intn(len(es))]
		ioutil.WriteFile(filepath.Join(filepath.Dir(e), fmt.Sprintf(".tmp.filedriver%d", rng.Intn(100000))), mon.Bytes(1, 0, rng.Intn(300)), 0600)
	}
	if rng.Intn(2) == 0 {
		ioutil.WriteFile(filepath.Join(s.root, "README"), []byte("x"), 0600)
	}
	if rng.Intn(2) == 0 {
		os.MkdirAll(filepath.Join(s.root, "other", "ab"), 0700)
		ioutil.WriteFile(filepath.Join(s.root, "other", "ab", strings.Repeat("0", 30)+"x"), []byte("x"), 0600)
	}
}

// hurt damages one entry in a way the check has to notice.
func hurt(rng *rand.Rand, e string) string {
	fi, _ := os.Stat(e)
	for {
		switch rng.Intn(8) {
		case 0, 1:
			f, _ := os.OpenFile(e, os.O_RDWR, 0)
			defer f.Close()
			o := rng.Int63n(fi.Size())
			if rng.Intn(3) == 0 {
				o = fi.Size() - 1
			}
			b := make([]byte, 1)
			f.ReadAt(b, o)
			b[0] ^= 1 << uint(rng.Intn(8))
			f.WriteAt(b, o)
			return "bit"
		case 2:
			os.Truncate(e, rng.Int63n(fi.Size()))
			return "truncated"
		case 3:
			f, _ := os.OpenFile(e, os.O_RDWR|os.O_APPEND, 0)
			defer f.Close()
			f.Write(make([]byte, 1+rng.Intn(100)))
			return "extended"
		case 4:
			unix.Removexattr(e, caching.XattrChecksum)
			return "checksum removed"
		case 5:
			v := make([]byte, 8)
			unix.Getxattr(e, caching.XattrChecksum, v)
			v[rng.Intn(8)] ^= 1 << uint(rng.Intn(8))
			unix.Setxattr(e, caching.XattrChecksum, v, 0)
			return "checksum changed"
		case 6:
			v := make([]byte, 8)
			unix.Getxattr(e, caching.XattrChecksum, v)
			unix.Setxattr(e, caching.XattrChecksum, v[:rng.Intn(8)], 0)
			return "checksum cut"
		case 7:
			// other data of the same length
			b := mon.Bytes(99, 0, int(fi.Size()))
			old, _ := ioutil.ReadFile(e)
			if string(b) == string(old) {
				continue
			}
			f, _ := os.OpenFile(e, os.O_RDWR, 0)
			defer f.Close()
			f.WriteAt(b, 0)
			return "overwritten"
		}
	}
}

func check(s *store) (err error, msg string, bad bool) {
	msg, bad = mon.Catch(func() { err = s.slicer.CheckIntegrity() })
	return
}

func fsck(r *mon.Run, i int) {
	rng := r.Rng("fsck", i)
	n := []int{0, 1, 2, 7, 40, 150, 300}[rng.Intn(7)]
	end := r.Begin("check %d with %d entries", i, n)
	defer end()
	s := newStore(r, rng, n)
	defer os.RemoveAll(s.root)
	s.litter(rng)
	es := s.entries()
	if len(es) != n {
		r.Violate("entries", "check %d: %d blocks read, %d entries stored", i, n, len(es))
		return
	}
	before := s.snapshot()
	try := func(what string, want bool) {
		err, msg, bad := check(s)
		r.Eval()
		if bad {
			r.Violate("crash", "check %d of %d entries, %s: %s", i, n, what, msg)
		} else if (err != nil) != want {
			r.Violate("verdict", "check %d of %d entries, %s: result %v", i, n, what, err)
		}
		r.Distinct("main", fmt.Sprintf("check %d %s %v", n, what, want))
	}
	try("intact", false)
	if d := differ(before, s.snapshot()); len(d) > 0 {
		r.Violate("changes", "check %d of intact entries: %v", i, d)
	}
	if n == 0 {
		return
	}
	var what []string
	for k := []int{1, 1, 1, 2, 5}[rng.Intn(5)]; k > 0; k-- {
		j := rng.Intn(len(es))
		what = append(what, hurt(rng, es[j]))
		es = append(es[:j], es[j+1:]...)
		if len(es) == 0 {
			break
		}
	}
	sort.Strings(what)
	before = s.snapshot()
	try(strings.Join(what, "+"), true)
	if d := differ(before, s.snapshot()); len(d) > 0 {
		r.Violate("changes", "check %d of %s: %v", i, strings.Join(what, "+"), d)
	}
	r.Count("damaged caches", 1)
}

// limits: as many entries as there are, with few descriptors.
func limits(r *mon.Run) {
	rng := r.Rng("limits")
	end := r.Begin("few descriptors")
	defer end()
	s := newStore(r, rng, 700)
	defer os.RemoveAll(s.root)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 200, Max: old.Max})
	defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	err, msg, bad := check(s)
	r.Eval()
	if bad || err != nil {
		r.Violate("many", "check of 700 intact entries with 200 descriptors: %v %s", err, msg)
	}
	es := s.entries()
	what := hurt(rng, es[rng.Intn(len(es))])
	if err, msg, bad := check(s); bad || err == nil || strings.Contains(err.Error(), "too many open files") {
		r.Violate("many", "check of 700 entries, one %s, with 200 descriptors: %v %s", what, err, msg)
	}
	r.Count("caches with more entries than descriptors", 1)
}

// goal is a threshold that counts entries instead of asking the filesystem.
type goal struct {
	r      *mon.Run
	what   string
	left   func() int
	target int
	// called before each answer
	before func()

	mu      sync.Mutex
	calls   int
	yes     int
	lastNo  bool
	afterNo int
	seen    int
}

func (g *goal) GcNeeded(st *syscall.Statfs_t) bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.before != nil {
		g.before()
	}
	g.calls++
	g.r.Tick()
	if g.lastNo {
		g.afterNo++
	}
	if st.Blocks == 0 || st.Bsize == 0 {
		g.r.Violate("statfs", "%s: the threshold was asked about no filesystem", g.what)
	}
	g.seen = g.left()
	need := g.seen > g.target
	if need {
		g.yes++
	}
	g.lastNo = !need
	return need
}

func floor0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func gc(r *mon.Run, i int) {
	rng := r.Rng("gc", i)
	n := []int{0, 1, 2, 10, 60, 200}[rng.Intn(6)]
	target := rng.Intn(n+2) - rng.Intn(3)
	end := r.Begin("collection %d of %d entries down to %d", i, n, target)
	defer end()
	s := newStore(r, rng, n)
	defer os.RemoveAll(s.root)
	s.litter(rng)
	before := s.snapshot()
	was := map[string]bool{}
	for _, e := range s.entries() {
		was[strings.TrimPrefix(e, s.root)] = true
	}
	if len(was) != n {
		r.Violate("entries", "collection %d: %d blocks read, %d entries stored", i, n, len(was))
		return
	}
	mode := rng.Intn(4)
	what := fmt.Sprintf("collection %d of %d entries down to %d", i, n, target)
	count := func() int { return len(s.entries()) }
	var goals []*goal
	others := 0
	switch mode {
	case 0, 1:
		goals = []*goal{{r: r, what: what, left: count, target: target}}
	case 2:
		// meanwhile, another process removes entries too
		rg := r.Rng("other", i)
		what += " while entries are removed by another"
		goals = []*goal{{r: r, what: what, left: count, target: target, before: func() {
			if rg.Intn(3) != 0 {
				return
			}
			es := s.entries()
			for k := 1 + rg.Intn(3+floor0(len(es)-target)/3); k > 0 && len(es) > target && len(es) > 0; k-- {
				j := rg.Intn(len(es))
				if os.Remove(es[j]) == nil {
					others++
				}
				es = append(es[:j], es[j+1:]...)
			}
		}}}
	case 3:
		k := 2 + rng.Intn(4)
		what += fmt.Sprintf(" by %d collectors", k)
		for ; k > 0; k-- {
			t := target
			if rng.Intn(2) == 0 {
				t = rng.Intn(n + 1) // the others are content with less
				if t < target {
					t = target
				}
			}
			goals = append(goals, &goal{r: r, what: what, left: count, target: t})
		}
		goals[0].target = target
	}
	var wg sync.WaitGroup
	for k := range goals {
		g := goals[k]
		wg.Add(1)
		go func() {
			defer wg.Done()
			if msg, bad := mon.Catch(func() { caching.NewDiskSlicer(s.root, 100).Gc(g) }); bad {
				r.Violate("crash", "%s: %s", what, msg)
			}
		}()
	}
	wg.Wait()
	after := s.snapshot()
	r.Eval()
	gone := 0
	for _, d := range differ(before, after) {
		p := strings.TrimPrefix(d, "gone: ")
		if p == d || !was[p] {
			r.Violate("else", "%s: %s", what, d)
		} else {
			gone++
		}
	}
	left := n - gone
	yes := 0
	for _, g := range goals {
		yes += g.yes
		if g.calls == 0 {
			r.Violate("unasked", "%s: the threshold was not asked", what)
		}
		if g.afterNo > 0 {
			r.Violate("goes on", "%s: collection goes on after the threshold was satisfied", what)
		}
	}
	if gone-others > yes {
		r.Violate("too many", "%s: %d entries removed, but the threshold asked %d times", what, gone-others, yes)
	}
	floor := target
	if floor < 0 {
		floor = 0
	}
	if floor > n {
		floor = n
	}
	if left > floor {
		r.Violate("too few", "%s: stopped with %d entries left", what, left)
	}
	if left < floor-(len(goals)-1) {
		r.Violate("too many", "%s: %d entries left", what, left)
	}
	r.Count("collections", 1)
	r.Count("entries collected", int64(gone))
	if len(goals) > 1 {
		r.Count("collections by several", 1)
	}
	r.Distinct("main", fmt.Sprintf("gc %d %d %d %d", mode, n, target, len(goals)))
	if err, msg, bad := check(s); bad || err != nil {
		r.Violate("verdict", "%s: the check of what is left: %v %s", what, err, msg)
	}
}

// busy: checks and collections while the cache is being filled and read.
func busy(r *mon.Run, i int) {
	rng := r.Rng("busy", i)
	end := r.Begin("busy cache %d", i)
	defer end()
	s := newStore(r, rng, 20)
	defer os.RemoveAll(s.root)
	bsize := s.slicer.Bsize()
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		rg := r.Rng("filler", i, g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 60; k++ {
				size := 4*bsize - rg.Int63n(bsize)
				id := rg.Intn(6)
				o, err := source(uint64(id), size, 0)
				if err != nil {
					continue
				}
				c := s.cache.WithCaching(o)
				off := rg.Int63n(size)
				b := make([]byte, 1+rg.Int63n(2*bsize))
				m, _ := c.ReadAt(b, off)
				want := mon.Bytes(uint64(id), off, m)
				if string(b[:m]) != string(want) || m == 0 {
					r.Violate("bytes", "busy cache %d: %d bytes at %d of %d are wrong", i, m, off, size)
				}
				c.Close()
				r.Eval()
			}
		}()
	}
	stop := make(chan struct{})
	var wg2 sync.WaitGroup
	wg2.Add(2)
	go func() {
		defer wg2.Done()
		for {
			if err, msg, bad := check(s); bad || err != nil {
				r.Violate("verdict", "busy cache %d: %v %s", i, err, msg)
				return
			}
			r.Count("checks of busy caches", 1)
			select {
			case <-stop:
				return
			default:
			}
		}
	}()
	go func() {
		defer wg2.Done()
		for {
			g := &goal{r: r, what: "busy", left: func() int { return len(s.entries()) }, target: 8}
			caching.NewDiskSlicer(s.root, 100).Gc(g)
			select {
			case <-stop:
				return
			default:
			}
		}
	}()
	wg.Wait()
	close(stop)
	wg2.Wait()
	s.slicer.Wait()
	if err, msg, bad := check(s); bad || err != nil {
		r.Violate("verdict", "busy cache %d in the end: %v %s", i, err, msg)
	}
}

// thresholds as given on the command line
func thresholds(r *mon.Run, i int) {
	rng := r.Rng("threshold", i)
	type args struct {
		T vdisc_cli.GcThreshold
	}
	var a args
	parser, err := kong.New(&a, vdisc_cli.GcThresholdTypeMapper(), kong.Exit(func(int) {}))
	if err != nil {
		r.Violate("parser", "%v", err)
		return
	}
	var text string
	var percent, bytes float64
	valid := true
	switch rng.Intn(8) {
	case 0:
		percent = float64(rng.Intn(101))
		text = fmt.Sprintf("%d%%", int(percent))
	case 1:
		percent = float64(rng.Intn(1000)) / 10
		text = fmt.Sprintf("%.1f%%", percent)
	case 2:
		k := rng.Intn(5000)
		bytes = float64(k) * 1048576
		text = fmt.Sprintf("%dMiB", k)
	case 3:
		k := rng.Intn(5000)
		bytes = float64(k) * 1e6
		text = fmt.Sprintf("%dMB", k)
	case 4:
		k := rng.Intn(5000)
		bytes = float64(k) * (1 << 30)
		text = fmt.Sprintf("%dGiB", k)
	case 5:
		k := rng.Intn(1 << 30)
		bytes = float64(k)
		text = fmt.Sprintf("%dB", k)
	default:
		valid = false
		text = []string{"101%", "100.1%", "x", "%", "5%%", "10", "1.%", "10 %", "5MiBx", "1e2%"}[rng.Intn(10)]
	}
	_, err = parser.Parse([]string{"--t=" + text})
	if !valid {
		if text == "10" {
			return // a number alone: not decided
		}
		r.Eval()
		if err == nil {
			r.Violate("threshold", "%q is taken for a threshold", text)
		}
		return
	}
	if err != nil {
		r.Violate("threshold", "%q: %v", text, err)
		return
	}
	for k := 0; k < 20; k++ {
		var st syscall.Statfs_t
		st.Bsize = int64([]int{512, 4096, 1 << 20}[rng.Intn(3)])
		st.Frsize = st.Bsize
		st.Blocks = uint64(1 + rng.Int63n(1<<33))
		st.Bfree = uint64(rng.Int63n(int64(st.Blocks) + 1))
		switch rng.Intn(3) {
		case 0:
			// near the threshold
			if bytes > 0 {
				st.Bfree = uint64(int64(bytes)/st.Bsize + int64(rng.Intn(5)) - 2)
				if int64(st.Bfree) < 0 {
					st.Bfree = 0
				}
				if st.Blocks < st.Bfree {
					st.Blocks = st.Bfree
				}
			} else {
				st.Bfree = uint64(float64(st.Blocks)*percent/100) + uint64(rng.Intn(3))
				if st.Bfree > st.Blocks {
					st.Bfree = st.Blocks
				}
			}
		case 1:
			st.Blocks = uint64(1 + rng.Intn(1000))
			st.Bfree = uint64(rng.Intn(int(st.Blocks) + 1))
		}
		st.Bavail = st.Bfree
		var want bool
		if strings.HasSuffix(text, "%") {
			x := float64(st.Bfree) / float64(st.Blocks) * 100
			if x > percent-1e-9 && x < percent+1e-9 && x != percent {
				continue // as good as equal
			}
			want = x < percent
		} else {
			want = float64(st.Bfree)*float64(st.Bsize) < bytes
		}
		got := a.T.GcNeeded(&st)
		r.Eval()
		if got != want {
			r.Violate("threshold", "threshold %s with %d of %d blocks of %d free: more space needed %v", text, st.Bfree, st.Blocks, st.Bsize, got)
		}
		r.Count(fmt.Sprintf("threshold answers %v", want), 1)
	}
	r.Distinct("main", text)
}

func main() {
	mon.Main("C27", "checks told apart by number of entries and damage, collections by collectors, entries and target, and threshold texts", func(r *mon.Run) {
		scratch = r.Dir("w")
		vt = mon.NewVT("vt")
		r.Parallel(r.N(250, 8000), 0, func(i int) { fsck(r, i) })
		r.Parallel(r.N(300, 10000), 0, func(i int) { gc(r, i) })
		r.Parallel(r.N(12, 300), 4, func(i int) { busy(r, i) })
		r.Parallel(r.N(2000, 40000), 0, func(i int) { thresholds(r, i) })
		if !r.Failed() {
			limits(r)
		}
		r.Need("damaged caches", 50)
		r.Need("collections by several", 20)
		r.Need("entries collected", 1000)
		r.Need("checks of busy caches", 12)
	})
}
