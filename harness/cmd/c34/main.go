// C34: a cached block is fetched from its source once.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/NVIDIA/vdisc/pkg/caching"
	_ "github.com/NVIDIA/vdisc/pkg/storage/file"

	"vdiscverif/mon"
)

// ledger records which source bytes were asked for.
type ledger struct {
	mu  sync.Mutex
	got map[[2]int64]int64 // (object, block): bytes asked for
	log *os.File           // shared between processes, if set
	n   int64
}

func (l *ledger) note(k int, bsize, off, n int64) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.n++
	for n > 0 {
		b := off / bsize
		m := (b+1)*bsize - off
		if m > n {
			m = n
		}
		if l.log != nil {
			fmt.Fprintf(l.log, "%d %d %d\n", k, b, m)
		} else {
			l.got[[2]int64{int64(k), b}] += m
		}
		off += m
		n -= m
	}
}

type conf struct {
	Dir     string
	Log     string
	Case    int
	Bsize   int64
	Window  int
	Tokens  int64
	Sizes   []int64
	Threads int
	Reads   int
	Seed    int64
	Who     string
	Dead    bool
}

func (c *conf) sources(l *ledger, delay func()) []*mon.MemObject {
	var out []*mon.MemObject
	for k, s := range c.Sizes {
		k := k
		size := s
		o := mon.NewMemObject(fmt.Sprintf("u://c34/%d/%d", c.Case, k), &mon.VFile{Gen: true, ID: uint64(c.Case)<<8 + uint64(k) + 1, Len: s})
		o.Hook = func(op mon.Op) error {
			if c.Dead {
				return mon.ErrInjected
			}
			n := int64(op.N)
			if op.Off+n > size {
				n = size - op.Off
			}
			l.note(k, c.Bsize, op.Off, n)
			if delay != nil {
				delay()
			}
			return nil
		}
		out = append(out, o)
	}
	return out
}

// load lets threads read everything, many of them the same place at once.
func load(r *mon.Run, c *conf, cache caching.Cache, srcs []*mon.MemObject) {
	var wg sync.WaitGroup
	for t := 0; t < c.Threads; t++ {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			// threads in pairs make the same reads
			rng := rand.New(rand.NewSource(c.Seed + int64(t/2)))
			for k := 0; k < c.Reads && !r.Failed(); k++ {
				i := rng.Intn(len(srcs))
				s := srcs[i]
				o := cache.WithCaching(s)
				off := mon.Offset(rng, s.F.Len, c.Bsize)
				for j := 0; j < 1+rng.Intn(4); j++ {
					n := 1 + rng.Intn(int(c.Bsize)*2)
					r.Eval()
					r.Count("reads", 1)
					end := r.Begin("case %d %s thread %d: ReadAt(%d, %d)", c.Case, c.Who, t, n, off)
					d := mon.CheckReadAt(o, s.F, s.F.Len, off, n)
					end()
					if d != "" {
						r.Violate("bytes", "case %d %s: object of %d bytes: %s", c.Case, c.Who, s.F.Len, d)
						return
					}
					off += int64(n)
				}
				o.Close()
			}
		}()
	}
	wg.Wait()
}

func disk(r *mon.Run, c *conf) {
	l := &ledger{got: map[[2]int64]int64{}}
	if c.Log != "" {
		f, err := os.OpenFile(c.Log, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer f.Close()
		l.log = f
	}
	sl := caching.NewDiskSlicer(c.Dir, c.Bsize)
	load(r, c, caching.NewCache(sl, c.Window, c.Tokens), c.sources(l, mon.Delay(c.Seed, 400*time.Microsecond)))
	sl.Wait()
}

func main() {
	mon.Child("disk", func(args []string) {
		var c conf
		if err := json.Unmarshal([]byte(args[0]), &c); err != nil {
			panic(err)
		}
		r := mon.ChildRun("C34", c.Seed)
		disk(r, &c)
		r.Report()
	})
	mon.Main("C34", "distinct (cache, block size, processes, threads, read-ahead setting) workloads and (buffers, reuse distance) pairs whose source requests were accounted for", func(r *mon.Run) {
		r.Parallel(r.N(80, 1500), 6, func(i int) { memory(r, i) })
		r.Parallel(r.N(48, 600), 4, func(i int) { shared(r, i) })
		r.Parallel(r.N(60, 1500), 6, func(i int) { lru(r, i) })
		r.Need("blocks fetched", 1000)
		r.Need("reads", 20000)
		r.Need("blocks served to later processes without the source", 100)
		r.Need("cases with several processes", 10)
		r.Need("reuses of recently used blocks", 2000)
		r.Need("evictions", 500)
		r.Assume("one address has one length; nothing fails")
	})
}

func (c *conf) random(rng *rand.Rand, sizes []int64, blocks int) (total int64) {
	c.Bsize = sizes[rng.Intn(len(sizes))]
	c.Window, c.Tokens = rng.Intn(6), int64(rng.Intn(6))
	c.Threads = []int{2, 4, 8}[rng.Intn(3)]
	for k := 0; k < 1+rng.Intn(5); k++ {
		s := rng.Int63n(c.Bsize*int64(blocks)) + 1
		if rng.Intn(3) == 0 {
			s = c.Bsize * int64(1+rng.Intn(blocks))
		}
		c.Sizes = append(c.Sizes, s)
		total += (s + c.Bsize - 1) / c.Bsize
	}
	return
}

// judge finds blocks that were asked for more than once.
func judge(r *mon.Run, c *conf, what string, got map[[2]int64]int64) {
	for k, s := range c.Sizes {
		for b := int64(0); b*c.Bsize < s; b++ {
			n, ok := got[[2]int64{int64(k), b}]
			if !ok {
				continue
			}
			r.Count("blocks fetched", 1)
			r.Eval()
			want := s - b*c.Bsize
			if want > c.Bsize {
				want = c.Bsize
			}
			if n > want {
				r.Violate("again", "case %d, %s, blocks of %d, window %d, %d tokens: block %d of object %d (%d bytes) was asked of the source for %d bytes in total", c.Case, what, c.Bsize, c.Window, c.Tokens, b, k, want, n)
				return
			}
		}
	}
}

// memory uses a memory cache that has room for everything.
func memory(r *mon.Run, i int) {
	rng := r.Rng("memory", i)
	c := &conf{Case: i, Seed: rng.Int63n(1 << 40), Reads: r.N(60, 150), Who: "memory cache"}
	total := c.random(rng, []int64{1, 5, 64, 1000, 4096}, 12)
	sl, err := caching.NewMemorySlicer(c.Bsize, total+int64(rng.Intn(2)))
	if err != nil {
		r.Violate("create", "%v", err)
		return
	}
	l := &ledger{got: map[[2]int64]int64{}}
	load(r, c, caching.NewCache(sl, c.Window, c.Tokens), c.sources(l, mon.Delay(c.Seed, 200*time.Microsecond)))
	judge(r, c, "memory cache with room for all", l.got)
	r.Distinct("main", fmt.Sprintf("memory %d %d %d %d", c.Bsize, c.Threads, c.Window, c.Tokens))
}

// shared uses one cache directory from several processes.
func shared(r *mon.Run, i int) {
	rng := r.Rng("shared", i)
	dir := r.Dir(fmt.Sprintf("s%d", i))
	defer os.RemoveAll(dir)
	c := &conf{Dir: filepath.Join(dir, "cache"), Log: filepath.Join(dir, "log"), Case: 10000 + i, Reads: r.N(25, 80)}
	c.random(rng, []int64{5, 64, 1000, 4096, 65536}, 6)
	procs := []int{1, 2, 4}[rng.Intn(3)]
	if procs > 1 {
		r.Count("cases with several processes", 1)
	}
	seed := rng.Int63n(1 << 40)
	var wg sync.WaitGroup
	for p := 0; p < procs; p++ {
		cp := *c
		cp.Who = fmt.Sprintf("process %d", p)
		cp.Seed = seed + int64(p/2*1000) // processes in pairs make the same reads
		wg.Add(1)
		go func() {
			defer wg.Done()
			if cp.Who == "process 0" {
				disk(r, &cp)
				return
			}
			b, _ := json.Marshal(&cp)
			r.RunChild(fmt.Sprintf("case %d %s", i, cp.Who), "disk", string(b))
		}()
	}
	wg.Wait()
	r.Tick()
	if r.Failed() {
		return
	}
	got := map[[2]int64]int64{}
	lb, err := ioutil.ReadFile(c.Log)
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	for _, line := range strings.Split(strings.TrimSpace(string(lb)), "\n") {
		var k, b, n int64
		if _, err := fmt.Sscanf(line, "%d %d %d", &k, &b, &n); err != nil {
			continue
		}
		got[[2]int64{k, b}] += n
	}
	judge(r, c, fmt.Sprintf("disk cache, %d processes of %d threads", procs, c.Threads), got)
	// a later user of the directory needs no source for what was stored
	dead := *c
	dead.Dead = true
	sl := caching.NewDiskSlicer(c.Dir, c.Bsize)
	cache := caching.NewCache(sl, c.Window, c.Tokens)
	for k, s := range dead.sources(nil, nil) {
		o := cache.WithCaching(s)
		for b := int64(0); b*c.Bsize < s.F.Len; b++ {
			if _, ok := got[[2]int64{int64(k), b}]; !ok {
				continue
			}
			r.Eval()
			n := c.Bsize
			if d := mon.CheckReadAt(o, s.F, s.F.Len, b*c.Bsize, int(n)); d != "" {
				r.Violate("lost", "case %d: block %d of object %d had been fetched and nothing was evicted, but without the source it reads: %s", i, b, k, d)
				return
			}
			r.Count("blocks served to later processes without the source", 1)
		}
		o.Close()
	}
	sl.Wait()
	r.Distinct("main", fmt.Sprintf("disk %d %d %d %d %d", c.Bsize, procs, c.Threads, c.Window, c.Tokens))
}

// lru compares the fetches of a small memory cache with those of a reference
// cache that always gives up the block used longest ago.
func lru(r *mon.Run, i int) {
	rng := r.Rng("lru", i)
	c := &conf{Case: 20000 + i}
	c.random(rng, []int64{1, 5, 64, 1000}, 12)
	bc := 1 + rng.Intn(12)
	sl, err := caching.NewMemorySlicer(c.Bsize, int64(bc))
	if err != nil {
		r.Violate("create", "%v", err)
		return
	}
	l := &ledger{got: map[[2]int64]int64{}}
	srcs := c.sources(l, nil)
	cache := caching.NewCache(sl, 0, 0)
	var recent [][2]int64 // most recent first
	for k := 0; k < r.N(300, 600) && !r.Failed(); k++ {
		o := rng.Intn(len(srcs))
		s := srcs[o]
		b := rng.Int63n((s.F.Len + c.Bsize - 1) / c.Bsize)
		if len(recent) > 0 && rng.Intn(2) == 0 {
			// reuse at a chosen distance
			x := recent[rng.Intn(len(recent))]
			o, b = int(x[0]), x[1]
			s = srcs[o]
		}
		key := [2]int64{int64(o), b}
		at := -1
		for j, x := range recent {
			if x == key {
				at = j
			}
		}
		before := l.n
		off := b*c.Bsize + rng.Int63n(c.Bsize)
		if off >= s.F.Len {
			off = s.F.Len - 1
		}
		n := 1 + rng.Int63n((b+1)*c.Bsize-off)
		r.Eval()
		r.Count("reads", 1)
		co := cache.WithCaching(s)
		if d := mon.CheckReadAt(co, s.F, s.F.Len, off, int(n)); d != "" {
			r.Violate("bytes", "case %d: %s", i, d)
			return
		}
		co.Close()
		if at >= 0 && at < bc {
			r.Count("reuses of recently used blocks", 1)
			if l.n != before {
				r.Violate("evicted", "case %d: %d buffers of %d bytes: block %d of object %d was fetched again although only %d other blocks were used since", i, bc, c.Bsize, b, o, at)
				return
			}
		} else if len(recent) >= bc {
			r.Count("evictions", 1)
		}
		r.Distinct("main", fmt.Sprintf("lru %d %d", bc, at))
		if at >= 0 {
			recent = append(recent[:at], recent[at+1:]...)
		}
		recent = append([][2]int64{key}, recent...)
		if len(recent) > 30 {
			recent = recent[:30]
		}
	}
}
