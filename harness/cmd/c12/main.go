// C12: read-ahead stays within the object, the window and its budget.
package main

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"

	"vdiscverif/mon"
)

// recorder is a slicer that passes everything to another one and judges the
// read-ahead requests on the way.
type recorder struct {
	caching.Slicer
	r      *mon.Run
	label  string
	window int64
	tokens int64

	mu     sync.Mutex
	max    map[storage.Object]int64 // highest block touched by a read begun so far
	gate   chan struct{}            // read-ahead requests wait here
	out    int64                    // requests outstanding
	maxOut int64
	total  int64
}

func (x *recorder) Slice(obj storage.Object, off int64) caching.Slice {
	return &recSlice{x.Slicer.Slice(obj, off), x, obj, off}
}

type recSlice struct {
	caching.Slice
	x   *recorder
	obj storage.Object
	off int64
}

func (s *recSlice) ReadAhead() {
	x := s.x
	bs := x.Bsize()
	x.mu.Lock()
	x.out++
	x.total++
	if x.out > x.maxOut {
		x.maxOut = x.out
	}
	out, gate := x.out, x.gate
	max, seen := x.max[s.obj]
	x.mu.Unlock()
	x.r.Eval()
	x.r.Count("read-ahead requests", 1)
	switch {
	case x.window <= 0 || x.tokens <= 0:
		x.r.Violate("disabled", "%s: a read-ahead of offset %d although it is disabled", x.label, s.off)
	case !seen:
		x.r.Violate("object", "%s: read-ahead of an object that was never read", x.label)
	case s.off < 0 || s.off >= s.obj.Size() || s.off%bs != 0:
		x.r.Violate("inside", "%s: read-ahead at offset %d of an object of %d bytes", x.label, s.off, s.obj.Size())
	case s.off/bs > max+x.window:
		x.r.Violate("window", "%s: read-ahead of block %d but the furthest block read so far is %d", x.label, s.off/bs, max)
	case out > x.tokens:
		x.r.Violate("budget", "%s: %d requests outstanding", x.label, out)
	}
	if s.Size() <= 0 {
		x.r.Violate("inside", "%s: read-ahead of an empty slice at offset %d of %d", x.label, s.off, s.obj.Size())
	}
	if gate != nil {
		<-gate
	}
	s.Slice.ReadAhead()
	x.mu.Lock()
	x.out--
	x.mu.Unlock()
}

func (x *recorder) setGate(g chan struct{}) {
	x.mu.Lock()
	x.gate = g
	x.mu.Unlock()
}

// begun notes that a read is about to be made.
func (x *recorder) begun(obj storage.Object, off int64, n int) {
	size := obj.Size()
	end := off + int64(n)
	if end > size {
		end = size
	}
	if off >= size {
		return
	}
	b := (end - 1) / x.Bsize()
	x.mu.Lock()
	if m, ok := x.max[obj]; !ok || b > m {
		x.max[obj] = b
	}
	x.mu.Unlock()
}

func (x *recorder) state() (out, total, maxOut int64) {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.out, x.total, x.maxOut
}

func main() {
	mon.Main("C12", "distinct (block size, window, budget, access pattern, thread count, outstanding peak) runs whose read-ahead requests were judged", func(r *mon.Run) {
		r.Parallel(r.N(400, 8000), 6, func(i int) { one(r, i) })
		r.Need("read-ahead requests", 5000)
		r.Need("runs that used the whole budget", 30)
		r.Need("runs with read-ahead disabled", 40)
		r.Need("reads made while read-ahead was blocked", 1000)
		r.Need("runs read ahead again after failures", 30)
	})
}

func one(r *mon.Run, i int) {
	rng := r.Rng("case", i)
	bs := []int64{1, 10, 512, 4096}[rng.Intn(4)]
	win, tok := []int{0, 1, 2, 3, 8, 100}[rng.Intn(6)], int64([]int{0, 1, 2, 5, 50}[rng.Intn(5)])
	base, err := caching.NewMemorySlicer(bs, int64([]int{1, 4, 256}[rng.Intn(3)]))
	if err != nil {
		r.Violate("create", "%v", err)
		return
	}
	x := &recorder{
		Slicer: base, r: r, window: int64(win), tokens: tok, max: map[storage.Object]int64{},
		label: fmt.Sprintf("case %d: blocks of %d, window %d, budget %d", i, bs, win, tok),
	}
	defer r.Begin("%s", x.label)()
	cache := caching.NewCache(x, win, tok)
	on := win > 0 && tok > 0
	if !on {
		r.Count("runs with read-ahead disabled", 1)
	}

	var fail int32
	var srcs []*mon.MemObject
	var objs []storage.Object
	for k := 0; k < 1+rng.Intn(4); k++ {
		size := bs*int64(1+rng.Intn(30)) - rng.Int63n(bs)
		if rng.Intn(6) == 0 {
			size = int64(rng.Intn(2))
		}
		s := mon.NewMemObject(fmt.Sprintf("u://c12/%d/%d", i, k), &mon.VFile{Gen: true, ID: uint64(i*8 + k + 1), Len: size})
		s.Hook = func(op mon.Op) error {
			if atomic.LoadInt32(&fail) != 0 {
				return mon.ErrInjected
			}
			return nil
		}
		srcs = append(srcs, s)
		objs = append(objs, cache.WithCaching(s))
	}
	threads := 1 + rng.Intn(4)
	// pass runs the readers; ok: reads must succeed with the right bytes
	pass := func(phase string, check bool) {
		var wg sync.WaitGroup
		for t := 0; t < threads; t++ {
			seed := rng.Int63()
			t := t
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed))
				k := t % len(objs)
				o, s := objs[k], srcs[k]
				size := s.F.Len
				one := func(off int64, n int) {
					x.begun(s, off, n)
					r.Eval()
					if check {
						if d := mon.CheckReadAt(o, s.F, size, off, n); d != "" {
							r.Violate("read", "%s, %s: %s", x.label, phase, d)
						}
						return
					}
					o.ReadAt(make([]byte, n), off)
				}
				switch rng.Intn(3) {
				case 0: // sequential
					n := 1 + rng.Intn(int(bs)*2)
					if int64(n)*100 < size {
						n = int(size/100) + 1
					}
					for off := int64(0); off < size; off += int64(n) {
						one(off, n)
					}
				case 1: // random
					for k := 0; k < 30; k++ {
						one(mon.Offset(rng, size, bs), 1+rng.Intn(int(bs)*3))
					}
				case 2: // runs from random places
					for k := 0; k < 5; k++ {
						off := mon.Offset(rng, size, bs)
						for j := 0; j < 8; j++ {
							n := 1 + rng.Intn(int(bs)+1)
							one(off, n)
							off += int64(n)
						}
					}
				}
			}()
		}
		wg.Wait()
	}
	// readable again: a sequential pass must be read ahead
	again := func(what string) bool {
		for k, s := range srcs {
			nb := (s.F.Len + bs - 1) / bs
			if nb < 4 {
				continue
			}
			// everything that was outstanding has ended
			if out, _, _ := x.state(); out != 0 {
				return false
			}
			_, before, _ := x.state()
			after := before
			// a request may still be winding up, so allow a few passes
			for try := 0; try < 6 && after == before; try++ {
				time.Sleep(time.Duration(try*try) * 20 * time.Millisecond)
				o := cache.WithCaching(s)
				for b := int64(0); b < nb; b++ {
					x.begun(s, b*bs, int(bs))
					if d := mon.CheckReadAt(o, s.F, s.F.Len, b*bs, int(bs)); d != "" {
						r.Violate("read", "%s, after %s: %s", x.label, what, d)
					}
				}
				drain(x)
				_, after, _ = x.state()
			}
			if after == before {
				r.Violate("released", "%s: six sequential passes over the %d blocks of object %d after %s were not read ahead at all", x.label, nb, k, what)
			}
			return true
		}
		return false
	}

	pass("free", true)
	if r.Failed() {
		return
	}
	drain(x)

	// blocked read-ahead: the reads themselves must all complete. Only
	// blocks no waiting request occupies can be needed, so use a fresh
	// source read each time: the memory slicer fills on its own.
	gate := make(chan struct{})
	x.setGate(gate)
	pass("while read-ahead was blocked", true)
	r.Count("reads made while read-ahead was blocked", 30)
	out, _, maxOut := x.state()
	if on && maxOut == tok {
		r.Count("runs that used the whole budget", 1)
	}
	r.Max("most requests outstanding", out)
	x.setGate(nil)
	close(gate)
	drain(x)
	if on && !r.Failed() {
		again("blocked read-ahead")
	}

	// failing read-ahead: reads fail, later ones work and are read ahead
	atomic.StoreInt32(&fail, 1)
	pass("while the source failed", false)
	drain(x)
	atomic.StoreInt32(&fail, 0)
	if on && !r.Failed() && again("failing read-ahead") {
		r.Count("runs read ahead again after failures", 1)
	}
	for _, o := range objs {
		o.Close()
	}
	drain(x)
	if out, _, _ := x.state(); out != 0 {
		r.Violate("ended", "%s: %d requests still outstanding at the end", x.label, out)
	}
	r.Distinct("main", fmt.Sprintf("%d %d %d %d %d", bs, win, tok, threads, maxOut))
	if i < 3 {
		_, total, _ := x.state()
		r.Sample("%s, %d objects, %d threads: %d requests, at most %d outstanding", x.label, len(objs), threads, total, maxOut)
	}
}

// drain waits until no read-ahead request is outstanding or about to start.
// It only decides when to go on; the progress watchdog decides about hangs.
func drain(x *recorder) {
	quiet := 0
	_, last, _ := x.state()
	for quiet < 4 {
		time.Sleep(500 * time.Microsecond)
		out, total, _ := x.state()
		if out == 0 && total == last {
			quiet++
		} else {
			quiet = 0
		}
		last = total
	}
}
