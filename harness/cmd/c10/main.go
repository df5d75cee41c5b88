// C10: failed or short source reads never become cached data.
package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	_ "github.com/NVIDIA/vdisc/pkg/storage/file"

	"vdiscverif/mon"
)

func main() {
	mon.Main("C10", "distinct (cache kind, fault kind, block size, read-ahead on/off, outcome) reads made while source reads failed or after they had failed", func(r *mon.Run) {
		r.Parallel(r.N(600, 8000), 6, func(i int) { one(r, i) })
		r.Need("failed source reads", 1000)
		r.Need("reads that reported an error", 300)
		r.Need("reads right despite faults elsewhere", 300)
		r.Need("reads after recovery", 3000)
		r.Need("failed read-ahead reads", 50)
		r.Assume("a fault counts as over once the faulty source read and the read that caused it have returned")
	})
}

// faults decides which source reads fail.
type faults struct {
	mu     sync.Mutex
	rng    *rand.Rand
	blocks map[int64]bool // failing blocks; nil: any read may fail
	prob   float64
	kind   int
	bsize  int64
	on     bool
	failed int64
}

func (f *faults) hook(op mon.Op) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if !f.on || op.Kind != "read" {
		return nil
	}
	hit := false
	if f.blocks != nil {
		for b := op.Off / f.bsize; b*f.bsize < op.Off+int64(op.N); b++ {
			if f.blocks[b] {
				hit = true
			}
		}
	} else {
		hit = f.rng.Float64() < f.prob
	}
	if !hit {
		return nil
	}
	atomic.AddInt64(&f.failed, 1)
	k := f.kind
	if k == 4 {
		k = f.rng.Intn(4)
	}
	switch k {
	case 0:
		return mon.Fault(f.rng.Intn(1000))
	case 1:
		return mon.ErrGarbage{N: 1 + f.rng.Intn(op.N)}
	case 2:
		return mon.ErrShort{N: f.rng.Intn(op.N)}
	}
	return mon.ErrShort{N: 0}
}

func (f *faults) set(on bool, blocks map[int64]bool) {
	f.mu.Lock()
	f.blocks = blocks
	f.on = on
	f.mu.Unlock()
}

// judge checks one read: whole and right, or an error that is not a plain end
// of file, with right bytes up to the reported count.
func judge(p []byte, n int, err error, want []byte, strict bool) string {
	if n < 0 || n > len(p) {
		return fmt.Sprintf("returned %d bytes for a buffer of %d", n, len(p))
	}
	if n > len(want) {
		return fmt.Sprintf("returned %d bytes where the object has %d", n, len(want))
	}
	if n == len(want) && (err == nil || err == io.EOF) {
		if d := mon.Diff(p[:n], want); d != "" {
			return "wrong bytes: " + d
		}
		return ""
	}
	if err == nil {
		return fmt.Sprintf("short success: %d of %d bytes without an error", n, len(want))
	}
	if err == io.EOF {
		return fmt.Sprintf("end of file after %d of %d bytes", n, len(want))
	}
	if strict {
		return fmt.Sprintf("failed although the source works: %d of %d bytes, %v", n, len(want), err)
	}
	return ""
}

func one(r *mon.Run, i int) {
	rng := r.Rng("case", i)
	bs := []int64{1, 16, 100, 4096}[rng.Intn(4)]
	kind := []string{"memory", "disk"}[rng.Intn(2)]
	win, tok := rng.Intn(5), int64(rng.Intn(5))
	var sl caching.Slicer
	wait := func() {}
	if kind == "memory" {
		m, err := caching.NewMemorySlicer(bs, int64([]int{1, 2, 4, 64}[rng.Intn(4)]))
		if err != nil {
			r.Violate("create", "%v", err)
			return
		}
		sl = m
	} else {
		dir := r.Dir(fmt.Sprintf("d%d", i))
		defer os.RemoveAll(dir)
		d := caching.NewDiskSlicer(dir, bs)
		sl, wait = d, d.Wait
	}
	cache := caching.NewCache(sl, win, tok)
	size := bs*int64(3+rng.Intn(12)) - rng.Int63n(bs)
	nb := (size + bs - 1) / bs
	src := mon.NewMemObject(fmt.Sprintf("u://c10/%d", i), &mon.VFile{Gen: true, ID: uint64(i + 1), Len: size})
	delay := mon.Delay(rng.Int63(), 150*time.Microsecond)
	f := &faults{rng: rand.New(rand.NewSource(rng.Int63())), kind: rng.Intn(5), bsize: bs, prob: 0.1 + 0.5*rng.Float64()}
	src.Hook = func(op mon.Op) error { delay(); return f.hook(op) }
	label := fmt.Sprintf("case %d: %s cache, blocks of %d, window %d, %d tokens, object of %d", i, kind, bs, win, tok, size)
	fk := []string{"error", "garbage", "short", "end of file", "mixed"}[f.kind]
	defer r.Begin("%s", label)()

	rd := func(obj storage.Object, who string, off int64, n int, strict bool) bool {
		want := src.F.Range(off, n)
		p := make([]byte, n)
		got, err := obj.ReadAt(p, off)
		r.Eval()
		if d := judge(p, got, err, want, strict); d != "" {
			r.Violate(who, "%s, fault kind %s, %s: ReadAt(%d, %d): %s", label, fk, who, n, off, d)
			return false
		}
		out := "right"
		if got < len(want) {
			out = "error"
		}
		r.Distinct("main", fmt.Sprintf("%s %s %d %v %v %s", kind, fk, bs, win > 0 && tok > 0, strict, out))
		switch {
		case strict:
			r.Count("reads after recovery", 1)
		case out == "error":
			r.Count("reads that reported an error", 1)
		default:
			r.Count("reads right despite faults elsewhere", 1)
		}
		return true
	}
	for epoch := 0; epoch < 4 && !r.Failed(); epoch++ {
		var blocks map[int64]bool
		if rng.Intn(2) == 0 {
			blocks = map[int64]bool{}
			for b := int64(0); b < nb; b++ {
				if rng.Intn(3) == 0 {
					blocks[b] = true
				}
			}
		}
		f.set(true, blocks)
		obj := cache.WithCaching(src)
		var wg sync.WaitGroup
		for t := 0; t < 1+rng.Intn(4); t++ {
			seed := rng.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed))
				if rng.Intn(2) == 0 {
					// a sequential run block by block, which triggers read-ahead
					for b := int64(0); b < nb; b++ {
						if !rd(obj, "under faults", b*bs, int(bs), false) {
							return
						}
					}
					return
				}
				for k := 0; k < 15; k++ {
					if !rd(obj, "under faults", mon.Offset(rng, size-1, bs)%size, 1+rng.Intn(int(bs)*3), false) {
						return
					}
				}
			}()
		}
		wg.Wait()
		// read-ahead alone: only the first block is read, others are prefetched
		before := atomic.LoadInt64(&f.failed)
		f.set(true, map[int64]bool{2: true, 3: true, nb - 1: true})
		for k := 0; k < 2; k++ {
			for b := int64(0); b < 2; b++ {
				if !rd(obj, "under faults", b*bs, int(bs), false) {
					break
				}
			}
		}
		// the faults end only when nothing is in flight
		s := cache.WithCaching(mon.NewMemObject("u://other", src.F))
		s.Close()
		closeQuiet(obj)
		wait()
		r.Count("failed read-ahead reads", atomic.LoadInt64(&f.failed)-before)
		f.set(false, nil)
		src = reopen(src)
		obj = cache.WithCaching(src)
		for t := 0; t < 3; t++ {
			seed := rng.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed))
				for k := 0; k < 12; k++ {
					off, n := rng.Int63n(nb)*bs, int(bs)
					if rng.Intn(2) == 0 {
						off, n = mon.Offset(rng, size-1, bs)%size, 1+rng.Intn(int(bs)*3)
					}
					if !rd(obj, "after recovery", off, n, true) {
						return
					}
				}
			}()
		}
		wg.Wait()
		for b := int64(0); b < nb && !r.Failed(); b++ {
			rd(obj, "after recovery", b*bs, int(bs), true)
		}
		closeQuiet(obj)
		wait()
		src = reopen(src)
	}
	if d, ok := sl.(*caching.DiskSlicer); ok {
		if err := d.CheckIntegrity(); err != nil {
			r.Violate("fsck", "%s: %v", label, err)
		}
	}
	r.Count("failed source reads", f.failed)
	if i < 3 {
		r.Sample("%s, fault kind %s: %d source reads failed", label, fk, f.failed)
	}
}

// reopen gives a fresh object with the same address and hook.
func reopen(o *mon.MemObject) *mon.MemObject {
	n := mon.NewMemObject(o.U, o.F)
	n.Hook = o.Hook
	return n
}

func closeQuiet(o storage.Object) { o.Close() }
