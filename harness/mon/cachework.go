package mon

import (
	"fmt"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
)

// Source is an in-memory backing object that records how it is used.
type Source struct {
	*MemObject
	Reads   int64
	Active  int64
	MaxConc int64
}

// NewSource makes a backing object of generated content. delay, if not nil,
// is called in every read of it.
func NewSource(url string, id uint64, size int64, delay func()) *Source {
	s := &Source{MemObject: NewMemObject(url, &VFile{Gen: true, ID: id, Len: size})}
	s.Hook = func(op Op) error {
		atomic.AddInt64(&s.Reads, 1)
		if delay != nil {
			n := atomic.AddInt64(&s.Active, 1)
			for {
				m := atomic.LoadInt64(&s.MaxConc)
				if n <= m || atomic.CompareAndSwapInt64(&s.MaxConc, m, n) {
					break
				}
			}
			delay()
			atomic.AddInt64(&s.Active, -1)
		}
		return nil
	}
	return s
}

// CacheLoad describes a stress of one cache.
type CacheLoad struct {
	Label   string
	Cache   caching.Cache
	Bsize   int64
	Srcs    []*Source
	Threads int
	Reads   int // per thread
	Seed    int64
	Share   bool // threads share the cached objects instead of opening their own
}

// Offset picks an interesting position of an object cached in blocks.
func Offset(rng *rand.Rand, size, bsize int64) int64 {
	nb := size/bsize + 1
	switch rng.Intn(5) {
	case 0:
		return rng.Int63n(size + 3)
	case 1:
		o := rng.Int63n(nb)*bsize + int64(rng.Intn(5)-2)
		if o < 0 {
			o = 0
		}
		return o
	case 2:
		o := size - int64(rng.Intn(int(bsize)+5))
		if o < 0 {
			o = 0
		}
		return o
	}
	return rng.Int63n(nb) * bsize
}

// Run performs the reads and judges every one of them.
func (c *CacheLoad) Run(r *Run) {
	shared := make([]storage.Object, len(c.Srcs))
	for i, s := range c.Srcs {
		shared[i] = c.Cache.WithCaching(s)
		if got, want := shared[i].Size(), s.Size(); got != want || shared[i].URL() != s.URL() {
			r.Violate("identity", "%s: cached object says %s size %d, want %s size %d", c.Label, shared[i].URL(), got, s.URL(), want)
		}
	}
	var wg sync.WaitGroup
	for t := 0; t < c.Threads; t++ {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(c.Seed*1000 + int64(t)))
			seq := map[int]int64{}
			for k := 0; k < c.Reads && !r.Failed(); k++ {
				i := rng.Intn(len(c.Srcs))
				s := c.Srcs[i]
				obj := shared[i]
				if !c.Share && rng.Intn(3) == 0 {
					obj = c.Cache.WithCaching(s)
				}
				size := s.Size()
				off := Offset(rng, size, c.Bsize)
				n := 1 + rng.Intn(int(c.Bsize))
				switch rng.Intn(5) {
				case 0:
					n = 1 + rng.Intn(8)
				case 1:
					n = int(c.Bsize)
				case 2:
					n = 1 + rng.Intn(int(c.Bsize)*4)
				case 3: // continue a sequential run
					off = seq[i]
				}
				seq[i] = off + int64(n)
				if seq[i] > size {
					seq[i] = 0
				}
				end := r.Begin("%s thread %d: %s ReadAt(%d, %d)", c.Label, t, s.URL(), n, off)
				d := CheckReadAt(obj, s.F, size, off, n)
				end()
				r.Eval()
				r.Count("reads", 1)
				if d != "" {
					r.Violate("bytes", "%s, thread %d, object %s of %d bytes: %s", c.Label, t, Trunc(s.URL(), 80), size, d)
					return
				}
				r.Distinct("main", fmt.Sprintf("%d %d %d %d", c.Bsize, posClass(off, size, c.Bsize), posClass(off+int64(n), size, c.Bsize), c.Threads))
				if rng.Intn(40) == 0 {
					c.sequential(r, t, rng, s)
				}
				if obj != shared[i] {
					obj.Close()
				}
			}
		}()
	}
	wg.Wait()
	for i := range shared {
		shared[i].Close()
	}
}

func posClass(o, size, bsize int64) int {
	c := int(o % bsize)
	if c > 2 && int64(c) < bsize-2 {
		c = 3
	} else if int64(c) >= bsize-2 {
		c = int(int64(c) - bsize)
	}
	if o/bsize == size/bsize {
		c += 10
	}
	if o >= size {
		c += 20
	}
	if o < bsize {
		c += 40
	}
	return c
}

// sequential reads a whole object through Read and Seek.
func (c *CacheLoad) sequential(r *Run, t int, rng *rand.Rand, s *Source) {
	if s.Size() > 64*c.Bsize || s.Size() > 300000 {
		return
	}
	obj := c.Cache.WithCaching(s)
	defer obj.Close()
	chunk := 1 + rng.Intn(int(c.Bsize)*2)
	from := int64(0)
	if rng.Intn(2) == 0 && s.Size() > 0 {
		from = rng.Int63n(s.Size() + 1)
		if p, err := obj.Seek(from-s.Size(), io.SeekEnd); err != nil || p != from {
			r.Violate("seek", "%s: seek to %d of %d gave %d, %v", c.Label, from, s.Size(), p, err)
			return
		}
	}
	got, err := ReadAllChunks(obj, s.Size(), []int{chunk})
	r.Eval()
	r.Count("sequential reads of whole objects", 1)
	if err != nil {
		r.Violate("sequential", "%s, thread %d: reading %s of %d bytes from %d in chunks of %d: %v", c.Label, t, s.URL(), s.Size(), from, chunk, err)
		return
	}
	if d := Diff(got, s.F.Range(from, int(s.Size()-from))); d != "" {
		r.Violate("sequential", "%s, thread %d: reading %s of %d bytes from %d in chunks of %d: %s", c.Label, t, s.URL(), s.Size(), from, chunk, d)
	}
}

// Delay makes a function that yields or sleeps now and then.
func Delay(seed int64, max time.Duration) func() {
	var mu sync.Mutex
	rng := rand.New(rand.NewSource(seed))
	return func() {
		mu.Lock()
		k := rng.Intn(10)
		d := time.Duration(rng.Int63n(int64(max)))
		mu.Unlock()
		if k < 4 {
			time.Sleep(d)
		}
	}
}

// LookAlikes makes different addresses that differ from each other in one
// place only, of any length.
func LookAlikes(rng *rand.Rand, prefix string, n int) []string {
	base := []byte(prefix)
	for len(base) < len(prefix)+[]int{1, 2, 9, 60, 300}[rng.Intn(5)]+rng.Intn(2) {
		base = append(base, "abcdefgh/-_.0123456789"[rng.Intn(22)])
	}
	seen := map[string]bool{string(base): true}
	out := []string{string(base)}
	for len(out) < n {
		b := append([]byte{}, base...)
		k := len(prefix) + rng.Intn(len(b)-len(prefix))
		switch rng.Intn(6) {
		case 0, 1: // another last character
			b[len(b)-1] = "stuvwxyz"[rng.Intn(8)]
		case 2: // another character somewhere
			b[k] = "stuvwxyz"[rng.Intn(8)]
		case 3: // one more at the end
			b = append(b, "0/-:,"[rng.Intn(5)])
		case 4: // one less
			b = b[:len(b)-1]
		case 5: // two exchanged
			l := len(prefix) + rng.Intn(len(b)-len(prefix))
			b[k], b[l] = b[l], b[k]
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, string(b))
		} else {
			base = append(base, 'm')
		}
	}
	return out
}

// LongReads performs single reads that cover very many blocks.
func LongReads(r *Run, label string, cache caching.Cache, bsize int64, rng *rand.Rand, url string, id uint64) {
	blocks := []int64{255, 256, 257, 300, 511, 513, 1000, 1025, 2100}[rng.Intn(9)]
	size := blocks*bsize + rng.Int63n(bsize)
	s := NewSource(url, id, size, nil)
	obj := cache.WithCaching(s)
	defer obj.Close()
	for k := 0; k < 4 && !r.Failed(); k++ {
		off, n := int64(0), size
		if k > 0 {
			off = rng.Int63n(size)
			n = 1 + rng.Int63n(size-off+10)
		}
		end := r.Begin("%s: ReadAt(%d, %d)", label, n, off)
		d := CheckReadAt(obj, s.F, size, off, int(n))
		end()
		r.Eval()
		r.Count("reads", 1)
		if n > 256*bsize {
			r.Count("reads of more than 256 blocks", 1)
		}
		if d != "" {
			r.Violate("bytes", "%s, object of %d bytes in blocks of %d: %s", label, size, bsize, d)
			return
		}
		r.Distinct("main", fmt.Sprintf("long %d %d", bsize, blocks))
	}
}

// HugeReads reads around the places of very large objects where narrow
// numbers end, in random order and repeatedly.
func HugeReads(r *Run, label string, cache caching.Cache, bsize int64, rng *rand.Rand, url string, id uint64, reads int) {
	marks := []int64{0, 1 << 31, 1 << 32, 1<<32 + 1<<31, 1 << 33, 1 << 40, bsize << 31, bsize << 32}
	var size int64
	for _, m := range marks {
		if m+3*bsize+1 > size {
			size = m + 3*bsize + 1
		}
	}
	size += rng.Int63n(bsize)
	s := NewSource(url, id, size, nil)
	obj := cache.WithCaching(s)
	defer obj.Close()
	for k := 0; k < reads && !r.Failed(); k++ {
		off := marks[rng.Intn(len(marks))] + rng.Int63n(2*bsize+2) - bsize
		if rng.Intn(12) == 0 {
			off = size - rng.Int63n(2*bsize)
		}
		if off < 0 {
			off = 0
		}
		n := 1 + rng.Intn(int(bsize)+1)
		end := r.Begin("%s: ReadAt(%d, %d)", label, n, off)
		d := CheckReadAt(obj, s.F, size, off, n)
		end()
		r.Eval()
		r.Count("reads", 1)
		r.Count("reads far into huge objects", 1)
		if d != "" {
			r.Violate("bytes", "%s, object of %d bytes in blocks of %d: %s", label, size, bsize, d)
			return
		}
		r.Distinct("main", fmt.Sprintf("huge %d %d", bsize, off/bsize))
	}
}
