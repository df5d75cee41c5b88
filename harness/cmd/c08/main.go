// C08: the memory cache is transparent.
package main

import (
	"fmt"
	"io"
	"math/rand"
	"sync"
	"time"

	"github.com/NVIDIA/vdisc/pkg/caching"

	"vdiscverif/mon"
)

func main() {
	mon.Main("C08", "distinct (block size, position class of start and end, thread count) reads whose bytes were compared, over caches with fewer buffers than blocks", func(r *mon.Run) {
		r.Parallel(r.N(120, 3000), 6, func(i int) { one(r, i) })
		r.Parallel(r.N(24, 300), 6, func(i int) { far(r, i) })
		for i := 0; i < r.N(12, 200) && !r.Enough(); i++ {
			slices(r, i)
		}
		r.Need("reads", 20000)
		r.Need("reads served without the source", 2000)
		r.Need("reads of more than 256 blocks", 5)
		r.Need("reads far into huge objects", 500)
		r.Need("evicting configurations", 40)
		r.Need("slice reads", 1000)
		r.Assume("objects with the same address have the same content up to the shorter length")
	})
}

func one(r *mon.Run, i int) {
	rng := r.Rng("load", i)
	bs := []int64{1, 3, 16, 100, 512, 1000, 4096, 65536}[rng.Intn(8)]
	bc := int64([]int{1, 2, 3, 5, 16, 200}[rng.Intn(6)])
	win := rng.Intn(6)
	tok := int64(rng.Intn(5))
	sl, err := caching.NewMemorySlicer(bs, bc)
	if err != nil {
		r.Violate("create", "NewMemorySlicer(%d, %d): %v", bs, bc, err)
		return
	}
	if sl.Bsize() != bs {
		r.Violate("bsize", "Bsize() is %d, want %d", sl.Bsize(), bs)
	}
	delay := mon.Delay(rng.Int63(), 200*time.Microsecond)
	if rng.Intn(3) == 0 {
		delay = nil
	}
	no := 1 + rng.Intn(6)
	var srcs []*mon.Source
	blocks := int64(0)
	alike := mon.LookAlikes(rng, fmt.Sprintf("u://%d/", i), no)
	for k := 0; k < no; k++ {
		size := int64(rng.Intn(int(bs)*12 + 1))
		switch rng.Intn(4) {
		case 0:
			size = bs * int64(rng.Intn(12))
		case 1:
			size = bs*int64(1+rng.Intn(5)) + int64(rng.Intn(3)-1)
		}
		// addresses that resemble each other and the way blocks may be named
		url := fmt.Sprintf([]string{"u://%d/o", "u://%d/o/", "u://%d/o[0,%[2]d)", "u://%d/o0", "u://%d/O", "u://%d/o?a=1&b=2"}[k%6], i, bs)
		if i%2 == 1 {
			url = alike[k]
		}
		id := uint64(i)<<16 + uint64(k) + 1
		srcs = append(srcs, mon.NewSource(url, id, size, delay))
		blocks += (size + bs - 1) / bs
		if rng.Intn(3) == 0 && size > 0 {
			// the same object seen with another length
			s2 := rng.Int63n(size)
			srcs = append(srcs, mon.NewSource(url, id, s2, delay))
			blocks += (s2 + bs - 1) / bs
		}
	}
	if blocks > bc {
		r.Count("evicting configurations", 1)
	}
	c := &mon.CacheLoad{
		Label: fmt.Sprintf("load %d (%d buffers of %d bytes, window %d, %d tokens, %d objects)", i, bc, bs, win, tok, len(srcs)),
		Cache: caching.NewCache(sl, win, tok), Bsize: bs, Srcs: srcs,
		Threads: []int{1, 2, 4, 12}[rng.Intn(4)], Reads: r.N(150, 300), Seed: rng.Int63n(1 << 40), Share: rng.Intn(2) == 0,
	}
	c.Run(r)
	var src int64
	for _, s := range srcs {
		src += s.Reads
	}
	if hits := int64(c.Threads*c.Reads) - src; hits > 0 {
		r.Count("reads served without the source", hits)
	}
	r.Count("source reads", src)
	r.Distinct("configurations", fmt.Sprintf("%d %d %d %d %d", bs, bc, win, tok, c.Threads))
	if i < 4 {
		r.Sample("%s: %d threads, %d source reads", c.Label, c.Threads, src)
	}
}

// far makes very long reads and reads of very large objects.
func far(r *mon.Run, i int) {
	rng := r.Rng("far", i)
	bs := []int64{1, 16, 100, 512}[rng.Intn(4)]
	bc := int64([]int{1, 3, 20, 3000}[rng.Intn(4)])
	sl, err := caching.NewMemorySlicer(bs, bc)
	if err != nil {
		r.Violate("create", "NewMemorySlicer(%d, %d): %v", bs, bc, err)
		return
	}
	cache := caching.NewCache(sl, rng.Intn(4), int64(rng.Intn(4)))
	url := fmt.Sprintf("u://far/%d", i)
	if i%2 == 0 {
		mon.LongReads(r, fmt.Sprintf("long %d (%d buffers)", i, bc), cache, bs, rng, url, uint64(i)<<8+1<<40)
	} else {
		mon.HugeReads(r, fmt.Sprintf("huge %d (%d buffers)", i, bc), cache, bs, rng, url, uint64(i)<<8+1<<41, r.N(120, 400))
	}
}

// slices uses the slices of a slicer directly, many on few buffers.
func slices(r *mon.Run, i int) {
	rng := r.Rng("slices", i)
	bs := []int64{7, 64, 1024}[rng.Intn(3)]
	sl, err := caching.NewMemorySlicer(bs, int64(1+rng.Intn(3)))
	if err != nil {
		return
	}
	size := bs*int64(2+rng.Intn(10)) + rng.Int63n(bs)
	src := mon.NewSource(fmt.Sprintf("u://s%d", i), uint64(i+9000), size, mon.Delay(rng.Int63(), 100*time.Microsecond))
	var wg sync.WaitGroup
	for t := 0; t < 6; t++ {
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed))
			for k := 0; k < 60 && !r.Failed(); k++ {
				b := rng.Int63n((size + bs - 1) / bs)
				s := sl.Slice(src, b*bs)
				want := src.F.Range(b*bs, int(bs))
				r.Eval()
				r.Count("slice reads", 1)
				if s.Size() != int64(len(want)) {
					r.Violate("slice-size", "slice at block %d of %d-byte object: size %d, want %d", b, size, s.Size(), len(want))
					return
				}
				switch rng.Intn(3) {
				case 0:
					if d := mon.CheckReadAt(s, &mon.VFile{Data: want}, int64(len(want)), rng.Int63n(int64(len(want))), 1+rng.Intn(int(bs))); d != "" {
						r.Violate("slice", "slice at block %d: %s", b, d)
						return
					}
				case 1:
					got, err := mon.ReadAllChunks(s, bs, []int{1 + rng.Intn(int(bs))})
					if err != nil || mon.Diff(got, want) != "" {
						r.Violate("slice", "slice at block %d read sequentially: %v %s", b, err, mon.Diff(got, want))
						return
					}
				case 2:
					s.ReadAhead()
					if p, err := s.Seek(-1, io.SeekEnd); err != nil || p != int64(len(want))-1 {
						r.Violate("slice", "seek in slice gave %d, %v", p, err)
					}
					one := make([]byte, 1)
					if n, err := s.Read(one); n != 1 || (err != nil && err != io.EOF) || one[0] != want[len(want)-1] {
						r.Violate("slice", "last byte of slice: %d %v", n, err)
					}
				}
			}
		}()
	}
	wg.Wait()
}
