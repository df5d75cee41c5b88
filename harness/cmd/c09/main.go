// C09: the disk cache is transparent to threads and processes sharing it.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/NVIDIA/vdisc/pkg/caching"
	_ "github.com/NVIDIA/vdisc/pkg/storage/file"

	"vdiscverif/mon"
)

// conf is one workload, run by every process of a case with its own seed.
type conf struct {
	Dir     string
	Case    int
	Bsize   int64
	Window  int
	Tokens  int64
	Sizes   []int64
	Threads int
	Reads   int
	Seed    int64
	Gc      bool
	Fsck    bool
	Who     string
}

type countdown struct{ n int64 }

func (c *countdown) GcNeeded(st *syscall.Statfs_t) bool { return atomic.AddInt64(&c.n, -1) >= 0 }

func work(r *mon.Run, c *conf) {
	sl := caching.NewDiskSlicer(c.Dir, c.Bsize)
	var srcs []*mon.Source
	alike := mon.LookAlikes(rand.New(rand.NewSource(int64(c.Case))), fmt.Sprintf("u://%d/", c.Case), 6)
	for k, s := range c.Sizes {
		url := fmt.Sprintf([]string{"u://%d/o", "u://%d/o/", "u://%d/%%6f", "u://%d/o0", "u://%d/O", "u://%d/o\"&b"}[k%6], c.Case)
		if c.Case%2 == 1 {
			url = alike[k%6]
		}
		id := uint64(c.Case)<<16 + uint64(k%6) + 1 // from the seventh on: other lengths of the same objects
		srcs = append(srcs, mon.NewSource(url, id, s, mon.Delay(c.Seed+int64(k), 300*time.Microsecond)))
	}
	load := &mon.CacheLoad{
		Label: fmt.Sprintf("case %d %s (blocks of %d, window %d, %d tokens)", c.Case, c.Who, c.Bsize, c.Window, c.Tokens),
		Cache: caching.NewCache(sl, c.Window, c.Tokens), Bsize: c.Bsize, Srcs: srcs,
		Threads: c.Threads, Reads: c.Reads, Seed: c.Seed, Share: c.Seed%2 == 0,
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	if c.Gc {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(c.Seed + 77))
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(rng.Intn(3000)) * time.Microsecond):
				}
				sl.Gc(&countdown{int64(rng.Intn(12))})
				r.Count("collections", 1)
			}
		}()
	}
	if c.Fsck {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(2 * time.Millisecond):
				}
				if err := sl.CheckIntegrity(); err != nil {
					r.Violate("fsck", "case %d %s: the integrity check failed while the cache was in use: %v", c.Case, c.Who, err)
					return
				}
				r.Count("integrity checks", 1)
			}
		}()
	}
	load.Run(r)
	close(stop)
	wg.Wait()
	sl.Wait()
	var n int64
	for _, s := range srcs {
		n += atomic.LoadInt64(&s.Reads)
	}
	if h := int64(c.Threads*c.Reads) - n; h > 0 {
		r.Count("reads served without the source", h)
	}
	r.Count("source reads", n)
}

func entries(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && !strings.HasPrefix(fi.Name(), ".") {
			out = append(out, p)
		}
		return nil
	})
	return out
}

func main() {
	mon.Child("work", func(args []string) {
		var c conf
		if err := json.Unmarshal([]byte(args[0]), &c); err != nil {
			panic(err)
		}
		r := mon.ChildRun("C09", c.Seed)
		work(r, &c)
		r.Report()
	})
	mon.Main("C09", "distinct (block size, position class of start and end, thread count) reads whose bytes were compared, over cache directories shared by threads and processes", func(r *mon.Run) {
		r.Parallel(r.N(90, 900), 4, func(i int) { one(r, i) })
		r.Parallel(r.N(24, 200), 4, func(i int) { far(r, i) })
		r.Need("reads of more than 256 blocks", 5)
		r.Need("reads far into huge objects", 300)
		r.Need("reads with an unusable cache directory", 100)
		r.Need("reads", 8000)
		r.Need("reads served without the source", 500)
		r.Need("cases with several processes", 5)
		r.Need("collections", 50)
		r.Need("integrity checks", 50)
		r.Need("entries seen in cache directories", 100)
		r.Need("misplaced entries read over", 10)
		r.Assume("objects with the same address have the same content up to the shorter length; addresses are valid UTF-8")
	})
}

func one(r *mon.Run, i int) {
	rng := r.Rng("case", i)
	c := conf{
		Dir: r.Dir(fmt.Sprintf("c%d", i)), Case: i,
		Bsize:  []int64{1, 5, 64, 1000, 4096, 65536}[rng.Intn(6)],
		Window: rng.Intn(5), Tokens: int64(rng.Intn(5)),
		Threads: []int{1, 3, 8}[rng.Intn(3)], Reads: r.N(60, 150),
	}
	defer os.RemoveAll(c.Dir)
	for k := 0; k < 1+rng.Intn(9); k++ {
		s := int64(rng.Intn(int(c.Bsize)*6 + 1))
		switch rng.Intn(4) {
		case 0:
			s = c.Bsize * int64(rng.Intn(6))
		case 1:
			s = c.Bsize*int64(1+rng.Intn(4)) + int64(rng.Intn(3)-1)
		}
		c.Sizes = append(c.Sizes, s)
	}
	procs := []int{1, 1, 3, 5}[rng.Intn(4)]
	if procs > 1 {
		r.Count("cases with several processes", 1)
	}
	gc, fsck := rng.Intn(2) == 0, rng.Intn(2) == 0
	var wg sync.WaitGroup
	for p := 0; p < procs; p++ {
		cp := c
		cp.Seed = rng.Int63n(1 << 40)
		cp.Who = fmt.Sprintf("process %d", p)
		cp.Gc = gc && p != 1
		cp.Fsck = fsck && p < 2
		wg.Add(1)
		go func() {
			defer wg.Done()
			if cp.Who == "process 0" {
				work(r, &cp)
				return
			}
			b, _ := json.Marshal(&cp)
			r.RunChild(fmt.Sprintf("case %d %s", i, cp.Who), "work", string(b))
		}()
	}
	wg.Wait()
	r.Tick()
	if r.Failed() {
		return
	}
	r.Distinct("configurations", fmt.Sprintf("%d %d %d %d %d %v %v", c.Bsize, c.Window, c.Tokens, c.Threads, procs, gc, fsck))
	es := entries(c.Dir)
	r.Count("entries seen in cache directories", int64(len(es)))
	if err := caching.NewDiskSlicer(c.Dir, c.Bsize).CheckIntegrity(); err != nil {
		r.Violate("fsck", "case %d: the integrity check failed after use: %v", i, err)
	}
	// entries that belong to other blocks, as if two block names had collided
	if len(es) >= 2 {
		for k := 0; k < len(es)/2; k++ {
			a, b := es[rng.Intn(len(es))], es[rng.Intn(len(es))]
			if a == b {
				continue
			}
			t := filepath.Join(c.Dir, "swap")
			if os.Rename(a, t) == nil && os.Rename(b, a) == nil && os.Rename(t, b) == nil {
				r.Count("misplaced entries read over", 2)
			}
		}
		cp := c
		cp.Who, cp.Threads, cp.Seed = "over misplaced entries", 2, rng.Int63n(1<<40)
		work(r, &cp)
	}
	if i < 3 {
		r.Sample("case %d: blocks of %d, %d objects, %d processes of %d threads, gc %v, fsck %v, %d entries left", i, c.Bsize, len(c.Sizes), procs, c.Threads, gc, fsck, len(es))
	}
	if fs, _ := ioutil.ReadDir(c.Dir); len(fs) == 0 {
		r.Count("cases without a stored entry", 1)
	}
}

// far makes very long reads, reads of very large objects, and reads with a
// cache directory that cannot be used.
func far(r *mon.Run, i int) {
	rng := r.Rng("far", i)
	bs := []int64{1, 16, 100, 512}[rng.Intn(4)]
	dir := r.Dir(fmt.Sprintf("f%d", i))
	defer os.RemoveAll(dir)
	root := dir
	bad := i%6 >= 4
	if bad {
		// a file where a directory is needed
		root = filepath.Join(dir, "root")
		if i%6 == 4 {
			ioutil.WriteFile(root, []byte("x"), 0644)
		} else {
			os.Mkdir(root, 0755)
			ioutil.WriteFile(filepath.Join(root, "v0"), []byte("x"), 0644)
		}
	}
	sl := caching.NewDiskSlicer(root, bs)
	cache := caching.NewCache(sl, rng.Intn(4), int64(rng.Intn(4)))
	url := fmt.Sprintf("u://far/%d", i)
	if i%2 == 0 {
		mon.LongReads(r, fmt.Sprintf("long %d (unusable directory: %v)", i, bad), cache, bs, rng, url, uint64(i)<<8+1<<40)
	} else {
		mon.HugeReads(r, fmt.Sprintf("huge %d (unusable directory: %v)", i, bad), cache, bs, rng, url, uint64(i)<<8+1<<41, r.N(80, 200))
	}
	if bad {
		var srcs []*mon.Source
		for k := 0; k < 3; k++ {
			srcs = append(srcs, mon.NewSource(fmt.Sprintf("u://bad/%d/%d", i, k), uint64(i)<<8+1<<42+uint64(k), rng.Int63n(bs*8+1), nil))
		}
		load := &mon.CacheLoad{Label: fmt.Sprintf("case %d with an unusable directory", i), Cache: cache, Bsize: bs, Srcs: srcs, Threads: 3, Reads: 40, Seed: rng.Int63n(1 << 40)}
		load.Run(r)
		r.Count("reads with an unusable cache directory", 120)
	}
	sl.Wait()
	r.Tick()
}
