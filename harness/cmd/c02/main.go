// C02: the image of a disc is one consistent block of bytes.
package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"sync"

	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/vdisc"

	"vdiscverif/mon"
)

var vt *mon.VT

func main() {
	mon.Main("C02", "distinct (cache mode, position class of start, position class of end, length class) reads of an image compared with the header and sources", func(r *mon.Run) {
		vt = mon.NewVT("vt")
		r.Parallel(r.N(60, 1200), 0, func(i int) { one(r, i, false) })
		for i := 0; i < r.N(3, 20) && !r.Enough(); i++ {
			one(r, i, true)
		}
		r.Need("positioned reads", 5000)
		r.Need("concurrent reads", 5000)
		r.Need("sequential bytes", 1<<20)
		r.Need("reads of padding", 200)
	})
}

// pick chooses an offset near something interesting of the image.
func pick(rng *rand.Rand, marks []int64, size int64) int64 {
	if rng.Intn(3) == 0 {
		return rng.Int63n(size + 10)
	}
	o := marks[rng.Intn(len(marks))]
	switch rng.Intn(3) {
	case 0:
		o += int64(rng.Intn(5) - 2)
	case 1:
		o += int64(rng.Intn(4200) - 2100)
	}
	if o < 0 {
		o = 0
	}
	return o
}

func length(rng *rand.Rand) int {
	switch rng.Intn(6) {
	case 0:
		return 1 + rng.Intn(3)
	case 1:
		return 2048 * (1 + rng.Intn(4))
	case 2:
		return 1 + rng.Intn(200)
	case 3:
		return 1 + rng.Intn(70000)
	}
	return 1 + rng.Intn(6000)
}

func one(r *mon.Run, i int, large bool) {
	rng := r.Rng("disc", i)
	if large {
		rng = r.Rng("large", i)
	}
	ext := rng.Intn(2) == 0
	n := rng.Intn(40)
	paths := mon.GenPaths(rng, n, ext)
	model := mon.NewModel(func(string) bool { return true })
	var leaves []*mon.Leaf
	tag := fmt.Sprintf("d%d%v", i, large)
	for k, p := range paths {
		if rng.Intn(8) == 0 {
			l := &mon.Leaf{Path: p, Link: true, Target: "x"}
			leaves = append(leaves, l)
			model.Add(l)
			continue
		}
		l := &mon.Leaf{Path: p, URL: fmt.Sprintf("vt://%s/o%d", tag, k), Size: mon.Size(rng, 20000)}
		if large {
			switch rng.Intn(6) {
			case 0:
				l.Size = 4294965248*int64(1+rng.Intn(2)) + int64(rng.Intn(4100)-2050)
			case 1:
				l.Size = rng.Int63n(1 << 36)
			}
		}
		l.Src = &mon.VFile{Gen: true, ID: uint64(i+1)<<24 + uint64(k) + 1, Len: l.Size}
		if rng.Intn(4) == 0 && k > 0 && !leaves[k-1].Link {
			l.URL, l.Src, l.Size = leaves[k-1].URL, leaves[k-1].Src, leaves[k-1].Size
		}
		if rng.Intn(5) == 0 && l.Src.Len == l.Size {
			// the source may be longer than declared
			l.Src.Len += int64(rng.Intn(5000))
		}
		vt.Put(l.URL, l.Src)
		leaves = append(leaves, l)
		model.Add(l)
	}
	url, err := mon.Burn(fmt.Sprintf("vt://%s/disc", tag), ext, leaves)
	if err != nil {
		r.Violate("burn-failed", "disc %d: %v", i, err)
		return
	}
	hdr := vt.Lookup(url + ".isohdr")
	if hdr == nil {
		r.Violate("no-header", "disc %d: no header object at %s.isohdr", i, url)
		return
	}
	ref, iso, err := mon.RefImage(hdr.Data, model)
	if err != nil {
		r.Violate("layout", "disc %d: %v", i, err)
		return
	}
	marks := []int64{0, 32768, int64(len(hdr.Data)), ref.Len}
	for _, nd := range iso.All() {
		for _, x := range nd.Extents {
			marks = append(marks, int64(x.Start)*2048, int64(x.Start)*2048+int64(x.Len), (int64(x.Start)*2048+int64(x.Len)+2047)/2048*2048)
		}
	}
	bs := []int64{512, 2048, 3000, 4096, 65536}[rng.Intn(5)]
	cd := r.Dir("cache-" + tag)
	defer os.RemoveAll(cd)
	for _, m := range mon.Modes(cd, bs, int64(2+rng.Intn(30)), rng.Intn(5), int64(rng.Intn(6))) {
		v, err := vdisc.Load(url, m.Cache)
		if err != nil {
			r.Violate("load", "disc %d: %v", i, err)
			return
		}
		img := v.Image()
		what := fmt.Sprintf("disc %d, %s cache of %d-byte blocks", i, m.Name, bs)
		r.Eval()
		if img.Size() != ref.Len {
			r.Violate("size", "%s: image size %d, want %d", what, img.Size(), ref.Len)
		}
		nr := 120
		if !r.Quick {
			nr = 400
		}
		for k := 0; k < nr; k++ {
			read(r, what, m.Name, img, ref, pick(rng, marks, ref.Len), length(rng))
			r.Count("positioned reads", 1)
		}
		// every file's padding
		for _, nd := range iso.All() {
			for _, x := range nd.Extents {
				e := int64(x.Start)*2048 + int64(x.Len)
				if e%2048 != 0 || x.Len == 0 {
					off := e - int64(rng.Intn(3))
					if off < 0 {
						off = e
					}
					read(r, what, m.Name, img, ref, off, 2048+rng.Intn(2048))
					r.Count("reads of padding", 1)
				}
			}
		}
		// concurrent readers
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			g := g
			seed := rng.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed))
				for k := 0; k < nr/3; k++ {
					read(r, what+fmt.Sprintf(" thread %d", g), m.Name, img, ref, pick(rng, marks, ref.Len), length(rng))
					r.Count("concurrent reads", 1)
				}
			}()
		}
		wg.Wait()
		// sequential reads and seeks share one position
		if !large {
			seq(r, what, img, ref, rng)
		}
		if r.Enough() {
			v.Close()
			break
		}
		v.Close()
		m.Wait()
	}
	for _, l := range leaves {
		if !l.Link {
			vt.Delete(l.URL)
		}
	}
	vt.Delete(url)
	vt.Delete(url + ".isohdr")
	if i < 3 {
		r.Sample("disc %d: %d files, image of %d bytes (%d header), block size %d", i, len(leaves), ref.Len, len(hdr.Data), bs)
	}
}

func read(r *mon.Run, what, mode string, img io.ReaderAt, ref *mon.VFile, off int64, n int) {
	end := r.Begin("%s: ReadAt(%d, %d)", what, n, off)
	defer end()
	r.Eval()
	if d := mon.CheckReadAt(img, ref, ref.Len, off, n); d != "" {
		r.Violate("read", "%s: %s", what, d)
	}
	lc := 0
	for x := n; x > 0; x >>= 3 {
		lc++
	}
	r.Distinct("main", fmt.Sprintf("%s %d %d %d", mode, class(off, ref.Len), class(off+int64(n), ref.Len), lc))
}

func class(o, size int64) int {
	c := int(o % 2048)
	switch {
	case c > 2 && c < 2046:
		c = 1000
	}
	if o > size {
		c += 5000
	} else if o == size {
		c += 10000
	}
	return c
}

func seq(r *mon.Run, what string, img storage.AnonymousObject, ref *mon.VFile, rng *rand.Rand) {
	limit := ref.Len
	if _, err := img.Seek(0, io.SeekStart); err != nil {
		r.Violate("seek", "%s: seek to the start: %v", what, err)
		return
	}
	var chunks []int
	for k := 0; k < 5; k++ {
		chunks = append(chunks, length(rng))
	}
	chunks = append(chunks, 30000)
	got, err := mon.ReadAllChunks(img, limit, chunks)
	r.Eval()
	r.Count("sequential bytes", int64(len(got)))
	if err != nil {
		r.Violate("sequential", "%s: sequential read in chunks %v: %v", what, chunks, err)
		return
	}
	if d := mon.Diff(got, ref.Range(0, int(limit))); d != "" {
		r.Violate("sequential", "%s: sequential read in chunks %v: %s", what, chunks, d)
	}
	for k := 0; k < 10; k++ {
		pos := rng.Int63n(limit + 1)
		var p int64
		var err error
		switch rng.Intn(3) {
		case 0:
			p, err = img.Seek(pos, io.SeekStart)
		case 1:
			p, err = img.Seek(pos-limit, io.SeekEnd)
		case 2:
			var cur int64
			cur, err = img.Seek(0, io.SeekCurrent)
			if err == nil {
				p, err = img.Seek(pos-cur, io.SeekCurrent)
			}
		}
		r.Eval()
		if err != nil || p != pos {
			r.Violate("seek", "%s: seek to %d gave %d, %v", what, pos, p, err)
			return
		}
		buf := make([]byte, length(rng))
		n, err := img.Read(buf)
		want := ref.Range(pos, len(buf))
		if err != nil && err != io.EOF || n > len(want) || (n == 0 && len(want) > 0) || mon.Diff(buf[:n], want[:n]) != "" {
			r.Violate("seek", "%s: read after seek to %d: %d bytes, %v, wrong or missing bytes", what, pos, n, err)
			return
		}
	}
}
