// C13: slices and concatenations read like the bytes they describe.
package main

import (
	"fmt"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"

	"github.com/NVIDIA/vdisc/pkg/storage"
	_ "github.com/NVIDIA/vdisc/pkg/storage/zero"

	"vdiscverif/mon"
)

// node is an object made of others together with the bytes it describes.
type node struct {
	obj   storage.AnonymousObject
	desc  string
	data  []byte
	owner []int // the leaf each byte comes from
	leafs []*leaf
	slice bool // a slice occurs somewhere
	multi bool // a concatenation of at least two
}

type leaf struct {
	*mon.MemObject
	id   int
	mode int32 // 0 fine, 1 error, 2 garbage and error, 3 short
	n    int32
	hold error // what Close reports
}

func (l *leaf) Close() error {
	l.MemObject.Close()
	return l.hold
}

var nextID int64

func gen(rng *rand.Rand, depth int, leaves *[]*leaf) *node {
	if depth == 0 || rng.Intn(5) == 0 {
		sz := []int{0, 1, 2, 5, 17, 100, 2048}[rng.Intn(7)]
		l := &leaf{id: len(*leaves)}
		l.MemObject = mon.NewMemObject("u://leaf", &mon.VFile{Gen: true, ID: uint64(atomic.AddInt64(&nextID, 1)), Len: int64(sz)})
		l.Hook = func(op mon.Op) error {
			switch atomic.LoadInt32(&l.mode) {
			case 1:
				return mon.Fault(int(atomic.LoadInt32(&l.n)))
			case 2:
				return mon.ErrGarbage{N: op.N}
			case 3:
				return mon.ErrShort{N: op.N - 1 - int(atomic.LoadInt32(&l.n))%op.N}
			}
			return nil
		}
		*leaves = append(*leaves, l)
		own := make([]int, sz)
		for i := range own {
			own[i] = l.id
		}
		return &node{obj: l, desc: fmt.Sprint(sz), data: l.F.Range(0, sz), owner: own, leafs: []*leaf{l}}
	}
	switch rng.Intn(5) {
	case 0:
		c := gen(rng, depth-1, leaves)
		use(rng, c)
		off := rng.Intn(len(c.data) + 1)
		n := rng.Intn(len(c.data) - off + 1)
		return &node{obj: storage.Slice(c.obj, int64(off), int64(n)), desc: fmt.Sprintf("(%s)[%d:%d]", c.desc, off, off+n),
			data: c.data[off : off+n], owner: c.owner[off : off+n], leafs: c.leafs, slice: true}
	case 1:
		c := gen(rng, depth-1, leaves)
		d := *c
		d.obj = storage.WithURL(c.obj, "u://named")
		return &d
	}
	k := rng.Intn(6)
	if rng.Intn(10) == 0 {
		k = 40
	}
	out := &node{desc: "("}
	var objs []storage.AnonymousObject
	for i := 0; i < k; i++ {
		c := gen(rng, depth-1, leaves)
		if k > 1 {
			use(rng, c)
		}
		objs = append(objs, c.obj)
		out.data = append(out.data, c.data...)
		out.owner = append(out.owner, c.owner...)
		out.leafs = append(out.leafs, c.leafs...)
		out.slice = out.slice || c.slice
		out.desc += "+" + c.desc
	}
	out.desc += ")"
	out.multi = k > 1
	if rng.Intn(2) == 0 {
		out.obj = storage.Concat(objs...)
	} else {
		out.desc = "&" + out.desc
		out.obj = storage.ConcurrentConcat(objs...)
	}
	return out
}

// use moves the position of an object before it becomes part of another one;
// only the positions of the outer object may matter afterwards.
func use(rng *rand.Rand, c *node) {
	if rng.Intn(2) == 0 && len(c.data) > 0 {
		c.obj.Seek(int64(rng.Intn(len(c.data)+1)), io.SeekStart)
		c.obj.Read(make([]byte, 1+rng.Intn(3)))
	}
}

func main() {
	mon.Main("C13", "distinct (shape, start, end) positioned reads and read/seek steps compared with the described bytes", func(r *mon.Run) {
		r.Parallel(r.N(1500, 40000), 6, func(i int) { one(r, i) })
		r.Need("positioned reads", 10000)
		r.Need("sequential steps", 5000)
		r.Need("reads that needed a failing part", 500)
		r.Need("reads that did not need the failing part", 500)
		r.Need("sequential reads that failed", 200)
		r.Need("seeks to positions outside", 500)
		r.Need("closes with a failing part", 100)
		r.Need("objects with an empty part at the end", 20)
		r.Assume("slices lie within their object")
	})
}

func one(r *mon.Run, i int) {
	rng := r.Rng("case", i)
	var leaves []*leaf
	t := gen(rng, 1+rng.Intn(3), &leaves)
	label := fmt.Sprintf("case %d: %s", i, mon.Trunc(t.desc, 300))
	defer r.Begin("%s", label)()
	size := len(t.data)
	if t.obj.Size() != int64(size) {
		r.Violate("size", "%s: size %d, want %d", label, t.obj.Size(), size)
		return
	}
	if n := len(t.leafs); n > 1 && t.leafs[n-1].F.Len == 0 {
		r.Count("objects with an empty part at the end", 1)
	}
	want := &mon.VFile{Data: t.data}
	pos := func(rng *rand.Rand) int {
		if size > 0 && rng.Intn(2) == 0 {
			// near a boundary between leaves
			p := rng.Intn(size)
			for p > 0 && t.owner[p] == t.owner[p-1] && rng.Intn(200) > 0 {
				p--
			}
			p += rng.Intn(3) - 1
			if p < 0 {
				p = 0
			}
			return p
		}
		return rng.Intn(size + 3)
	}
	length := func(rng *rand.Rand) int {
		switch rng.Intn(4) {
		case 0:
			return 1 + rng.Intn(3)
		case 1:
			return size + rng.Intn(5) + 1
		}
		return 1 + rng.Intn(size+2)
	}
	// concurrent positioned reads
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed))
			for k := 0; k < 15; k++ {
				off, n := pos(rng), length(rng)
				r.Eval()
				r.Count("positioned reads", 1)
				r.Distinct("main", fmt.Sprintf("%s %d %d", t.desc, off, off+n))
				if d := mon.CheckReadAt(t.obj, want, int64(size), int64(off), n); d != "" {
					r.Violate("read", "%s: %s", label, d)
					return
				}
			}
		}()
	}
	wg.Wait()
	// a history of reads and seeks
	at := 0
	for k := 0; k < 25 && !r.Failed(); k++ {
		r.Eval()
		r.Count("sequential steps", 1)
		if rng.Intn(3) == 0 {
			to := rng.Intn(size + 1)
			var got int64
			var err error
			how := rng.Intn(3)
			outside := rng.Intn(4) == 0
			if outside {
				to = -1 - rng.Intn(size+3)
				if rng.Intn(3) == 0 {
					to = size + 1 + rng.Intn(size+3)
				}
			}
			switch how {
			case 0:
				got, err = t.obj.Seek(int64(to), io.SeekStart)
			case 1:
				got, err = t.obj.Seek(int64(to-at), io.SeekCurrent)
			case 2:
				got, err = t.obj.Seek(int64(to-size), io.SeekEnd)
			}
			if outside {
				// refused, brought back into the object or, after the
				// end, taken: never a position before the beginning
				r.Count("seeks to positions outside", 1)
				if err != nil {
					continue
				}
				if got < 0 || got > int64(to) && got > 0 {
					r.Violate("seek", "%s: seek kind %d from %d to %d of %d gave %d", label, how, at, to, size, got)
				}
				at = int(got)
				continue
			}
			if err != nil || got != int64(to) {
				r.Violate("seek", "%s: seek kind %d from %d to %d of %d gave %d, %v", label, how, at, to, size, got, err)
			}
			at = to
			continue
		}
		n := length(rng)
		p := make([]byte, n)
		if rng.Intn(8) == 0 {
			off := -1 - rng.Intn(size+3)
			if got, err := t.obj.ReadAt(p, int64(off)); err == nil {
				r.Violate("read", "%s: ReadAt(%d, %d) gave %d without an error", label, n, off, got)
			}
			r.Count("reads before the beginning", 1)
		}
		got, err := t.obj.Read(p)
		if at >= size {
			if got != 0 || err != io.EOF {
				r.Violate("read", "%s: Read at the end gave %d, %v", label, got, err)
			}
			continue
		}
		if got < 0 || got > n || at+got > size {
			r.Violate("read", "%s: Read(%d) at %d of %d gave %d", label, n, at, size, got)
			break
		}
		if d := mon.Diff(p[:got], t.data[at:at+got]); d != "" {
			r.Violate("read", "%s: Read(%d) at %d: %s", label, n, at, d)
		}
		if (err != nil && err != io.EOF) || (err == io.EOF && at+got < size) || (got == 0 && err == nil) {
			r.Violate("read", "%s: Read(%d) at %d of %d gave %d, %v", label, n, at, size, got, err)
		}
		at += got
	}
	// a failing part
	if len(leaves) == 0 || r.Failed() {
		return
	}
	for k := 0; k < 4; k++ {
		l := leaves[rng.Intn(len(leaves))]
		mode := int32(1 + rng.Intn(3))
		if mode == 3 && (t.slice || !t.multi) {
			mode = 1
		}
		atomic.StoreInt32(&l.mode, mode)
		atomic.StoreInt32(&l.n, int32(rng.Intn(50)))
		for j := 0; j < 8; j++ {
			off, n := pos(rng), length(rng)
			end := off + n
			if end > size {
				end = size
			}
			needed := false
			for b := off; b < end; b++ {
				if t.owner[b] == l.id {
					needed = true
				}
			}
			if off >= size {
				continue
			}
			if !needed {
				r.Eval()
				r.Count("reads that did not need the failing part", 1)
				if d := mon.CheckReadAt(t.obj, want, int64(size), int64(off), n); d != "" {
					r.Violate("fault", "%s, leaf %d fails but is not needed: %s", label, l.id, d)
				}
				continue
			}
			p := make([]byte, n)
			got, err := t.obj.ReadAt(p, int64(off))
			r.Eval()
			r.Count("reads that needed a failing part", 1)
			switch {
			case err == nil || err == io.EOF:
				r.Violate("fault", "%s, leaf %d fails (kind %d) and is needed: ReadAt(%d, %d) of %d gave %d, %v", label, l.id, mode, n, off, size, got, err)
			case got < 0 || got > end-off:
				r.Violate("fault", "%s, leaf %d fails: ReadAt(%d, %d) of %d gave %d, %v", label, l.id, n, off, size, got, err)
			default:
				if d := mon.Diff(p[:got], t.data[off:off+got]); d != "" {
					r.Violate("fault", "%s, leaf %d fails (kind %d): the %d bytes reported are not the object's: %s", label, l.id, mode, got, d)
				}
			}
		}
		// a sequential read that fails moves on by the bytes it gave
		if off := pos(rng); off < size {
			t.obj.Seek(int64(off), io.SeekStart)
			p := make([]byte, length(rng))
			got, err := t.obj.Read(p)
			atomic.StoreInt32(&l.mode, 0)
			if got < 0 || got > len(p) || off+got > size {
				r.Violate("fault", "%s, leaf %d fails: Read(%d) at %d of %d gave %d, %v", label, l.id, len(p), off, size, got, err)
				break
			}
			if err != nil && err != io.EOF {
				r.Count("sequential reads that failed", 1)
				if d := mon.Diff(p[:got], t.data[off:off+got]); d != "" {
					r.Violate("fault", "%s, leaf %d fails: the %d bytes of a sequential read are not the object's: %s", label, l.id, got, d)
				}
				again, _ := t.obj.Read(p)
				r.Eval()
				if off+got < size && again == 0 {
					r.Violate("fault", "%s: a sequential read after a failed one at %d (%d bytes given) gives nothing", label, off, got)
				} else if again > 0 && (off+got+again > size || mon.Diff(p[:again], t.data[off+got:off+got+again]) != "") {
					r.Violate("fault", "%s: a sequential read after a failed one at %d (%d bytes given) does not go on there", label, off, got)
				}
			}
		}
		atomic.StoreInt32(&l.mode, 0)
	}
	// closing reaches every part
	var hold error
	if rng.Intn(2) == 0 && len(t.leafs) > 0 {
		hold = fmt.Errorf("close of case %d", i)
		t.leafs[rng.Intn(len(t.leafs))].hold = hold
		r.Count("closes with a failing part", 1)
	}
	if err := t.obj.Close(); (err == nil) != (hold == nil) {
		r.Violate("close", "%s: closing gave %v, a part reported %v", label, err, hold)
	}
	for _, l := range t.leafs {
		if l.Closed() == 0 {
			r.Violate("close", "%s: leaf %d of %d bytes was not closed with the object made of it", label, l.id, l.F.Len)
			break
		}
	}
	if i < 5 {
		r.Sample("%s (%d bytes, %d leaves)", label, size, len(leaves))
	}
}
