// C31: damaged images and discs give errors, never crashes or hangs.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"runtime/metrics"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/vdisc"

	"vdiscverif/mon"
)

// budget is the number of reads one operation on a small image may make. A
// healthy walk of the largest image makes fewer than one in a hundred of it.
const budget = 4000000

var errBudget = errors.New("the harness's read budget is used up")

// image is a damaged image that counts its reads.
type image struct {
	hdr   []byte
	size  int64
	reads int64
}

func (m *image) ReadAt(p []byte, off int64) (int, error) {
	if atomic.AddInt64(&m.reads, 1) > budget {
		return 0, errBudget
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := 0
	if off < int64(len(m.hdr)) {
		n = copy(p, m.hdr[off:])
	}
	for n < len(p) && off+int64(n) < m.size {
		// contents of files
		e := len(p)
		if int64(e-n) > m.size-off-int64(n) {
			e = n + int(m.size-off-int64(n))
		}
		if (off+int64(n))>>20%2 == 0 {
			for i := n; i < e; i++ {
				p[i] = 0
			}
		} else {
			mon.Fill(5, off+int64(n), p[n:e])
		}
		n = e
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// sample is a good image and disc.
type sample struct {
	name  string
	hdr   []byte
	disc  []byte // decompressed
	gz    []byte
	size  int64
	paths []string
	lbas  []uint32
	url   string
	tags  []int // offsets of system use entries
	both  []int // offsets of both-endian 32-bit fields
	dirs  []uint32
	walk  int64 // reads of a healthy walk
}

func makeSample(r *mon.Run, vt *mon.VT, k int) *sample {
	rng := r.Rng("sample", k)
	s := &sample{name: fmt.Sprintf("sample %d", k)}
	var leaves []*mon.Leaf
	model := mon.NewModel(func(string) bool { return true })
	n := []int{0, 3, 12, 40, 25}[k%5]
	add := func(l *mon.Leaf) {
		if model.Add(l) {
			leaves = append(leaves, l)
			s.paths = append(s.paths, mon.Clean(l.Path))
		}
	}
	for i, p := range mon.GenPaths(rng, n, true) {
		if i%4 == 3 {
			add(&mon.Leaf{Path: p, Link: true, Target: mon.Target(rng, true, s.paths)})
			continue
		}
		size := mon.Size(rng, 9000)
		if k == 4 && i == 2 {
			size = 5 << 30
		}
		add(&mon.Leaf{Path: p, URL: fmt.Sprintf("vt://s/%d/x", i%7), Size: size})
	}
	if k%5 >= 2 {
		add(&mon.Leaf{Path: "/long", Link: true, Target: strings.Repeat("some/where/", 400) + "x"})
		add(&mon.Leaf{Path: "/" + strings.Repeat("n", 1000), URL: "vt://s/1/x", Size: 100})
		add(&mon.Leaf{Path: "/a/b/c/d/e/f/g/h/i/j", URL: "vt://s/1/x", Size: 100})
	}
	url, err := mon.Burn(fmt.Sprintf("vt://t/%d.vdsc", k), true, leaves)
	if err != nil {
		r.Violate("burn", "%v", err)
		return nil
	}
	s.url = url
	s.hdr = vt.Lookup(url + ".isohdr").Data
	s.gz = vt.Lookup(url).Data
	z, err := gzip.NewReader(bytes.NewReader(s.gz))
	if err != nil {
		s.disc = s.gz
	} else if s.disc, err = ioutil.ReadAll(z); err != nil {
		r.Violate("disc", "%v", err)
		return nil
	}
	iso := mon.DecodeISO(s.hdr)
	s.size = int64(iso.VolSize) * 2048
	for _, nd := range iso.All() {
		if nd.Dir {
			s.dirs = append(s.dirs, nd.Start)
		} else {
			s.lbas = append(s.lbas, nd.Start)
		}
	}
	for o := 16 * 2048; o+8 <= len(s.hdr); o++ {
		b := s.hdr[o:]
		if len(b) > 4 && b[3] == 1 && b[2] >= 4 {
			switch string(b[:2]) {
			case "SP", "CE", "ER", "NM", "PX", "SL", "TF", "ST":
				s.tags = append(s.tags, o)
			}
		}
		le, be := binary.LittleEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])
		if le == be && le != 0 && le != le<<8|le>>24 {
			s.both = append(s.both, o)
		}
	}
	m := &image{hdr: s.hdr, size: s.size}
	iso9660.NewWalker(m).Walk("/", func(string, os.FileInfo, error) error { return nil })
	s.walk = m.reads
	return s
}

func put32(b []byte, o int, v uint32) {
	if o+8 <= len(b) {
		binary.LittleEndian.PutUint32(b[o:], v)
		binary.BigEndian.PutUint32(b[o+4:], v)
	}
}

func (s *sample) value(rng *rand.Rand) uint32 {
	switch rng.Intn(10) {
	case 0:
		return 0
	case 1:
		return 1 << 31
	case 2:
		return 0xffffffff
	case 3:
		return uint32(rng.Intn(len(s.hdr)))
	case 4:
		return s.dirs[rng.Intn(len(s.dirs))]
	case 5:
		return uint32(len(s.hdr) / 2048)
	case 6:
		return uint32(16 + rng.Intn(4))
	case 7:
		return uint32(rng.Intn(3000))
	case 8:
		return uint32(2048 * rng.Intn(100))
	}
	return rng.Uint32()
}

// damage changes the header; it names the kinds of changes.
func (s *sample) damage(rng *rand.Rand, hdr []byte) ([]byte, string) {
	var what []string
	sector := func() int { return 16 + rng.Intn(len(hdr)/2048-16) } // a complete one
	for n := 1 + rng.Intn(3); n > 0; n-- {
		if len(hdr) < 17*2048 {
			break
		}
		switch k := rng.Intn(14); k {
		case 0, 1:
			o := 16*2048 + rng.Intn(len(hdr)-16*2048)
			hdr[o] ^= 1 << uint(rng.Intn(8))
			what = append(what, "bit")
		case 2:
			// within the records of a directory
			d := s.dirs[rng.Intn(len(s.dirs))]
			o := int(d)*2048 + rng.Intn(400)
			if o < len(hdr) {
				hdr[o] = byte([]int{0, 1, 2, 3, 33, 34, 127, 128, 254, 255, rng.Intn(256)}[rng.Intn(11)])
			}
			what = append(what, "record byte")
		case 3, 4, 5:
			if len(s.both) > 0 {
				put32(hdr, s.both[rng.Intn(len(s.both))], s.value(rng))
				what = append(what, "number")
			}
		case 6:
			// another kind of entry, or another length
			if len(s.tags) > 0 {
				o := s.tags[rng.Intn(len(s.tags))]
				if o+6 >= len(hdr) {
					break
				}
				if rng.Intn(2) == 0 {
					copy(hdr[o:], []string{"SP", "CE", "ER", "NM", "PX", "SL", "TF", "ST", "XX"}[rng.Intn(9)])
					what = append(what, "entry kind")
				} else {
					hdr[o+2] = byte([]int{0, 1, 2, 3, 4, 5, 28, 44, 255, rng.Intn(256)}[rng.Intn(10)])
					what = append(what, "entry length")
				}
			}
		case 7:
			// flags behind the version
			if len(s.tags) > 0 {
				o := s.tags[rng.Intn(len(s.tags))]
				if o+6 < len(hdr) {
					what = append(what, string(s.hdr[o:o+2])+" flags")
					hdr[o+4] = byte(rng.Intn(256))
				}
			}
		case 8:
			// a continuation that leads back
			if len(s.tags) > 0 {
				o := s.tags[rng.Intn(len(s.tags))]
				if o+28 <= len(hdr) {
					copy(hdr[o:], "CE\x1c\x01")
					to := o
					if rng.Intn(3) == 0 {
						to = s.tags[rng.Intn(len(s.tags))]
					}
					put32(hdr, o+4, uint32(to/2048))
					put32(hdr, o+12, uint32(to%2048))
					put32(hdr, o+20, uint32([]int{28, 56, 2048, 1 << 30, 0}[rng.Intn(5)]))
				}
				what = append(what, "continuation loop")
			}
		case 9:
			// one sector over another
			a, b := sector(), sector()
			copy(hdr[a*2048:(a+1)*2048], hdr[b*2048:])
			what = append(what, "sector copied")
		case 10:
			a := sector() * 2048
			v := byte([]int{0, 1, 255}[rng.Intn(3)])
			l := 1 + rng.Intn(2048)
			for i := a; i < a+l && i < len(hdr); i++ {
				hdr[i] = v
			}
			what = append(what, "wiped")
		case 11:
			a := sector() * 2048
			rng.Read(hdr[a : a+2048])
			what = append(what, "noise")
		case 12:
			if rng.Intn(3) == 0 {
				hdr = hdr[:16*2048+rng.Intn(len(hdr)-16*2048)]
				what = append(what, "truncated")
			}
		case 13:
			// a file becomes a directory or the other way round
			if len(s.both) > 0 {
				o := s.both[rng.Intn(len(s.both))]
				if o+23+8 < len(hdr) {
					hdr[o+23] ^= 2
					what = append(what, "flags of a record")
				}
			}
		}
	}
	return hdr, strings.Join(what, "+")
}

// allowance is what one operation may allocate besides 64 KiB for each read.
const allowance = 32 << 20

// alone says that operations run one after another, so that what is allocated
// meanwhile is theirs.
var alone bool

func allocated() int64 {
	m := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(m)
	return int64(m[0].Value.Uint64())
}

// op runs one operation under the monitors.
func op(r *mon.Run, what func() string, reads *int64, f func()) bool {
	atomic.StoreInt64(reads, 0)
	r.Eval()
	if alone {
		before := allocated()
		defer func() {
			n, m := allocated()-before, atomic.LoadInt64(reads)
			r.Max("bytes allocated by one operation beyond 64 KiB for each read", n-m<<16)
			r.Count("operations whose allocations were measured", 1)
			if n > allowance+m<<16 {
				r.Violate("allocation", "%s: %d bytes were allocated in an operation that made %d reads", what(), n, m)
			}
		}()
	}
	if msg, bad := mon.Catch(f); bad {
		r.Violate("crash", "%s: %s", what(), msg)
		return false
	}
	if n := atomic.LoadInt64(reads); n > budget {
		r.Violate("endless", "%s: more than %d reads", what(), budget)
		return false
	}
	return true
}

func damagedImage(r *mon.Run, samples []*sample, i int) {
	rng := r.Rng("image", i)
	s := samples[rng.Intn(len(samples))]
	hdr, kinds := s.damage(rng, append([]byte{}, s.hdr...))
	m := &image{hdr: hdr, size: s.size}
	if rng.Intn(3) == 0 {
		m.size = int64(len(hdr))
	}
	end := r.Begin("image %d (%s: %s)", i, s.name, kinds)
	defer end()
	var cur string
	what := func() string { return fmt.Sprintf("image %d (%s: %s): %s", i, s.name, kinds, cur) }
	outcome := ""
	do := func(name string, f func() error) bool {
		cur = name
		return op(r, what, &m.reads, func() {
			if f() != nil {
				if name == "walk" {
					r.Count("damaged images with a failing walk", 1)
				}
				outcome += "e"
			} else {
				outcome += "."
			}
		})
	}
	exercise(r, rng, m, iso9660.NewWalker(m), s, do)
	r.Count("damaged images", 1)
	r.Distinct("main", s.name+kinds+outcome)
	if i < 4 {
		r.Sample("%s: %s: outcomes %s", what(), kinds, outcome)
	}
}

func exercise(r *mon.Run, rng *rand.Rand, m io.ReaderAt, w *iso9660.Walker, s *sample, do func(string, func() error) bool) bool {
	names := append([]string{"/", "/.", "/..", "/no"}, s.paths...)
	if !do("walk", func() error {
		n := 0
		return w.Walk("/", func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			n++
			if fi != nil && len(names) < 60 && rng.Intn(3) == 0 {
				names = append(names, p+"/"+fi.Name())
			}
			if fi != nil {
				_ = fi.Mode().String()
				_ = fi.ModTime().String()
			}
			return nil
		})
	}) {
		return false
	}
	for q := 0; q < 8; q++ {
		p := names[rng.Intn(len(names))]
		if !do("listing "+mon.Trunc(p, 60), func() error { _, err := w.ReadDir(p); return err }) ||
			!do("lstat "+mon.Trunc(p, 60), func() error { _, err := w.Lstat(p); return err }) ||
			!do("stat "+mon.Trunc(p, 60), func() error { _, err := w.Stat(p); return err }) ||
			!do("reading "+mon.Trunc(p, 60), func() error {
				f, err := w.Open(p)
				if err != nil {
					return err
				}
				defer f.Close()
				b := make([]byte, 5000)
				for k := 0; k < 3; k++ {
					if _, err := f.Read(b); err != nil {
						break
					}
				}
				if _, err := f.Seek(int64(rng.Intn(10000))-100, rng.Intn(3)); err != nil {
					return err
				}
				_, err = f.ReadAt(b, rng.Int63n(1<<33))
				if err == io.EOF {
					err = nil
				}
				return err
			}) {
			return false
		}
	}
	return do("decoding the volume descriptor", func() error {
		var pvd iso9660.PrimaryVolumeDescriptor
		return iso9660.DecodePrimaryVolumeDescriptor(io.NewSectionReader(m, 16*2048, 2048), &pvd)
	}) && do("decoding a directory", func() error {
		var d iso9660.Directory
		return iso9660.DecodeDirectory(io.NewSectionReader(m, int64(s.dirs[rng.Intn(len(s.dirs))])*2048, int64(2048*(1+rng.Intn(4)))), &d)
	}) && do("iterating a directory", func() error {
		size, off := int64(rng.Intn(9000)), int64(rng.Intn(600))
		if rng.Intn(3) == 0 {
			// several records together can make a directory of more than 4 GiB
			size, off = 6<<30, rng.Int63n(s.size+2048)
		}
		it := iso9660.NewReadDirIterator(m, iso9660.LogicalBlockAddress(s.dirs[rng.Intn(len(s.dirs))]), size, off)
		for it.Next() {
			it.FileInfoAndLen()
		}
		return it.Err()
	})
}

// damageDisc changes the disc file itself.
func (s *sample) damageDisc(rng *rand.Rand) ([]byte, string) {
	if rng.Intn(4) == 0 {
		b := append([]byte{}, s.gz...)
		switch rng.Intn(3) {
		case 0:
			return b[:rng.Intn(len(b))], "compressed, truncated"
		case 1:
			b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
			return b, "compressed, bit"
		}
		return append(b, b[:rng.Intn(len(b))]...), "compressed, extended"
	}
	b := append([]byte{}, s.disc...)
	var what []string
	words := len(b) / 8
	word := func() int {
		if rng.Intn(2) == 0 && words > 8 {
			return rng.Intn(8)
		}
		return rng.Intn(words)
	}
	for n := 1 + rng.Intn(3); n > 0 && len(b) >= 16; n-- {
		switch rng.Intn(10) {
		case 0, 1:
			o := word()*8 + rng.Intn(8)
			if o < len(b) {
				b[o] ^= 1 << uint(rng.Intn(8))
			}
			what = append(what, "bit")
		case 2:
			o := word()*8 + rng.Intn(8)
			if o < len(b) {
				b[o] = byte([]int{0, 1, 2, 7, 127, 128, 255}[rng.Intn(7)])
			}
			what = append(what, "byte")
		case 3:
			o := word()*8 + 4*rng.Intn(2)
			if o+4 <= len(b) {
				binary.LittleEndian.PutUint32(b[o:], []uint32{0, 1, 2, 0xffffffff, 1 << 31, uint32(rng.Intn(64)), rng.Uint32()}[rng.Intn(7)])
			}
			what = append(what, "number")
		case 4:
			x, y := word()*8, word()*8
			if x+8 <= len(b) && y+8 <= len(b) {
				copy(b[x:x+8], b[y:y+8])
			}
			what = append(what, "word copied")
		case 5:
			o := word() * 8
			for i := o; i < o+8*rng.Intn(8) && i < len(b); i++ {
				b[i] = 0
			}
			what = append(what, "wiped")
		case 6:
			if rng.Intn(3) == 0 {
				b = b[:rng.Intn(len(b))]
				words = len(b)/8 + 1
				what = append(what, "truncated")
			}
		case 7:
			// a list or structure pointer changes its size
			o := word()*8 + 4
			if o+4 <= len(b) {
				v := binary.LittleEndian.Uint32(b[o:])
				v += uint32(rng.Intn(65)) - 32
				binary.LittleEndian.PutUint32(b[o:], v)
			}
			what = append(what, "pointer")
		case 8:
			// the same change to words that look alike, such as extents
			x := word() * 8
			if x+8 > len(b) {
				break
			}
			o, v := rng.Intn(8), byte([]int{0, 1, 2, 255, rng.Intn(256)}[rng.Intn(5)])
			for y := 0; y+8 <= len(b); y += 8 {
				if b[y+7] == b[x+7] && b[y+6] == b[x+6] && b[y+3] == b[x+3] && rng.Intn(4) != 0 {
					b[y+o] = v
				}
			}
			what = append(what, "words alike")
		case 9:
			if len(b) > 40 {
				a := rng.Intn(len(b) - 20)
				rng.Read(b[a : a+rng.Intn(20)])
			}
			what = append(what, "noise")
		}
	}
	return b, "decompressed, " + strings.Join(what, "+")
}

func damagedDisc(r *mon.Run, vt *mon.VT, samples []*sample, i int) {
	rng := r.Rng("disc", i)
	s := samples[rng.Intn(len(samples))]
	b, kinds := s.damageDisc(rng)
	if rng.Intn(2) == 0 && strings.HasPrefix(kinds, "decompressed") {
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(b)
		w.Close()
		b = z.Bytes()
	}
	if i%9 == 0 {
		// nothing like a disc
		b = make([]byte, rng.Intn(200))
		if rng.Intn(2) == 0 {
			rng.Read(b)
		}
		if rng.Intn(3) == 0 {
			copy(b, []byte{0x1f, 0x8b, 8, 0})
		}
		kinds = "no disc at all"
	}
	// beside the good one, so that the header is found
	url := strings.Replace(s.url, ".vdsc", fmt.Sprintf(".%d.vdsc", i), 1)
	vt.Put(url, &mon.VFile{Data: b})
	defer vt.Delete(url)
	end := r.Begin("disc %d (%s: %s)", i, s.name, kinds)
	defer end()
	cur := "loading"
	what := func() string { return fmt.Sprintf("disc %d (%s: %s): %s", i, s.name, kinds, cur) }
	ctr := &counter{}
	counters.Store(url, ctr)
	defer counters.Delete(url)
	outcome := ""
	do := func(name string, f func() error) bool {
		cur = name
		return op(r, what, &ctr.n, func() {
			if f() != nil {
				outcome += "e"
			} else {
				outcome += "."
			}
		})
	}
	mode := mon.Modes("", 4096, 16, 1, 1)[rng.Intn(2)]
	var v vdisc.VDisc
	if !do("loading", func() (err error) { v, err = vdisc.Load(url, mode.Cache); return }) {
		return
	}
	r.Count("damaged discs", 1)
	if v != nil && outcome == "." {
		r.Count("damaged discs that load", 1)
		ok := do("size", func() error { v.Image().Size(); v.FsType(); v.BlockSize(); return nil })
		for q := 0; ok && q < 6; q++ {
			off := rng.Int63n(s.size + 5000)
			if q == 0 {
				off = 16 * 2048
			}
			ok = do("reading the image", func() error { _, err := v.Image().ReadAt(make([]byte, rng.Intn(9000)), off); return err })
		}
		lbas := append([]uint32{0, 1, 0xffffffff}, s.lbas...)
		for q := 0; ok && q < 8; q++ {
			lba := iso9660.LogicalBlockAddress(lbas[rng.Intn(len(lbas))])
			ok = do("extent address", func() error { _, err := v.ExtentURL(lba); return err }) &&
				do("extent", func() error {
					o, err := v.OpenExtent(lba)
					if err != nil {
						return err
					}
					defer o.Close()
					o.URL()
					o.Size()
					o.Seek(int64(rng.Intn(100)), rng.Intn(3))
					_, err = o.Read(make([]byte, 1+rng.Intn(3000)))
					if err == nil {
						_, err = o.ReadAt(make([]byte, 100), int64(rng.Intn(3000)))
					}
					return err
				})
		}
		if ok && v.Image().Size() < 1<<40 {
			ok = exercise(r, rng, &limited{v.Image(), &ctr.n}, iso9660.NewWalker(&limited{v.Image(), &ctr.n}), s, do)
		}
		if ok {
			do("closing", func() error { return v.Close() })
		}
	}
	r.Distinct("main", s.name+kinds+outcome)
	if i < 4 {
		r.Sample("%s: outcomes %s", what(), outcome)
	}
}

type counter struct{ n int64 }

var counters sync.Map

// limited counts reads of an image.
type limited struct {
	r io.ReaderAt
	n *int64
}

func (l *limited) ReadAt(p []byte, off int64) (int, error) {
	if atomic.AddInt64(l.n, 1) > budget {
		return 0, errBudget
	}
	return l.r.ReadAt(p, off)
}

func main() {
	mon.Main("C31", "damaged images and discs, told apart by the original, the kinds of damage and which operations failed", func(r *mon.Run) {
		mon.MemLimit = 6 << 30
		log.SetOutput(ioutil.Discard) // damaged times are logged
		vt := mon.NewVT("vt")
		for k := 0; k < 7; k++ {
			vt.Put(fmt.Sprintf("vt://s/%d/x", k), &mon.VFile{Gen: true, ID: uint64(k), Len: 6 << 30})
		}
		var samples []*sample
		for k := 0; k < 10; k++ {
			if s := makeSample(r, vt, k); s != nil {
				samples = append(samples, s)
				r.Max("reads of a healthy walk", s.walk)
				if s.walk > budget/100 {
					r.Inconclusive("a healthy walk makes %d reads", s.walk)
				}
			}
		}
		if r.Failed() {
			return
		}
		r.Assume("an operation on a small image that makes more than 4,000,000 reads counts as one without end")
		r.Parallel(r.N(20000, 400000), 0, func(i int) { damagedImage(r, samples, i) })
		r.Parallel(r.N(8000, 120000), 0, func(i int) { damagedDisc(r, vt, samples, i) })
		alone = true
		for i := 0; i < r.N(1200, 40000) && !r.Enough(); i++ {
			damagedImage(r, samples, 1<<24+i)
			damagedDisc(r, vt, samples, 1<<24+i)
		}
		r.Need("operations whose allocations were measured", 10000)
		r.Need("damaged images", 10000)
		r.Need("damaged images with a failing walk", 1000)
		r.Need("damaged discs", 5000)
		r.Need("damaged discs that load", 500)
	})
}
