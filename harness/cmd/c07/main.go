// C07: directory iteration is resumable; read faults are reported.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/NVIDIA/vdisc/pkg/iso9660"

	"vdiscverif/mon"
)

var vt *mon.VT

func main() {
	mon.Main("C07", "distinct (operation, fault kind, fault position) executions with a fault that was hit, plus distinct (directory length, resume position) pairs", func(r *mon.Run) {
		vt = mon.NewVT("vt")
		vt.Put("vt://src/a", &mon.VFile{Gen: true, ID: 7, Len: 1 << 40})
		r.Parallel(r.N(60, 1200), 0, func(i int) { one(r, i) })
		r.Need("resumptions", 3000)
		r.Need("faults hit", 3000)
		r.Need("faulted operations reported", 2500)
		r.Need("walks stopped by the caller", 500)
		r.Need("distant directories", 20)
		r.Assume("a fault is a read that returns an error other than end of file, possibly after some bytes")
	})
}

// faulty injects a failure into reads of an image.
type faulty struct {
	img   []byte
	reads int64 // reads so far
	at    int64 // the read that fails, -1 none
	lo    int64 // or: reads that touch [lo,hi) fail
	hi    int64
	once  bool
	part  bool // deliver some bytes before failing
	hits  int64
	shift int64 // the image is also visible this far behind itself
}

// fault is a failure that cannot be taken for the answer "no such file".
func fault(n int64) error {
	if e := mon.Fault(int(n)); !errors.Is(e, os.ErrNotExist) {
		return e
	}
	return mon.ErrInjected
}

func (f *faulty) ReadAt(p []byte, off int64) (int, error) {
	n := atomic.AddInt64(&f.reads, 1) - 1
	hit := n == f.at
	if f.hi > f.lo && off < f.hi && off+int64(len(p)) > f.lo && !(f.once && atomic.LoadInt64(&f.hits) > 0) {
		hit = true
	}
	if f.shift > 0 && off >= f.shift {
		off -= f.shift
	}
	if hit {
		atomic.AddInt64(&f.hits, 1)
		if f.part && len(p) > 1 {
			m := copy(p[:len(p)/2], f.img[off:])
			return m, fault(n)
		}
		return 0, fault(n)
	}
	if off >= int64(len(f.img)) {
		return 0, io.EOF
	}
	m := copy(p, f.img[off:])
	if m < len(p) {
		return m, io.EOF
	}
	return m, nil
}

func (f *faulty) reset() {
	*f = faulty{img: f.img, at: -1}
}

type item struct {
	fi  *iso9660.FileInfo
	len int64
}

func show(fi *iso9660.FileInfo) string {
	return fmt.Sprintf("%s/%d/%d/%v/%d/%d/%s", fi.Name(), fi.Ino(), fi.Size(), fi.Mode(), fi.Nlink(), fi.Extent(), fi.Target())
}

// list iterates from a position; at most max entries.
func list(iso io.ReaderAt, start iso9660.LogicalBlockAddress, size, off int64, max int) ([]item, error) {
	it := iso9660.NewReadDirIterator(iso, start, size, off)
	var out []item
	for len(out) < max && it.Next() {
		fi, n := it.FileInfoAndLen()
		out = append(out, item{fi, n})
		if len(out) > 200000 {
			return out, fmt.Errorf("endless iteration")
		}
	}
	if len(out) == max {
		return out, nil
	}
	return out, it.Err()
}

func same(a, b []item, lens bool) string {
	for k := range a {
		if k >= len(b) {
			return fmt.Sprintf("entry %d %s is missing", k, mon.Trunc(show(a[k].fi), 100))
		}
		if show(a[k].fi) != show(b[k].fi) {
			return fmt.Sprintf("entry %d is %s, want %s", k, mon.Trunc(show(b[k].fi), 100), mon.Trunc(show(a[k].fi), 100))
		}
		if lens && a[k].len != b[k].len {
			return fmt.Sprintf("entry %d has length %d, want %d", k, b[k].len, a[k].len)
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("%d entries, want %d", len(b), len(a))
	}
	return ""
}

func one(r *mon.Run, i int) {
	rng := r.Rng("disc", i)
	ext := rng.Intn(2) == 0
	n := 1 + rng.Intn(30)
	if i%6 == 5 {
		n = 100 + rng.Intn(300)
	}
	ps := mon.GenPaths(rng, n, ext)
	m := mon.NewModel(func(string) bool { return true })
	var leaves []*mon.Leaf
	for k, p := range ps {
		l := &mon.Leaf{Path: p, URL: "vt://src/a", Size: int64(k)}
		switch rng.Intn(6) {
		case 0, 1:
			l = &mon.Leaf{Path: p, Link: true, Target: mon.Target(rng, ext, ps)}
		case 2:
			l.Size = 4294965248*int64(1+rng.Intn(6)) + 1
		}
		m.Add(l)
		leaves = append(leaves, l)
	}
	url, err := mon.Burn(fmt.Sprintf("vt://t/%d.vdsc", i), ext, leaves)
	if err != nil {
		r.Violate("burn", "disc %d: %v", i, err)
		return
	}
	hdr := vt.Lookup(url + ".isohdr").Data
	vt.Delete(url)
	vt.Delete(url + ".isohdr")
	iso := mon.DecodeISO(hdr)
	for _, nd := range iso.Dirs {
		resume(r, i, rng, hdr, m, nd)
		if r.Enough() {
			return
		}
	}
	stops(r, i, rng, hdr, iso)
	faults(r, i, rng, hdr, m, iso)
	if i < 3 {
		r.Sample("disc %d: %d directories, %d entries, header %d bytes", i, len(iso.Dirs), len(m.All), len(hdr))
	}
}

func resume(r *mon.Run, i int, rng *rand.Rand, hdr []byte, m *mon.Model, nd *mon.IsoNode) {
	rd := bytes.NewReader(hdr)
	start, size := iso9660.LogicalBlockAddress(nd.Start), nd.Size
	full, err := list(rd, start, size, 0, 1<<30)
	r.Eval()
	if err != nil {
		r.Violate("list", "disc %d: listing %q failed: %v", i, nd.Path, err)
		return
	}
	e := m.All[nd.Path]
	names := map[string]bool{}
	for k, it := range full {
		if k > 1 {
			names[it.fi.Name()] = true
		}
	}
	if len(full) != len(e.Children)+2 || len(names) != len(e.Children) || full[0].fi.Name() != "." || full[1].fi.Name() != ".." {
		r.Violate("list", "disc %d: listing %q gives %d entries, want %d and the dots", i, nd.Path, len(full), len(e.Children))
		return
	}
	pos := []int64{0}
	for _, it := range full {
		if it.len <= 0 {
			r.Violate("list", "disc %d: listing %q: entry %q has length %d", i, nd.Path, it.fi.Name(), it.len)
			return
		}
		pos = append(pos, pos[len(pos)-1]+it.len)
	}
	if pos[len(pos)-1] > size {
		r.Violate("list", "disc %d: listing %q: position %d after the last entry of %d bytes", i, nd.Path, pos[len(pos)-1], size)
		return
	}
	for k := range pos {
		if len(pos) > 60 && rng.Intn(len(pos)) > 60 {
			continue
		}
		got, err := list(rd, start, size, pos[k], 1<<30)
		r.Eval()
		r.Count("resumptions", 1)
		r.Distinct("main", fmt.Sprintf("resume %d/%d %d", k, len(full), pos[k]%2048))
		if err != nil {
			r.Violate("resume", "disc %d: resuming %q at %d (entry %d) failed: %v", i, nd.Path, pos[k], k, err)
			return
		}
		if d := same(full[k:], got, true); d != "" {
			r.Violate("resume", "disc %d: resuming %q at %d (entry %d): %s", i, nd.Path, pos[k], k, d)
			return
		}
	}
	// pieces of random sizes, each with a fresh iterator
	for t := 0; t < 3; t++ {
		var got []item
		p := int64(0)
		for {
			x, err := list(rd, start, size, p, 1+rng.Intn(4))
			if err != nil {
				r.Violate("pieces", "disc %d: piece of %q at %d: %v", i, nd.Path, p, err)
				return
			}
			if len(x) == 0 || len(got) > len(full)+10 {
				break
			}
			got = append(got, x...)
			for _, it := range x {
				p += it.len
			}
		}
		r.Eval()
		r.Count("resumptions", 1)
		if d := same(full, got, true); d != "" {
			r.Violate("pieces", "disc %d: listing %q in pieces: %s", i, nd.Path, d)
			return
		}
	}
	// a directory far into a large image
	if rng.Intn(3) == 0 {
		blocks := int64(1<<21) + int64(rng.Intn(1<<21))
		f := &faulty{img: hdr, at: -1, shift: blocks * 2048}
		got, err := list(f, start+iso9660.LogicalBlockAddress(blocks), size, 0, 1<<30)
		r.Eval()
		r.Count("distant directories", 1)
		if err != nil {
			r.Violate("distant", "disc %d: listing a directory at block %d: %v", i, blocks, err)
		} else if d := same(full, got, true); d != "" {
			r.Violate("distant", "disc %d: listing a directory at block %d: %s", i, blocks, d)
		}
	}
}

type operation struct {
	name string
	path string
	run  func(w *iso9660.Walker, iso io.ReaderAt) (string, error)
}

func names(list []*iso9660.FileInfo, err error) (string, error) {
	var ns []string
	for _, fi := range list {
		ns = append(ns, show(fi))
	}
	return strings.Join(ns, "\n"), err
}

func ops(rng *rand.Rand, m *mon.Model, iso *mon.Iso) []operation {
	ps := m.Paths()
	pick := func(kind byte) string {
		for k := 0; k < 50; k++ {
			p := ps[rng.Intn(len(ps))]
			if m.All[p].Kind == kind {
				return p
			}
		}
		return "/"
	}
	d := pick('d')
	nd := iso.All()[d]
	any := ps[rng.Intn(len(ps))]
	missing := pick('d') + "/missing"
	link := pick('l')
	return []operation{
		{"iterate", d, func(w *iso9660.Walker, img io.ReaderAt) (string, error) {
			l, err := list(img, iso9660.LogicalBlockAddress(nd.Start), nd.Size, 0, 1<<30)
			var s []string
			for _, it := range l {
				s = append(s, show(it.fi))
			}
			return strings.Join(s, "\n"), err
		}},
		{"readdir", d, func(w *iso9660.Walker, img io.ReaderAt) (string, error) { return names(w.ReadDir(d)) }},
		{"open-readdir", d, func(w *iso9660.Walker, img io.ReaderAt) (string, error) {
			f, err := w.Open(d)
			if err != nil {
				return "", err
			}
			return names(f.ReadDir())
		}},
		{"lstat", any, func(w *iso9660.Walker, img io.ReaderAt) (string, error) {
			fi, err := w.Lstat(any)
			if err != nil {
				return "", err
			}
			return show(fi), nil
		}},
		{"lstat missing", missing, func(w *iso9660.Walker, img io.ReaderAt) (string, error) {
			_, err := w.Lstat(missing)
			if err != nil && strings.Contains(err.Error(), "no such file") {
				return "ENOENT", nil
			}
			return "found", err
		}},
		{"stat link", link, func(w *iso9660.Walker, img io.ReaderAt) (string, error) {
			fi, err := w.Stat(link)
			if err != nil {
				for _, s := range []string{"no such file", "not a directory", "too many levels"} {
					if strings.Contains(err.Error(), s) {
						return s, nil
					}
				}
				return "", err
			}
			return show(fi), nil
		}},
		{"walk", "/", func(w *iso9660.Walker, img io.ReaderAt) (string, error) {
			var s []string
			var inner error
			err := w.Walk("/", func(p string, fi os.FileInfo, err error) error {
				if err != nil {
					inner = err
					return nil
				}
				s = append(s, p+" "+show(fi.Sys().(*iso9660.FileInfo)))
				return nil
			})
			if err == nil {
				err = inner
			}
			sort.Strings(s)
			return strings.Join(s, "\n"), err
		}},
	}
}

// stops ends a walk from inside the caller's function, at every entry.
func stops(r *mon.Run, i int, rng *rand.Rand, hdr []byte, iso *mon.Iso) {
	w := iso9660.NewWalker(bytes.NewReader(hdr))
	roots := []string{"/"}
	if len(iso.Dirs) > 1 {
		roots = append(roots, iso.Dirs[rng.Intn(len(iso.Dirs))].Path)
	}
	for _, root := range roots {
		var all []string
		if err := w.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			all = append(all, path.Join(p, fi.Name()))
			return nil
		}); err != nil {
			r.Violate("clean", "disc %d: walk of %q failed: %v", i, root, err)
			return
		}
		budget := r.N(30, 300)
		for k := range all {
			if len(all) > budget && rng.Intn(len(all)) > budget {
				continue
			}
			stop := fmt.Errorf("stop at entry %d", k)
			var got []string
			err := w.Walk(root, func(p string, fi os.FileInfo, err error) error {
				if err != nil {
					return err
				}
				got = append(got, path.Join(p, fi.Name()))
				if len(got) == k+1 {
					return stop
				}
				return nil
			})
			r.Eval()
			if err != stop || len(got) != k+1 || strings.Join(got, "\n") != strings.Join(all[:k+1], "\n") {
				r.Violate("not-stopped", "disc %d: the function given to a walk of %q failed at entry %d of %d, the walk ended with %v after %d entries", i, root, k, len(all), err, len(got))
				return
			}
			r.Count("walks stopped by the caller", 1)
		}
	}
}

func faults(r *mon.Run, i int, rng *rand.Rand, hdr []byte, m *mon.Model, iso *mon.Iso) {
	for _, op := range ops(rng, m, iso) {
		f := &faulty{img: hdr, at: -1}
		want, err := op.run(iso9660.NewWalker(f), f)
		if err != nil {
			r.Violate("clean", "disc %d: %s of %q without a fault failed: %v", i, op.name, op.path, err)
			return
		}
		total := f.reads
		budget := r.N(60, 400)
		try := func(kind string, set func()) bool {
			f.reset()
			set()
			w := iso9660.NewWalker(f)
			end := r.Begin("disc %d %s of %q, fault %s at %d", i, op.name, op.path, kind, f.at)
			got, err := op.run(w, f)
			end()
			r.Eval()
			desc := fmt.Sprintf("disc %d: %s of %q with %s (read %d of %d, range %d-%d)", i, op.name, mon.Trunc(op.path, 100), kind, f.at, total, f.lo, f.hi)
			if f.hits > 0 {
				r.Count("faults hit", 1)
				r.Distinct("main", fmt.Sprintf("%s %s %d %d", op.name, kind, f.at, f.lo))
				if err != nil {
					r.Count("faulted operations reported", 1)
				} else if got != want {
					r.Violate("hidden-fault", "%s reported no error but another answer:\n%s\nwant\n%s", desc, mon.Trunc(got, 2000), mon.Trunc(want, 2000))
					return false
				}
			} else if err != nil || got != want {
				r.Violate("unhit-fault", "%s, although the fault was not reached: %v", desc, err)
				return false
			}
			// afterwards the same reader must answer correctly
			f.reset()
			got, err = op.run(w, f)
			r.Eval()
			if err != nil || got != want {
				r.Violate("after-fault", "%s: after the fault is gone the same reader gives error %v and\n%s\nwant\n%s", desc, err, mon.Trunc(got, 2000), mon.Trunc(want, 2000))
				return false
			}
			return true
		}
		for k := int64(0); k < total; k++ {
			if total > int64(budget) && rng.Int63n(total) > int64(budget) {
				continue
			}
			k := k
			if !try("one failing read", func() { f.at = k; f.part = rng.Intn(3) == 0 }) {
				break
			}
		}
		for k := 0; k < 12; k++ {
			lo := rng.Int63n(int64(len(hdr)))
			if k%2 == 0 && len(iso.Dirs) > 0 {
				nd := iso.Dirs[rng.Intn(len(iso.Dirs))]
				lo = int64(nd.Start)*2048 + rng.Int63n(nd.Size)
			}
			if !try("a bad area", func() { f.lo, f.hi = lo, lo+1+rng.Int63n(3000); f.once = rng.Intn(2) == 0; f.part = rng.Intn(2) == 0 }) {
				break
			}
		}
		if r.Enough() {
			return
		}
	}
}
