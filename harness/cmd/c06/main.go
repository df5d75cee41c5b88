// C06: lookups depend on the path and the disc only.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/NVIDIA/vdisc/pkg/iso9660"

	"vdiscverif/mon"
)

var vt *mon.VT

func main() {
	mon.Main("C06", "distinct (operation, expected answer class, path form, sequential or concurrent) lookups judged against the tree model", func(r *mon.Run) {
		vt = mon.NewVT("vt")
		vt.Put("vt://src/a", &mon.VFile{Gen: true, ID: 7, Len: 1 << 30})
		r.Parallel(r.N(48, 1000), 0, func(i int) { one(r, i) })
		r.Need("sequential lookups", 10000)
		r.Need("concurrent lookups", 10000)
		r.Need("ENOENT", 1000)
		r.Need("ENOTDIR", 500)
		r.Need("ok", 5000)
		r.Need("through links", 500)
	})
}

type disc struct {
	m     *mon.Model
	hdr   []byte
	inos  map[string]uint32
	paths []string
	ext   bool
}

func build(r *mon.Run, i int, rng *rand.Rand) *disc {
	ext := rng.Intn(2) == 0
	n := 3 + rng.Intn(40)
	ps := mon.GenPaths(rng, n, ext)
	// names shared by different directories make wrong cache keys visible
	common := []string{"a", "b", "data", "x"}
	for k := range ps {
		if rng.Intn(2) == 0 {
			depth := 1 + rng.Intn(4)
			p := ""
			for j := 0; j < depth; j++ {
				p += "/" + common[rng.Intn(len(common))]
			}
			ps[k] = p + "/" + common[rng.Intn(len(common))] + []string{"", "", "1"}[rng.Intn(3)]
		}
	}
	m := mon.NewModel(func(string) bool { return true })
	var leaves []*mon.Leaf
	for k, p := range ps {
		l := &mon.Leaf{Path: p, URL: "vt://src/a", Size: int64(k)}
		if rng.Intn(3) == 0 {
			l = &mon.Leaf{Path: p, Link: true, Target: mon.Target(rng, ext, ps)}
		}
		if m.Add(l) {
			leaves = append(leaves, l)
		}
	}
	url, err := mon.Burn(fmt.Sprintf("vt://t/%d.vdsc", i), ext, leaves)
	if err != nil {
		r.Violate("burn", "disc %d: %v", i, err)
		return nil
	}
	hdr := vt.Lookup(url + ".isohdr").Data
	vt.Delete(url)
	vt.Delete(url + ".isohdr")
	iso := mon.DecodeISO(hdr)
	d := &disc{m: m, hdr: hdr, inos: map[string]uint32{}, paths: m.Paths(), ext: ext}
	for p, nd := range iso.All() {
		d.inos[p] = nd.Ino
	}
	return d
}

func (d *disc) path(rng *rand.Rand) string {
	p := d.paths[rng.Intn(len(d.paths))]
	switch rng.Intn(14) {
	case 0: // missing below something
		p = path.Join(p, "nope"+fmt.Sprint(rng.Intn(5)))
	case 1: // below anything, with a name that exists elsewhere
		p = path.Join(p, path.Base(d.paths[rng.Intn(len(d.paths))]))
	case 2: // deep below anything
		p = path.Join(p, path.Base(d.paths[rng.Intn(len(d.paths))]), path.Base(d.paths[rng.Intn(len(d.paths))]))
	case 3: // the name without its directory
		p = "/" + path.Base(p)
	case 4:
		p = p[:len(p)-1]
	case 5:
		p += "x"
	}
	switch rng.Intn(12) {
	case 0:
		p += "/"
	case 1:
		p = strings.TrimPrefix(p, "/")
	case 2:
		p = "/." + p
	case 3:
		p += "/."
	case 4:
		p = "/../.." + p
	case 5:
		p = strings.Replace(p, "/", "//", -1)
	case 6:
		p += "/x/.."
	case 7:
		p += "/.."
	}
	return p
}

func errClass(err error) string {
	if err == nil {
		return "ok"
	}
	s := err.Error()
	switch {
	case err == syscall.ENOENT || os.IsNotExist(err) || strings.Contains(s, syscall.ENOENT.Error()):
		return "ENOENT"
	case err == syscall.ENOTDIR || strings.Contains(s, syscall.ENOTDIR.Error()):
		return "ENOTDIR"
	case err == syscall.ELOOP || strings.Contains(s, syscall.ELOOP.Error()):
		return "ELOOP"
	}
	return "error " + s
}

// ask performs one operation and describes the answer.
func (d *disc) ask(r *mon.Run, w *iso9660.Walker, op int, p, mode string) (got, want string) {
	desc := func(fi *iso9660.FileInfo, err error) string {
		if err != nil {
			return errClass(err)
		}
		return fmt.Sprintf("inode %d size %d mode %v nlink %d target %q time %v", fi.Ino(), size(fi), fi.Mode(), fi.Nlink(), mon.Trunc(fi.Target(), 100), fi.ModTime().IsZero())
	}
	exp := func(e *mon.Entry, msg string) string {
		if e == nil {
			return msg
		}
		switch e.Kind {
		case 'd':
			return fmt.Sprintf("inode %d size %d mode %v nlink %d target %q time false", d.inos[e.Path], -1, os.ModeDir|0555, 2+e.Subdirs(), "")
		case 'l':
			t := path.Clean(e.Leaf.Target)
			return fmt.Sprintf("inode %d size %d mode %v nlink 1 target %q time false", d.inos[e.Path], len(t), os.ModeSymlink|0777, mon.Trunc(t, 100))
		}
		return fmt.Sprintf("inode %d size %d mode %v nlink 1 target %q time false", d.inos[e.Path], e.Leaf.Size, os.FileMode(0444), "")
	}
	names := func(list []*iso9660.FileInfo, err error) string {
		if err != nil {
			return errClass(err)
		}
		var ns []string
		for _, fi := range list {
			ns = append(ns, fmt.Sprintf("%s:%d", fi.Name(), fi.Ino()))
		}
		sort.Strings(ns)
		return strings.Join(ns, " ")
	}
	dir := func(e *mon.Entry, msg string) string {
		if e == nil {
			return msg
		}
		if e.Kind != 'd' {
			return "ENOTDIR"
		}
		ns := []string{fmt.Sprintf(".:%d", d.inos[e.Path]), fmt.Sprintf("..:%d", d.inos[e.Parent.Path])}
		for n, c := range e.Children {
			ns = append(ns, fmt.Sprintf("%s:%d", n, d.inos[c.Path]))
		}
		sort.Strings(ns)
		return strings.Join(ns, " ")
	}
	opn := []string{"lstat", "stat", "readdir", "open", "open-readdir"}[op]
	switch op {
	case 0:
		fi, err := w.Lstat(p)
		e, msg := d.m.Walk(p)
		got, want = desc(fi, err), exp(e, msg)
		if err == nil && e != nil && e.Path != "/" && fi.Name() != e.Name {
			got += " name " + fi.Name()
		}
	case 1:
		fi, err := w.Stat(p)
		e, msg := d.m.Follow(p)
		got, want = desc(fi, err), exp(e, msg)
		if l, _ := d.m.Walk(p); l != nil && l.Kind == 'l' {
			r.Count("through links", 1)
		}
	case 2:
		got = names(w.ReadDir(p))
		want = dir(d.m.Walk(p))
	case 3:
		f, err := w.Open(p)
		e, msg := d.m.Follow(p)
		if err != nil {
			got = errClass(err)
		} else {
			got = fmt.Sprintf("opened %d", f.Size())
			f.Close()
		}
		if e == nil {
			want = msg
		} else if e.Kind == 'd' {
			want = got // directory sizes are checked elsewhere
			if err != nil {
				want = "opened directory"
			}
		} else {
			want = fmt.Sprintf("opened %d", e.Leaf.Size)
		}
	case 4:
		f, err := w.Open(p)
		e, msg := d.m.Follow(p)
		if err != nil {
			got = errClass(err)
		} else {
			got = names(f.ReadDir())
			f.Close()
		}
		want = dir(e, msg)
	}
	cl := "ok"
	if want == "ENOENT" || want == "ENOTDIR" || want == "ELOOP" {
		cl = want
	}
	r.Count(cl, 1)
	form := fmt.Sprintf("%v%v%v", strings.HasSuffix(p, "/"), strings.Contains(p, ".."), strings.Contains(p, "//"))
	r.Distinct("main", fmt.Sprintf("%s %s %s %s %d", opn, cl, form, mode, strings.Count(path.Clean("/"+p), "/")))
	return opn + "(" + mon.Trunc(p, 200) + "): " + got, opn + "(" + mon.Trunc(p, 200) + "): " + want
}

func size(fi *iso9660.FileInfo) int64 {
	if fi.IsDir() {
		return -1
	}
	return fi.Size()
}

func one(r *mon.Run, i int) {
	rng := r.Rng("disc", i)
	d := build(r, i, rng)
	if d == nil {
		return
	}
	// one reader, long history
	w := iso9660.NewWalker(bytes.NewReader(d.hdr))
	var hist []string
	nq := r.N(350, 600)
	for k := 0; k < nq; k++ {
		p := d.path(rng)
		op := rng.Intn(5)
		got, want := d.ask(r, w, op, p, "seq")
		r.Eval()
		r.Count("sequential lookups", 1)
		hist = append(hist, got)
		if got != want {
			fresh, _ := d.ask(r, iso9660.NewWalker(bytes.NewReader(d.hdr)), op, p, "seq")
			h := hist
			if len(h) > 60 {
				h = h[len(h)-60:]
			}
			r.Violate("history", "disc %d, lookup %d:\n got  %s\n want %s\n a fresh reader says %s\nhistory:\n%s", i, k, got, want, fresh, strings.Join(h, "\n"))
			return
		}
		// the same again, at once and later
		if rng.Intn(3) == 0 {
			again, _ := d.ask(r, w, op, p, "seq")
			r.Eval()
			if again != want {
				r.Violate("repeat", "disc %d, lookup %d repeated:\n got  %s\n want %s\n", i, k, again, want)
				return
			}
		}
	}
	// many threads on one reader
	w = iso9660.NewWalker(bytes.NewReader(d.hdr))
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		seed := rng.Int63()
		if g%2 == 1 {
			// pairs of threads ask the same questions at the same time
			seed = int64(i)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed))
			for k := 0; k < nq/4; k++ {
				p := d.path(rng)
				op := rng.Intn(5)
				got, want := d.ask(r, w, op, p, "conc")
				r.Eval()
				r.Count("concurrent lookups", 1)
				if got != want {
					r.Violate("concurrent", "disc %d, concurrent lookup:\n got  %s\n want %s", i, got, want)
					return
				}
			}
		}()
	}
	wg.Wait()
	if i < 3 {
		r.Sample("disc %d: %d entries, %d lookups, e.g. %s", i, len(d.paths), len(hist), hist[len(hist)-1])
	}
}
