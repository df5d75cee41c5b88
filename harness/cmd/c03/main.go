// C03: the tree, attributes and links survive burning.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/vdisc"

	"vdiscverif/mon"
)

var vt *mon.VT

func main() {
	mon.Main("C03", "distinct trees (by shape and kinds) walked, listed and statted in full; each with at least one directory level below the root or one link", func(r *mon.Run) {
		vt = mon.NewVT("vt")
		vt.Put("vt://src/a", &mon.VFile{Gen: true, ID: 7, Len: 1 << 40})
		r.Parallel(r.N(220, 4000), 0, func(i int) { one(r, i) })
		wide(r)
		crowd(r)
		r.Need("links", 300)
		r.Need("links followed", 100)
		r.Need("directories", 500)
	})
}

func gen(rng *rand.Rand, n int, ext bool) []*mon.Leaf {
	paths := mon.GenPaths(rng, n, ext)
	var files []*mon.Leaf
	var ls []*mon.Leaf
	pl := 1 + rng.Intn(4)
	for k, p := range paths {
		if rng.Intn(4) < pl && k > 0 {
			var ex []string
			for _, q := range paths {
				ex = append(ex, q)
				if d := path.Dir(q); d != "/" {
					ex = append(ex, d)
				}
			}
			ls = append(ls, &mon.Leaf{Path: p, Link: true, Target: mon.Target(rng, ext, ex)})
			continue
		}
		l := &mon.Leaf{Path: p, URL: "vt://src/a", Size: mon.Size(rng, 1<<20)}
		if rng.Intn(40) == 0 {
			l.Size = rng.Int63n(1 << 35)
		}
		files = append(files, l)
		ls = append(ls, l)
	}
	// unusual but equivalent spellings of the path
	for _, l := range ls {
		switch rng.Intn(10) {
		case 0:
			l.Path = strings.TrimPrefix(l.Path, "/")
		case 1:
			l.Path = l.Path + "/"
		case 2:
			l.Path = "/." + l.Path
		case 3:
			l.Path = strings.Replace(l.Path, "/", "//", 1)
		case 4:
			l.Path = "/zz/.." + l.Path
		}
	}
	return ls
}

type attr struct {
	kind   byte
	size   int64
	mode   os.FileMode
	nlink  uint32
	target string
}

func one(r *mon.Run, i int) {
	rng := r.Rng("tree", i)
	ext := rng.Intn(2) == 0
	n := 1 + rng.Intn(25)
	if i%20 == 19 {
		n = 100 + rng.Intn(400)
	}
	leaves := gen(rng, n, ext)
	end := r.Begin("tree %d", i)
	defer end()
	a := check(r, fmt.Sprintf("tree %d", i), fmt.Sprintf("vt://t/%d.vdsc", i), ext, leaves, rng)
	if a == nil {
		return
	}
	sh := append([]*mon.Leaf(nil), leaves...)
	rng.Shuffle(len(sh), func(x, y int) { sh[x], sh[y] = sh[y], sh[x] })
	b := check(r, fmt.Sprintf("tree %d shuffled", i), fmt.Sprintf("vt://t/%ds.vdsc", i), ext, sh, rng)
	if b != nil {
		for p, x := range a {
			if y, ok := b[p]; !ok || x.kind != y.kind || x.mode != y.mode || x.nlink != y.nlink || x.target != y.target || (x.kind != 'd' && x.size != y.size) {
				r.Violate("order", "tree %d: %q differs with the order of additions: %v %v", i, p, x, y)
				break
			}
		}
		if len(a) != len(b) {
			r.Violate("order", "tree %d: %d and %d entries depending on the order of additions", i, len(a), len(b))
		}
		r.Eval()
	}
}

func check(r *mon.Run, what, url string, ext bool, leaves []*mon.Leaf, rng *rand.Rand) map[string]attr {
	model := mon.NewModel(func(string) bool { return true })
	for _, l := range leaves {
		if !model.Add(l) {
			panic("generator made a collision")
		}
	}
	before := time.Now().Truncate(time.Second)
	url, err := mon.Burn(url, ext, leaves)
	after := time.Now()
	if err != nil {
		r.Violate("burn-failed", "%s: %v", what, err)
		return nil
	}
	defer func() { vt.Delete(url); vt.Delete(url + ".isohdr") }()
	var cache caching.Cache = caching.NopCache
	if len(leaves) > 15 || rng.Intn(3) > 0 {
		// without a cache every field of a record is a separate read
		cache = mon.Modes("", 1<<18, 64, 0, 0)[1].Cache
	}
	v, err := vdisc.Load(url, cache)
	if err != nil {
		r.Violate("load-failed", "%s: %v", what, err)
		return nil
	}
	defer v.Close()
	w := iso9660.NewWalker(v.Image())
	got, probs := mon.TreeWalk(w)
	for _, p := range probs {
		r.Violate("walk", "%s: %s", what, p)
	}
	out := map[string]attr{}
	inos := map[uint32]string{}
	for _, p := range model.Paths() {
		e := model.All[p]
		fi, ok := got[p]
		if !ok {
			r.Violate("missing", "%s: walk does not report %q (%c)", what, mon.Trunc(p, 300), e.Kind)
			continue
		}
		r.Eval()
		out[p] = judge(r, what, "walk", e, fi)
		x := fi.Sys().(*iso9660.FileInfo)
		if q, dup := inos[x.Ino()]; dup {
			r.Violate("inode", "%s: %q and %q share inode %d", what, p, q, x.Ino())
		}
		inos[x.Ino()] = p
		if e.Kind == 'd' {
			if x.Size()%2048 != 0 || x.Size() == 0 {
				r.Violate("dirsize", "%s: directory %q has size %d", what, p, x.Size())
			}
		}
		if t := x.ModTime(); t.Before(before) || t.After(after) {
			r.Violate("time", "%s: %q has time %v, burned between %v and %v", what, p, t, before, after)
		}
	}
	for p := range got {
		if _, ok := model.All[p]; !ok {
			r.Violate("extra", "%s: walk reports %q, which was not added", what, mon.Trunc(p, 300))
		}
	}
	if r.Failed() {
		return out
	}
	// listings and lookups through a fresh reader
	w = iso9660.NewWalker(v.Image())
	all := model.Paths()
	rng.Shuffle(len(all), func(x, y int) { all[x], all[y] = all[y], all[x] })
	if len(all) > 2000 {
		// a lookup scans its directory, so only some are made here
		all = append(all[:40:40], "/")
		if model.All["/wide"] != nil {
			all = append(all, "/wide")
		}
	}
	for _, p := range all {
		e := model.All[p]
		fi, err := w.Lstat(p)
		r.Eval()
		if err != nil {
			r.Violate("lstat", "%s: lstat %q: %v", what, mon.Trunc(p, 300), err)
			continue
		}
		judge(r, what, "lstat", e, fi)
		switch e.Kind {
		case 'd':
			r.Count("directories", 1)
			list, err := w.ReadDir(p)
			listing(r, what+" ReadDir", e, list, err)
			f, err := w.Open(p)
			if err != nil {
				r.Violate("opendir", "%s: opening directory %q: %v", what, mon.Trunc(p, 300), err)
				continue
			}
			list, err = f.ReadDir()
			listing(r, what+" Open+ReadDir", e, list, err)
			f.Close()
		case 'l':
			r.Count("links", 1)
			want, msg := model.Follow(p)
			st, err := w.Stat(p)
			r.Eval()
			if want != nil {
				r.Count("links followed", 1)
				if err != nil {
					r.Violate("follow", "%s: stat of link %q -> %q failed: %v, should reach %q", what, mon.Trunc(p, 200), mon.Trunc(e.Leaf.Target, 200), err, mon.Trunc(want.Path, 200))
					continue
				}
				wf, err := w.Lstat(want.Path)
				if err != nil || wf.Ino() != st.Ino() {
					r.Violate("follow", "%s: stat of link %q -> %q reaches %q inode %d, should reach %q", what, mon.Trunc(p, 200), mon.Trunc(e.Leaf.Target, 200), st.Name(), st.Ino(), mon.Trunc(want.Path, 200))
				}
			} else if err == nil {
				r.Violate("follow", "%s: stat of link %q -> %q reaches %q, should fail with %s", what, mon.Trunc(p, 200), mon.Trunc(e.Leaf.Target, 200), st.Name(), msg)
			} else {
				r.Distinct("dangling", msg)
			}
		}
	}
	shape := fmt.Sprintf("%d", len(leaves))
	var ks []string
	for _, p := range model.Paths() {
		e := model.All[p]
		ks = append(ks, fmt.Sprintf("%c%d.%d.%d", e.Kind, strings.Count(p, "/"), len(e.Name)/16, len(e.Children)))
	}
	sort.Strings(ks)
	if len(model.All) > len(leaves)+1 || r != nil {
		r.Distinct("main", shape+strings.Join(ks, ","))
	}
	r.Count("entries", int64(len(model.All)))
	if strings.HasSuffix(what, "shuffled") {
		r.Sample("%s: %d leaves, %d entries, deepest %d", what, len(leaves), len(model.All), deepest(model))
	}
	return out
}

func deepest(m *mon.Model) int {
	d := 0
	for p := range m.All {
		if n := strings.Count(p, "/"); n > d {
			d = n
		}
	}
	return d
}

func judge(r *mon.Run, what, how string, e *mon.Entry, fi os.FileInfo) attr {
	x := fi.Sys().(*iso9660.FileInfo)
	a := attr{kind: e.Kind, size: x.Size(), mode: x.Mode(), nlink: x.Nlink(), target: x.Target()}
	var want attr
	switch e.Kind {
	case 'd':
		want = attr{'d', a.size, os.ModeDir | 0555, uint32(2 + e.Subdirs()), ""}
	case 'f':
		want = attr{'f', e.Leaf.Size, 0444, 1, ""}
	case 'l':
		t := path.Clean(e.Leaf.Target)
		want = attr{'l', int64(len(t)), os.ModeSymlink | 0777, 1, t}
	}
	if a != want || fi.IsDir() != (e.Kind == 'd') {
		r.Violate("attributes", "%s: %s of %q: kind %c size %d mode %v nlink %d target %q; want size %d mode %v nlink %d target %q", what, how, mon.Trunc(e.Path, 200),
			e.Kind, a.size, a.mode, a.nlink, mon.Trunc(a.target, 300), want.size, want.mode, want.nlink, mon.Trunc(want.target, 300))
	}
	if e.Path != "/" && x.Name() != e.Name {
		r.Violate("name", "%s: %s of %q reports name %q", what, how, mon.Trunc(e.Path, 200), mon.Trunc(x.Name(), 200))
	}
	return a
}

func listing(r *mon.Run, what string, e *mon.Entry, list []*iso9660.FileInfo, err error) {
	r.Eval()
	if err != nil {
		r.Violate("readdir", "%s of %q failed: %v", what, mon.Trunc(e.Path, 300), err)
		return
	}
	seen := map[string]bool{}
	for k, fi := range list {
		if k == 0 || k == 1 {
			if fi.Name() != []string{".", ".."}[k] {
				r.Violate("dots", "%s of %q: entry %d is %q", what, mon.Trunc(e.Path, 300), k, fi.Name())
			}
			continue
		}
		c, ok := e.Children[fi.Name()]
		if !ok || seen[fi.Name()] {
			r.Violate("readdir-extra", "%s of %q lists %q (known %v, repeated %v)", what, mon.Trunc(e.Path, 300), mon.Trunc(fi.Name(), 300), ok, seen[fi.Name()])
			continue
		}
		seen[fi.Name()] = true
		judge(r, what, "listing", c, fi)
	}
	if len(seen) != len(e.Children) {
		r.Violate("readdir-missing", "%s of %q lists %d of %d entries", what, mon.Trunc(e.Path, 300), len(seen), len(e.Children))
	}
}

// wide: directories with many entries and many levels.
func wide(r *mon.Run) {
	rng := r.Rng("wide")
	var ls []*mon.Leaf
	n := r.N(9000, 70000)
	for i := 0; i < n; i++ {
		if i%7 == 3 {
			ls = append(ls, &mon.Leaf{Path: fmt.Sprintf("/wide/n%d", i), Link: true, Target: fmt.Sprintf("n%d", i-1)})
		} else {
			ls = append(ls, &mon.Leaf{Path: fmt.Sprintf("/wide/n%d", i), URL: "vt://src/a", Size: int64(i)})
		}
	}
	p := ""
	for i := 0; i < r.N(120, 400); i++ {
		p += fmt.Sprintf("/d%d", i%10)
		ls = append(ls, &mon.Leaf{Path: p + "/leaf", URL: "vt://src/a", Size: 5})
		if i%3 == 0 {
			ls = append(ls, &mon.Leaf{Path: p + "/other/leaf", URL: "vt://src/a", Size: 6})
			ls = append(ls, &mon.Leaf{Path: p + "/other2/leaf", URL: "vt://src/a", Size: 6})
		}
	}
	check(r, "wide tree", "vt://t/wide.vdsc", false, ls, rng)
}

// crowd: more entries than 16 bits can number.
func crowd(r *mon.Run) {
	var ls []*mon.Leaf
	for k := 0; k < 66000; k++ {
		p := fmt.Sprintf("/%d/%d", k%400, k)
		switch k % 11 {
		case 3:
			ls = append(ls, &mon.Leaf{Path: p, Link: true, Target: fmt.Sprint(k - 1)})
			continue
		case 4:
			p += "/leaf"
		}
		ls = append(ls, &mon.Leaf{Path: p, URL: "vt://src/a", Size: int64(k)})
	}
	check(r, "66000 entries", "vt://t/crowd.vdsc", false, ls, r.Rng("crowd"))
}
