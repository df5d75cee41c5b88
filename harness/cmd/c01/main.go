// C01: every file of a burned disc reads as its exact source bytes.
package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/vdisc"

	"vdiscverif/mon"

	_ "github.com/NVIDIA/vdisc/pkg/storage"
)

var vta, vtb, vtv *mon.VT // vtv keeps every version of an object

func main() {
	mon.Main("C01", "distinct (address style, disc location, cache mode, file size class, shared-object) combinations whose bytes were compared", func(r *mon.Run) {
		vta = mon.NewVT("vta")
		vtb = mon.NewVT("vtb")
		vtv = mon.NewVT("vtv")
		vtv.Versioned = true
		n := r.N(60, 1500)
		r.Parallel(n+1, 0, func(i int) {
			if i == 0 {
				crowd(r)
			} else {
				virtualCase(r, i-1)
			}
		})
		// cases with local files depend on the working directory
		for i := 0; i < r.N(24, 300) && !r.Enough(); i++ {
			localCase(r, i)
		}
		big(r)
		r.Parallel(r.N(24, 200), 0, func(i int) { vast(r, i) })
		r.Need("vast discs read back", 2)
		r.Need("vast discs refused", 5)
		r.Need("files read back", 500)
		r.Need("shared objects", 20)
		r.Need("relative addresses", 20)
		r.Assume("disc locations contain no '%', '?' or '#'")
	})
}

func sizeClass(n int64) string {
	switch {
	case n == 0:
		return "0"
	case n%2048 == 0:
		return "=k"
	case n < 2048:
		return "<1"
	}
	return ">1"
}

type addr struct {
	url   string
	style string
}

// virtualAddrs makes n addresses of the in-memory drivers.
func virtualAddrs(rng *rand.Rand, n int, tag string, discDir string) []addr {
	var out []addr
	seen := map[string]bool{}
	add := func(style, u string) {
		if seen[u] {
			return
		}
		seen[u] = true
		out = append(out, addr{u, style})
	}
	base := "vta://" + tag + "/d"
	cur := base + "/o"
	style := rng.Intn(9)
	for len(out) < n {
		s := style
		if style == 8 {
			s = rng.Intn(8)
		}
		k := len(out)
		switch s {
		case 0: // numbered, shared prefixes of every length
			add("numbered", fmt.Sprintf("%s/obj%d", base, rng.Intn(200*(k+1))))
		case 1: // each address extends another one
			if rng.Intn(3) == 0 {
				cur = base + "/" + mon.Name(rng, false)[:1]
			}
			cur += string("abc/0"[rng.Intn(5)])
			for strings.HasSuffix(cur, "//") {
				cur = strings.TrimSuffix(cur, "/")
			}
			add("extending", cur+"x")
			add("extending", strings.TrimSuffix(cur, "/")+"x")
		case 2: // other drivers and hosts
			add("hosts", fmt.Sprintf("vtb://%s-%d.example:80%d/x", tag, rng.Intn(50), rng.Intn(10)))
		case 3: // queries
			add("query", fmt.Sprintf("%s/q?versionId=%x&n=%d", base, rng.Intn(1000), rng.Intn(20)))
		case 4: // escapes
			add("escaped", fmt.Sprintf("%s/e%%20%%2F%%25%d/%%41%d", base, rng.Intn(30), rng.Intn(30)))
		case 5: // other scripts, splitting inside shared characters
			rs := []rune("日本語日末éèëжж🙂🙃")
			u := base + "/"
			for j := 1 + rng.Intn(5); j > 0; j-- {
				u += string(rs[rng.Intn(len(rs))])
			}
			add("unicode", u)
		case 6: // next to, above and below the disc itself
			p := []string{"x%d", "sub/x%d", "../x%d", "disc.vdsc.isohdr.%d", "disc.vdsc%d", "sub/sub/disc.vdsc.isohdr%d"}[rng.Intn(6)]
			u := discDir + "/" + fmt.Sprintf(p, rng.Intn(50))
			add("near the disc", "vta://"+tag+path.Clean("/"+strings.TrimPrefix(u, "vta://"+tag)))
		case 7: // bytes that are no characters, and pieces of characters
			u := base + "/"
			for j := 1 + rng.Intn(5); j > 0; j-- {
				u += []string{"\xff", "\xfe", "\xc3", "\xa9", "\xe6\x97", "é", "\uFFFD", "日", "\xa5", "x"}[rng.Intn(10)]
			}
			add("raw bytes", u)
		}
	}
	return out[:n]
}

func virtualCase(r *mon.Run, i int) {
	rng := r.Rng("virtual", i)
	tag := fmt.Sprintf("h%d", i)
	discDir := "vta://" + tag + []string{"", "/d", "/d/e/f"}[rng.Intn(3)]
	disc := discDir + "/disc.vdsc"
	versioned := i%4 == 3
	if versioned {
		disc = "vtv" + strings.TrimPrefix(disc, "vta")
	}
	nf := 1 + rng.Intn(30)
	if i%10 == 9 {
		nf = 200 + rng.Intn(300)
	}
	ext := rng.Intn(2) == 0
	paths := mon.GenPaths(rng, nf, ext)
	na := nf
	if rng.Intn(2) == 0 {
		na = 1 + rng.Intn(nf)
	}
	addrs := virtualAddrs(rng, na, tag, discDir)
	srcs := make([]*mon.VFile, na)
	for k, a := range addrs {
		srcs[k] = &mon.VFile{Gen: true, ID: uint64(i)<<20 + uint64(k) + 1, Len: mon.Size(rng, 60000)}
		v := vta
		if strings.HasPrefix(a.url, "vtb:") {
			v = vtb
		}
		v.Put(a.url, srcs[k])
	}
	var leaves []*mon.Leaf
	styles := map[string]string{}
	use := map[int]int{}
	perm := rng.Perm(na)
	for k, p := range paths {
		j := perm[k%na]
		use[j]++
		l := &mon.Leaf{Path: p, URL: addrs[j].url, Size: srcs[j].Len, Src: srcs[j]}
		if use[j] > 1 {
			r.Count("shared objects", 1)
			if rng.Intn(4) == 0 && l.Size > 0 { // another declared size of the same object
				l.Size = int64(rng.Intn(int(l.Size)))
			}
		}
		styles[p] = addrs[j].style
		if use[j] > 1 {
			styles[p] += "+shared"
		}
		leaves = append(leaves, l)
	}
	end := r.Begin("virtual case %d", i)
	defer end()
	url, err := mon.Burn(disc, ext, leaves)
	if err != nil {
		r.Violate("burn-failed", "case %d: burning %d files to %s failed: %v", i, nf, disc, err)
		return
	}
	if versioned && i%8 == 3 { // a later version does not change the one burned
		if _, err := mon.Burn(disc, ext, leaves[:1]); err != nil {
			r.Violate("burn-failed", "case %d: burning a second version of %s failed: %v", i, disc, err)
			return
		}
	}
	bs := []int64{512, 2048, 4096, 65536}[rng.Intn(4)]
	for _, m := range mon.Modes(r.Dir(fmt.Sprintf("cache-v%d", i)), bs, 8, rng.Intn(4), 4) {
		readBack(r, rng, fmt.Sprintf("virtual case %d", i), url, "virtual", m, leaves, styles)
		m.Wait()
		if r.Failed() {
			break
		}
	}
	os.RemoveAll(filepath.Join(r.Scratch, fmt.Sprintf("cache-v%d", i)))
	for _, l := range leaves {
		vta.Delete(l.URL)
		vtb.Delete(l.URL)
	}
	vta.Delete(disc)
	vta.Delete(disc + ".isohdr")
}

func readBack(r *mon.Run, rng *rand.Rand, what, url, loc string, m mon.CacheMode, leaves []*mon.Leaf, styles map[string]string) {
	v, err := vdisc.Load(url, m.Cache)
	if err != nil {
		r.Violate("load-failed", "%s: loading %s with cache %s failed: %v", what, url, m.Name, err)
		return
	}
	defer v.Close()
	w := iso9660.NewWalker(v.Image())
	for _, k := range rng.Perm(len(leaves)) {
		l := leaves[k]
		if r.Enough() {
			return
		}
		where := fmt.Sprintf("%s cache %s disc %s: %v", what, m.Name, url, l)
		fi, err := w.Stat(l.Path)
		if err != nil {
			r.Violate("lookup", "%s: stat failed: %v", where, err)
			continue
		}
		if fi.Size() != l.Size {
			r.Violate("size", "%s: reports size %d", where, fi.Size())
		}
		want := l.Src.Range(0, int(l.Size))
		// by path, through the filesystem
		f, err := w.Open(l.Path)
		if err != nil {
			r.Violate("open", "%s: open failed: %v", where, err)
			continue
		}
		got, err := mon.ReadAllChunks(f, l.Size+1<<20, []int{1 + rng.Intn(5000), 2048, 7, 100000})
		f.Close()
		r.Eval()
		if err != nil {
			r.Violate("read", "%s: reading failed: %v", where, err)
		} else if d := mon.Diff(got, want); d != "" {
			r.Violate("bytes", "%s: %s", where, d)
		}
		// by extent
		o, err := v.OpenExtent(fi.Extent())
		if err != nil {
			r.Violate("extent", "%s: opening the extent failed: %v", where, err)
			continue
		}
		if o.Size() != l.Size {
			r.Violate("extent-size", "%s: extent has size %d", where, o.Size())
		}
		got, err = mon.ReadAllChunks(o, l.Size+1<<20, []int{1 + rng.Intn(5000), 2048, 7, 100000})
		r.Eval()
		if err != nil {
			r.Violate("extent-read", "%s: reading the extent failed: %v", where, err)
		} else if d := mon.Diff(got, want); d != "" {
			r.Violate("extent-bytes", "%s: extent: %s", where, d)
		}
		full := *l.Src
		if full.Gen {
			full.Len = l.Size
		} else {
			full.Data = full.Data[:l.Size]
		}
		for q := 0; q < 4; q++ {
			off := int64(rng.Intn(int(l.Size) + 10))
			if msg := mon.CheckReadAt(o, &full, l.Size, off, 1+rng.Intn(6000)); msg != "" {
				r.Violate("extent-readat", "%s: %s", where, msg)
				break
			}
			r.Eval()
		}
		o.Close()
		r.Count("files read back", 1)
		r.Count("bytes compared", 2*l.Size)
		r.Distinct("main", styles[l.Path]+"|"+loc+"|"+m.Name+"|"+sizeClass(l.Size))
	}
}

// localCase burns local files, with the disc and the objects named in
// relative and absolute ways.
func localCase(r *mon.Run, i int) {
	rng := r.Rng("local", i)
	root := r.Dir(fmt.Sprintf("local%d", i))
	defer os.RemoveAll(root)
	work := filepath.Join(root, "w", "x")
	os.MkdirAll(filepath.Join(work, "sub", "deep"), 0755)
	os.MkdirAll(filepath.Join(root, "w", "side"), 0755)
	if err := os.Chdir(work); err != nil {
		panic(err)
	}
	defer os.Chdir(r.Scratch)

	locs := []struct{ name, url, dir string }{
		{"absolute path", work + "/disc.vdsc", work},
		{"file url", "file://" + work + "/disc.vdsc", work},
		{"bare name", "disc.vdsc", work},
		{"relative path", "sub/disc.vdsc", work + "/sub"},
		{"dot path", "./disc.vdsc", work},
		{"parent path", "../side/disc.vdsc", root + "/w/side"},
		{"space", work + "/sub/my disc.vdsc", work + "/sub"},
	}
	loc := locs[i%len(locs)]
	nf := 1 + rng.Intn(14)
	paths := mon.GenPaths(rng, nf, false)
	var leaves []*mon.Leaf
	styles := map[string]string{}
	for k, p := range paths {
		size := mon.Size(rng, 20000)
		var src *mon.VFile
		var l *mon.Leaf
		put := func(file string) {
			src = &mon.VFile{Gen: true, ID: uint64(1<<40) + uint64(i)<<20 + uint64(k), Len: size}
			os.MkdirAll(filepath.Dir(file), 0755)
			if err := ioutil.WriteFile(file, mon.Bytes(src.ID, 0, int(size)), 0644); err != nil {
				panic(err)
			}
		}
		name := fmt.Sprintf("o%d", k)
		style := []string{"absolute", "file url", "relative", "relative nested", "relative parent", "zero", "data", "escaped", "raw bytes"}[rng.Intn(9)]
		if strings.HasPrefix(style, "relative") && loc.dir != work && rng.Intn(2) == 0 {
			style = "absolute"
		}
		switch style {
		case "absolute":
			put(work + "/sub/" + name)
			l = &mon.Leaf{URL: work + "/sub/" + name}
		case "file url":
			put(root + "/w/side/" + name)
			l = &mon.Leaf{URL: "file://" + root + "/w/side/" + name}
		case "escaped":
			put(work + "/a b/" + name)
			l = &mon.Leaf{URL: work + "/a%20b/" + name}
		case "raw bytes":
			name += []string{"\xff", "\xc3", "\xe6\x97"}[rng.Intn(3)]
			put(work + "/raw\xfe/" + name)
			l = &mon.Leaf{URL: work + "/raw\xfe/" + name}
		case "relative":
			put(loc.dir + "/" + name)
			l = &mon.Leaf{URL: name}
		case "relative nested":
			put(loc.dir + "/n/" + name)
			l = &mon.Leaf{URL: "n/" + name}
		case "relative parent":
			put(filepath.Dir(loc.dir) + "/" + name)
			l = &mon.Leaf{URL: "../" + name}
		case "zero":
			src = &mon.VFile{Data: make([]byte, size)}
			l = &mon.Leaf{URL: fmt.Sprintf("zero:%d", size)}
		case "data":
			txt := fmt.Sprintf("inline-%d-%d", i, k)
			size = int64(len(txt))
			src = &mon.VFile{Data: []byte(txt)}
			l = &mon.Leaf{URL: "data:text/plain," + txt}
		}
		if strings.HasPrefix(style, "relative") {
			r.Count("relative addresses", 1)
		}
		l.Path, l.Size, l.Src = p, size, src
		styles[p] = style
		leaves = append(leaves, l)
	}
	end := r.Begin("local case %d", i)
	defer end()
	// Relative addresses mean the same at burn time when burning happens in
	// the disc's own directory, which is how the tool is used.
	if err := os.Chdir(loc.dir); err != nil {
		panic(err)
	}
	target := loc.url
	if !strings.HasPrefix(target, "/") && !strings.HasPrefix(target, "file:") {
		target = path.Base(target)
	}
	url, err := mon.Burn(target, false, leaves)
	if err != nil {
		r.Violate("burn-failed", "local case %d: burning to %s failed: %v", i, target, err)
		return
	}
	if target != loc.url {
		url = loc.url
	}
	os.Chdir(work)
	for _, m := range mon.Modes(filepath.Join(root, "cache"), 4096, 8, 2, 4) {
		readBack(r, rng, fmt.Sprintf("local case %d", i), url, loc.name, m, leaves, styles)
		m.Wait()
	}
	r.Sample("local case %d: disc %s (%s), %d files, e.g. %v", i, url, loc.name, nf, leaves[0])
}

// big reads around the block and extent boundaries of files too large to
// compare in full.
func big(r *mon.Run) {
	var leaves []*mon.Leaf
	sizes := []int64{4294965248, 4294965248 + 1, 3*4294965248 + 5, 1 << 33, 2048, 1, 5 << 30, 0, 4294965248 - 1, 3000}
	for k, s := range sizes {
		u := fmt.Sprintf("vta://big/o%d", k)
		src := &mon.VFile{Gen: true, ID: 1<<50 + uint64(k), Len: s}
		vta.Put(u, src)
		leaves = append(leaves, &mon.Leaf{Path: fmt.Sprintf("/big/f%d", k), URL: u, Size: s, Src: src})
	}
	url, err := mon.Burn("vta://big/disc.vdsc", false, leaves)
	if err != nil {
		r.Violate("burn-failed", "burning large files failed: %v", err)
		return
	}
	rng := r.Rng("big")
	for _, m := range mon.Modes(r.Dir("cache-big"), 65536, 16, 2, 4) {
		v, err := vdisc.Load(url, m.Cache)
		if err != nil {
			r.Violate("load-failed", "large disc: %v", err)
			return
		}
		w := iso9660.NewWalker(v.Image())
		for _, l := range leaves {
			where := fmt.Sprintf("large disc, cache %s: %v", m.Name, l)
			fi, err := w.Stat(l.Path)
			if err != nil || fi.Size() != l.Size {
				r.Violate("lookup", "%s: stat: %v %v", where, fi, err)
				continue
			}
			f, err := w.Open(l.Path)
			if err != nil {
				r.Violate("open", "%s: %v", where, err)
				continue
			}
			o, err := v.OpenExtent(fi.Extent())
			if err != nil {
				r.Violate("extent", "%s: %v", where, err)
				continue
			}
			var offs []int64
			for _, b := range []int64{0, 2048, 1 << 31, 4294965248, 1 << 32, 2 * 4294965248, 1<<32 + 4096, l.Size} {
				for _, d := range []int64{-4097, -2048, -1, 0, 1} {
					offs = append(offs, b+d)
				}
			}
			for q := 0; q < 20; q++ {
				offs = append(offs, rng.Int63n(l.Size+1))
			}
			for _, off := range offs {
				if off < 0 || off > l.Size+4096 {
					continue
				}
				n := 1 + rng.Intn(9000)
				r.EvalN(2)
				if msg := mon.CheckReadAt(o, l.Src, l.Size, off, n); msg != "" {
					r.Violate("large-extent", "%s: extent %s", where, msg)
					break
				}
				if msg := mon.CheckReadAt(f, l.Src, l.Size, off, n); msg != "" {
					r.Violate("large-file", "%s: file %s", where, msg)
					break
				}
			}
			f.Close()
			o.Close()
			r.Distinct("main", "large|"+m.Name+"|"+fmt.Sprint(l.Size))
		}
		v.Close()
		m.Wait()
	}
}

// vast burns discs near the number of blocks that addresses can tell apart:
// such a burn is refused or gives back every file.
func vast(r *mon.Run, i int) {
	rng := r.Rng("vast", i)
	const limit = int64(1) << 43
	left := limit
	switch i % 4 {
	case 0: // well inside
		left -= 1 << 30
	case 1: // around the limit
		left += (rng.Int63n(1<<12) - 1<<11) * 2048
	case 2: // beyond
		left += 1 << (uint(rng.Intn(20)) + 24)
	case 3: // far beyond
		left *= 2
	}
	var leaves []*mon.Leaf
	var blocks int64
	add := func(s int64) {
		k := len(leaves)
		u := fmt.Sprintf("vta://vast%d/o%d", i, k)
		src := &mon.VFile{Gen: true, ID: 1<<51 + uint64(i)<<20 + uint64(k), Len: s}
		vta.Put(u, src)
		leaves = append(leaves, &mon.Leaf{Path: fmt.Sprintf("/f%d", k), URL: u, Size: s, Src: src})
		blocks += (s + 2047) / 2048
		left -= (s + 2047) / 2048 * 2048
	}
	if rng.Intn(3) > 0 {
		add(rng.Int63n(left/2-1) + 1)
	}
	if i%8 >= 4 { // small ones in the middle and last, with the crossing in a small one
		add(left - 1<<31 - rng.Int63n(1<<30))
		add(int64(1) << 30)
		add(left + 1<<uint(20+rng.Intn(11)))
		add(100)
		add(1 + rng.Int63n(5000))
	} else {
		add(rng.Int63n(1 << 33))
		add(77)
		if left > 0 {
			add(left)
		}
	}
	end := r.Begin("vast disc %d", i)
	defer end()
	what := fmt.Sprintf("vast disc %d of %d blocks", i, blocks)
	var url string
	var err error
	if p, bad := mon.Catch(func() { url, err = mon.Burn(fmt.Sprintf("vta://vast%d/disc.vdsc", i), false, leaves) }); bad {
		r.Violate("burn-panic", "%s: %v: burning panics: %s", what, leaves, mon.Trunc(p, 300))
		return
	}
	r.Eval()
	if err != nil {
		if blocks < 1<<32-1000 {
			r.Violate("burn-failed", "%s: %v", what, err)
		}
		r.Count("vast discs refused", 1)
		return
	}
	v, err := vdisc.Load(url, caching.NopCache)
	if err != nil {
		r.Violate("load-failed", "%s: %v", what, err)
		return
	}
	defer v.Close()
	w := iso9660.NewWalker(v.Image())
	for _, l := range leaves {
		where := fmt.Sprintf("%s: %v", what, l)
		fi, err := w.Stat(l.Path)
		if err != nil || fi.Size() != l.Size {
			r.Violate("lookup", "%s: stat: %v %v", where, fi, err)
			return
		}
		f, err := w.Open(l.Path)
		if err != nil {
			r.Violate("open", "%s: %v", where, err)
			return
		}
		o, err := v.OpenExtent(fi.Extent())
		if err != nil {
			r.Violate("extent", "%s: %v", where, err)
			return
		}
		if o.Size() != l.Size {
			r.Violate("extent-size", "%s: extent has size %d", where, o.Size())
			return
		}
		for q := 0; q < 30; q++ {
			off := rng.Int63n(l.Size + 10)
			switch {
			case q == 0:
				off = 0
			case q == 1 && l.Size > 4000:
				off = l.Size - 4000
			}
			r.EvalN(2)
			n := 1 + rng.Intn(5000)
			if msg := mon.CheckReadAt(o, l.Src, l.Size, off, n); msg != "" {
				r.Violate("large-extent", "%s: extent %s", where, msg)
				return
			}
			if msg := mon.CheckReadAt(f, l.Src, l.Size, off, n); msg != "" {
				r.Violate("large-file", "%s: file %s", where, msg)
				return
			}
		}
		f.Close()
		o.Close()
		r.Distinct("main", fmt.Sprintf("vast|%d|%d", i, l.Size))
	}
	r.Count("vast discs read back", 1)
}

// crowd burns so many addresses that their common parts need more than 16 bits
// to number.
func crowd(r *mon.Run) {
	const n = 70000
	end := r.Begin("crowd")
	defer end()
	rng := r.Rng("crowd")
	var leaves []*mon.Leaf
	for k := 0; k < n; k++ {
		u := fmt.Sprintf("vta://crowd/%017b", k)
		src := &mon.VFile{Gen: true, ID: 1<<52 + uint64(k), Len: int64(1 + k%5000)}
		vta.Put(u, src)
		leaves = append(leaves, &mon.Leaf{Path: fmt.Sprintf("/%d/f%d", k%300, k), URL: u, Size: src.Len, Src: src})
	}
	url, err := mon.Burn("vta://crowd/disc.vdsc", false, leaves)
	if err != nil {
		r.Violate("burn-failed", "burning %d files failed: %v", n, err)
		return
	}
	v, err := vdisc.Load(url, mon.Modes("", 1<<18, 64, 0, 0)[1].Cache)
	if err != nil {
		r.Violate("load-failed", "disc of %d files: %v", n, err)
		return
	}
	defer v.Close()
	w := iso9660.NewWalker(v.Image())
	for k := 0; k < 12 && !r.Enough(); k++ {
		dir := fmt.Sprint(rng.Intn(300))
		list, err := w.ReadDir(dir)
		if err != nil {
			r.Violate("lookup", "disc of %d files: %v", n, err)
			return
		}
		for _, fi := range list {
			var j int
			if _, err := fmt.Sscanf(fi.Name(), "f%d", &j); err != nil {
				continue
			}
			o, err := v.OpenExtent(fi.Extent())
			if err != nil {
				r.Violate("extent", "disc of %d files: %v: %v", n, leaves[j], err)
				return
			}
			r.Eval()
			if msg := mon.CheckReadAt(o, leaves[j].Src, leaves[j].Size, 0, 5000); msg != "" {
				r.Violate("extent-bytes", "disc of %d files: %v: %s", n, leaves[j], msg)
				return
			}
			o.Close()
		}
	}
	r.Distinct("main", "crowd")
	for _, l := range leaves {
		vta.Delete(l.URL)
	}
}
