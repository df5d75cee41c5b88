// C28: the declared size governs; changed sources are never passed off.
package main

import (
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
	ramdriver "github.com/NVIDIA/vdisc/pkg/storage/ram"
	"github.com/NVIDIA/vdisc/pkg/vdisc"

	"vdiscverif/mon"
)

var (
	vt  *mon.VT
	srv *httptest.Server
	web = struct {
		sync.Mutex
		m map[string]*mon.VFile
		s map[string]int // status to answer with
	}{m: map[string]*mon.VFile{}, s: map[string]int{}}
)

type vreader struct {
	f *mon.VFile
	n int64
	p int64
}

func (v *vreader) Read(p []byte) (int, error) {
	if v.p >= v.n {
		return 0, io.EOF
	}
	b := v.f.Range(v.p, len(p))
	copy(p, b)
	v.p += int64(len(b))
	return len(b), nil
}

func (v *vreader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		v.p = off
	case io.SeekCurrent:
		v.p += off
	case io.SeekEnd:
		v.p = v.n + off
	}
	return v.p, nil
}

// source is one object behind a file of the disc.
type source struct {
	kind   string // vt, file, http, ram
	url    string
	path   string // kind file
	id     uint64
	actual int64 // bytes it has now
	way    string
}

func (s *source) content(n int64) *mon.VFile { return &mon.VFile{Gen: true, ID: s.id, Len: n} }

// put makes the source hold n bytes.
func (s *source) put(n int64) {
	s.actual = n
	switch s.kind {
	case "vt":
		vt.Put(s.url, s.content(n))
	case "file":
		b := s.content(n).Range(0, int(n))
		if err := ioutil.WriteFile(s.path, b, 0666); err != nil {
			panic(err)
		}
	case "http":
		web.Lock()
		web.m[s.url] = s.content(n)
		web.Unlock()
	case "ram":
		w, err := storage.Create(s.url)
		if err != nil {
			panic(err)
		}
		if _, err := w.Write(s.content(n).Range(0, int(n))); err != nil {
			panic(err)
		}
		if _, err := w.Commit(); err != nil {
			panic(err)
		}
	}
}

// spoil makes every read of the source fail.
func (s *source) spoil(rng *rand.Rand) {
	s.actual = 0
	switch s.kind {
	case "vt":
		s.way = "vanished"
		vt.Delete(s.url)
	case "file":
		os.Remove(s.path)
		s.way = "vanished"
		if rng.Intn(3) == 0 {
			s.way = "replaced by a directory"
			os.Mkdir(s.path, 0777)
		}
	case "ram":
		s.way = "vanished"
		storage.Remove(s.url)
	case "http":
		web.Lock()
		web.s[s.url] = []int{404, 403, 410}[rng.Intn(3)]
		s.way = fmt.Sprintf("answering %d", web.s[s.url])
		web.Unlock()
	}
}

type file struct {
	*mon.Leaf
	src   *source
	lba   iso9660.LogicalBlockAddress
	start int64
}

// bad tells whether the range of the file needs bytes its source lacks.
func (f *file) bad(off, end int64) bool { return end > f.src.actual && off < end }

// touchy tells whether any read of the file may fail: its cache blocks may
// need missing bytes, or the driver may notice that the object is too short.
func (f *file) touchy(cached bool) bool {
	return (cached || f.src.kind == "http") && f.bad(0, f.Size)
}

type tester struct {
	r     *mon.Run
	what  string
	size  int64
	files []*file
	ref   *mon.VFile
	warm  bool // the cache may hold bytes from before the change
	cache bool
}

// judge decides one read of n bytes at off from something of the given size
// with the given expected content; bad tells whether the range needs missing
// bytes, near whether its cache blocks do.
func (t *tester) judge(what string, size, off int64, n int, m int, err error, got []byte, want *mon.VFile, bad, touched bool) {
	t.r.Eval()
	avail := size - off
	if avail < 0 {
		avail = 0
	}
	if avail > int64(n) {
		avail = int64(n)
	}
	where := fmt.Sprintf("%s: %s: %d bytes at %d of %d", t.what, what, n, off, size)
	if m < 0 || int64(m) > avail {
		t.r.Violate("size", "%s returned %d bytes", where, m)
		return
	}
	if d := mon.Diff(got[:m], want.Range(off, m)); d != "" {
		t.r.Violate("bytes", "%s: %s", where, d)
		return
	}
	full := int64(m) == avail
	switch {
	case bad && !t.warm:
		if full || err == nil || err == io.EOF {
			t.r.Violate("passed-off", "%s returned %d bytes and error %v although the source lacks some of them", where, m, err)
			return
		}
		t.r.Count("reads of missing bytes that failed", 1)
	case bad || touched:
		// bytes from a cache, or a failure
		if !full && (err == nil || err == io.EOF) {
			t.r.Violate("passed-off", "%s returned %d bytes and error %v", where, m, err)
			return
		}
	default:
		if !full || (err != nil && err != io.EOF) {
			t.r.Violate("available", "%s returned %d bytes and error %v although the source has them", where, m, err)
			return
		}
		t.r.Count("reads of available bytes", 1)
	}
	if full && err == io.EOF && off+int64(n) < size {
		t.r.Violate("end", "%s returned end of file before the end", where)
	}
}

func (t *tester) readAt(what string, rd io.ReaderAt, size, off int64, n int, want *mon.VFile, bad, touched bool) {
	p := make([]byte, n)
	m, err := rd.ReadAt(p, off)
	if m > n {
		m = -1
	}
	t.judge(what, size, off, n, m, err, p, want, bad, touched)
}

// all reads everything in sequence; only whether it ends in an error counts.
func (t *tester) all(what string, rd io.Reader, size int64, want *mon.VFile, bad bool, chunk int) {
	t.r.Eval()
	got, err := mon.ReadAllChunks(rd, size+1<<16, []int{chunk})
	if int64(len(got)) > size {
		t.r.Violate("size", "%s: %s: reading all gave %d bytes of %d", t.what, what, len(got), size)
		return
	}
	if d := mon.Diff(got, want.Range(0, len(got))); d != "" {
		t.r.Violate("bytes", "%s: %s: reading all: %s", t.what, what, d)
		return
	}
	if err == nil && int64(len(got)) != size {
		t.r.Violate("passed-off", "%s: %s: reading all ended after %d bytes of %d without an error", t.what, what, len(got), size)
		return
	}
	if err == nil && bad && !t.warm {
		t.r.Violate("passed-off", "%s: %s: reading all gave %d bytes although the source lacks some", t.what, what, len(got))
	}
	if err != nil && !bad {
		t.r.Violate("available", "%s: %s: reading all failed after %d bytes of %d: %v", t.what, what, len(got), size, err)
	}
	t.r.Count("whole reads", 1)
}

func offsets(rng *rand.Rand, size, actual, bsize int64) (off int64, n int) {
	switch rng.Intn(7) {
	case 0:
		off = actual - int64(rng.Intn(6))
	case 1:
		off = actual + int64(rng.Intn(6))
	case 2:
		off = size - 1 - int64(rng.Intn(10))
	case 3:
		off = size - 1 + int64(rng.Intn(10))
	case 4:
		off = rng.Int63n(size/bsize+1) * bsize
	default:
		off = rng.Int63n(size + 1)
	}
	if off < 0 {
		off = 0
	}
	switch rng.Intn(4) {
	case 0:
		n = 1 + rng.Intn(8)
	case 1:
		n = int(size-off) + rng.Intn(5) - 2
	case 2:
		n = int(actual - off)
	default:
		n = 1 + rng.Intn(20000)
	}
	if n < 1 {
		n = 1
	}
	return
}

func disc(r *mon.Run, i int) {
	rng := r.Rng("disc", i)
	scratch := r.Dir(fmt.Sprintf("d%d", i))
	defer os.RemoveAll(scratch)
	kinds := []string{"vt", "file", "file", "http", "ram"}
	var srcs []*source
	t := &tester{r: r}
	model := mon.NewModel(func(string) bool { return true })
	var leaves []*mon.Leaf
	nf := 1 + rng.Intn(4)
	for k := 0; k < nf; k++ {
		s := &source{kind: kinds[rng.Intn(len(kinds))], id: uint64(1 + i*8 + k)}
		switch s.kind {
		case "vt":
			s.url = fmt.Sprintf("vt://s/%d/%d", i, k)
		case "file":
			s.path = filepath.Join(scratch, fmt.Sprintf("src%d", k))
			s.url = "file://" + s.path
		case "http":
			s.url = fmt.Sprintf("%s/%d/%d", srv.URL, i, k)
		case "ram":
			s.url = fmt.Sprintf("ram:///c28/%d/%d", i, k)
		}
		size := mon.Size(rng, 60000)
		if rng.Intn(4) == 0 {
			size = int64(1+rng.Intn(8)) * 2048
		}
		s.put(size)
		switch rng.Intn(6) { // the declaration is wrong from the start
		case 0:
			s.put(size + 1 + int64(rng.Intn(5000)))
			r.Count("sources declared too small", 1)
		case 1:
			if size > 0 && s.kind != "ram" { // an object in memory knows better
				s.put(rng.Int63n(size))
				r.Count("sources declared too large", 1)
			}
		}
		l := &mon.Leaf{Path: fmt.Sprintf("/d/f%d", k), URL: s.url, Size: size, Src: s.content(size)}
		model.Add(l)
		leaves = append(leaves, l)
		srcs = append(srcs, s)
	}
	url, err := mon.Burn(fmt.Sprintf("vt://t/%d.vdsc", i), false, leaves)
	if err != nil {
		r.Violate("burn", "disc %d: %v", i, err)
		return
	}
	hdr := vt.Lookup(url + ".isohdr").Data
	ref, _, err := mon.RefImage(hdr, model)
	if err != nil {
		r.Violate("image", "disc %d: %v", i, err)
		return
	}
	bsize := []int64{512, 2048, 5000, 1 << 16}[rng.Intn(4)]
	ra := rng.Intn(3)
	mode := mon.Modes(filepath.Join(scratch, "cache"), bsize, 64, ra, int64(ra))[i%3]
	defer mode.Wait()
	v, err := vdisc.Load(url, mode.Cache)
	if err != nil {
		r.Violate("load", "disc %d: %v", i, err)
		return
	}
	w := iso9660.NewWalker(v.Image())
	for k, l := range leaves {
		fi, err := w.Stat(l.Path)
		if err != nil {
			r.Violate("stat", "disc %d: %v", i, err)
			return
		}
		f := &file{Leaf: l, src: srcs[k], lba: fi.Sys().(*iso9660.FileInfo).Extent()}
		f.start = int64(f.lba) * 2048
		t.files = append(t.files, f)
	}
	t.size = v.Image().Size()
	t.cache = mode.Name != "none"
	if t.cache && rng.Intn(4) == 0 {
		t.warm = true
		for k := 0; k < 4; k++ {
			f := t.files[rng.Intn(nf)]
			if f.Size > 0 {
				off, n := offsets(rng, f.Size, f.Size, bsize)
				v.Image().ReadAt(make([]byte, n), f.start+off)
			}
		}
	}

	// the sources change
	var ways []string
	for _, f := range t.files {
		switch rng.Intn(6) {
		case 0:
			f.src.way = "unchanged"
		case 1, 2:
			n := f.Size + 1 + int64(rng.Intn(5000))
			f.src.put(n)
			f.src.way = "grown"
		case 3, 4:
			if f.Size == 0 {
				f.src.way = "unchanged"
				break
			}
			n := rng.Int63n(f.Size)
			switch rng.Intn(4) {
			case 0:
				n = f.Size - 1
			case 1:
				n = 0
			case 2:
				n = f.Size / bsize * bsize
				if n == f.Size {
					n = f.Size - 1
				}
			}
			f.src.put(n)
			f.src.way = "shrunk"
		case 5:
			f.src.spoil(rng)
		}
		r.Count("sources "+f.src.kind+" "+f.src.way, 1)
		ways = append(ways, fmt.Sprintf("%s:%s", f.src.kind, f.src.way))
	}
	hl := int64(len(hdr))
	if rng.Intn(6) == 0 {
		hl = rng.Int63n(int64(len(hdr)))
		vt.Put(url+".isohdr", &mon.VFile{Data: hdr[:hl]})
		ways = append(ways, "header shrunk")
		r.Count("headers shrunk", 1)
	}
	hdrCached := t.cache // the header has been read through the cache above
	t.what = fmt.Sprintf("disc %d, cache %s of %d bytes, warm %v", i, mode.Name, bsize, t.warm)
	sort.Strings(ways)
	r.Distinct("main", fmt.Sprintf("%s/%d/%v/%s", mode.Name, bsize, t.warm, strings.Join(ways, ",")))
	if i < 4 {
		r.Sample("%s: %s", t.what, strings.Join(ways, ", "))
	}

	if v.Image().Size() != t.size {
		r.Violate("image-size", "%s: image size %d, want %d", t.what, v.Image().Size(), t.size)
	}
	for _, f := range t.files {
		what := fmt.Sprintf("%q (declared %d, %s source %s with %d bytes)", f.Path, f.Size, f.src.kind, f.src.way, f.src.actual)
		badAll := f.bad(0, f.Size)
		o, err := v.OpenExtent(f.lba)
		if err != nil {
			r.Violate("extent", "%s: %s: %v", t.what, what, err)
			continue
		}
		if o.Size() != f.Size {
			r.Violate("size", "%s: %s: extent of %d bytes", t.what, what, o.Size())
		}
		if rng.Intn(2) == 0 {
			t.all(what+" extent", o, f.Size, f.Src, badAll, 1+rng.Intn(9000))
		}
		for q := 0; q < 6; q++ {
			off, n := offsets(rng, f.Size, f.src.actual, bsize)
			end := off + int64(n)
			if end > f.Size {
				end = f.Size
			}
			t.readAt(what+" extent", o, f.Size, off, n, f.Src, f.bad(off, end), f.touchy(t.cache))
		}
		o.Close()

		if hl == int64(len(hdr)) || t.cache && hdrCached && bsize >= 1<<16 {
			h, err := w.Open(f.Path)
			if err != nil {
				if hl == int64(len(hdr)) {
					r.Violate("open", "%s: %s: %v", t.what, what, err)
				}
				continue
			}
			t.all(what+" by path", h, f.Size, f.Src, badAll, 1+rng.Intn(9000))
			for q := 0; q < 4; q++ {
				off, n := offsets(rng, f.Size, f.src.actual, bsize)
				end := off + int64(n)
				if end > f.Size {
					end = f.Size
				}
				t.readAt(what+" by path", h, f.Size, off, n, f.Src, f.bad(off, end), f.touchy(t.cache))
			}
			h.Close()
		}
	}
	// the whole image
	img := v.Image()
	for q := 0; q < 12; q++ {
		var off int64
		var n int
		if q%3 == 0 {
			off, n = offsets(rng, t.size, t.size, 2048)
			if n > 300000 {
				n = 300000
			}
		} else {
			f := t.files[rng.Intn(nf)]
			o, m := offsets(rng, f.Size, f.src.actual, 2048)
			off, n = f.start+o, m
			if rng.Intn(3) == 0 {
				off -= int64(rng.Intn(4000))
			}
			if rng.Intn(3) == 0 {
				n += rng.Intn(4000)
			}
		}
		end := off + int64(n)
		bad, touched := false, false
		for _, f := range t.files {
			a, b := off-f.start, end-f.start
			if a < 0 {
				a = 0
			}
			if b > f.Size {
				b = f.Size
			}
			if a < b {
				bad = bad || f.bad(a, b)
				touched = touched || f.touchy(t.cache)
			}
		}
		warm := t.warm
		if hl < int64(len(hdr)) && off < int64(len(hdr)) {
			e := end
			if e > int64(len(hdr)) {
				e = int64(len(hdr))
			}
			if e > hl {
				bad = true
				if hdrCached {
					t.warm = true
				}
			}
			touched = true
		}
		t.readAt("image", img, t.size, off, n, ref, bad, touched)
		t.warm = warm
	}
	if err := v.Close(); err != nil {
		r.Violate("close", "%s: %v", t.what, err)
	}
	vt.Delete(url)
	vt.Delete(url + ".isohdr")
	for _, s := range srcs {
		vt.Delete(strings.Replace(s.url, srv.URL, "vt://none", 1))
	}
}

func main() {
	mon.Main("C28", "discs after their sources changed, told apart by cache mode and block size, whether the cache was warm, and the kinds of sources and changes", func(r *mon.Run) {
		vt = mon.NewVT("vt")
		ramdriver.RegisterDefaultDriver()
		srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			u := srv.URL + q.URL.Path
			web.Lock()
			f, st := web.m[u], web.s[u]
			web.Unlock()
			if f == nil || st != 0 {
				if st == 0 {
					st = 404
				}
				rw.WriteHeader(st)
				return
			}
			rw.Header().Set("Content-Type", "application/octet-stream")
			http.ServeContent(rw, q, "", mon.NewFI("x", 0, false).ModTime(), &vreader{f: f, n: f.Len})
		}))
		r.Assume("what a source keeps of its bytes is unchanged (replaced content of the same size cannot be told from the original without a version)")
		r.Parallel(r.N(1500, 40000), 0, func(i int) { disc(r, i) })
		r.Need("reads of missing bytes that failed", 1000)
		r.Need("reads of available bytes", 1000)
		r.Need("headers shrunk", 20)
	})
}
