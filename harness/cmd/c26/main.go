// C26: discs, caches and readers release what they open.
package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/pkg/vdisc"

	"vdiscverif/mon"
)

var (
	vt      *mon.VT
	srv     *httptest.Server
	failing int32 // reads of vt objects fail, 2: reads only
)

// held describes what the process holds at the moment.
type held struct {
	fds     []string // targets of descriptors, but for sockets
	sockets int
	maps    int
	work    []string // goroutines of the code under test
}

func fds() (files []string, sockets int) {
	es, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil {
			continue // the directory itself
		}
		if strings.HasPrefix(t, "socket:") {
			sockets++
			continue
		}
		if strings.HasPrefix(t, "/proc/") {
			continue
		}
		files = append(files, t)
	}
	sort.Strings(files)
	return
}

// discMaps counts memory mappings of files that have been deleted or lie in
// the scratch directory: those of discs.
func discMaps() int {
	b, err := ioutil.ReadFile("/proc/self/maps")
	if err != nil {
		panic(err)
	}
	n := 0
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 5 && strings.HasPrefix(f[5], "/") && (strings.HasSuffix(l, "(deleted)") || strings.HasPrefix(f[5], scratch)) && !strings.Contains(f[5], "check.bin") {
			n++
		}
	}
	return n
}

func work() (w []string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/NVIDIA/vdisc/pkg/") && !strings.Contains(g, "main.work(") {
			w = append(w, g)
		}
	}
	return
}

func now() held {
	f, s := fds()
	return held{fds: f, sockets: s, maps: discMaps(), work: work()}
}

// more gives the entries of b that are not in a.
func more(a, b []string) (d []string) {
	n := map[string]int{}
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		n[x]--
		if n[x] < 0 {
			d = append(d, x)
		}
	}
	return
}

var scratch string

type openDisc struct {
	v     vdisc.VDisc
	w     *iso9660.Walker
	paths []string
	mode  mon.CacheMode
	files []closer
}

type closer interface {
	Read(p []byte) (int, error)
	ReadAt(p []byte, off int64) (int, error)
	Close() error
}

type world struct {
	r       *mon.Run
	rng     *rand.Rand
	dir     string
	discs   []string // good ones
	paths   map[string][]string
	bad     []string
	modes   []mon.CacheMode
	open    []*openDisc
	ops     map[string]int
	burns   int
	useHTTP bool
}

func (w *world) source(k int) string {
	switch {
	case w.useHTTP && k%3 == 0:
		return fmt.Sprintf("%s/f%d", srv.URL, k)
	case k%2 == 0:
		return "file://" + filepath.Join(w.dir, fmt.Sprintf("src%d", k%4))
	}
	return fmt.Sprintf("vt://s/%d", k%5)
}

// setup makes discs, good and bad.
func (w *world) setup() {
	for k := 0; k < 4; k++ {
		ioutil.WriteFile(filepath.Join(w.dir, fmt.Sprintf("src%d", k)), mon.Bytes(uint64(k), 0, 50000), 0666)
	}
	w.paths = map[string][]string{}
	for k := 0; k < 3; k++ {
		url := filepath.Join(w.dir, fmt.Sprintf("d%d.vdsc", k))
		var ls []*mon.Leaf
		for f := 0; f < 5; f++ {
			p := fmt.Sprintf("/a%d/f%d", f%2, f)
			ls = append(ls, &mon.Leaf{Path: p, URL: w.source(k + f), Size: int64(w.rng.Intn(50000))})
			w.paths[url] = append(w.paths[url], p)
		}
		ls = append(ls, &mon.Leaf{Path: "/gone", URL: "file://" + filepath.Join(w.dir, "src0"), Size: 5000})
		ls[len(ls)-1].URL = "vt://s/gone"
		w.paths[url] = append(w.paths[url], "/gone")
		vt.Put("vt://s/gone", &mon.VFile{Gen: true, ID: 9, Len: 5000})
		got, err := mon.Burn(url, false, ls)
		if err != nil {
			w.r.Violate("burn", "%v", err)
			return
		}
		vt.Delete("vt://s/gone")
		_ = got
		w.discs = append(w.discs, url)
	}
	good, err := ioutil.ReadFile(w.discs[0])
	if err != nil {
		panic(err)
	}
	put := func(name string, b []byte) {
		p := filepath.Join(w.dir, name)
		ioutil.WriteFile(p, b, 0666)
		w.bad = append(w.bad, p)
	}
	put("empty", nil)
	put("tiny", []byte{0x1f, 0x8b, 8})
	put("text", []byte("this is not a disc at all, but a text of some length"))
	put("cut", good[:len(good)/2])
	put("gz", []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 0xff, 1, 2, 3})
	flip := append([]byte{}, good...)
	flip[len(flip)/2] ^= 0x55
	put("flipped", flip)
	put("zeros", make([]byte, 4096))
	// damage at each of the first places, so that loading fails in
	// different stages
	plain := good
	if z, err := gzip.NewReader(bytes.NewReader(good)); err == nil {
		if plain, err = ioutil.ReadAll(z); err != nil {
			panic(err)
		}
	}
	for k := 0; k < 40 && 8*k+8 <= len(plain); k++ {
		b := append([]byte{}, plain...)
		for j := range b[8*k : 8*k+8] {
			b[8*k+j] = byte(w.rng.Intn(256))
		}
		put(fmt.Sprintf("word%d", k), b)
	}
	w.bad = append(w.bad, filepath.Join(w.dir, "missing"), "vt://s/none", "nosuch://x/y")
}

func (w *world) disc() *openDisc {
	if len(w.open) == 0 {
		return nil
	}
	return w.open[w.rng.Intn(len(w.open))]
}

// step does one operation.
func (w *world) step() {
	rng := w.rng
	op := ""
	switch k := rng.Intn(100); {
	case k < 8:
		if len(w.open) >= 3 {
			w.closeDisc(rng.Intn(len(w.open)))
		}
		op = "load"
		url := w.discs[rng.Intn(len(w.discs))]
		m := w.modes[rng.Intn(len(w.modes))]
		v, err := vdisc.Load(url, m.Cache)
		if err != nil {
			w.r.Violate("load", "%v", err)
			return
		}
		w.open = append(w.open, &openDisc{v: v, w: iso9660.NewWalker(v.Image()), paths: w.paths[url], mode: m})
	case k < 16:
		op = "failed load"
		v, err := vdisc.Load(w.bad[rng.Intn(len(w.bad))], w.modes[0].Cache)
		if err == nil {
			v.Close()
			op = "load of a damaged disc"
		}
	case k < 22:
		if len(w.open) > 0 {
			w.closeDisc(rng.Intn(len(w.open)))
			op = "close disc"
		}
	case k < 36:
		if d := w.disc(); d != nil {
			op = "open"
			p := d.paths[rng.Intn(len(d.paths))]
			if rng.Intn(4) == 0 {
				p += "x"
				op = "failed open"
			}
			if rng.Intn(2) == 0 {
				f, err := d.w.Open(p)
				if err == nil {
					d.files = append(d.files, f)
				}
			} else if fi, err := d.w.Stat(p); err == nil {
				o, err := d.v.OpenExtent(fi.Sys().(*iso9660.FileInfo).Extent())
				if err == nil {
					d.files = append(d.files, o)
				}
			}
			if len(d.files) > 4 {
				d.files[0].Close()
				d.files = d.files[1:]
			}
		}
	case k < 62:
		if d := w.disc(); d != nil && len(d.files) > 0 {
			op = "read"
			f := d.files[rng.Intn(len(d.files))]
			b := make([]byte, 1+rng.Intn(12000))
			var err error
			if rng.Intn(3) == 0 {
				_, err = f.Read(b)
			} else {
				_, err = f.ReadAt(b, int64(rng.Intn(50000)))
			}
			if err != nil {
				op = "read to the end or with a failure"
			}
		}
	case k < 68:
		if d := w.disc(); d != nil && len(d.files) > 0 {
			op = "close file"
			i := rng.Intn(len(d.files))
			d.files[i].Close()
			d.files = append(d.files[:i], d.files[i+1:]...)
		}
	case k < 74:
		if d := w.disc(); d != nil {
			op = "walk"
			d.w.Walk("/", func(p string, fi os.FileInfo, err error) error { return nil })
			d.w.ReadDir("/nope")
			d.w.Lstat("/a0/f0/x")
		}
	case k < 80:
		if d := w.disc(); d != nil {
			op = "read under failure"
			atomic.StoreInt32(&failing, int32(1+rng.Intn(2)))
			for t := 0; t < 4; t++ {
				d.v.Image().ReadAt(make([]byte, 30000), int64(rng.Intn(200000)))
			}
			if d.mode.Name != "none" {
				// pending fills see the failure, too
				for i := 0; i < 2; i++ {
					runtime.Gosched()
				}
			}
			atomic.StoreInt32(&failing, 0)
		}
	case k < 85:
		op = "burn"
		w.burns++
		var ls []*mon.Leaf
		for f := 0; f < 1+rng.Intn(12); f++ {
			ls = append(ls, &mon.Leaf{Path: fmt.Sprintf("/f%d", f), URL: w.source(f), Size: 5})
		}
		url := filepath.Join(w.dir, "burn.vdsc")
		switch rng.Intn(5) {
		case 0:
			op = "burn with a rejected file"
			ls = append(ls, &mon.Leaf{Path: "/f0", URL: w.source(2), Size: 5})
		case 1:
			op = "burn with a missing file"
			ls = append(ls, &mon.Leaf{Path: "/g", URL: "file://" + filepath.Join(w.dir, "missing"), Size: 5})
		case 2:
			op = "burn without a place"
			url = filepath.Join(w.dir, "src0", "x.vdsc")
		}
		mon.Burn(url, false, ls)
	case k < 89:
		op = "cache check"
		for _, m := range w.modes {
			if m.Disk != nil {
				m.Disk.CheckIntegrity()
			}
		}
	case k < 92:
		op = "lock"
		l, err := storage.Lock(filepath.Join(w.dir, ".lock.x"))
		if err != nil {
			w.r.Violate("lock", "%v", err)
			return
		}
		l.Close()
	case k < 95:
		op = "list"
		storage.Readdir(w.dir)
		storage.Readdir(filepath.Join(w.dir, "missing"))
		var d visit
		storage.Visit(w.dir, &d)
		storage.Stat(filepath.Join(w.dir, "src0"))
	case k < 98:
		op = "write"
		o, err := storage.Create(filepath.Join(w.dir, "obj"))
		if err != nil {
			w.r.Violate("create", "%v", err)
			return
		}
		o.Write(mon.Bytes(1, 0, rng.Intn(10000)))
		if rng.Intn(2) == 0 {
			if _, err := o.Commit(); err != nil {
				w.r.Violate("commit", "%v", err)
			}
		}
		// as every caller does; a commit alone does not release the writer
		o.Abort()
		storage.Create(filepath.Join(w.dir, "src0", "x"))
	default:
		op = "object"
		for _, u := range []string{filepath.Join(w.dir, "src1"), "vt://s/1", "zero:10", filepath.Join(w.dir, "missing")} {
			if o, err := storage.Open(u); err == nil {
				o.ReadAt(make([]byte, 100), 5)
				o.Close()
			}
		}
	}
	if op != "" {
		w.ops[op]++
		w.r.Count("operations: "+op, 1)
	}
}

type visit struct{ n int32 }

func (v *visit) VisitDir(url string, files []os.FileInfo) error { atomic.AddInt32(&v.n, 1); return nil }

func (w *world) closeDisc(i int) {
	d := w.open[i]
	w.open = append(w.open[:i], w.open[i+1:]...)
	// what was opened from a disc is closed before it
	for _, f := range d.files {
		f.Close()
	}
	if err := d.v.Close(); err != nil {
		w.r.Violate("close", "closing a disc: %v", err)
	}
}

func history(r *mon.Run, i int) {
	rng := r.Rng("history", i)
	end := r.Begin("history %d", i)
	defer end()
	w := &world{r: r, rng: rng, dir: filepath.Join(scratch, fmt.Sprintf("h%d", i)), ops: map[string]int{}, useHTTP: i%4 == 3}
	os.MkdirAll(w.dir, 0777)
	defer os.RemoveAll(w.dir)
	os.Setenv("TMPDIR", filepath.Join(w.dir, "tmp"))
	os.Mkdir(filepath.Join(w.dir, "tmp"), 0777)
	w.setup()
	ra := rng.Intn(4)
	w.modes = mon.Modes(filepath.Join(w.dir, "cache"), []int64{1000, 4096, 20000}[rng.Intn(3)], 16, ra, int64(ra))
	if r.Failed() {
		return
	}
	runtime.GC()
	before := now()
	atomic.StoreInt64(&vt.MaxOpen, 0)
	n := 400
	peak, peakMaps, peakSock := 0, 0, 0
	for s := 0; s < n && !r.Failed(); s++ {
		w.step()
		f, so := fds()
		if d := len(f) - len(before.fds); d > peak {
			peak = d
			if d > 100 {
				r.Violate("growth", "history %d: %d more descriptors than before after %d operations with %d discs open, the last ones %q", i, d, s, len(w.open), more(before.fds, f)[d-3:])
			}
		}
		if d := so - before.sockets; d > peakSock {
			peakSock = d
		}
		if s%16 == 0 {
			if m := discMaps() - before.maps; m > len(w.open) {
				r.Violate("maps", "history %d: %d mappings of discs, %d discs open, after %d operations", i, m, len(w.open), s)
			} else if m > peakMaps {
				peakMaps = m
			}
		}
		r.Eval()
	}
	for len(w.open) > 0 {
		w.closeDisc(0)
	}
	for _, m := range w.modes {
		m.Wait()
	}
	// what is left
	var after held
	var extra []string
	for t := 0; t < 500; t++ {
		after = now()
		extra = more(before.fds, after.fds)
		if len(extra) == 0 && len(after.work) <= len(before.work) && after.maps <= before.maps && atomic.LoadInt64(&vt.OpenNow) == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	r.EvalN(4)
	if len(extra) > 0 {
		r.Violate("descriptors", "history %d: %d descriptors are left, the first one of %s (operations %v)", i, len(extra), extra[0], w.ops)
	}
	if after.maps > before.maps {
		r.Violate("maps", "history %d: %d mappings of discs are left", i, after.maps-before.maps)
	}
	if x := atomic.LoadInt64(&vt.OpenNow); x != 0 {
		r.Violate("objects", "history %d: %d backing objects are left open (operations %v)", i, x, w.ops)
		atomic.StoreInt64(&vt.OpenNow, 0)
	}
	if len(after.work) > len(before.work) {
		r.Violate("work", "history %d: %d goroutines are left, all of them:\n%s", i, len(after.work)-len(before.work), after.work)
	}
	if peakSock > 60 {
		r.Violate("sockets", "history %d: %d more sockets than before", i, peakSock)
	}
	if es, _ := ioutil.ReadDir(filepath.Join(w.dir, "tmp")); len(es) > 0 {
		r.Violate("temporary", "history %d: %d temporary files are left, the first one %s", i, len(es), es[0].Name())
	}
	if es, _ := ioutil.ReadDir(w.dir); true {
		for _, e := range es {
			if strings.HasPrefix(e.Name(), ".tmp") {
				r.Violate("temporary", "history %d: temporary file %s is left", i, e.Name())
				break
			}
		}
	}
	r.Max("descriptors held at once", int64(peak))
	r.Max("mappings held at once", int64(peakMaps))
	r.Max("sockets held at once", int64(peakSock))
	r.Max("backing objects open at once", atomic.LoadInt64(&vt.MaxOpen))
	var ks []string
	for k, n := range w.ops {
		ks = append(ks, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(ks)
	r.Distinct("main", strings.Join(ks, ","))
	if i < 2 {
		r.Sample("history %d: %s; at most %d descriptors, %d mappings more than before", i, strings.Join(ks, ", "), peak, peakMaps)
	}
}

// many: descriptors do not add up over concurrent readers of one disc.
func many(r *mon.Run, i int) {
	rng := r.Rng("many", i)
	end := r.Begin("readers %d", i)
	defer end()
	w := &world{r: r, rng: rng, dir: filepath.Join(scratch, fmt.Sprintf("m%d", i)), ops: map[string]int{}}
	os.MkdirAll(filepath.Join(w.dir, "tmp"), 0777)
	defer os.RemoveAll(w.dir)
	os.Setenv("TMPDIR", filepath.Join(w.dir, "tmp"))
	w.setup()
	if r.Failed() {
		return
	}
	m := mon.Modes(filepath.Join(w.dir, "cache"), 8192, 16, 2, 4)[i%3]
	before := now()
	v, err := vdisc.Load(w.discs[0], m.Cache)
	if err != nil {
		r.Violate("load", "%v", err)
		return
	}
	var wg sync.WaitGroup
	const readers = 6
	for g := 0; g < readers; g++ {
		rg := r.Rng("reader", i, g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 150; k++ {
				wk := iso9660.NewWalker(v.Image())
				f, err := wk.Open(w.paths[w.discs[0]][rg.Intn(6)])
				if err != nil {
					continue
				}
				for q := 0; q < 3; q++ {
					f.ReadAt(make([]byte, 1+rg.Intn(9000)), int64(rg.Intn(50000)))
				}
				f.Close()
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	peak := 0
	for run := true; run; {
		select {
		case <-done:
			run = false
		default:
			f, _ := fds()
			if d := len(f) - len(before.fds); d > peak {
				peak = d
			}
			r.Tick()
		}
	}
	// each reader touches at most three blocks at once, each with the
	// entry, its lock, its temporary file and the source
	if peak > 200 {
		r.Violate("growth", "readers %d: %d descriptors more than before with %d readers of one disc", i, peak, readers)
	}
	r.EvalN(readers * 150)
	if err := v.Close(); err != nil {
		r.Violate("close", "%v", err)
	}
	m.Wait()
	var extra []string
	for t := 0; t < 500; t++ {
		f, _ := fds()
		extra = more(before.fds, f)
		if len(extra) == 0 && len(work()) <= len(before.work) && atomic.LoadInt64(&vt.OpenNow) == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if g := work(); len(extra) > 0 || len(g) > len(before.work) || atomic.LoadInt64(&vt.OpenNow) != 0 {
		r.Violate("left", "readers %d: left: %d descriptors %q, %d goroutines, %d backing objects", i, len(extra), extra, len(g), atomic.LoadInt64(&vt.OpenNow))
		atomic.StoreInt64(&vt.OpenNow, 0)
	}
	r.Max("descriptors of concurrent readers", int64(peak))
	r.Count("concurrent readers", readers)
}

var _ driver.Visitor = (*visit)(nil)

func main() {
	mon.Main("C26", "histories of loads, opens, reads, failures and closes, told apart by how often each kind of operation happened", func(r *mon.Run) {
		scratch = r.Dir("w")
		vt = mon.NewVT("vt")
		for k := 0; k < 5; k++ {
			vt.Put(fmt.Sprintf("vt://s/%d", k), &mon.VFile{Gen: true, ID: uint64(k), Len: 1 << 30})
		}
		vt.Hook = func(op mon.Op) error {
			if f := atomic.LoadInt32(&failing); f != 0 && (op.Kind == "read" || op.Kind == "open" && f == 1) {
				return mon.ErrInjected
			}
			return nil
		}
		srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			rw.Header().Set("Content-Type", "application/octet-stream")
			http.ServeContent(rw, q, "", time.Unix(0, 0), strings.NewReader(strings.Repeat("x", 60000)))
		}))
		r.Assume("connections kept for reuse by the HTTP client are not counted as held, but bounded")
		// what is kept for a server is there from the first request on
		if o, err := storage.Open(srv.URL + "/f0"); err == nil {
			o.ReadAt(make([]byte, 10), 5)
			o.Close()
		} else {
			r.Violate("open", "%v", err)
		}
		// no collector hides what was not closed
		debug.SetGCPercent(-1)
		for i := 0; i < r.N(14, 400) && !r.Enough(); i++ {
			history(r, i)
			runtime.GC()
		}
		for i := 0; i < r.N(6, 60) && !r.Enough(); i++ {
			many(r, i)
			runtime.GC()
		}
		r.Need("operations: read", 100)
		r.Need("operations: failed load", 50)
		r.Need("operations: burn", 20)
	})
}
