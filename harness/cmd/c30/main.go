// C30: a burn publishes a complete disc or fails without one.
package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/vdisc"

	"vdiscverif/mon"
)

// plan is what happens to the operations of one burn. Burns are told apart by
// the host in their addresses.
type plan struct {
	mu    sync.Mutex
	ops   []mon.Op
	fail  int // index of the operation to fail, -1 for none
	err   error
	seen  func(op mon.Op)
	fired bool
}

var plans sync.Map

func hook(op mon.Op) error {
	h := op.URL[strings.Index(op.URL, "://")+3:]
	if i := strings.IndexByte(h, '/'); i >= 0 {
		h = h[:i]
	}
	v, ok := plans.Load(h)
	if !ok {
		return nil
	}
	p := v.(*plan)
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.seen != nil {
		p.seen(op)
	}
	if op.Kind == "close" || op.Kind == "abort" {
		return nil
	}
	p.ops = append(p.ops, op)
	if len(p.ops)-1 == p.fail {
		p.fired = true
		return p.err
	}
	return nil
}

type tree struct {
	ext    bool
	leaves []*mon.Leaf
	model  *mon.Model
}

func gen(rng *rand.Rand, vt *mon.VT, n int, max int64, tag string) *tree {
	t := &tree{ext: rng.Intn(2) == 0, model: mon.NewModel(func(string) bool { return true })}
	for k, p := range mon.GenPaths(rng, n, t.ext) {
		l := &mon.Leaf{Path: p}
		if rng.Intn(8) == 0 {
			l.Link, l.Target = true, mon.Target(rng, t.ext, nil)
		} else {
			l.Size = mon.Size(rng, max)
			if rng.Intn(5) == 0 {
				l.Size = 0
			}
			l.Src = &mon.VFile{Gen: true, ID: rng.Uint64(), Len: l.Size}
			l.URL = fmt.Sprintf("%s://%s/src/%d", vt.Scheme, tag, k)
			vt.Put(l.URL, l.Src)
		}
		if t.model.Add(l) {
			t.leaves = append(t.leaves, l)
		}
	}
	return t
}

// image loads a disc and gives all of its image.
func image(url string) ([]byte, error) {
	v, err := vdisc.Load(url, caching.NopCache)
	if err != nil {
		return nil, err
	}
	defer v.Close()
	img := v.Image()
	b := make([]byte, img.Size())
	n, err := img.ReadAt(b, 0)
	if err == io.EOF && n == len(b) {
		err = nil
	}
	if err == nil && n != len(b) {
		err = io.ErrUnexpectedEOF
	}
	return b, err
}

// complete judges a published disc: it loads, its image holds the header and
// every file.
func complete(url string, t *tree) string {
	img, err := image(url)
	if err != nil {
		return fmt.Sprintf("reading it fails: %v", err)
	}
	// the places of the files come from the header, which ends before the
	// first of them
	first := int64(len(img))
	for _, l := range t.leaves {
		if l.Link {
			continue
		}
		n := mon.DecodeISO(img).All()[mon.Clean(l.Path)]
		if n == nil || len(n.Extents) == 0 {
			return fmt.Sprintf("it lacks %v", l)
		}
		break
	}
	for _, n := range mon.DecodeISO(img).All() {
		for _, x := range n.Extents {
			if !n.Dir && !n.Link && int64(x.Start)*2048 < first {
				first = int64(x.Start) * 2048
			}
		}
	}
	ref, _, err := mon.RefImage(img[:first], t.model)
	if err != nil {
		return err.Error()
	}
	return mon.Diff(img, ref.Range(0, int(ref.Len)))
}

// faulted burns a tree once without faults and then once for every operation
// of that burn, failing it.
//
// Large headers are written in several pieces.
func faulted(r *mon.Run, vt *mon.VT, i int, large bool) {
	rng := r.Rng("burn "+vt.Scheme, i)
	tag := fmt.Sprintf("t%d", i)
	if large {
		rng = r.Rng("large burn "+vt.Scheme, i)
		tag = fmt.Sprintf("l%d", i)
	}
	n := rng.Intn(14)
	if i%10 == 9 {
		n = 60 + rng.Intn(60)
	}
	t := gen(rng, vt, n, 30000, tag)
	if large {
		src := &mon.VFile{Gen: true, ID: rng.Uint64(), Len: 3}
		url := fmt.Sprintf("%s://%s/shared", vt.Scheme, tag)
		vt.Put(url, src)
		for k := 0; k < 2600; k++ {
			l := &mon.Leaf{Path: fmt.Sprintf("many-%d/%d-%s", k%60, k, strings.Repeat("n", 100+rng.Intn(100))), URL: url, Size: 3, Src: src}
			if k%50 != 0 {
				l = &mon.Leaf{Path: l.Path, Link: true, Target: strings.Repeat("t", 200) + "/" + strings.Repeat("u", 100+rng.Intn(100))}
			}
			if t.model.Add(l) {
				t.leaves = append(t.leaves, l)
			}
		}
	}
	end := r.Begin("tree %s %d", vt.Scheme, i)
	defer end()
	url := fmt.Sprintf("%s://%s/disc.vdsc", vt.Scheme, tag)
	p := &plan{fail: -1}
	// no disc may be seen before its header is
	p.seen = func(op mon.Op) {
		if op.Kind == "commit" && strings.Contains(op.URL, "disc.vdsc") && !strings.Contains(op.URL, ".isohdr") {
			found := false
			for _, k := range vt.Keys() {
				if strings.HasPrefix(k, tag+"|") && strings.Contains(k, ".isohdr") {
					found = true
				}
			}
			if !found {
				r.Violate("order", "%s: the disc is published before its header", url)
			}
			r.Count("publications", 1)
		}
	}
	plans.Store(tag, p)
	got, err := mon.Burn(url, t.ext, t.leaves)
	if err != nil {
		r.Violate("burn", "%s: burning fails without a fault: %v", url, err)
		return
	}
	if vt.Lookup(got) == nil {
		r.Violate("named", "%s: nothing is stored at the address reported, %s", url, got)
		return
	}
	r.Eval()
	if s := complete(got, t); s != "" {
		r.Violate("complete", "%s: the disc burned is not complete: %s", got, s)
	}
	p.mu.Lock()
	ops := 0
	kinds := ""
	for k, op := range p.ops {
		// what the check itself read to compare is not part of the burn
		if op.Kind == "commit" && op.URL == url {
			ops = k + 1
			break
		}
	}
	trace := append([]mon.Op{}, p.ops[:ops]...)
	p.mu.Unlock()
	plans.Delete(tag)
	for _, op := range trace {
		kinds += op.Kind[:1]
	}
	r.Distinct("main", vt.Scheme+kinds)
	if i < 3 {
		r.Sample("%s: %d leaves, operations %s", url, len(t.leaves), mon.Trunc(kinds, 80))
	}
	for k := range trace {
		if r.Enough() {
			return
		}
		if len(trace) > 40 && trace[k].Kind == "open" && (large || rng.Intn(8) != 0) {
			continue
		}
		for variant := 0; variant < 4; variant++ {
			if large && variant > 1 {
				break
			}
			op := trace[k]
			q := &plan{fail: k, err: mon.ErrInjected}
			switch variant {
			case 1:
				if op.Kind != "write" {
					continue
				}
				q.err = mon.ErrShort{N: rng.Intn(op.N + 1)}
			case 2:
				q.err = mon.Fault(rng.Intn(20))
			case 3:
				if op.Kind != "write" || op.N == 0 {
					continue
				}
				q.err = mon.ErrShort{N: op.N - 1}
			}
			ftag := fmt.Sprintf("f%s-%d-%d", tag, k, variant)
			leaves := make([]*mon.Leaf, len(t.leaves))
			for x, l := range t.leaves {
				c := *l
				if !c.Link {
					c.URL = strings.Replace(c.URL, "://"+tag+"/", "://"+ftag+"/", 1)
					vt.Put(c.URL, c.Src)
				}
				leaves[x] = &c
			}
			furl := fmt.Sprintf("%s://%s/disc.vdsc", vt.Scheme, ftag)
			var old *mon.VFile
			if !vt.Versioned && rng.Intn(3) == 0 {
				old = &mon.VFile{Data: []byte("what was there before")}
				vt.Put(furl, old)
			}
			plans.Store(ftag, q)
			var got string
			var err error
			msg, panicked := mon.Catch(func() { got, err = mon.Burn(furl, t.ext, leaves) })
			plans.Delete(ftag)
			what := fmt.Sprintf("%s with %d leaves, operation %d (%s %s of %d bytes) failing with %v", furl, len(leaves), k, op.Kind, op.URL, op.N, q.err)
			r.Eval()
			if panicked {
				r.Violate("panic", "%s: %s", what, msg)
				return
			}
			q.mu.Lock()
			fired := q.fired
			q.mu.Unlock()
			if !fired {
				r.Count("faults not reached", 1)
			} else {
				r.Count("faults in "+op.Kind, 1)
				if large {
					r.Count("faults with a large header", 1)
				}
				if err == nil {
					r.Violate("unreported", "%s: the burn reports success (%s)", what, got)
				}
				if f := vt.Lookup(furl); f != old {
					r.Violate("appeared", "%s: there is a disc after all", what)
				}
				for _, key := range keysOf(vt, ftag) {
					if strings.Contains(key, "disc.vdsc") && !strings.Contains(key, ".isohdr") && !(old != nil && !strings.Contains(key, "?")) {
						r.Violate("appeared", "%s: %q is stored after all", what, key)
					}
				}
			}
			for _, key := range keysOf(vt, ftag) {
				vt.Delete(vt.Scheme + "://" + strings.Replace(key, "|", "", 1))
			}
			r.Tick()
		}
	}
	for _, key := range keysOf(vt, tag) {
		vt.Delete(vt.Scheme + "://" + strings.Replace(key, "|", "", 1))
	}
}

func keysOf(vt *mon.VT, tag string) []string {
	var out []string
	for _, k := range vt.Keys() {
		if strings.HasPrefix(k, tag+"|") {
			out = append(out, k)
		}
	}
	return out
}

// limited fails after a number of bytes.
type limited struct {
	b     bytes.Buffer
	left  int64
	err   error
	whole bool // the write reaching the limit transfers nothing
	hit   bool
}

func (w *limited) Write(p []byte) (int, error) {
	if w.left >= 0 && int64(len(p)) > w.left {
		n := int(w.left)
		if w.whole {
			n = 0
		}
		w.b.Write(p[:n])
		w.hit = true
		return n, w.err
	}
	w.left -= int64(len(p))
	if w.left < 0 {
		w.left = -1
	}
	return w.b.Write(p)
}

func volume(t *tree, open func(l *mon.Leaf) storage.Object) (*iso9660.Volume, error) {
	v := iso9660.NewPosixPortableVolume()
	if t.ext {
		v = iso9660.NewNvidiaExtendedVolume()
	}
	for _, l := range t.leaves {
		var err error
		if l.Link {
			err = v.AddSymlink(l.Path, l.Target)
		} else {
			err = v.AddFile(l.Path, open(l))
		}
		if err != nil {
			return nil, err
		}
	}
	return v, nil
}

// standalone writes images in full.
func standalone(r *mon.Run, vt *mon.VT, i int) {
	rng := r.Rng("standalone", i)
	tag := fmt.Sprintf("s%d", i)
	t := gen(rng, vt, rng.Intn(25), 60000, tag)
	end := r.Begin("image %d", i)
	defer end()
	defer func() {
		for _, key := range keysOf(vt, tag) {
			vt.Delete(vt.Scheme + "://" + strings.Replace(key, "|", "", 1))
		}
	}()
	plain := func(l *mon.Leaf) storage.Object { return mon.NewMemObject(l.URL, l.Src) }
	what := fmt.Sprintf("image %d of %d leaves", i, len(t.leaves))
	var full []byte
	// both carry the time they were made, so several tries
	diff := ""
	for try := 0; try < 6; try++ {
		var b bytes.Buffer
		v, err := volume(t, plain)
		if err != nil {
			r.Violate("add", "%s: %v", what, err)
			return
		}
		url := fmt.Sprintf("%s://%s/disc%d.vdsc", vt.Scheme, tag, try)
		got, err := mon.Burn(url, t.ext, t.leaves)
		if err != nil {
			r.Violate("burn", "%s: burning fails: %v", what, err)
			return
		}
		var n int64
		msg, panicked := mon.Catch(func() { n, err = v.WriteTo(&b) })
		if panicked {
			r.Violate("panic", "%s: writing it panics: %s", what, msg)
			return
		}
		if err != nil || n != int64(b.Len()) {
			r.Violate("standalone", "%s: writing it reports %d bytes and error %v, %d bytes were written", what, n, err, b.Len())
			return
		}
		full = b.Bytes()
		img, err := image(got)
		if err != nil {
			r.Violate("burn", "%s: reading the burned disc: %v", what, err)
			return
		}
		if diff = mon.Diff(full, img); diff == "" {
			break
		}
	}
	r.Eval()
	if diff != "" {
		r.Violate("different", "%s: written in full and burned differ: %s", what, diff)
		return
	}
	r.Count("images compared", 1)
	r.Count("image bytes", int64(len(full)))
	r.Distinct("main", fmt.Sprintf("image %x", mon.Sum(full)))
	files := 0
	for _, l := range t.leaves {
		if !l.Link && l.Size > 0 {
			files++
		}
	}
	// failing outputs
	for k := 0; k < 12 && !r.Enough(); k++ {
		v, err := volume(t, plain)
		if err != nil {
			return
		}
		w := &limited{left: rng.Int63n(int64(len(full))), err: mon.Fault(rng.Intn(20)), whole: rng.Intn(2) == 0}
		if k == 0 {
			w.left = int64(len(full)) - 1
		}
		if k == 1 {
			w.left = int64(len(full)) - 1 - rng.Int63n(2048)
		}
		meta := k%3 == 2
		at := w.left
		msg, panicked := mon.Catch(func() {
			if meta {
				_, err = v.WriteMetadataTo(w)
			} else {
				_, err = v.WriteTo(w)
			}
		})
		r.Eval()
		if panicked {
			r.Violate("panic", "%s: an output failing at byte %d of %d makes writing panic: %s", what, at, len(full), msg)
			return
		}
		if w.hit {
			r.Count("failed outputs", 1)
			if err == nil {
				r.Violate("unreported", "%s: the output failing at byte %d of %d with %v is not reported", what, at, len(full), w.err)
			}
		} else if !meta {
			r.Violate("unwritten", "%s: writing it again made %d bytes instead of %d", what, w.b.Len(), len(full))
		}
	}
	// failing sources
	for k := 0; k < 12 && files > 0 && !r.Enough(); k++ {
		var victim *mon.Leaf
		for victim == nil || victim.Link || victim.Size == 0 {
			victim = t.leaves[rng.Intn(len(t.leaves))]
		}
		from := rng.Int63n(victim.Size)
		cut := k%2 == 0
		fault := mon.Fault(rng.Intn(20))
		hit := false
		v, err := volume(t, func(l *mon.Leaf) storage.Object {
			o := mon.NewMemObject(l.URL, l.Src)
			if l == victim {
				return &failing{o, from, cut, fault, &hit}
			}
			return o
		})
		if err != nil {
			return
		}
		var b bytes.Buffer
		msg, panicked := mon.Catch(func() { _, err = v.WriteTo(&b) })
		r.Eval()
		how := fmt.Sprintf("failing with %v", fault)
		if cut {
			how = "ending"
		}
		if panicked {
			r.Violate("panic", "%s: the source of %v %s at byte %d makes writing panic: %s", what, victim, how, from, msg)
			return
		}
		if hit {
			r.Count("failed sources", 1)
		}
		if err == nil {
			r.Violate("unreported", "%s: the source of %v %s at byte %d is not reported", what, victim, how, from)
		}
	}
}

// failing cannot be read in full.
type failing struct {
	*mon.MemObject
	from int64
	cut  bool
	err  error
	hit  *bool
}

func (f *failing) ReadAt(p []byte, off int64) (int, error) {
	if off+int64(len(p)) <= f.from {
		return f.MemObject.ReadAt(p, off)
	}
	n := 0
	if off < f.from {
		n, _ = f.MemObject.ReadAt(p[:f.from-off], off)
	}
	*f.hit = true
	if f.cut {
		return n, io.EOF
	}
	return n, f.err
}

func (f *failing) Read(p []byte) (int, error) {
	off, err := f.MemObject.Seek(0, io.SeekCurrent)
	if err != nil {
		return 0, err
	}
	n, err := f.ReadAt(p, off)
	f.MemObject.Seek(off+int64(n), io.SeekStart)
	return n, err
}

// command burns with the command-line tool from lists with a problem.
func command(r *mon.Run, i int) {
	tool := os.Getenv("VERIF_TOOL")
	rng := r.Rng("command", i)
	dir := r.Dir(fmt.Sprintf("cli%d", i))
	n := 1 + rng.Intn(6)
	bad := rng.Intn(n)
	kind := []string{"none", "missing source", "size", "columns", "quote", "name", "duplicate", "output", "header", "no list"}[i%10]
	var list bytes.Buffer
	for k := 0; k < n; k++ {
		src := filepath.Join(dir, fmt.Sprintf("src%d", k))
		data := mon.Bytes(uint64(k), 0, rng.Intn(5000))
		ioutil.WriteFile(src, data, 0644)
		name, size := fmt.Sprintf("f%d", k), fmt.Sprint(len(data))
		if k == bad {
			switch kind {
			case "missing source":
				src += "gone"
			case "size":
				size = []string{"x", "", "1e3", "99999999999999999999"}[rng.Intn(4)]
			case "columns":
				fmt.Fprintf(&list, "%s,%s\n", name, src)
				continue
			case "quote":
				fmt.Fprintf(&list, "%s,\"%s,%s\n", name, src, size)
				continue
			case "name":
				name = "a\x01b"
			}
		}
		fmt.Fprintf(&list, "%s,%s,%s\n", name, src, size)
		if k == bad && kind == "duplicate" {
			fmt.Fprintf(&list, "%s,%s,%s\n", name, src, size)
		}
	}
	csv := filepath.Join(dir, "list.csv")
	if kind != "no list" {
		ioutil.WriteFile(csv, list.Bytes(), 0644)
	}
	out := filepath.Join(dir, "disc.vdsc")
	if kind == "output" {
		os.MkdirAll(filepath.Join(out, "taken"), 0755)
	}
	if kind == "header" {
		os.MkdirAll(filepath.Join(out+".isohdr", "taken"), 0755)
	}
	cmd := exec.Command(tool, "burn", "-o", out, "-i", csv)
	msg, err := cmd.CombinedOutput()
	r.Eval()
	st, serr := os.Stat(out)
	there := serr == nil && !st.IsDir()
	what := fmt.Sprintf("command %d, problem %q in line %d of %d", i, kind, bad+1, n)
	if kind == "none" {
		if err != nil || !there {
			r.Violate("command", "%s: burning failed: %v %s", what, err, mon.Trunc(string(msg), 300))
		} else if _, err := image(out); err != nil {
			r.Violate("command", "%s: reading the disc: %v", what, err)
		}
		return
	}
	r.Count("failed commands", 1)
	r.Distinct("main", "command "+kind)
	if err == nil {
		r.Violate("command", "%s: the command reports success", what)
	}
	if there {
		r.Violate("command", "%s: there is a disc after all", what)
	}
}

func main() {
	mon.Main("C30", "sequences of operations of burns each failed at every place, images written in full, and kinds of failing commands", func(r *mon.Run) {
		vt := mon.NewVT("vt")
		vt.Hook = hook
		vv := mon.NewVT("vv")
		vv.Versioned = true
		vv.Hook = hook
		r.Parallel(r.N(60, 1500), 0, func(i int) { faulted(r, vt, i, false) })
		r.Parallel(r.N(2, 10), 0, func(i int) { faulted(r, vt, i, true) })
		r.Parallel(r.N(30, 800), 0, func(i int) { faulted(r, vv, i, false) })
		r.Parallel(r.N(300, 8000), 0, func(i int) { standalone(r, vt, i) })
		if os.Getenv("VERIF_TOOL") != "" {
			r.Parallel(r.N(40, 400), 0, func(i int) { command(r, i) })
			r.Need("failed commands", 15)
		} else {
			r.Inconclusive("the command-line tool was not built")
		}
		r.Need("publications", 30)
		r.Need("faults in open", 100)
		r.Need("faults in create", 100)
		r.Need("faults in write", 100)
		r.Need("faults in commit", 100)
		r.Need("images compared", 100)
		r.Need("faults with a large header", 12)
		r.Need("failed outputs", 500)
		r.Need("failed sources", 500)
	})
}
