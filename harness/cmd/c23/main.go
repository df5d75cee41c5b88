// C23: inodes and handles live exactly as long as the kernel holds them.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"path"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jacobsa/fuse/fuseops"
	"github.com/jacobsa/fuse/fuseutil"

	"github.com/NVIDIA/vdisc/pkg/vdisc"

	"vdiscverif/mon"
)

var vt *mon.VT
var ctx = context.Background()

type disc struct {
	r     *mon.Run
	what  string
	model *mon.Model
	iso   map[string]*mon.IsoNode
	vol   *mon.FaultyVolume
	fs    fuseutil.FileSystem
	paths []string
	v     vdisc.VDisc

	mu      sync.Mutex
	live    map[fuseops.HandleID]string // open handles
	dead    []fuseops.HandleID
	pool    map[string]uint64 // references no worker holds at the moment
	overlap int64             // operations running at the moment
	fail    int32
}

func (d *disc) violate(key, format string, a ...interface{}) {
	d.r.Violate(key, "%s: %s", d.what, fmt.Sprintf(format, a...))
	atomic.StoreInt32(&d.fail, 1)
}

type handle struct {
	h    fuseops.HandleID
	path string
}

// client is one thread of the simulated kernel: it holds references.
type client struct {
	d     *disc
	rng   *rand.Rand
	refs  map[string]uint64
	names []string // keys of refs, for a fixed order
	open  []handle
	log   uint64
}

func newClient(d *disc, rng *rand.Rand) *client {
	return &client{d: d, rng: rng, refs: map[string]uint64{}}
}

func (c *client) hold(p string, n uint64) {
	if c.refs[p] == 0 {
		c.names = append(c.names, p)
	}
	c.refs[p] += n
}

func (c *client) drop(p string, n uint64) {
	c.refs[p] -= n
	if c.refs[p] == 0 {
		delete(c.refs, p)
		for i, q := range c.names {
			if q == p {
				c.names = append(c.names[:i], c.names[i+1:]...)
				break
			}
		}
	}
}

func (d *disc) ino(p string) fuseops.InodeID {
	if p == "/" {
		return 1
	}
	return fuseops.InodeID(d.iso[p].Ino)
}

func (c *client) begin() func() {
	n := atomic.AddInt64(&c.d.overlap, 1)
	c.d.r.Max("operations at once", n)
	return func() { atomic.AddInt64(&c.d.overlap, -1) }
}

func (c *client) lookup(dir, name string) bool {
	defer c.begin()()
	d := c.d
	op := &fuseops.LookUpInodeOp{Parent: d.ino(dir), Name: name}
	err := d.fs.LookUpInode(ctx, op)
	d.r.Eval()
	e := d.model.All[dir].Children[name]
	if e == nil {
		if err == nil {
			d.violate("invented", "lookup of %q in %q succeeded", name, dir)
		}
		return false
	}
	if err != nil {
		d.violate("lookup", "lookup of %q in %q, which is held: %v", name, dir, err)
		return false
	}
	if op.Entry.Child != d.ino(e.Path) {
		d.violate("lookup-inode", "lookup of %q in %q: inode %d instead of %d", name, dir, op.Entry.Child, d.ino(e.Path))
		return false
	}
	if g, w := mon.AttrsOf(op.Entry.Attributes), mon.WantAttrs(e, d.iso[e.Path]); g != w {
		d.violate("lookup-attributes", "lookup of %q in %q: %+v instead of %+v", name, dir, g, w)
		return false
	}
	c.hold(e.Path, 1)
	d.r.Count("lookups", 1)
	return true
}

// usable asks about an inode that is held.
func (c *client) usable(p string, how string) {
	defer c.begin()()
	d := c.d
	op := &fuseops.GetInodeAttributesOp{Inode: d.ino(p)}
	err := d.fs.GetInodeAttributes(ctx, op)
	d.r.Eval()
	e := d.model.All[p]
	if err != nil {
		d.violate("unusable", "attributes of %q, which is held (%s): %v", p, how, err)
		return
	}
	if g, w := mon.AttrsOf(op.Attributes), mon.WantAttrs(e, d.iso[p]); g != w {
		d.violate("attributes", "attributes of %q: %+v instead of %+v", p, g, w)
	}
	if e.Kind == 'l' {
		op := &fuseops.ReadSymlinkOp{Inode: d.ino(p)}
		if err := d.fs.ReadSymlink(ctx, op); err != nil || op.Target != path.Clean(e.Leaf.Target) {
			d.violate("link", "link %q, which is held: %q %v", p, op.Target, err)
		}
	}
}

func (c *client) gone(p string) {
	d := c.d
	if err := d.fs.GetInodeAttributes(ctx, &fuseops.GetInodeAttributesOp{Inode: d.ino(p)}); err == nil {
		d.violate("still-there", "attributes of %q succeeded, all its lookups have been forgotten", p)
	}
	if d.model.All[p].Kind == 'f' {
		op := &fuseops.OpenFileOp{Inode: d.ino(p)}
		if err := d.fs.OpenFile(ctx, op); err == nil {
			d.violate("still-there", "opening %q succeeded, all its lookups have been forgotten", p)
			d.fs.ReleaseFileHandle(ctx, &fuseops.ReleaseFileHandleOp{Handle: op.Handle})
		}
	}
	if d.model.All[p].Kind == 'd' {
		op := &fuseops.ReadDirOp{Inode: d.ino(p), Dst: make([]byte, 4096)}
		if err := d.fs.ReadDir(ctx, op); err == nil {
			d.violate("still-there", "listing %q succeeded, all its lookups have been forgotten", p)
		}
	}
	d.r.Eval()
	d.r.Count("inodes seen gone", 1)
}

func (c *client) forget(p string, n uint64) {
	defer c.begin()()
	d := c.d
	if err := d.fs.ForgetInode(ctx, &fuseops.ForgetInodeOp{Inode: d.ino(p), N: n}); err != nil {
		d.violate("forget", "forgetting %d of %q, of which %d are held: %v", n, p, c.refs[p], err)
		return
	}
	d.r.Eval()
	d.r.Count("forgets", 1)
	if p != "/" {
		c.drop(p, n)
	}
}

func (c *client) list(p string) {
	defer c.begin()()
	d := c.d
	e := d.model.All[p]
	oop := &fuseops.OpenDirOp{Inode: d.ino(p)}
	if err := d.fs.OpenDir(ctx, oop); err != nil {
		d.violate("opendir", "%q, which is held: %v", p, err)
		return
	}
	seen := map[string]bool{}
	off := fuseops.DirOffset(0)
	for {
		op := &fuseops.ReadDirOp{Inode: d.ino(p), Handle: oop.Handle, Offset: off, Dst: make([]byte, 300+c.rng.Intn(4000))}
		if err := d.fs.ReadDir(ctx, op); err != nil {
			d.violate("readdir", "%q, which is held: %v", p, err)
			return
		}
		ds, err := mon.Dirents(op.Dst[:op.BytesRead])
		if err != nil {
			d.violate("readdir-format", "%q: %v", p, err)
			return
		}
		if len(ds) == 0 {
			break
		}
		for _, x := range ds {
			if seen[x.Name] {
				d.violate("readdir-twice", "%q lists %q twice", p, x.Name)
				return
			}
			seen[x.Name] = true
			if ch := e.Children[x.Name]; ch != nil && fuseops.InodeID(x.Ino) != d.ino(ch.Path) {
				d.violate("readdir-inode", "%q lists %q as inode %d", p, x.Name, x.Ino)
				return
			}
		}
		off = fuseops.DirOffset(ds[len(ds)-1].Off)
	}
	for n := range e.Children {
		if !seen[n] {
			d.violate("readdir-lost", "%q lacks %q", p, n)
		}
	}
	if len(seen) != len(e.Children)+2 {
		d.violate("readdir-extra", "%q has %d entries instead of %d", p, len(seen), len(e.Children)+2)
	}
	if err := d.fs.ReleaseDirHandle(ctx, &fuseops.ReleaseDirHandleOp{Handle: oop.Handle}); err != nil {
		d.violate("releasedir", "%q: %v", p, err)
	}
	d.r.Eval()
	d.r.Count("listings", 1)
}

func (c *client) openFile(p string) {
	defer c.begin()()
	d := c.d
	op := &fuseops.OpenFileOp{Inode: d.ino(p)}
	if err := d.fs.OpenFile(ctx, op); err != nil {
		d.violate("open", "opening %q, which is held: %v", p, err)
		return
	}
	d.mu.Lock()
	if q, ok := d.live[op.Handle]; ok {
		d.mu.Unlock()
		d.violate("handle-shared", "handle %d for %q is in use for %q", op.Handle, p, q)
		return
	}
	d.live[op.Handle] = p
	if n := len(d.live); true {
		d.r.Max("handles at once", int64(n))
	}
	d.mu.Unlock()
	c.open = append(c.open, handle{op.Handle, p})
	d.r.Eval()
	d.r.Count("opens", 1)
}

func (c *client) read(h handle) {
	defer c.begin()()
	d := c.d
	l := d.model.All[h.path].Leaf
	off := int64(0)
	if l.Size > 0 {
		off = c.rng.Int63n(l.Size)
	}
	n := c.rng.Intn(3000)
	buf := make([]byte, n)
	op := &fuseops.ReadFileOp{Inode: d.ino(h.path), Handle: h.h, Offset: off, Dst: buf}
	if err := d.fs.ReadFile(ctx, op); err != nil {
		d.violate("read", "reading %q through open handle %d: %v", h.path, h.h, err)
		return
	}
	m := int64(n)
	if m > l.Size-off {
		m = l.Size - off
	}
	if df := mon.Diff(buf[:op.BytesRead], l.Src.Range(off, int(m))); df != "" {
		d.violate("read-bytes", "reading %d at %d of %q through handle %d: %s", n, off, h.path, h.h, df)
	}
	d.r.Eval()
	d.r.Count("reads", 1)
}

func (c *client) release(k int) {
	defer c.begin()()
	d := c.d
	h := c.open[k]
	c.open = append(c.open[:k], c.open[k+1:]...)
	// the number may be given out again as soon as the release is on its way
	d.mu.Lock()
	delete(d.live, h.h)
	d.mu.Unlock()
	if err := d.fs.ReleaseFileHandle(ctx, &fuseops.ReleaseFileHandleOp{Handle: h.h}); err != nil {
		d.violate("release", "closing handle %d of %q: %v", h.h, h.path, err)
		return
	}
	d.mu.Lock()
	if len(d.dead) < 4096 {
		d.dead = append(d.dead, h.h)
	}
	d.mu.Unlock()
	d.r.Eval()
	d.r.Count("releases", 1)
}

// step does one operation on what the client holds.
func (c *client) step(share bool) {
	d := c.d
	p := "/"
	if len(c.names) > 0 && c.rng.Intn(6) > 0 {
		p = c.names[c.rng.Intn(len(c.names))]
	}
	e := d.model.All[p]
	x := c.rng.Intn(20)
	c.log = c.log*31 + uint64(x)
	switch {
	case x < 6 && e.Kind == 'd':
		ns := e.Names()
		if len(ns) == 0 {
			return
		}
		n := ns[c.rng.Intn(len(ns))]
		if c.rng.Intn(15) == 0 {
			n += "?"
		}
		c.lookup(p, n)
	case x < 7 && e.Kind == 'd':
		c.list(p)
	case x < 8:
		c.usable(p, "by this client")
	case x < 12 && p != "/":
		k := 1 + uint64(c.rng.Int63n(int64(c.refs[p])))
		c.forget(p, k)
	case x == 12 && p == "/":
		c.forget("/", 1+uint64(c.rng.Intn(3))) // the root stays all the same
	case x < 14 && e.Kind == 'f' && len(c.open) < 8:
		c.openFile(p)
	case x < 16 && len(c.open) > 0:
		c.read(c.open[c.rng.Intn(len(c.open))])
	case x < 18 && len(c.open) > 0:
		c.release(c.rng.Intn(len(c.open)))
	case x == 18 && share && p != "/":
		// hand references to whoever takes them
		n := c.refs[p]
		d.mu.Lock()
		d.pool[p] += n
		d.mu.Unlock()
		c.drop(p, n)
		d.r.Count("references handed over", int64(n))
	case x == 19 && share:
		d.mu.Lock()
		q := d.paths[c.rng.Intn(len(d.paths))]
		n := d.pool[q]
		delete(d.pool, q)
		d.mu.Unlock()
		if n > 0 {
			c.hold(q, n)
			c.usable(q, "handed over")
		}
	}
}

func setup(r *mon.Run, i int, rng *rand.Rand, small bool) *disc {
	n := 4 + rng.Intn(10)
	if !small {
		n = 30
	}
	paths := map[string]bool{}
	model := mon.NewModel(func(string) bool { return true })
	var leaves []*mon.Leaf
	for k := 0; k < n; k++ {
		p := fmt.Sprintf("/f%d", k)
		switch rng.Intn(4) {
		case 0:
			p = fmt.Sprintf("/d%d/f%d", rng.Intn(2), k)
		case 1:
			p = fmt.Sprintf("/d%d/e%d/f%d", rng.Intn(2), rng.Intn(2), k)
		}
		if paths[p] {
			continue
		}
		paths[p] = true
		l := &mon.Leaf{Path: p, URL: srcs[k%len(srcs)].url, Src: srcs[k%len(srcs)].f, Size: mon.Size(rng, 20000)}
		if rng.Intn(5) == 0 {
			l = &mon.Leaf{Path: p, Link: true, Target: fmt.Sprintf("../t%d", k)}
		}
		if model.Add(l) {
			leaves = append(leaves, l)
		}
	}
	what := fmt.Sprintf("disc %d", i)
	url, err := mon.Burn(fmt.Sprintf("vt://t/%d.vdsc", i), true, leaves)
	if err != nil {
		r.Violate("burn", "%s: %v", what, err)
		return nil
	}
	iso := mon.DecodeISO(vt.Lookup(url + ".isohdr").Data)
	v, err := vdisc.Load(url, mon.Modes("", 1<<16, 64, 0, 0)[1].Cache)
	if err != nil {
		r.Violate("load", "%s: %v", what, err)
		return nil
	}
	d := &disc{r: r, what: what, model: model, iso: iso.All(), v: v, live: map[fuseops.HandleID]string{}, pool: map[string]uint64{}}
	for _, p := range model.Paths() {
		if p != "/" {
			d.paths = append(d.paths, p)
		}
	}
	jit := mon.NewJitter(r.Rng("jitter", i))
	yield := func() {
		switch jit.Intn(8) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(jit.Intn(60)) * time.Microsecond)
		}
	}
	d.vol = &mon.FaultyVolume{Vol: v,
		ImageFault: func(off int64, n int) error {
			if !small {
				return nil
			}
			yield()
			return nil
		},
		FileFault: func(off int64, n int) error { yield(); return nil },
		OpenFault: func() error { yield(); return nil },
	}
	d.fs, err = mon.FuseFS(d.vol)
	if err != nil {
		r.Violate("start", "%s: %v", what, err)
		return nil
	}
	return d
}

// settle checks the exact lifetime of everything that is left, alone.
func settle(d *disc, rng *rand.Rand, cs []*client) {
	c := newClient(d, rng)
	refs := map[string]uint64{}
	for p, n := range d.pool {
		refs[p] += n
	}
	for _, k := range cs {
		for p, n := range k.refs {
			refs[p] += n
		}
	}
	c.refs = refs
	for p := range refs {
		c.names = append(c.names, p)
	}
	sort.Strings(c.names)
	for _, p := range d.paths {
		if refs[p] == 0 {
			c.gone(p)
			continue
		}
		c.usable(p, fmt.Sprintf("%d references in the end", refs[p]))
		for refs[p] > 1 && atomic.LoadInt32(&d.fail) == 0 {
			c.forget(p, 1+uint64(rng.Int63n(int64(refs[p]-1))))
			c.usable(p, fmt.Sprintf("%d references left", refs[p]))
		}
		if atomic.LoadInt32(&d.fail) != 0 {
			return
		}
		c.forget(p, 1)
		c.gone(p)
	}
	c.usable("/", "root")
	c.list("/")
	// handles outlive their inodes
	for _, k := range cs {
		for len(k.open) > 0 {
			k.read(k.open[0])
			if o, cl := atomic.LoadInt64(&d.vol.Opened), atomic.LoadInt64(&d.vol.Closed); o-cl != int64(len(d.live)) {
				d.violate("closed-early", "%d objects open, %d handles", o-cl, len(d.live))
				return
			}
			k.release(0)
		}
	}
	for _, h := range d.dead {
		if err := d.fs.ReadFile(ctx, &fuseops.ReadFileOp{Handle: h, Dst: make([]byte, 10)}); err == nil {
			d.violate("released-usable", "reading through released handle %d succeeded", h)
			return
		}
		d.r.Count("released handles tried", 1)
	}
	if d.vol.Opened != d.vol.Closed || d.vol.Doubly != 0 || d.vol.Late != 0 {
		d.violate("objects", "%d opened, %d closed, %d closed again, %d read after closing", d.vol.Opened, d.vol.Closed, d.vol.Doubly, d.vol.Late)
	}
}

func histories(r *mon.Run, i int) {
	rng := r.Rng("history", i)
	d := setup(r, i, rng, false)
	if d == nil {
		return
	}
	defer d.v.Close()
	end := r.Begin("%s histories", d.what)
	defer end()
	for k := 0; k < 40 && !r.Enough(); k++ {
		c := newClient(d, rng)
		n := 20 + rng.Intn(200)
		if k == 20 {
			// one entry is looked up very often
			many := 250 + rng.Intn(600)
			if i%16 == 0 {
				many = 66000
			}
			ns := d.model.All["/"].Names()
			for nm := ns[rng.Intn(len(ns))]; many > 0 && c.lookup("/", nm); many-- {
			}
			if atomic.LoadInt32(&d.fail) != 0 {
				return
			}
			r.Max("references to one entry", int64(c.refs[c.names[0]]))
			n = 20
		}
		for s := 0; s < n; s++ {
			c.step(false)
			// exact state of a few inodes after every step
			for t := 0; t < 2; t++ {
				p := d.paths[rng.Intn(len(d.paths))]
				if c.refs[p] > 0 {
					c.usable(p, "alone")
				} else if d.fs.GetInodeAttributes(ctx, &fuseops.GetInodeAttributesOp{Inode: d.ino(p)}) == nil {
					d.violate("still-there", "attributes of %q succeeded, it is not held", p)
				}
			}
			if atomic.LoadInt32(&d.fail) != 0 {
				return
			}
		}
		r.Distinct("main", fmt.Sprintf("history/%x", c.log))
		settle(d, rng, []*client{c})
		d.dead = nil
		r.Count("histories", 1)
	}
}

func concurrent(r *mon.Run, i int) {
	rng := r.Rng("concurrent", i)
	d := setup(r, 100000+i, rng, true)
	if d == nil {
		return
	}
	defer d.v.Close()
	end := r.Begin("%s concurrent", d.what)
	defer end()
	w := 2 + rng.Intn(14)
	cs := make([]*client, w)
	var wg sync.WaitGroup
	steps := 300 + rng.Intn(600)
	for k := range cs {
		cs[k] = newClient(d, r.Rng("client", i, k))
		wg.Add(1)
		go func(c *client) {
			defer wg.Done()
			msg, panicked := mon.Catch(func() {
				for s := 0; s < steps && atomic.LoadInt32(&d.fail) == 0; s++ {
					c.step(true)
					if s%64 == 0 {
						r.Tick()
					}
				}
			})
			if panicked {
				d.violate("panic", "%s", msg)
			}
		}(cs[k])
	}
	wg.Wait()
	if atomic.LoadInt32(&d.fail) != 0 {
		return
	}
	settle(d, rng, cs)
	r.Count("concurrent runs", 1)
	r.Distinct("main", fmt.Sprintf("run/%d/%d/%d", w, len(d.paths), atomic.LoadInt64(&d.vol.Reads)))
	if i < 4 {
		r.Sample("%s: %d clients, %d steps each, %d entries, %d objects opened", d.what, w, steps, len(d.paths), d.vol.Opened)
	}
}

type source struct {
	url string
	f   *mon.VFile
}

var srcs []source

func main() {
	mon.Main("C23", "distinct single-client operation histories, and concurrent runs told apart by clients, entries and the number of reads of the image (which depends on the interleaving)", func(r *mon.Run) {
		vt = mon.NewVT("vt")
		for k := 0; k < 4; k++ {
			f := &mon.VFile{Gen: true, ID: uint64(90 + k), Len: 1 << 30}
			u := fmt.Sprintf("vt://src/%d", k)
			vt.Put(u, f)
			srcs = append(srcs, source{u, f})
		}
		r.Assume("the clients keep the kernel's rules: they use inodes they hold and handles they opened; forgets name counts of answered lookups")
		r.Parallel(r.N(32, 600), 0, func(i int) { histories(r, i) })
		r.Parallel(r.N(120, 2500), 3, func(i int) { concurrent(r, i) })
		r.Need("inodes seen gone", 1000)
		r.Need("references handed over", 500)
		r.Need("released handles tried", 500)
		r.Need("reads", 1000)
		r.Need("references to one entry", 66000)
		r.Need("operations at once", 2)
	})
}
