// C22: the filesystem operations show exactly the disc.
package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"path"
	"strings"
	"sync/atomic"
	"syscall"

	"github.com/jacobsa/fuse/fuseops"
	"github.com/jacobsa/fuse/fuseutil"

	"github.com/NVIDIA/vdisc/pkg/vdisc"

	"vdiscverif/mon"
)

var vt *mon.VT
var ctx = context.Background()

// Names in the root directory whose lookup cache keys are the same.
var colliding = [][2]string{
	{"9UQZwlhOp8L", "IPYjVe9bgbN"},
	{"ZbjMW83FMhP", "iwArshAvYgM"},
	{"IGQbRG0OfVE", "RffunZi5aaA"},
}

type disc struct {
	r     *mon.Run
	what  string
	rng   *rand.Rand
	model *mon.Model
	iso   map[string]*mon.IsoNode
	vol   *mon.FaultyVolume
	fs    fuseutil.FileSystem
	ino   map[string]fuseops.InodeID // entries the client holds
	byIno map[fuseops.InodeID]string
	size  int64
	fault int32 // reads of the image and of files fail
	ferr  error
	after int32 // reads until the next failure
	bad   bool  // faults are being injected
}

func (d *disc) violate(key, format string, a ...interface{}) {
	d.r.Violate(key, "%s: %s", d.what, fmt.Sprintf(format, a...))
}

func (d *disc) inject(off int64, n int) error {
	if atomic.LoadInt32(&d.fault) == 0 {
		return nil
	}
	if atomic.AddInt32(&d.after, -1) >= 0 {
		return nil
	}
	d.r.Count("failed reads injected", 1)
	return d.ferr
}

// arm makes a read fail after some more, within f.
func (d *disc) faulty(f func()) {
	d.ferr = mon.Fault(d.rng.Intn(100))
	atomic.StoreInt32(&d.after, int32(d.rng.Intn(1+d.rng.Intn(120))))
	atomic.StoreInt32(&d.fault, 1)
	d.bad = true
	f()
	atomic.StoreInt32(&d.fault, 0)
	d.bad = false
}

// did says whether a failure was hit since the last faulty call started.
func (d *disc) hit() bool { return atomic.LoadInt32(&d.after) < 0 }

func (d *disc) catch(what string, f func()) bool {
	msg, p := mon.Catch(f)
	if p {
		d.violate("panic", "%s: panic: %s", what, msg)
	}
	return !p
}

// lookup asks for a name in a directory the client holds.
func (d *disc) lookup(dir, name string) {
	op := &fuseops.LookUpInodeOp{Parent: d.ino[dir], Name: name}
	var err error
	if !d.catch("lookup", func() { err = d.fs.LookUpInode(ctx, op) }) {
		return
	}
	d.r.Eval()
	e := d.model.All[dir].Children[name]
	what := fmt.Sprintf("lookup of %q in %q", mon.Trunc(name, 100), mon.Trunc(dir, 100))
	if err != nil {
		if d.bad && d.hit() {
			if err == syscall.ENOENT {
				d.violate("fault-as-missing", "%s: no such entry although a read failed (%v)", what, d.ferr)
			}
			d.r.Count("lookups failed by a read", 1)
			return
		}
		if e != nil {
			d.violate("lookup-failed", "%s: %v", what, err)
			return
		}
		if err != syscall.ENOENT {
			d.violate("lookup-missing", "%s: error %v for a missing name", what, err)
		}
		d.r.Count("missing names", 1)
		return
	}
	if e == nil {
		d.violate("lookup-invented", "%s: found inode %d, there is no such name", what, op.Entry.Child)
		return
	}
	d.found(what, e, op.Entry.Child, op.Entry.Attributes)
}

func (d *disc) found(what string, e *mon.Entry, ino fuseops.InodeID, a fuseops.InodeAttributes) {
	if !d.judge(what, e, a) {
		return
	}
	if old, ok := d.ino[e.Path]; ok && old != ino {
		d.violate("inode-changed", "%s: inode %d, was %d", what, ino, old)
	}
	if p, ok := d.byIno[ino]; ok && p != e.Path {
		d.violate("inode-shared", "%s: inode %d is also that of %q", what, ino, p)
	}
	if w := d.iso[e.Path].Ino; uint32(ino) != w || uint64(ino) != uint64(w) {
		d.violate("inode-number", "%s: inode %d, the disc has %d", what, ino, w)
	}
	d.ino[e.Path] = ino
	d.byIno[ino] = e.Path
}

func (d *disc) judge(what string, e *mon.Entry, a fuseops.InodeAttributes) bool {
	got, want := mon.AttrsOf(a), mon.WantAttrs(e, d.iso[e.Path])
	if got != want {
		d.violate("attributes", "%s (%c): %+v instead of %+v", what, e.Kind, got, want)
		return false
	}
	return true
}

func (d *disc) attributes(p string) {
	op := &fuseops.GetInodeAttributesOp{Inode: d.ino[p]}
	var err error
	if !d.catch("attributes", func() { err = d.fs.GetInodeAttributes(ctx, op) }) {
		return
	}
	d.r.Eval()
	if err != nil {
		d.violate("attributes-failed", "attributes of %q: %v", mon.Trunc(p, 100), err)
		return
	}
	d.judge(fmt.Sprintf("attributes of %q", mon.Trunc(p, 100)), d.model.All[p], op.Attributes)
}

func (d *disc) readlink(p string) {
	op := &fuseops.ReadSymlinkOp{Inode: d.ino[p]}
	var err error
	if !d.catch("readlink", func() { err = d.fs.ReadSymlink(ctx, op) }) {
		return
	}
	d.r.Eval()
	want := path.Clean(d.model.All[p].Leaf.Target)
	if err != nil || op.Target != want {
		d.violate("link", "link %q: %q, %v instead of %q", mon.Trunc(p, 100), mon.Trunc(op.Target, 200), err, mon.Trunc(want, 200))
	}
	d.r.Count("links read", 1)
}

// room is the space the largest entry takes.
func room(e *mon.Entry) int {
	n := 32
	for c := range e.Children {
		if m := 24 + (len(c)+7)/8*8; m > n {
			n = m
		}
	}
	return n
}

// readdir reads a directory once at an offset.
func (d *disc) readdirAt(p string, h fuseops.HandleID, off uint64, size int) ([]mon.Dirent, error, bool) {
	buf := make([]byte, size+64)
	for i := range buf {
		buf[i] = 0xA7
	}
	op := &fuseops.ReadDirOp{Inode: d.ino[p], Handle: h, Offset: fuseops.DirOffset(off), Dst: buf[:size:size]}
	var err error
	if !d.catch("readdir", func() { err = d.fs.ReadDir(ctx, op) }) {
		return nil, nil, false
	}
	d.r.Eval()
	for _, b := range buf[size:] {
		if b != 0xA7 {
			d.violate("readdir-overrun", "listing %q wrote behind the buffer", mon.Trunc(p, 100))
			return nil, nil, false
		}
	}
	if err != nil {
		return nil, err, true
	}
	if op.BytesRead < 0 || op.BytesRead > size {
		d.violate("readdir-count", "listing %q: %d bytes in a buffer of %d", mon.Trunc(p, 100), op.BytesRead, size)
		return nil, nil, false
	}
	ds, derr := mon.Dirents(buf[:op.BytesRead])
	if derr != nil {
		d.violate("readdir-format", "listing %q: %v", mon.Trunc(p, 100), derr)
		return nil, nil, false
	}
	return ds, nil, true
}

// list reads a whole directory with varying buffers, then again from
// arbitrary offsets.
func (d *disc) list(p string) {
	e := d.model.All[p]
	oop := &fuseops.OpenDirOp{Inode: d.ino[p]}
	if err := d.fs.OpenDir(ctx, oop); err != nil {
		d.violate("opendir", "opening directory %q: %v", mon.Trunc(p, 100), err)
		return
	}
	defer d.fs.ReleaseDirHandle(ctx, &fuseops.ReleaseDirHandleOp{Handle: oop.Handle})
	least := room(e)
	var all []mon.Dirent
	off := uint64(0)
	calls := 0
	for {
		size := least + d.rng.Intn(3*least)
		if d.rng.Intn(4) == 0 {
			size = 4096
		}
		if len(e.Children) > 1000 {
			size = 1<<12 + d.rng.Intn(1<<16)
		}
		if size < least {
			size = least
		}
		ds, err, ok := d.readdirAt(p, oop.Handle, off, size)
		if !ok {
			return
		}
		if err != nil {
			if d.bad && d.hit() {
				d.r.Count("listings failed by a read", 1)
				return
			}
			d.violate("readdir-failed", "listing %q at %d: %v", mon.Trunc(p, 100), off, err)
			return
		}
		calls++
		if len(ds) == 0 {
			break
		}
		all = append(all, ds...)
		off = ds[len(ds)-1].Off
		if len(all) > len(e.Children)+2 {
			break
		}
	}
	if d.bad && d.hit() {
		d.r.Count("listings completed after a failed read", 1)
	}
	seen := map[string]bool{}
	offs := map[uint64]bool{0: true}
	for k, x := range all {
		if seen[x.Name] {
			d.violate("readdir-twice", "listing %q has %q twice", mon.Trunc(p, 100), mon.Trunc(x.Name, 100))
			return
		}
		seen[x.Name] = true
		if offs[x.Off] {
			d.violate("readdir-offset", "listing %q: offset %d at entry %d is not new", mon.Trunc(p, 100), x.Off, k)
			return
		}
		offs[x.Off] = true
		var c *mon.Entry
		switch x.Name {
		case ".":
			c = e
		case "..":
			c = e.Parent
		default:
			c = e.Children[x.Name]
		}
		if c == nil {
			d.violate("readdir-invented", "listing %q has %q", mon.Trunc(p, 100), mon.Trunc(x.Name, 100))
			return
		}
		want := map[byte]uint32{'d': syscall.DT_DIR, 'f': syscall.DT_REG, 'l': syscall.DT_LNK}[c.Kind]
		if x.Type != want {
			d.violate("readdir-type", "listing %q: %q has type %d instead of %d", mon.Trunc(p, 100), mon.Trunc(x.Name, 100), x.Type, want)
		}
		if w := uint64(d.iso[c.Path].Ino); x.Ino != w && !(c.Path == "/" && x.Ino == 1) {
			d.violate("readdir-inode", "listing %q: %q has inode %d instead of %d", mon.Trunc(p, 100), mon.Trunc(x.Name, 100), x.Ino, w)
		}
	}
	for _, c := range e.Names() {
		if !seen[c] {
			d.violate("readdir-lost", "listing %q lacks %q (%d of %d entries, %d calls)", mon.Trunc(p, 100), mon.Trunc(c, 100), len(all), len(e.Children), calls)
			return
		}
	}
	if !seen["."] || !seen[".."] {
		d.violate("readdir-dots", "listing %q lacks . or ..", mon.Trunc(p, 100))
	}
	d.r.Count("directories listed", 1)
	d.r.Max("calls for one listing", int64(calls))
	if calls > 2 {
		d.r.Distinct("main", fmt.Sprintf("list/%d/%d", len(all), calls))
	}
	if d.bad {
		return
	}
	// any offset continues with the entries after it
	for t := 0; t < 6 && len(all) > 0; t++ {
		k := d.rng.Intn(len(all))
		ds, err, ok := d.readdirAt(p, oop.Handle, all[k].Off, least+d.rng.Intn(2*least))
		if !ok {
			return
		}
		if err != nil {
			d.violate("readdir-resume", "listing %q at %d: %v", mon.Trunc(p, 100), all[k].Off, err)
			return
		}
		rest := all[k+1:]
		if len(ds) > len(rest) || (len(ds) == 0 && len(rest) > 0) {
			d.violate("readdir-resume", "listing %q from entry %d of %d gives %d entries", mon.Trunc(p, 100), k+1, len(all), len(ds))
			return
		}
		for j := range ds {
			if ds[j] != rest[j] {
				d.violate("readdir-resume", "listing %q from entry %d: %v instead of %v", mon.Trunc(p, 100), k+1, ds[j], rest[j])
				return
			}
		}
		d.r.Count("listings resumed", 1)
	}
}

// file opens a file, reads at many places and closes it.
func (d *disc) file(p string) {
	e := d.model.All[p]
	oop := &fuseops.OpenFileOp{Inode: d.ino[p]}
	var err error
	if !d.catch("open", func() { err = d.fs.OpenFile(ctx, oop) }) {
		return
	}
	d.r.Eval()
	if err != nil {
		if d.bad && d.hit() {
			return
		}
		d.violate("open-failed", "opening %q: %v", mon.Trunc(p, 100), err)
		return
	}
	size := e.Leaf.Size
	read := func(off int64, n int) {
		buf := make([]byte, n+16)
		for i := range buf {
			buf[i] = 0xA7
		}
		op := &fuseops.ReadFileOp{Inode: d.ino[p], Handle: oop.Handle, Offset: off, Dst: buf[:n:n]}
		if !d.catch("read", func() { err = d.fs.ReadFile(ctx, op) }) {
			return
		}
		d.r.Eval()
		what := fmt.Sprintf("reading %d bytes at %d of %q (size %d)", n, off, mon.Trunc(p, 100), size)
		if err != nil {
			if d.bad && d.hit() {
				if err == io.EOF {
					d.violate("read-eof", "%s: the error is the end of file", what)
				}
				d.r.Count("reads failed by a read", 1)
				return
			}
			d.violate("read-failed", "%s: %v", what, err)
			return
		}
		want := []byte{}
		if off < size {
			m := int64(n)
			if m > size-off {
				m = size - off
			}
			want = e.Leaf.Src.Range(off, int(m))
		}
		if op.BytesRead != len(want) {
			d.violate("read-count", "%s: %d bytes instead of %d", what, op.BytesRead, len(want))
			return
		}
		if df := mon.Diff(buf[:op.BytesRead], want); df != "" {
			d.violate("read-bytes", "%s: %s", what, df)
			return
		}
		for _, b := range buf[n:] {
			if b != 0xA7 {
				d.violate("read-overrun", "%s: wrote behind the buffer", what)
				return
			}
		}
		d.r.Count("bytes read", int64(len(want)))
	}
	if size < 1<<17 {
		read(0, int(size)+d.rng.Intn(3))
	}
	for t := 0; t < 8; t++ {
		off := int64(0)
		switch d.rng.Intn(5) {
		case 0:
			off = size - int64(d.rng.Intn(5000))
		case 1:
			off = size + int64(d.rng.Intn(3)) - 1
		case 2:
			off = int64(d.rng.Intn(8)) * 4096
		default:
			if size > 0 {
				off = d.rng.Int63n(size)
			}
		}
		if off < 0 {
			off = 0
		}
		n := []int{0, 1, 4096, 5000, 1 << 15, d.rng.Intn(10000)}[d.rng.Intn(6)]
		read(off, n)
	}
	rop := &fuseops.ReleaseFileHandleOp{Handle: oop.Handle}
	if d.catch("release", func() { err = d.fs.ReleaseFileHandle(ctx, rop) }) && err != nil {
		d.violate("release", "closing %q: %v", mon.Trunc(p, 100), err)
	}
	d.r.Count("files read", 1)
}

// wrong asks for what does not exist: always an error, never a crash.
func (d *disc) wrong() {
	var ino fuseops.InodeID
	for {
		switch d.rng.Intn(4) {
		case 0:
			ino = 0
		case 1:
			ino = fuseops.InodeID(d.rng.Uint64())
		case 2:
			ino = fuseops.InodeID(d.rng.Intn(1 << 20))
		default:
			for i := range d.byIno {
				if i > ino {
					ino = i
				}
			}
			ino += fuseops.InodeID(1 + d.rng.Intn(3))
			if d.rng.Intn(2) == 0 {
				ino += 1 << 32 // same in 32 bits
				ino -= fuseops.InodeID(1 + d.rng.Intn(3))
			}
		}
		if _, ok := d.byIno[ino]; !ok && ino != 1 {
			break
		}
	}
	h := fuseops.HandleID(d.rng.Uint64() | 1<<40)
	buf := make([]byte, 4096)
	for _, c := range []struct {
		name string
		f    func() error
	}{
		{"lookup", func() error {
			return d.fs.LookUpInode(ctx, &fuseops.LookUpInodeOp{Parent: ino, Name: "x"})
		}},
		{"attributes", func() error { return d.fs.GetInodeAttributes(ctx, &fuseops.GetInodeAttributesOp{Inode: ino}) }},
		{"readlink", func() error { return d.fs.ReadSymlink(ctx, &fuseops.ReadSymlinkOp{Inode: ino}) }},
		{"readdir", func() error { return d.fs.ReadDir(ctx, &fuseops.ReadDirOp{Inode: ino, Dst: buf}) }},
		{"open", func() error { return d.fs.OpenFile(ctx, &fuseops.OpenFileOp{Inode: ino}) }},
		{"read", func() error { return d.fs.ReadFile(ctx, &fuseops.ReadFileOp{Handle: h, Dst: buf}) }},
		{"write", func() error { return d.fs.WriteFile(ctx, &fuseops.WriteFileOp{Inode: ino, Data: buf}) }},
		{"unlink", func() error { return d.fs.Unlink(ctx, &fuseops.UnlinkOp{Parent: 1, Name: "x"}) }},
	} {
		c := c
		var err error
		if !d.catch(c.name+" of an unknown inode or handle", func() { err = c.f() }) {
			continue
		}
		d.r.Eval()
		if err == nil {
			d.violate("unknown-accepted", "%s of unknown inode %d or handle %d succeeded", c.name, ino, h)
		}
	}
	d.catch("release of an unknown handle", func() { d.fs.ReleaseFileHandle(ctx, &fuseops.ReleaseFileHandleOp{Handle: h}) })
	d.catch("forgetting an unknown inode", func() { d.fs.ForgetInode(ctx, &fuseops.ForgetInodeOp{Inode: ino, N: 1}) })
	d.r.Count("unknown inodes and handles tried", 1)
}

func misspell(rng *rand.Rand, s string) string {
	switch rng.Intn(7) {
	case 0:
		return s + "x"
	case 1:
		return s[:len(s)-1]
	case 2:
		return strings.ToUpper(s)
	case 3:
		return strings.ToLower(s)
	case 4:
		return s + ";1"
	case 5:
		return s + "."
	}
	b := []byte(s)
	b[rng.Intn(len(b))] ^= 1
	return string(b)
}

func gen(rng *rand.Rand, n int, ext bool) []*mon.Leaf {
	paths := mon.GenPaths(rng, n, ext)
	var ls []*mon.Leaf
	for k, p := range paths {
		if rng.Intn(5) == 0 && k > 0 {
			ls = append(ls, &mon.Leaf{Path: p, Link: true, Target: mon.Target(rng, ext, paths)})
			continue
		}
		src := srcs[rng.Intn(len(srcs))]
		l := &mon.Leaf{Path: p, URL: src.url, Src: src.f, Size: mon.Size(rng, 1<<20)}
		if rng.Intn(40) == 0 {
			l.Size = 1<<32 + rng.Int63n(1<<34)
		}
		ls = append(ls, l)
	}
	return ls
}

type source struct {
	url string
	f   *mon.VFile
}

var srcs []source

func one(r *mon.Run, i int) {
	rng := r.Rng("disc", i)
	ext := rng.Intn(2) == 0
	n := 1 + rng.Intn(30)
	if i%15 == 14 {
		n = 100 + rng.Intn(400)
	}
	leaves := gen(rng, n, ext)
	if i%9 == 4 {
		for k := 0; k < 300; k++ {
			s := srcs[k%len(srcs)]
			leaves = append(leaves, &mon.Leaf{Path: fmt.Sprintf("/wide/%s%d", strings.Repeat("w", rng.Intn(60)), k), URL: s.url, Src: s.f, Size: int64(k)})
		}
	}
	if i%90 == 7 {
		// equal names in very many directories
		for k := 0; k < 700; k++ {
			for j, nm := range []string{"a", "same"} {
				s := srcs[(k+j)%len(srcs)]
				leaves = append(leaves, &mon.Leaf{Path: fmt.Sprintf("/many/%d/%s", k, nm), URL: s.url, Src: s.f, Size: int64(2*k + j)})
			}
		}
	}
	huge := i%180 == 8
	if huge {
		// a directory of more than a megabyte
		for k := 0; k < 6000; k++ {
			s := srcs[k%len(srcs)]
			leaves = append(leaves, &mon.Leaf{Path: fmt.Sprintf("/huge/%05d%s", k, strings.Repeat("h", 120+rng.Intn(80))), URL: s.url, Src: s.f, Size: int64(k)})
		}
	}
	if i%3 == 0 {
		pair := colliding[rng.Intn(len(colliding))]
		for k, nm := range pair {
			leaves = append(leaves, &mon.Leaf{Path: "/" + nm, URL: srcs[k].url, Src: srcs[k].f, Size: int64(1000 + k)})
		}
	}
	model := mon.NewModel(func(string) bool { return true })
	var kept []*mon.Leaf
	for _, l := range leaves {
		if model.Add(l) {
			kept = append(kept, l)
		}
	}
	what := fmt.Sprintf("disc %d", i)
	end := r.Begin("%s", what)
	defer end()
	url, err := mon.Burn(fmt.Sprintf("vt://t/%d.vdsc", i), ext, kept)
	if err != nil {
		r.Violate("burn-failed", "%s: %v", what, err)
		return
	}
	hf := vt.Lookup(url + ".isohdr")
	defer func() { vt.Delete(url); vt.Delete(url + ".isohdr") }()
	if hf == nil {
		r.Violate("no-header", "%s: the burn left no header", what)
		return
	}
	iso := mon.DecodeISO(hf.Data)
	if len(iso.Problems) > 0 {
		r.Violate("header", "%s: %s", what, iso.Problems[0])
		return
	}
	v, err := vdisc.Load(url, mon.Modes("", 1<<18, 64, 0, 0)[1].Cache)
	if err != nil {
		r.Violate("load-failed", "%s: %v", what, err)
		return
	}
	defer v.Close()

	d := &disc{r: r, what: what, rng: rng, model: model, iso: iso.All()}
	d.vol = &mon.FaultyVolume{Vol: v, ImageFault: d.inject, FileFault: d.inject, OpenFault: func() error { return d.inject(0, 0) }}

	// a server whose first reads fail does not come up
	if i%4 == 0 {
		var fs fuseutil.FileSystem
		d.faulty(func() {
			atomic.StoreInt32(&d.after, 0)
			d.catch("starting on a failing disc", func() { fs, err = mon.FuseFS(d.vol) })
		})
		if err == nil {
			d.violate("started", "the server started although the disc cannot be read (%v)", fs)
		}
	}
	d.fs, err = mon.FuseFS(d.vol)
	if err != nil {
		d.violate("start", "%v", err)
		return
	}
	d.ino = map[string]fuseops.InodeID{"/": 1}
	d.byIno = map[fuseops.InodeID]string{1: "/"}

	sop := &fuseops.StatFSOp{}
	if err := d.fs.StatFS(ctx, sop); err != nil || int64(sop.BlockSize)*int64(sop.Blocks) != v.Image().Size() {
		d.violate("statfs", "%d blocks of %d, image of %d bytes, %v", sop.Blocks, sop.BlockSize, v.Image().Size(), err)
	}

	// walk: hold more and more of the disc and ask about what is held
	paths := model.Paths()
	var held []string
	held = append(held, "/")
	steps := 60 + 6*len(paths)
	if steps > 2500 {
		steps = 2500
	}
	if huge {
		steps = 30
	}
	frontier := map[string]bool{}
	grow := func(p string) {
		if _, ok := d.ino[p]; ok && p != "/" && !frontier[p] {
			frontier[p] = true
			held = append(held, p)
		}
	}
	step := func(faults bool) {
		p := held[rng.Intn(len(held))]
		e := model.All[p]
		run := func(f func()) {
			if faults {
				d.faulty(f)
			} else {
				f()
			}
		}
		switch {
		case e.Kind == 'd':
			switch rng.Intn(6) {
			case 0:
				run(func() { d.list(p) })
			case 1:
				run(func() {
					names := e.Names()
					if len(names) > 0 {
						nm := misspell(rng, names[rng.Intn(len(names))])
						if nm == "" || nm == "." || nm == ".." {
							nm = "none" // the kernel resolves these itself
						}
						d.lookup(p, nm)
					} else {
						d.lookup(p, "none")
					}
				})
			case 2:
				d.attributes(p)
			default:
				if names := e.Names(); len(names) > 0 {
					nm := names[rng.Intn(len(names))]
					run(func() { d.lookup(p, nm) })
					grow(path.Join(p, nm))
				}
			}
		case e.Kind == 'l':
			if rng.Intn(3) == 0 {
				d.attributes(p)
			} else {
				d.readlink(p)
			}
		default:
			if rng.Intn(3) == 0 {
				d.attributes(p)
			} else {
				run(func() { d.file(p) })
			}
		}
	}
	for s := 0; s < steps && !r.Enough(); s++ {
		faults := i%2 == 1 && rng.Intn(4) == 0
		step(faults)
		if rng.Intn(50) == 0 {
			d.wrong()
		}
	}
	// in the end everything is there, in a fresh order
	rng.Shuffle(len(paths), func(x, y int) { paths[x], paths[y] = paths[y], paths[x] })
	if huge {
		r.Max("bytes of a directory", d.iso["/huge"].Size)
		// looking up each entry would take too long
		few, some := paths[:0:0], 0
		for _, p := range paths {
			if path.Dir(p) == "/huge" {
				if some++; some > 40 {
					continue
				}
			}
			few = append(few, p)
		}
		paths = few
	}
	todo := append([]string(nil), paths...)
	for len(todo) > 0 && !r.Enough() {
		var next []string
		for _, p := range todo {
			if p == "/" {
				continue
			}
			if _, ok := d.ino[path.Dir(p)]; !ok {
				next = append(next, p)
				continue
			}
			d.lookup(path.Dir(p), path.Base(p))
		}
		if len(next) == len(todo) {
			break
		}
		todo = next
	}
	for _, p := range paths {
		if r.Enough() {
			break
		}
		if _, ok := d.ino[p]; !ok {
			d.violate("unreachable", "%q was not reached", mon.Trunc(p, 200))
			continue
		}
		d.attributes(p)
		switch model.All[p].Kind {
		case 'd':
			d.list(p)
		case 'l':
			d.readlink(p)
		default:
			if rng.Intn(3) == 0 {
				d.file(p)
			}
		}
	}
	if o, c := atomic.LoadInt64(&d.vol.Opened), atomic.LoadInt64(&d.vol.Closed); o != c || d.vol.Doubly != 0 {
		d.violate("not-closed", "%d files opened, %d closed, %d closed again", o, c, d.vol.Doubly)
	}
	r.Count("entries", int64(len(paths)))
	r.Distinct("main", fmt.Sprintf("disc/%d/%d", len(paths), len(kept)))
	if i < 4 {
		r.Sample("%s: %d entries, %d operations before the final pass", what, len(paths), steps)
	}
}

func main() {
	mon.Main("C22", "distinct listings by number of entries and calls that needed more than two calls, and distinct discs by number of entries and leaves", func(r *mon.Run) {
		vt = mon.NewVT("vt")
		for k := 0; k < 4; k++ {
			f := &mon.VFile{Gen: true, ID: uint64(70 + k), Len: 1 << 40}
			u := fmt.Sprintf("vt://src/%d", k)
			vt.Put(u, f)
			srcs = append(srcs, source{u, f})
		}
		r.Assume("the operations are called as the kernel library calls them, without a kernel mount (mounting is not possible here); buffers for listings hold at least one entry, as the kernel's do")
		r.Parallel(r.N(180, 2500), 0, func(i int) { one(r, i) })
		r.Need("failed reads injected", 500)
		r.Need("bytes of a directory", 1<<20)
		r.Need("reads failed by a read", 50)
		r.Need("lookups failed by a read", 20)
		r.Need("listings failed by a read", 20)
		r.Need("missing names", 200)
		r.Need("listings resumed", 1000)
		r.Need("links read", 300)
		r.Need("files read", 1000)
	})
}
