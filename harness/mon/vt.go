package mon

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	stdurl "net/url"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
)

// Fill writes the content of virtual object id at offset off into p. Every
// aligned 8-byte word is unique to (id, offset), so that bytes of another
// object, block or version are recognised.
func Fill(id uint64, off int64, p []byte) {
	var w [8]byte
	for i := 0; i < len(p); {
		word := uint64(off+int64(i)) >> 3
		skip := int(uint64(off+int64(i)) & 7)
		binary.LittleEndian.PutUint64(w[:], mix(id*0x9E3779B97F4A7C15+word))
		i += copy(p[i:], w[skip:])
	}
}

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

// Bytes returns n bytes of virtual object id from offset off.
func Bytes(id uint64, off int64, n int) []byte {
	p := make([]byte, n)
	Fill(id, off, p)
	return p
}

// Diff describes the first difference of two byte slices.
func Diff(got, want []byte) string {
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			e := i + 8
			if e > n {
				e = n
			}
			return fmt.Sprintf("first difference at byte %d: got %x want %x (lengths %d, %d)", i, got[i:e], want[i:e], len(got), len(want))
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("length %d, want %d", len(got), len(want))
	}
	return ""
}

// Op is one operation seen by the virtual driver.
type Op struct {
	Kind string // open read create write commit abort remove stat readdir close
	URL  string
	Off  int64
	N    int
}

// VFile is one object of the virtual driver: either literal data, or
// generated content of the given size.
type VFile struct {
	Data []byte
	ID   uint64
	Len  int64
	Gen  bool
	Fn   func(p []byte, off int64) // computed content of size Len
}

func (f *VFile) size() int64 {
	if f.Gen || f.Fn != nil {
		return f.Len
	}
	return int64(len(f.Data))
}

func (f *VFile) readAt(p []byte, off int64) int {
	s := f.size()
	if off >= s {
		return 0
	}
	if int64(len(p)) > s-off {
		p = p[:s-off]
	}
	if f.Fn != nil {
		f.Fn(p, off)
	} else if f.Gen {
		Fill(f.ID, off, p)
	} else {
		copy(p, f.Data[off:])
	}
	return len(p)
}

// VT is an in-memory storage driver with fault injection and accounting.
type VT struct {
	Scheme string

	// Versioned makes every commit store the object under an address of its
	// own, made from the one given, as a versioned bucket does.
	Versioned bool

	// Hook, if set, is called before every operation; an error fails it.
	// For reads it may also return a short count via ErrShort.
	Hook func(op Op) error

	mu    sync.Mutex
	files map[string]*VFile
	open  map[string]int

	OpenNow  int64 // objects open at the moment
	MaxOpen  int64
	Opens    int64
	Reads    int64
	ReadByte int64
	Commits  int64
	Aborts   int64
	Creates  int64
	DoubleCl int64
}

// ErrShort makes a read deliver only N bytes and then end of file.
type ErrShort struct{ N int }

func (e ErrShort) Error() string { return "short read" }

// ErrGarbage makes a read overwrite the caller's buffer and then fail.
type ErrGarbage struct{ N int }

func (e ErrGarbage) Error() string { return "injected failure after partial garbage" }

// ErrInjected is the default injected failure.
var ErrInjected = errors.New("injected failure")

// NewVT registers a new virtual driver under the scheme.
func NewVT(scheme string) *VT {
	v := &VT{Scheme: scheme, files: map[string]*VFile{}, open: map[string]int{}}
	driver.Register(scheme, v)
	return v
}

func (v *VT) hook(op Op) error {
	if h := v.Hook; h != nil {
		return h(op)
	}
	return nil
}

// key normalises an address: scheme, host and cleaned path; the query, if
// any, is part of the name.
func (v *VT) key(url string) (string, error) {
	u, err := stdurl.Parse(url)
	if err != nil {
		return "", err
	}
	if u.Scheme != v.Scheme {
		return "", fmt.Errorf("%s: unexpected address %q", v.Scheme, url)
	}
	k := u.Host + "|" + u.Path
	if u.Opaque != "" {
		k = "opaque|" + u.Opaque
	}
	if u.RawQuery != "" {
		k += "?" + u.RawQuery
	}
	return k, nil
}

// Put stores an object.
func (v *VT) Put(url string, f *VFile) {
	k, err := v.key(url)
	if err != nil {
		panic(err)
	}
	v.mu.Lock()
	v.files[k] = f
	v.mu.Unlock()
}

// Delete removes an object.
func (v *VT) Delete(url string) {
	k, _ := v.key(url)
	v.mu.Lock()
	delete(v.files, k)
	v.mu.Unlock()
}

// Lookup returns the object stored at the address, if any.
func (v *VT) Lookup(url string) *VFile {
	k, err := v.key(url)
	if err != nil {
		return nil
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.files[k]
}

// Keys lists what is stored.
func (v *VT) Keys() []string {
	v.mu.Lock()
	defer v.mu.Unlock()
	var ks []string
	for k := range v.files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (v *VT) Name() string { return "vt-" + v.Scheme }

func (v *VT) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	if err := v.hook(Op{Kind: "open", URL: url}); err != nil {
		return nil, err
	}
	f := v.Lookup(url)
	if f == nil {
		return nil, &os.PathError{Op: "open", Path: url, Err: os.ErrNotExist}
	}
	if size < 0 {
		size = f.size()
	}
	atomic.AddInt64(&v.Opens, 1)
	n := atomic.AddInt64(&v.OpenNow, 1)
	for {
		m := atomic.LoadInt64(&v.MaxOpen)
		if n <= m || atomic.CompareAndSwapInt64(&v.MaxOpen, m, n) {
			break
		}
	}
	return &vobject{v: v, url: url, f: f, size: size}, nil
}

func (v *VT) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	if err := v.hook(Op{Kind: "stat", URL: url}); err != nil {
		return nil, err
	}
	f := v.Lookup(url)
	if f == nil {
		return nil, os.ErrNotExist
	}
	return NewFI(path.Base(url), f.size(), false), nil
}

func (v *VT) Create(ctx context.Context, url string) (driver.ObjectWriter, error) {
	if err := v.hook(Op{Kind: "create", URL: url}); err != nil {
		return nil, err
	}
	if _, err := v.key(url); err != nil {
		return nil, err
	}
	atomic.AddInt64(&v.Creates, 1)
	return &vwriter{v: v, url: url}, nil
}

func (v *VT) Remove(ctx context.Context, url string) error {
	if err := v.hook(Op{Kind: "remove", URL: url}); err != nil {
		return err
	}
	if v.Lookup(url) == nil {
		return os.ErrNotExist
	}
	v.Delete(url)
	return nil
}

type vwriter struct {
	v    *VT
	url  string
	buf  bytes.Buffer
	done int32 // 1 committed 2 aborted
}

func (w *vwriter) Write(p []byte) (int, error) {
	if err := w.v.hook(Op{Kind: "write", URL: w.url, Off: int64(w.buf.Len()), N: len(p)}); err != nil {
		if s, ok := err.(ErrShort); ok {
			n := s.N
			if n > len(p) {
				n = len(p)
			}
			w.buf.Write(p[:n])
			return n, io.ErrShortWrite
		}
		return 0, err
	}
	return w.buf.Write(p)
}

func (w *vwriter) Commit() (driver.CommitInfo, error) {
	if err := w.v.hook(Op{Kind: "commit", URL: w.url, N: w.buf.Len()}); err != nil {
		return nil, err
	}
	if !atomic.CompareAndSwapInt32(&w.done, 0, 1) {
		return nil, driver.CommitOnAbortedObjectWriter
	}
	n := atomic.AddInt64(&w.v.Commits, 1)
	url := w.url
	if w.v.Versioned {
		url = fmt.Sprintf("%s?versionId=v%d", url, n)
	}
	w.v.Put(url, &VFile{Data: append([]byte(nil), w.buf.Bytes()...)})
	return driver.NewCommitInfo(url), nil
}

func (w *vwriter) Abort() {
	if atomic.CompareAndSwapInt32(&w.done, 0, 2) {
		atomic.AddInt64(&w.v.Aborts, 1)
	}
}

type vobject struct {
	v      *VT
	url    string
	f      *VFile
	size   int64
	pos    int64
	closed int32
}

func (o *vobject) URL() string { return o.url }
func (o *vobject) Size() int64 { return o.size }
func (o *vobject) Close() error {
	o.v.hook(Op{Kind: "close", URL: o.url})
	if atomic.SwapInt32(&o.closed, 1) != 0 {
		atomic.AddInt64(&o.v.DoubleCl, 1)
		return os.ErrClosed
	}
	atomic.AddInt64(&o.v.OpenNow, -1)
	return nil
}

func (o *vobject) ReadAt(p []byte, off int64) (int, error) {
	if atomic.LoadInt32(&o.closed) != 0 {
		return 0, os.ErrClosed
	}
	if off < 0 {
		return 0, errors.New("vt: negative offset")
	}
	if err := o.v.hook(Op{Kind: "read", URL: o.url, Off: off, N: len(p)}); err != nil {
		switch e := err.(type) {
		case ErrShort:
			n := e.N
			if n > len(p) {
				n = len(p)
			}
			n = o.f.readAt(p[:n], off)
			return n, io.EOF
		case ErrGarbage:
			for i := 0; i < e.N && i < len(p); i++ {
				p[i] = 0xDB
			}
			return 0, err
		}
		return 0, err
	}
	want := p
	if off >= o.size {
		return 0, io.EOF
	}
	if int64(len(want)) > o.size-off {
		want = want[:o.size-off]
	}
	n := o.f.readAt(want, off)
	atomic.AddInt64(&o.v.Reads, 1)
	atomic.AddInt64(&o.v.ReadByte, int64(n))
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (o *vobject) Read(p []byte) (int, error) {
	n, err := o.ReadAt(p, o.pos)
	o.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

func (o *vobject) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		o.pos = off
	case io.SeekCurrent:
		o.pos += off
	case io.SeekEnd:
		o.pos = o.size + off
	}
	if o.pos < 0 {
		o.pos = 0
		return 0, errors.New("vt: negative position")
	}
	return o.pos, nil
}

// FI is a plain os.FileInfo.
type FI struct {
	name string
	size int64
	dir  bool
}

func NewFI(name string, size int64, dir bool) *FI { return &FI{name, size, dir} }
func (f *FI) Name() string                        { return f.name }
func (f *FI) Size() int64                         { return f.size }
func (f *FI) IsDir() bool                         { return f.dir }
func (f *FI) ModTime() time.Time                  { return time.Unix(0, 0) }
func (f *FI) Sys() interface{}                    { return nil }
func (f *FI) Mode() os.FileMode {
	if f.dir {
		return os.ModeDir | 0755
	}
	return 0644
}

// MemObject is a standalone in-memory object with an address.
type MemObject struct {
	U    string
	F    *VFile
	Hook func(op Op) error
	// ShortOK makes reads that reach the end return a nil error.
	pos    int64
	closed int32
}

func NewMemObject(url string, f *VFile) *MemObject { return &MemObject{U: url, F: f} }

func (o *MemObject) URL() string { return o.U }
func (o *MemObject) Size() int64 { return o.F.size() }
func (o *MemObject) Close() error {
	atomic.AddInt32(&o.closed, 1)
	return nil
}
func (o *MemObject) Closed() int { return int(atomic.LoadInt32(&o.closed)) }
func (o *MemObject) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("read before the beginning")
	}
	if h := o.Hook; h != nil {
		if err := h(Op{Kind: "read", URL: o.U, Off: off, N: len(p)}); err != nil {
			switch e := err.(type) {
			case ErrShort:
				n := e.N
				if n > len(p) {
					n = len(p)
				}
				n = o.F.readAt(p[:n], off)
				return n, io.EOF
			case ErrGarbage:
				for i := 0; i < e.N && i < len(p); i++ {
					p[i] = 0xDB
				}
				return 0, err
			}
			return 0, err
		}
	}
	if off < 0 {
		return 0, errors.New("mem: negative offset")
	}
	n := o.F.readAt(p, off)
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (o *MemObject) Read(p []byte) (int, error) {
	n, err := o.ReadAt(p, o.pos)
	o.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}
func (o *MemObject) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += o.pos
	case io.SeekEnd:
		off += o.F.size()
	}
	if off < 0 {
		return 0, errors.New("seek before the beginning")
	}
	o.pos = off
	return o.pos, nil
}

var _ storage.Object = (*MemObject)(nil)

// Jitter yields or sleeps a little, to vary the interleavings.
type Jitter struct {
	mu  sync.Mutex
	rng *rand.Rand
}

func NewJitter(rng *rand.Rand) *Jitter { return &Jitter{rng: rng} }

func (j *Jitter) Do() {
	j.mu.Lock()
	k := j.rng.Intn(16)
	d := j.rng.Intn(400)
	j.mu.Unlock()
	switch {
	case k < 5:
		runtime.Gosched()
	case k < 8:
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
}

func (j *Jitter) Intn(n int) int {
	j.mu.Lock()
	defer j.mu.Unlock()
	return j.rng.Intn(n)
}

// Trunc shortens a string for messages.
func Trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Has reports whether the string contains any of the parts.
func Has(s string, parts ...string) bool {
	for _, p := range parts {
		if strings.Contains(s, p) {
			return true
		}
	}
	return false
}

// Sum is a hash of some bytes.
func Sum(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}
