package mon

import (
	"encoding/binary"
	"fmt"
	"os"
	"path"
	"reflect"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/jacobsa/fuse/fuseops"
	"github.com/jacobsa/fuse/fuseutil"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/isofuse"
	"github.com/NVIDIA/vdisc/pkg/storage"
)

// FuseFS returns the filesystem a server would serve, without mounting it.
// It is found by its type among the server's fields.
func FuseFS(vol isofuse.Volume) (fuseutil.FileSystem, error) {
	s, err := isofuse.NewWithOptions("/nonexistent", vol, isofuse.Options{})
	if err != nil {
		return nil, err
	}
	want := reflect.TypeOf((*fuseutil.FileSystem)(nil)).Elem()
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type().Implements(want) {
			p := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			return p.Interface().(fuseutil.FileSystem), nil
		}
	}
	panic("the server has no filesystem")
}

// Dirent is one decoded directory entry as the kernel gets it.
type Dirent struct {
	Ino  uint64
	Off  uint64
	Type uint32
	Name string
}

// Dirents decodes the bytes of a directory reading.
func Dirents(b []byte) ([]Dirent, error) {
	var out []Dirent
	for len(b) > 0 {
		if len(b) < 24 {
			return out, fmt.Errorf("%d bytes left over", len(b))
		}
		d := Dirent{Ino: binary.LittleEndian.Uint64(b), Off: binary.LittleEndian.Uint64(b[8:]), Type: binary.LittleEndian.Uint32(b[20:])}
		n := int(binary.LittleEndian.Uint32(b[16:]))
		t := 24 + (n+7)/8*8
		if n == 0 || t > len(b) {
			return out, fmt.Errorf("entry with name length %d in %d bytes", n, len(b))
		}
		d.Name = string(b[24 : 24+n])
		out = append(out, d)
		b = b[t:]
	}
	return out, nil
}

// FaultyVolume passes a disc through; reads can be made to fail and the
// objects handed out are counted.
type FaultyVolume struct {
	Vol interface {
		Image() storage.AnonymousObject
		OpenExtent(lba iso9660.LogicalBlockAddress) (storage.Object, error)
	}
	ImageFault func(off int64, n int) error // error of a read of the image
	FileFault  func(off int64, n int) error
	OpenFault  func() error

	Opened, Closed, Doubly, Late int64

	mu     sync.Mutex
	Reads  int64
	OnOpen func(o *CountedObject)
}

func (v *FaultyVolume) Image() storage.AnonymousObject {
	return &faultyImage{v.Vol.Image(), v}
}

type faultyImage struct {
	storage.AnonymousObject
	v *FaultyVolume
}

func (o *faultyImage) ReadAt(p []byte, off int64) (int, error) {
	atomic.AddInt64(&o.v.Reads, 1)
	if f := o.v.ImageFault; f != nil {
		if err := f(off, len(p)); err != nil {
			if len(p) > 0 {
				p[0] ^= 0x55
			}
			return 0, err
		}
	}
	return o.AnonymousObject.ReadAt(p, off)
}

// CountedObject is an opened file of the volume.
type CountedObject struct {
	storage.Object
	v      *FaultyVolume
	closed int32
}

func (v *FaultyVolume) OpenExtent(lba iso9660.LogicalBlockAddress) (storage.Object, error) {
	if f := v.OpenFault; f != nil {
		if err := f(); err != nil {
			return nil, err
		}
	}
	o, err := v.Vol.OpenExtent(lba)
	if err != nil {
		return nil, err
	}
	atomic.AddInt64(&v.Opened, 1)
	return &CountedObject{Object: o, v: v}, nil
}

func (o *CountedObject) Close() error {
	if n := atomic.AddInt32(&o.closed, 1); n > 1 {
		atomic.AddInt64(&o.v.Doubly, 1)
	} else {
		atomic.AddInt64(&o.v.Closed, 1)
	}
	return o.Object.Close()
}

func (o *CountedObject) ReadAt(p []byte, off int64) (int, error) {
	if atomic.LoadInt32(&o.closed) > 0 {
		atomic.AddInt64(&o.v.Late, 1)
	}
	if f := o.v.FileFault; f != nil {
		if err := f(off, len(p)); err != nil {
			n := 0
			if len(p) > 1 {
				n = len(p) / 2
				for i := 0; i < n; i++ {
					p[i] = 0xDB
				}
			}
			return n, err
		}
	}
	return o.Object.ReadAt(p, off)
}

// Attrs is what a client can see of an entry's attributes.
type Attrs struct {
	Size       uint64
	Nlink      uint32
	Mode       os.FileMode
	Uid, Gid   uint32
	Mtime      time.Time
	CtimeEqual bool
}

// AttrsOf extracts the comparable part.
func AttrsOf(a fuseops.InodeAttributes) Attrs {
	return Attrs{a.Size, a.Nlink, a.Mode, a.Uid, a.Gid, a.Mtime.UTC(), a.Ctime.Equal(a.Mtime)}
}

// WantAttrs gives the expected attributes from the model and, for what the
// burn decides, from the independently decoded record.
func WantAttrs(e *Entry, n *IsoNode) Attrs {
	a := Attrs{Uid: n.Uid, Gid: n.Gid, Mtime: n.Modified.UTC(), CtimeEqual: true}
	switch e.Kind {
	case 'd':
		a.Size, a.Mode, a.Nlink = uint64(n.Size), os.ModeDir|0555, uint32(2+e.Subdirs())
	case 'f':
		a.Size, a.Mode, a.Nlink = uint64(e.Leaf.Size), 0444, 1
	case 'l':
		a.Size, a.Mode, a.Nlink = uint64(len(path.Clean(e.Leaf.Target))), os.ModeSymlink|0777, 1
	}
	return a
}
