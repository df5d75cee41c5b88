package mon

import (
	"fmt"
	"io"
	"os"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
)

// Burn adds the leaves to a new builder in order and builds the disc.
func Burn(url string, extended bool, leaves []*Leaf) (string, error) {
	var b vdisc.Builder
	if extended {
		b = vdisc.NewExtendedISO9660Builder(vdisc.BuilderConfig{URL: url})
	} else {
		b = vdisc.NewISO9660Builder(vdisc.BuilderConfig{URL: url})
	}
	for _, l := range leaves {
		var err error
		if l.Link {
			err = b.AddSymlink(l.Path, l.Target)
		} else {
			err = b.AddFile(l.Path, l.URL, l.Size)
		}
		if err != nil {
			return "", fmt.Errorf("adding %v: %v", l, err)
		}
	}
	return b.Build()
}

// CacheMode is one way of reading a disc.
type CacheMode struct {
	Name  string
	Cache caching.Cache
	Wait  func() // ends pending background work
	Disk  *caching.DiskSlicer
	Dir   string
}

// Modes makes one cache of each kind. dir holds the disk caches.
func Modes(dir string, bsize int64, bcount int64, window int, tokens int64) []CacheMode {
	ms := []CacheMode{{Name: "none", Cache: caching.NopCache, Wait: func() {}}}
	mem, err := caching.NewMemorySlicer(bsize, bcount)
	if err != nil {
		panic(err)
	}
	ms = append(ms, CacheMode{Name: "memory", Cache: caching.NewCache(mem, window, tokens), Wait: func() {}})
	if dir != "" {
		ds := caching.NewDiskSlicer(dir, bsize)
		ms = append(ms, CacheMode{Name: "disk", Cache: caching.NewCache(ds, window, tokens), Wait: ds.Wait, Disk: ds, Dir: dir})
	}
	return ms
}

// ReadAllChunks reads sequentially with the given chunk sizes, in rotation.
func ReadAllChunks(rd io.Reader, limit int64, chunks []int) ([]byte, error) {
	var out []byte
	zero := 0
	for i := 0; ; i++ {
		p := make([]byte, chunks[i%len(chunks)])
		n, err := rd.Read(p)
		if n < 0 || n > len(p) {
			return out, fmt.Errorf("read of %d bytes returned %d", len(p), n)
		}
		out = append(out, p[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if n == 0 {
			zero++
			if zero > 100 {
				return out, fmt.Errorf("100 reads in a row returned nothing and no error at offset %d", len(out))
			}
		} else {
			zero = 0
		}
		if int64(len(out)) > limit {
			return out, fmt.Errorf("more than %d bytes", limit)
		}
	}
}

// CheckReadAt judges one positioned read against the expected content. The
// contract: the available bytes of the range; fewer than asked only at the
// end of the object; at or after the end nothing.
func CheckReadAt(rd io.ReaderAt, want *VFile, size, off int64, n int) string {
	p := make([]byte, n+16)
	for i := range p {
		p[i] = 0xA7
	}
	m, err := rd.ReadAt(p[:n:n], off)
	exp := int64(0)
	if off < size {
		exp = size - off
		if exp > int64(n) {
			exp = int64(n)
		}
	}
	if m < 0 || m > n {
		return fmt.Sprintf("ReadAt(%d bytes, %d) returned count %d", n, off, m)
	}
	if err != nil && err != io.EOF {
		return fmt.Sprintf("ReadAt(%d bytes, %d) failed: %v", n, off, err)
	}
	if int64(m) != exp {
		return fmt.Sprintf("ReadAt(%d bytes, %d) of an object of %d bytes returned %d bytes, err %v; want %d", n, off, size, m, err, exp)
	}
	if n > 0 && exp == 0 && err == nil && off >= size {
		return fmt.Sprintf("ReadAt(%d bytes, %d) at or after the end %d returned no error and no bytes", n, off, size)
	}
	w := make([]byte, exp)
	want.readAt(w, off)
	if d := Diff(p[:m], w); d != "" {
		return fmt.Sprintf("ReadAt(%d bytes, %d) of an object of %d bytes: %s", n, off, size, d)
	}
	for i := n; i < len(p); i++ {
		if p[i] != 0xA7 {
			return fmt.Sprintf("ReadAt(%d bytes, %d) wrote behind the buffer", n, off)
		}
	}
	return ""
}

// ReadRange gives the expected bytes of a source.
func (f *VFile) Range(off int64, n int) []byte {
	p := make([]byte, n)
	m := f.readAt(p, off)
	return p[:m]
}

// TreeWalk lists what a walker reports: path -> info, failing on duplicates.
func TreeWalk(w *iso9660.Walker) (map[string]os.FileInfo, []string) {
	got := map[string]os.FileInfo{}
	var probs []string
	first := true
	err := w.Walk("/", func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			probs = append(probs, fmt.Sprintf("walk reports error %v at %q", err, p))
			return nil
		}
		if first {
			first = false
			got["/"] = fi
			return nil
		}
		if fi.Name() == "." || fi.Name() == ".." {
			return nil
		}
		full := p + "/" + fi.Name()
		if p == "/" {
			full = "/" + fi.Name()
		}
		if _, dup := got[full]; dup {
			probs = append(probs, fmt.Sprintf("walk reports %q twice", full))
		}
		got[full] = fi
		return nil
	})
	if err != nil {
		probs = append(probs, fmt.Sprintf("walk failed: %v", err))
	}
	return got, probs
}
