package mon

import (
	"fmt"
	"sort"
)

// region is one file's place in an image.
type region struct {
	start, end int64
	f          *VFile
	off        int64 // of the source at start
}

// RefImage computes the expected bytes of a disc image from the header bytes
// and the sources: the places of the files are taken from the header by the
// independent decoder. It fails if the header does not decode.
func RefImage(hdr []byte, m *Model) (*VFile, *Iso, error) {
	iso := DecodeISO(hdr)
	if len(iso.Problems) > 0 {
		return nil, iso, fmt.Errorf("header: %s", iso.Problems[0])
	}
	var rs []region
	all := iso.All()
	end := int64(len(hdr)+isoBlock-1) / isoBlock * isoBlock
	for p, e := range m.All {
		if e.Kind != 'f' {
			continue
		}
		n := all[p]
		if n == nil {
			return nil, iso, fmt.Errorf("header does not contain %q", Trunc(p, 200))
		}
		off := int64(0)
		for _, x := range n.Extents {
			s := int64(x.Start) * isoBlock
			rs = append(rs, region{s, s + int64(x.Len), e.Leaf.Src, off})
			off += int64(x.Len)
		}
		if off != e.Leaf.Size {
			return nil, iso, fmt.Errorf("extents of %q hold %d bytes, declared %d", Trunc(p, 200), off, e.Leaf.Size)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].start < rs[j].start })
	for _, r := range rs {
		e := (r.end + isoBlock - 1) / isoBlock * isoBlock
		if e == r.start {
			e += isoBlock
		}
		if e > end {
			end = e
		}
	}
	if want := int64(iso.VolSize) * isoBlock; want != end {
		return nil, iso, fmt.Errorf("volume size is %d bytes, the parts end at %d", want, end)
	}
	fill := func(p []byte, off int64) {
		for i := range p {
			p[i] = 0
		}
		if off < int64(len(hdr)) {
			copy(p, hdr[off:])
		}
		e := off + int64(len(p))
		i := sort.Search(len(rs), func(i int) bool { return rs[i].end > off })
		for ; i < len(rs) && rs[i].start < e; i++ {
			r := rs[i]
			a, b := r.start, r.end
			if a < off {
				a = off
			}
			if b > e {
				b = e
			}
			if a < b {
				r.f.readAt(p[a-off:b-off], r.off+a-r.start)
			}
		}
	}
	return &VFile{Len: end, Fn: fill}, iso, nil
}
