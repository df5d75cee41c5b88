package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"
)

// An independent ISO 9660 / SUSP / Rock Ridge decoder, written from the
// standards and sharing no code with the repository. It is strict: every
// deviation is recorded as a problem.

const isoBlock = 2048

// The characters and the version of identifiers. That names without an
// extension carry no separator is common and accepted.
var (
	dirIdent  = regexp.MustCompile(`^[A-Z0-9_]+$`)
	fileIdent = regexp.MustCompile(`^[A-Z0-9_]*(\.[A-Z0-9_]*)?;[1-9][0-9]{0,4}$`)
)

// IsoNode is one decoded directory entry.
type IsoNode struct {
	Name     string
	Ident    string
	Dir      bool
	Start    uint32
	Size     int64
	Extents  []IsoExtent
	Mode     uint32
	Nlink    uint32
	Uid, Gid uint32
	Ino      uint32
	HasPX    bool
	Link     bool
	Target   string
	Modified time.Time
	HasTF    bool
	Children []*IsoNode
	Parent   *IsoNode
	CEs      int
	Path     string
}

type IsoExtent struct {
	Start uint32
	Len   uint32
}

// Iso is a decoded image header.
type Iso struct {
	img      []byte
	Problems []string
	PTOver   int // path table records whose parent has a number of more than 16 bits
	Root     *IsoNode
	VolSize  uint32
	PTSize   uint32
	LTable   uint32
	MTable   uint32
	IDs      map[string]string
	Created  time.Time
	Modified time.Time
	Dirs     []*IsoNode
	Records  int
	CEs      int
	Multi    int
	RecSizes map[int]bool
}

type isoRegion struct {
	start, end uint64 // bytes
	what       string
}

func (d *Iso) bad(format string, a ...interface{}) {
	if len(d.Problems) < 20 {
		d.Problems = append(d.Problems, fmt.Sprintf(format, a...))
	}
}

func (d *Iso) at(off, n uint64, what string) []byte {
	if n > uint64(len(d.img)) || off > uint64(len(d.img))-n {
		d.bad("%s at byte %d length %d lies outside the header of %d bytes", what, off, n, len(d.img))
		return nil
	}
	return d.img[off : off+n]
}

func (d *Iso) both32(b []byte, what string) uint32 {
	l := binary.LittleEndian.Uint32(b)
	m := binary.BigEndian.Uint32(b[4:])
	if l != m {
		d.bad("%s: little-endian %d differs from big-endian %d", what, l, m)
	}
	return l
}

func (d *Iso) both16(b []byte, what string) uint16 {
	l := binary.LittleEndian.Uint16(b)
	m := binary.BigEndian.Uint16(b[2:])
	if l != m {
		d.bad("%s: little-endian %d differs from big-endian %d", what, l, m)
	}
	return l
}

type isoRecord struct {
	ident  string
	start  uint32
	length uint32
	flags  byte
	su     []byte
	size   int
}

func (d *Iso) record(b []byte, what string) (r isoRecord, ok bool) {
	n := int(b[0])
	if n < 34 || n > len(b) {
		d.bad("%s: record length %d, %d bytes left in the sector", what, n, len(b))
		return
	}
	b = b[:n]
	r.size = n
	if b[1] != 0 {
		d.bad("%s: extended attribute record length %d", what, b[1])
	}
	r.start = d.both32(b[2:], what+" extent location")
	r.length = d.both32(b[10:], what+" data length")
	r.flags = b[25]
	if r.flags&^(0x80|0x02) != 0 {
		d.bad("%s: file flags %#x", what, r.flags)
	}
	if b[26] != 0 || b[27] != 0 {
		d.bad("%s: interleaved", what)
	}
	if v := d.both16(b[28:], what+" volume sequence number"); v != 1 {
		d.bad("%s: volume sequence number %d", what, v)
	}
	idl := int(b[32])
	if idl == 0 || 33+idl > n {
		d.bad("%s: identifier length %d in a record of %d", what, idl, n)
		return
	}
	r.ident = string(b[33 : 33+idl])
	su := 33 + idl
	if idl%2 == 0 {
		if su < n && b[su] != 0 {
			d.bad("%s: padding byte %#x", what, b[su])
		}
		su++
	}
	if su < n {
		r.su = b[su:]
	}
	ok = true
	return
}

type rrAttrs struct {
	name      string
	hasName   bool
	nameDot   byte
	slTarget  string
	hasSL     bool
	px        []byte
	hasPX     bool
	tfM       time.Time
	hasTF     bool
	sp        bool
	er        []string
	ces       int
	nmOpen    bool
	slOpen    bool
	terminate bool
}

type slComp struct {
	flags byte
	text  string
}

// ceUse records one continuation area.
type ceUse struct{ off, n uint64 }

func (d *Iso) systemUse(su []byte, what string, uses *[]isoRegion) rrAttrs {
	var a rrAttrs
	var comps []slComp
	nmSeen := false
	depth := 0
	for len(su) > 0 || depth >= 0 {
		var next []byte
		hasNext := false
		for len(su) >= 4 {
			sig := string(su[:2])
			l := int(su[2])
			if su[0] == 0 {
				for _, x := range su {
					if x != 0 {
						d.bad("%s: garbage after the system use entries", what)
						break
					}
				}
				su = nil
				break
			}
			if l < 4 || l > len(su) {
				d.bad("%s: %q entry of length %d with %d bytes left", what, sig, l, len(su))
				su = nil
				break
			}
			e := su[:l]
			su = su[l:]
			if e[3] != 1 {
				d.bad("%s: %q version %d", what, sig, e[3])
			}
			switch sig {
			case "SP":
				if l != 7 || e[4] != 0xBE || e[5] != 0xEF || e[6] != 0 {
					d.bad("%s: malformed SP %x", what, e)
				}
				a.sp = true
			case "ER":
				if l < 8 || 8+int(e[4])+int(e[5])+int(e[6]) != l {
					d.bad("%s: malformed ER", what)
					continue
				}
				a.er = append(a.er, string(e[8:8+int(e[4])]))
			case "CE":
				if l != 28 {
					d.bad("%s: CE length %d", what, l)
					continue
				}
				blk := d.both32(e[4:], what+" CE block")
				off := d.both32(e[12:], what+" CE offset")
				n := d.both32(e[20:], what+" CE length")
				if uint64(off)+uint64(n) > isoBlock {
					d.bad("%s: continuation area offset %d length %d crosses a block", what, off, n)
				}
				if hasNext {
					d.bad("%s: two CE entries in one area", what)
				}
				pos := uint64(blk)*isoBlock + uint64(off)
				next = d.at(pos, uint64(n), what+" continuation area")
				hasNext = next != nil
				if hasNext {
					*uses = append(*uses, isoRegion{pos, pos + uint64(n), what + " continuation"})
				}
				a.ces++
				d.CEs++
			case "NM":
				if l < 5 {
					d.bad("%s: short NM", what)
					continue
				}
				if nmSeen && !a.nmOpen {
					d.bad("%s: NM after the last NM", what)
				}
				nmSeen = true
				f := e[4]
				if f&^7 != 0 {
					d.bad("%s: NM flags %#x", what, f)
				}
				a.hasName = true
				a.nmOpen = f&1 != 0
				switch {
				case f&2 != 0:
					a.nameDot = 1
				case f&4 != 0:
					a.nameDot = 2
				default:
					a.name += string(e[5:])
				}
			case "PX":
				if l != 44 && l != 36 {
					d.bad("%s: PX length %d", what, l)
					continue
				}
				if a.hasPX {
					d.bad("%s: two PX entries", what)
				}
				for o := 4; o+8 <= l; o += 8 {
					d.both32(e[o:], what+" PX")
				}
				a.px = e
				a.hasPX = true
			case "SL":
				if l < 5 {
					d.bad("%s: short SL", what)
					continue
				}
				if a.hasSL && !a.slOpen {
					d.bad("%s: SL after the last SL", what)
				}
				a.hasSL = true
				a.slOpen = e[4]&1 != 0
				c := e[5:]
				for len(c) > 0 {
					if len(c) < 2 || 2+int(c[1]) > len(c) {
						d.bad("%s: malformed SL component", what)
						break
					}
					comps = append(comps, slComp{c[0], string(c[2 : 2+int(c[1])])})
					c = c[2+int(c[1]):]
				}
			case "TF":
				if l < 5 {
					d.bad("%s: short TF", what)
					continue
				}
				f := e[4]
				sz := 7
				if f&0x80 != 0 {
					sz = 17
				}
				p := e[5:]
				for bit := uint(0); bit < 7; bit++ {
					if f&(1<<bit) == 0 {
						continue
					}
					if len(p) < sz {
						d.bad("%s: TF too short", what)
						break
					}
					t := d.stamp(p[:sz], what+" TF")
					p = p[sz:]
					if bit == 1 {
						a.tfM = t
						a.hasTF = true
					}
				}
				if len(p) != 0 {
					d.bad("%s: TF has %d extra bytes", what, len(p))
				}
			case "ST":
				a.terminate = true
				su = nil
			default:
				// other entries are legal and ignored
			}
		}
		if len(su) > 0 {
			for _, x := range su {
				if x != 0 {
					d.bad("%s: trailing system use bytes %x", what, su)
					break
				}
			}
		}
		su = nil
		if !hasNext {
			break
		}
		su = next
		depth++
		if depth > 100000 {
			d.bad("%s: endless continuation chain", what)
			break
		}
	}
	if a.nmOpen {
		d.bad("%s: last NM entry announces a continuation", what)
	}
	if a.slOpen {
		d.bad("%s: last SL entry announces a continuation", what)
	}
	if a.hasSL {
		var b strings.Builder
		join := false // the previous component continues in this one
		first := true
		for i, c := range comps {
			if c.flags&^0x0f != 0 {
				d.bad("%s: SL component flags %#x", what, c.flags)
			}
			if !join && !first && b.String() != "/" {
				b.WriteByte('/')
			}
			switch {
			case c.flags&8 != 0:
				if i != 0 {
					d.bad("%s: SL root component in position %d", what, i)
				}
				b.WriteByte('/')
				if c.text != "" {
					d.bad("%s: SL root component with text", what)
				}
			case c.flags&2 != 0:
				b.WriteByte('.')
			case c.flags&4 != 0:
				b.WriteString("..")
			default:
				b.WriteString(c.text)
			}
			join = c.flags&1 != 0
			first = false
		}
		if join {
			d.bad("%s: last SL component announces a continuation", what)
		}
		a.slTarget = b.String()
	}
	return a
}

func (d *Iso) stamp(b []byte, what string) time.Time {
	if len(b) == 7 {
		if b[1] < 1 || b[1] > 12 || b[2] < 1 || b[2] > 31 || b[3] > 23 || b[4] > 59 || b[5] > 59 {
			d.bad("%s: bad date %v", what, b)
			return time.Time{}
		}
		return time.Date(1900+int(b[0]), time.Month(b[1]), int(b[2]), int(b[3]), int(b[4]), int(b[5]), 0,
			time.FixedZone("", int(int8(b[6]))*900))
	}
	t, err := time.Parse("20060102150405", string(b[:14]))
	if err != nil {
		d.bad("%s: bad date %q", what, b[:16])
		return time.Time{}
	}
	return t.Add(-time.Duration(int8(b[16])) * 15 * time.Minute)
}

// DecodeISO decodes a complete image header.
func DecodeISO(img []byte) *Iso {
	d := &Iso{img: img, IDs: map[string]string{}, RecSizes: map[int]bool{}}
	if len(img) < 18*isoBlock {
		d.bad("header has only %d bytes", len(img))
		return d
	}
	if len(img)%isoBlock != 0 {
		d.bad("header length %d is not a multiple of the block size", len(img))
	}
	for _, x := range img[:16*isoBlock] {
		if x != 0 {
			d.bad("system area is not zero")
			break
		}
	}
	var pvd []byte
	end := 0
	for s := 16; s*isoBlock < len(img); s++ {
		b := img[s*isoBlock : (s+1)*isoBlock]
		if string(b[1:6]) != "CD001" || b[6] != 1 {
			d.bad("sector %d: no volume descriptor where one is expected", s)
			return d
		}
		if b[0] == 255 {
			end = s + 1
			break
		}
		if b[0] == 1 && pvd == nil {
			pvd = b
		}
	}
	if pvd == nil || end == 0 {
		d.bad("no primary volume descriptor or no terminator")
		return d
	}
	d.VolSize = d.both32(pvd[80:], "volume space size")
	if v := d.both16(pvd[120:], "volume set size"); v != 1 {
		d.bad("volume set size %d", v)
	}
	if v := d.both16(pvd[124:], "volume sequence number"); v != 1 {
		d.bad("volume sequence number %d", v)
	}
	if v := d.both16(pvd[128:], "logical block size"); v != isoBlock {
		d.bad("logical block size %d", v)
	}
	d.PTSize = d.both32(pvd[132:], "path table size")
	d.LTable = binary.LittleEndian.Uint32(pvd[140:])
	d.MTable = binary.BigEndian.Uint32(pvd[148:])
	if pvd[881] != 1 {
		d.bad("file structure version %d", pvd[881])
	}
	str := func(name string, off, n int) { d.IDs[name] = strings.TrimRight(string(pvd[off:off+n]), " ") }
	str("system", 8, 32)
	str("volume", 40, 32)
	str("volumeset", 190, 128)
	str("publisher", 318, 128)
	str("preparer", 446, 128)
	str("application", 574, 128)
	str("copyright", 702, 37)
	str("abstract", 739, 37)
	str("bibliographic", 776, 37)
	d.Created = d.stamp(pvd[813:830], "creation date")
	d.Modified = d.stamp(pvd[830:847], "modification date")

	root, ok := d.record(pvd[156:190], "root record")
	if !ok {
		return d
	}
	if root.ident != "\x00" || root.flags&2 == 0 || root.size != 34 {
		d.bad("malformed root record")
	}
	d.Root = &IsoNode{Name: "/", Dir: true, Start: root.start, Size: int64(root.length), Path: "/"}
	d.Root.Parent = d.Root

	regions := []isoRegion{{0, uint64(end) * isoBlock, "descriptors"}}
	up := func(n uint64) uint64 { return (n + isoBlock - 1) / isoBlock * isoBlock }
	regions = append(regions,
		isoRegion{uint64(d.LTable) * isoBlock, uint64(d.LTable)*isoBlock + up(uint64(d.PTSize)), "L path table"},
		isoRegion{uint64(d.MTable) * isoBlock, uint64(d.MTable)*isoBlock + up(uint64(d.PTSize)), "M path table"})
	var files []isoRegion
	var ces []isoRegion

	queue := []*IsoNode{d.Root}
	seen := map[uint32]bool{d.Root.Start: true}
	for len(queue) > 0 {
		dir := queue[0]
		queue = queue[1:]
		d.Dirs = append(d.Dirs, dir)
		if dir.Size%isoBlock != 0 || dir.Size == 0 {
			d.bad("directory %s: size %d", dir.Path, dir.Size)
		}
		b := d.at(uint64(dir.Start)*isoBlock, uint64(dir.Size), "directory "+dir.Path)
		if b == nil {
			continue
		}
		regions = append(regions, isoRegion{uint64(dir.Start) * isoBlock, uint64(dir.Start)*isoBlock + up(uint64(dir.Size)), "directory " + dir.Path})
		queue = append(queue, d.directory(dir, b, seen, &files, &ces)...)
	}
	// the regions of the header and of the files do not overlap
	for _, f := range files {
		if f.end > uint64(d.VolSize)*isoBlock {
			d.bad("%s ends at byte %d, after the volume of %d blocks", f.what, f.end, d.VolSize)
		}
		if f.start < uint64(len(img)) {
			d.bad("%s starts at byte %d inside the header of %d bytes", f.what, f.start, len(img))
		}
	}
	overlap := func(rs []isoRegion) {
		sort.Slice(rs, func(i, j int) bool { return rs[i].start < rs[j].start })
		for i := 1; i < len(rs); i++ {
			if rs[i].start < rs[i-1].end {
				d.bad("%s [%d,%d) overlaps %s [%d,%d)", rs[i].what, rs[i].start, rs[i].end, rs[i-1].what, rs[i-1].start, rs[i-1].end)
			}
		}
	}
	overlap(append(append([]isoRegion(nil), regions...), files...))
	// continuation areas may share a block with each other only
	blocks := map[uint64]string{}
	for _, c := range ces {
		blocks[c.start/isoBlock] = c.what
	}
	withCE := append([]isoRegion(nil), regions...)
	for b, w := range blocks {
		withCE = append(withCE, isoRegion{b * isoBlock, (b + 1) * isoBlock, w})
	}
	overlap(withCE)
	for _, r := range regions {
		if r.end > uint64(d.VolSize)*isoBlock {
			d.bad("%s ends after the volume", r.what)
		}
	}
	if uint64(d.VolSize)*isoBlock < uint64(len(img)) {
		d.bad("volume of %d blocks is shorter than its header of %d bytes", d.VolSize, len(img))
	}
	d.pathTables()
	return d
}

func (d *Iso) directory(dir *IsoNode, b []byte, seen map[uint32]bool, files, ces *[]isoRegion) (subdirs []*IsoNode) {
	idx := 0
	var prev *IsoNode
	var prevFlags byte
	last := ""
	names := map[string]bool{}
	for pos := 0; pos < len(b); {
		left := isoBlock - pos%isoBlock
		if b[pos] == 0 {
			for _, x := range b[pos : pos+left] {
				if x != 0 {
					d.bad("directory %s: bytes after the last record of the sector at %d", dir.Path, pos/isoBlock)
					break
				}
			}
			pos += left
			continue
		}
		what := fmt.Sprintf("directory %s record %d", Trunc(dir.Path, 60), idx)
		r, ok := d.record(b[pos:pos+left], what)
		if !ok {
			return
		}
		pos += r.size
		d.Records++
		d.RecSizes[r.size] = true
		var uses []isoRegion
		a := d.systemUse(r.su, what, &uses)
		*ces = append(*ces, uses...)
		switch {
		case idx == 0 || idx == 1:
			want := string([]byte{byte(idx)})
			wantStart, wantLen := dir.Start, dir.Size
			if idx == 1 {
				wantStart, wantLen = dir.Parent.Start, dir.Parent.Size
			}
			if r.ident != want || r.flags != 2 || r.start != wantStart || int64(r.length) != wantLen {
				d.bad("%s: not the expected %d-th dot entry: ident %q flags %#x start %d length %d, want start %d length %d", what, idx, r.ident, r.flags, r.start, r.length, wantStart, wantLen)
			}
			if idx == 0 && dir == d.Root {
				if !a.sp {
					d.bad("root has no SP entry")
				}
				rr := false
				for _, e := range a.er {
					rr = rr || e == "RRIP_1991A" || e == "IEEE_P1282" || e == "IEEE_1282"
				}
				if !rr {
					d.bad("root declares no Rock Ridge extension: %v", a.er)
				}
			}
			if idx == 0 {
				if a.hasPX {
					d.px(dir, a.px)
				}
				if a.hasTF {
					dir.Modified, dir.HasTF = a.tfM, true
				}
			}
			idx++
			continue
		}
		idx++
		if prev != nil && prevFlags&0x80 != 0 {
			// continuation of a multi-extent file
			pe := prev.Extents[len(prev.Extents)-1]
			if r.ident != prev.Ident {
				d.bad("%s: previous record announces another extent but this is %q", what, r.ident)
			} else {
				if pe.Len%isoBlock != 0 || uint64(pe.Start)+uint64(pe.Len/isoBlock) != uint64(r.start) {
					d.bad("%s: extent at %d does not follow extent at %d of %d bytes", what, r.start, pe.Start, pe.Len)
				}
				if a.hasName && a.name != prev.Name {
					d.bad("%s: extents of one file are named differently", what)
				}
				prev.Extents = append(prev.Extents, IsoExtent{r.start, r.length})
				prev.Size += int64(r.length)
				d.Multi++
				d.fileRegion(prev, r, files)
				prevFlags = r.flags
				continue
			}
		}
		if last != "" && r.ident <= last {
			d.bad("%s: identifier %q after %q", what, r.ident, last)
		}
		last = r.ident
		if len(r.ident) > 31 {
			d.bad("%s: identifier %q is too long", what, r.ident)
		}
		if r.flags&2 != 0 && !dirIdent.MatchString(r.ident) || r.flags&2 == 0 && !fileIdent.MatchString(r.ident) {
			d.bad("%s: identifier %q is not in the form of the standard", what, r.ident)
		}
		n := &IsoNode{Ident: r.ident, Dir: r.flags&2 != 0, Start: r.start, Size: int64(r.length), Parent: dir, CEs: a.ces,
			Extents: []IsoExtent{{r.start, r.length}}}
		n.Name = r.ident
		if a.hasName {
			n.Name = a.name
			if a.nameDot != 0 {
				d.bad("%s: dot name on a normal entry", what)
			}
		} else {
			d.bad("%s: no NM entry", what)
		}
		if names[n.Name] {
			d.bad("directory %s: name %q appears twice", dir.Path, n.Name)
		}
		names[n.Name] = true
		n.Path = dir.Path + "/" + n.Name
		if dir.Path == "/" {
			n.Path = "/" + n.Name
		}
		if !a.hasPX {
			d.bad("%s: no PX entry", what)
		} else {
			d.px(n, a.px)
		}
		if a.hasTF {
			n.Modified, n.HasTF = a.tfM, true
		}
		if a.hasSL {
			n.Link, n.Target = true, a.slTarget
		}
		kind := uint32(0100000)
		if n.Dir {
			kind = 0040000
		} else if n.Link {
			kind = 0120000
		}
		if n.HasPX && n.Mode&0170000 != kind {
			d.bad("%s: mode %o does not fit the record", what, n.Mode)
		}
		dir.Children = append(dir.Children, n)
		if n.Dir {
			if seen[n.Start] {
				d.bad("%s: directory extent %d used twice", what, n.Start)
			} else {
				seen[n.Start] = true
				subdirs = append(subdirs, n)
			}
		} else if !n.Link {
			d.fileRegion(n, r, files)
		} else if n.Size != 0 {
			d.bad("%s: link with %d data bytes", what, n.Size)
		}
		prev, prevFlags = n, r.flags
	}
	if prevFlags&0x80 != 0 {
		d.bad("directory %s: last record announces another extent", dir.Path)
	}
	if idx < 2 {
		d.bad("directory %s: dot entries missing", dir.Path)
	}
	return
}

func (d *Iso) fileRegion(n *IsoNode, r isoRecord, files *[]isoRegion) {
	blocks := (uint64(r.length) + isoBlock - 1) / isoBlock
	if blocks == 0 {
		blocks = 1
	}
	*files = append(*files, isoRegion{uint64(r.start) * isoBlock, (uint64(r.start) + blocks) * isoBlock, "file " + Trunc(n.Path, 80)})
}

func (d *Iso) px(n *IsoNode, e []byte) {
	le := binary.LittleEndian
	n.HasPX = true
	n.Mode = le.Uint32(e[4:])
	n.Nlink = le.Uint32(e[12:])
	n.Uid = le.Uint32(e[20:])
	n.Gid = le.Uint32(e[28:])
	if len(e) >= 44 {
		n.Ino = le.Uint32(e[36:])
	}
}

type ptRecord struct {
	ident  string
	loc    uint32
	parent uint16
}

func (d *Iso) pathTable(loc uint32, o binary.ByteOrder, what string) []ptRecord {
	b := d.at(uint64(loc)*isoBlock, uint64(d.PTSize), what)
	var out []ptRecord
	for len(b) > 0 {
		l := int(b[0])
		n := 8 + l + l%2
		if l == 0 || n > len(b) {
			d.bad("%s: record %d malformed", what, len(out))
			return out
		}
		if b[1] != 0 {
			d.bad("%s: extended attribute length", what)
		}
		out = append(out, ptRecord{string(b[8 : 8+l]), o.Uint32(b[2:]), o.Uint16(b[6:])})
		b = b[n:]
	}
	return out
}

func (d *Iso) pathTables() {
	l := d.pathTable(d.LTable, binary.LittleEndian, "L path table")
	m := d.pathTable(d.MTable, binary.BigEndian, "M path table")
	if len(l) != len(m) {
		d.bad("path tables have %d and %d records", len(l), len(m))
		return
	}
	for i := range l {
		if l[i] != m[i] {
			d.bad("path tables differ at record %d: %v %v", i+1, l[i], m[i])
			return
		}
	}
	if len(l) != len(d.Dirs) {
		d.bad("path table has %d records for %d directories", len(l), len(d.Dirs))
		return
	}
	byLoc := map[uint32]*IsoNode{}
	for _, n := range d.Dirs {
		byLoc[n.Start] = n
	}
	num := map[*IsoNode]int{}
	for i, r := range l {
		n := byLoc[r.loc]
		if n == nil {
			d.bad("path table record %d: location %d is no directory", i+1, r.loc)
			return
		}
		if _, dup := num[n]; dup {
			d.bad("path table record %d: directory %s listed twice", i+1, n.Path)
			return
		}
		num[n] = i + 1
		if i == 0 {
			if n != d.Root || r.ident != "\x00" || r.parent != 1 {
				d.bad("path table record 1: not the root with parent 1: %q parent %d", r.ident, r.parent)
			}
			continue
		}
		if r.ident != n.Ident {
			d.bad("path table record %d: identifier %q, directory has %q", i+1, r.ident, n.Ident)
		}
		if w := num[n.Parent]; w > 0xffff && r.parent == uint16(w) {
			d.PTOver++
		} else if w == 0 || w != int(r.parent) {
			d.bad("path table record %d (%s): parent %d, want %d", i+1, n.Path, r.parent, num[n.Parent])
		}
		p := l[i-1]
		if pp, rp := num[byLoc[p.loc].Parent], num[n.Parent]; i > 1 && (rp < pp || rp == pp && r.ident <= p.ident) {
			d.bad("path table record %d out of order", i+1)
		}
	}
}

// All lists every node of the tree by path.
func (d *Iso) All() map[string]*IsoNode {
	m := map[string]*IsoNode{}
	if d.Root == nil {
		return m
	}
	var rec func(n *IsoNode)
	rec = func(n *IsoNode) {
		m[n.Path] = n
		for _, c := range n.Children {
			rec(c)
		}
	}
	rec(d.Root)
	return m
}

var _ = bytes.Equal
