// C04: image headers are well-formed ISO 9660 with Rock Ridge, as judged by
// an independent decoder.
package main

import (
	"bytes"
	"fmt"
	"path"
	"strings"
	"time"

	"github.com/NVIDIA/vdisc/pkg/iso9660"

	"vdiscverif/mon"
)

func main() {
	mon.Main("C04", "distinct image headers (by layout: directories, record sizes, continuation areas, extents) decoded completely by the independent decoder", func(r *mon.Run) {
		r.Parallel(r.N(400, 8000), 0, func(i int) { one(r, i) })
		r.Parallel(r.N(12, 100), 0, func(i int) { big(r, i) })
		boundary(r)
		crowd(r)
		r.Need("continuation areas", 500)
		r.Need("further extents", 50)
		r.Need("directory records", 5000)
	})
}

const maxPart = 4294965248

type vol interface {
	AddFile(string, interface{}) error
}

func ident(n int, k int) string {
	s := "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(s[(i*7+k)%len(s)])
	}
	return b.String()
}

func one(r *mon.Run, i int) {
	rng := r.Rng("tree", i)
	ext := rng.Intn(2) == 0
	n := rng.Intn(30)
	if i%25 == 24 {
		n = 200 + rng.Intn(800)
	}
	paths := mon.GenPaths(rng, n, ext)
	var ls []*mon.Leaf
	links := rng.Intn(4)
	for _, p := range paths {
		if rng.Intn(4) < links {
			ls = append(ls, &mon.Leaf{Path: p, Link: true, Target: mon.Target(rng, ext, paths)})
			continue
		}
		s := mon.Size(rng, 1<<22)
		switch rng.Intn(30) {
		case 0:
			s = maxPart*int64(1+rng.Intn(3)) + int64(rng.Intn(5)-2)
		case 1:
			s = rng.Int63n(1 << 36)
		}
		ls = append(ls, &mon.Leaf{Path: p, Size: s})
	}
	ids := map[string]string{}
	if rng.Intn(2) == 0 {
		ids["system"] = ident(rng.Intn(33), i)
		ids["volume"] = ident(rng.Intn(33), i+1)
		ids["volumeset"] = ident(rng.Intn(129), i+2)
		ids["publisher"] = ident(rng.Intn(129), i+3)
		ids["preparer"] = ident(rng.Intn(129), i+4)
		ids["application"] = ident(rng.Intn(129), i+5)
		ids["copyright"] = ident(rng.Intn(38), i+6)
		ids["abstract"] = ident(rng.Intn(37), i+7)
		ids["bibliographic"] = ident(rng.Intn(38), i+8)
	}
	check(r, fmt.Sprintf("tree %d", i), ext, ls, ids)
}

// big: directories of several sectors, deep hierarchies, many directories.
func big(r *mon.Run, i int) {
	rng := r.Rng("big", i)
	var ls []*mon.Leaf
	switch i % 4 {
	case 0:
		for k := 0; k < 3000; k++ {
			ls = append(ls, &mon.Leaf{Path: fmt.Sprintf("/d/%s-%d", mon.Name(rng, false), k), Size: int64(k)})
		}
	case 1:
		for k := 0; k < 1500; k++ {
			ls = append(ls, &mon.Leaf{Path: fmt.Sprintf("/d%d/e%d/f", k%40, k), Size: int64(k)})
		}
	case 2:
		p := ""
		for k := 0; k < 300; k++ {
			p += "/" + string('a'+rune(k%26))
			ls = append(ls, &mon.Leaf{Path: p + "/file", Size: 3})
		}
	case 3:
		for k := 0; k < 400; k++ {
			ls = append(ls, &mon.Leaf{Path: fmt.Sprintf("/l/%d", k), Link: true, Target: strings.Repeat("x", 1+k) + "/" + strings.Repeat("../y/", k%60)})
			ls = append(ls, &mon.Leaf{Path: fmt.Sprintf("/n/%d%s", k, strings.Repeat("n", k)), Size: maxPart*2 + int64(k)})
		}
	}
	check(r, fmt.Sprintf("big tree %d", i), false, ls, nil)
}

// crowd: more directories than a path table can number.
func crowd(r *mon.Run) {
	var ls []*mon.Leaf
	for k := 0; k < 66000; k++ {
		p := fmt.Sprintf("/%d/%d", k%300, k)
		if k%9 == 0 {
			p += "/sub"
		}
		ls = append(ls, &mon.Leaf{Path: p + "/f", Size: int64(k)})
	}
	check(r, "66000 directories", false, ls, nil)
}

// boundary: every name length and target length around the limits of a
// record, a name entry and a continuation block.
func boundary(r *mon.Run) {
	for n := 1; n <= 520 && !r.Enough(); n++ {
		if r.Quick && n > 300 && n%7 != 0 {
			continue
		}
		nm := strings.Repeat("q", n)
		ls := []*mon.Leaf{
			{Path: "/" + nm, Size: int64(n)},
			{Path: "/" + nm + "d/" + nm + "f", Size: maxPart + int64(n)},
			{Path: "/" + nm + "l", Link: true, Target: nm},
			{Path: "/z", Link: true, Target: "../" + nm + "/" + nm + "/."},
			{Path: "/y", Link: true, Target: "/" + nm + "/.."},
			{Path: "/x", Link: true, Target: nm + strings.Repeat("/"+nm, 9)},
		}
		check(r, fmt.Sprintf("name length %d", n), false, ls, nil)
	}
	check(r, "empty volume", false, nil, nil)
	for _, t := range []string{"/", ".", "..", "a/..", "//", "../..", "/..", "./."} {
		check(r, "target "+t, false, []*mon.Leaf{{Path: "/l", Link: true, Target: t}}, nil)
	}
}

func check(r *mon.Run, what string, ext bool, ls []*mon.Leaf, ids map[string]string) {
	end := r.Begin("%s", what)
	defer end()
	before := time.Now().Truncate(time.Second)
	var v *iso9660.Volume
	if ext {
		v = iso9660.NewNvidiaExtendedVolume()
	} else {
		v = iso9660.NewPosixPortableVolume()
	}
	model := mon.NewModel(func(string) bool { return true })
	for k, l := range ls {
		var err error
		if l.Link {
			err = v.AddSymlink(l.Path, l.Target)
		} else {
			err = v.AddFile(l.Path, mon.NewMemObject(fmt.Sprintf("mem:%d", k), &mon.VFile{Gen: true, ID: uint64(k), Len: l.Size}))
		}
		if err != nil {
			r.Violate("add", "%s: adding %v: %v", what, l, err)
			return
		}
		if !model.Add(l) {
			panic("generator made a collision")
		}
	}
	if ids != nil {
		v.SetSystemIdentifier(ids["system"])
		v.SetVolumeIdentifier(ids["volume"])
		v.SetVolumeSetIdentifier(ids["volumeset"])
		v.SetPublisherIdentifier(ids["publisher"])
		v.SetDataPreparerIdentifier(ids["preparer"])
		v.SetApplicationIdentifier(ids["application"])
		v.SetCopyrightFileIdentifier(ids["copyright"])
		v.SetAbstractFileIdentifier(ids["abstract"])
		v.SetBibliographicFileIdentifier(ids["bibliographic"])
	}
	var buf bytes.Buffer
	var n int64
	var err error
	if msg, p := mon.Catch(func() { n, err = v.WriteMetadataTo(&buf) }); p {
		r.Violate("panic", "%s: %s", what, msg)
		return
	}
	after := time.Now()
	if err != nil && model.Dirs() > 0xffff {
		r.Count("volumes refused for their number of directories", 1)
		return
	}
	if err != nil {
		r.Violate("write", "%s: writing the header: %v", what, err)
		return
	}
	if n != int64(buf.Len()) {
		r.Violate("count", "%s: %d bytes reported, %d written", what, n, buf.Len())
	}
	d := mon.DecodeISO(buf.Bytes())
	r.Eval()
	for _, p := range d.Problems {
		r.Violate("iso:"+problemKey(p), "%s: %s", what, p)
	}
	if d.Root == nil || len(d.Problems) > 0 {
		return
	}
	if d.PTOver > 0 {
		r.Violate("path-table-parent-overflow", "%s: %d path table records give the number of their parent, which is over 65535, without its upper bits", what, d.PTOver)
	}
	for k, s := range ids {
		if k == "abstract" && d.IDs[k] != s && buf.Bytes()[16*2048+739] == ' ' && strings.TrimRight(string(buf.Bytes()[16*2048+740:16*2048+776]), " ") == s {
			r.Violate("abstract-identifier-offset", "%s: abstract file identifier starts at byte 740 of the descriptor, the standard puts it at 739", what)
			continue
		}
		if d.IDs[k] != s {
			r.Violate("identifier", "%s: %s identifier %q, want %q", what, k, d.IDs[k], s)
		}
	}
	got := d.All()
	inos := map[uint32]string{}
	first := int64(-1)
	last := int64(buf.Len() / 2048)
	for _, p := range model.Paths() {
		e := model.All[p]
		g := got[p]
		if g == nil {
			r.Violate("missing", "%s: %q is not in the image", what, mon.Trunc(p, 200))
			continue
		}
		kind := byte('f')
		if g.Dir {
			kind = 'd'
		} else if g.Link {
			kind = 'l'
		}
		if kind != e.Kind {
			r.Violate("kind", "%s: %q is %c, want %c", what, mon.Trunc(p, 200), kind, e.Kind)
			continue
		}
		if q, dup := inos[g.Ino]; dup {
			r.Violate("inode", "%s: %q and %q have inode %d", what, mon.Trunc(p, 200), mon.Trunc(q, 200), g.Ino)
		}
		inos[g.Ino] = p
		mode, nlink := uint32(0100444), uint32(1)
		switch e.Kind {
		case 'd':
			mode, nlink = 0040555, uint32(2+e.Subdirs())
		case 'l':
			mode = 0120777
			if t := path.Clean(e.Leaf.Target); g.Target != t {
				r.Violate("target", "%s: %q has target %q, want %q", what, mon.Trunc(p, 200), mon.Trunc(g.Target, 300), mon.Trunc(t, 300))
			}
		case 'f':
			if g.Size != e.Leaf.Size {
				r.Violate("size", "%s: %q has size %d, want %d", what, mon.Trunc(p, 200), g.Size, e.Leaf.Size)
			}
			if first < 0 || int64(g.Start) < first {
				first = int64(g.Start)
			}
			b := (g.Size + 2047) / 2048
			if b == 0 {
				b = 1
			}
			if x := int64(g.Start) + b; x > last {
				last = x
			}
			for k, x := range g.Extents {
				if k < len(g.Extents)-1 && x.Len == 0 {
					r.Violate("empty-extent", "%s: %q has an empty extent", what, mon.Trunc(p, 200))
				}
			}
		}
		if g.Mode != mode || g.Nlink != nlink || g.Uid != 0 || g.Gid != 0 {
			r.Violate("attributes", "%s: %q has mode %o nlink %d owner %d:%d, want mode %o nlink %d", what, mon.Trunc(p, 200), g.Mode, g.Nlink, g.Uid, g.Gid, mode, nlink)
		}
		if !g.HasTF || g.Modified.Before(before) || g.Modified.After(after) {
			r.Violate("time", "%s: %q modified %v, written between %v and %v", what, mon.Trunc(p, 200), g.Modified.UTC(), before.UTC(), after.UTC())
		}
	}
	if d.Modified.Before(before) || d.Modified.After(after) || d.Created.Before(before) || d.Created.After(after) {
		r.Violate("volume-time", "%s: volume created %v modified %v, written between %v and %v", what, d.Created, d.Modified, before.UTC(), after.UTC())
	}
	if len(got) != len(model.All) {
		r.Violate("extra", "%s: image has %d entries, %d expected", what, len(got), len(model.All))
	}
	if first >= 0 && first*2048 != n {
		r.Violate("header-length", "%s: %d header bytes, but the first file starts at block %d", what, n, first)
	}
	if int64(d.VolSize) != last {
		r.Violate("volume-size", "%s: volume has %d blocks, its content ends at %d", what, d.VolSize, last)
	}
	r.Count("directory records", int64(d.Records))
	r.Count("continuation areas", int64(d.CEs))
	r.Count("further extents", int64(d.Multi))
	r.Count("directories", int64(len(d.Dirs)))
	for s := range d.RecSizes {
		r.Distinct("record lengths", fmt.Sprint(s))
	}
	r.Distinct("main", fmt.Sprintf("%d|%d|%d|%d|%d", len(d.Dirs), d.Records, d.CEs, d.Multi, buf.Len()))
	if strings.HasPrefix(what, "big") {
		r.Sample("%s: %d header bytes, %d directories, %d records, %d continuation areas, %d further extents, %d blocks", what, n, len(d.Dirs), d.Records, d.CEs, d.Multi, d.VolSize)
	}
}

// problemKey gives a stable class for a decoder problem.
func problemKey(p string) string {
	var b strings.Builder
	for _, w := range strings.Fields(p) {
		if strings.IndexAny(w, "0123456789/\"[%") >= 0 {
			continue
		}
		b.WriteString(w + "-")
	}
	return mon.Trunc(strings.TrimRight(b.String(), "-:"), 60)
}
