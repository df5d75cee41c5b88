// C05: naming rules, collisions and rejected additions.
package main

import (
	"fmt"
	"math/rand"
	"path"
	"strings"
	"unicode"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/vdisc"

	"vdiscverif/mon"
)

var vt *mon.VT

func main() {
	mon.Main("C05", "distinct (rule, reason class of the verdict, depth, kind) additions whose acceptance was judged, on discs that were then read back in full", func(r *mon.Run) {
		vt = mon.NewVT("vt")
		vt.Put("vt://src/a", &mon.VFile{Gen: true, ID: 7, Len: 1 << 30})
		r.Parallel(r.N(400, 8000), 0, func(i int) { one(r, i) })
		runes(r)
		r.Need("accepted", 3000)
		r.Need("rejected", 2000)
		r.Need("rejected by name", 500)
		r.Need("rejected by collision", 500)
		r.Need("rejected through a leaf", 200)
		r.Need("rejected by source", 100)
	})
}

// extName is the extended rule: printable characters except a fixed set.
func extName(s string) bool {
	for _, c := range s {
		if strings.ContainsRune("/\\?%*:|\"<> \n\t$!", c) || !unicode.IsPrint(c) {
			return false
		}
	}
	return true
}

const weird = " !\"#$%&'()*+,:;<=>?@[\\]^`{|}~\t\n\x00\x7f\x1b\u00a0\u00ad\u200b\u2028\ufeff\u00e9\u65e5\u0301\ufffd"

func badName(rng *rand.Rand) string {
	n := mon.Name(rng, true)
	rs := []rune(n)
	ws := []rune(weird)
	k := rng.Intn(len(rs) + 1)
	return string(rs[:k]) + string(ws[rng.Intn(len(ws))]) + string(rs[k:])
}

func one(r *mon.Run, i int) {
	rng := r.Rng("seq", i)
	ext := rng.Intn(2) == 0
	valid := mon.PosixName
	rule := "posix"
	url := fmt.Sprintf("vt://t/%d.vdsc", i)
	var b vdisc.Builder
	if ext {
		valid, rule = extName, "extended"
		b = vdisc.NewExtendedISO9660Builder(vdisc.BuilderConfig{URL: url})
	} else if rng.Intn(2) == 0 {
		b = vdisc.NewISO9660Builder(vdisc.BuilderConfig{URL: url})
	} else {
		b = vdisc.NewPosixPortableISO9660Builder(vdisc.BuilderConfig{URL: url})
	}
	model := mon.NewModel(valid)
	phantom := map[string]bool{} // directories a rejected addition may have left
	var hist []string
	steps := 5 + rng.Intn(60)
	lastErr := ""
	for k := 0; k < steps; k++ {
		l := &mon.Leaf{URL: "vt://src/a", Size: int64(rng.Intn(5000)), Link: rng.Intn(4) == 0}
		if l.Link {
			l.Target = "t" + mon.Name(rng, false)
		}
		paths := model.Paths()
		p := ""
		d := paths[rng.Intn(len(paths))]
		switch rng.Intn(12) {
		case 0: // existing entry
			p = d
		case 1: // below an existing entry of any kind
			p = d + "/" + mon.Name(rng, ext)
		case 2: // an invalid component somewhere
			p = d + "/" + badName(rng)
			if rng.Intn(2) == 0 {
				p += "/" + mon.Name(rng, ext)
			}
		case 3: // valid directories, then an invalid leaf
			p = d + "/" + mon.Name(rng, ext) + "/" + badName(rng)
		case 4:
			p = []string{"", "/", ".", "..", "/.", "/..", "../a", "../../b", "./", "a/..", "//", "/../" + mon.Name(rng, ext), d + "/.."}[rng.Intn(13)]
		case 5: // a directory's parent as a leaf
			p = path.Dir(d)
		case 6: // names that differ little
			p = d
			if p != "/" {
				switch rng.Intn(4) {
				case 0:
					p = strings.ToUpper(p)
				case 1:
					p = strings.ToLower(p)
				case 2:
					p += "."
				case 3:
					p += "0"
				}
			}
		default:
			p = d
			if e := model.All[d]; e.Kind != 'd' {
				p = path.Dir(d)
			}
			for n := 1 + rng.Intn(3); n > 0; n-- {
				p += "/" + mon.Name(rng, ext)
			}
		}
		switch rng.Intn(8) {
		case 0:
			p = strings.TrimPrefix(p, "/")
		case 1:
			p += "/"
		case 2:
			p = strings.Replace(p, "/", "/./", 1)
		case 3:
			p = strings.Replace(p, "/", "//", -1)
		}
		l.Path = p
		badSrc := !l.Link && rng.Intn(15) == 0
		if badSrc {
			l.URL = "vt://src/missing"
		}
		c := mon.Clean(p)
		// a directory left by an earlier rejected addition counts as existing
		if phantom[c] && model.All[c] == nil {
			continue
		}
		var err error
		if l.Link {
			err = b.AddSymlink(l.Path, l.Target)
		} else {
			err = b.AddFile(l.Path, l.URL, l.Size)
		}
		want, reason := false, "source"
		if !badSrc {
			reason = why(model, c)
			want = model.Add(l)
		}
		r.Eval()
		hist = append(hist, fmt.Sprintf("%v -> %v", l, err))
		if (err == nil) != want {
			r.Violate("verdict", "sequence %d (%s rule), step %d: adding %v gave %v, the rule says accept=%v (%s)\nhistory:\n%s", i, rule, k, l, err, want, reason, strings.Join(hist, "\n"))
			return
		}
		if want {
			r.Count("accepted", 1)
		} else {
			r.Count("rejected", 1)
			r.Count("rejected "+map[string]string{"name": "by name", "collision": "by collision", "leaf": "through a leaf", "source": "by source", "reserved": "as reserved"}[reason], 1)
			lastErr = err.Error()
			for x := path.Dir(c); x != "/"; x = path.Dir(x) {
				phantom[x] = true
			}
		}
		r.Distinct("main", fmt.Sprintf("%s %s %d %v", rule, reason, strings.Count(c, "/"), l.Link))
	}
	got, err := b.Build()
	if err != nil {
		r.Violate("build", "sequence %d: build failed: %v\nhistory:\n%s", i, err, strings.Join(hist, "\n"))
		return
	}
	defer func() { vt.Delete(got); vt.Delete(got + ".isohdr") }()
	v, err := vdisc.Load(got, mon.Modes("", 1<<16, 64, 0, 0)[1].Cache)
	if err != nil {
		r.Violate("load", "sequence %d: %v", i, err)
		return
	}
	defer v.Close()
	w := iso9660.NewWalker(v.Image())
	tree, probs := mon.TreeWalk(w)
	for _, p := range probs {
		r.Violate("walk", "sequence %d: %s", i, p)
	}
	bad := func(f string, a ...interface{}) {
		r.Violate("contents", "sequence %d (%s rule): %s\nlast error %s\nhistory:\n%s", i, rule, fmt.Sprintf(f, a...), lastErr, strings.Join(hist, "\n"))
	}
	for p, e := range model.All {
		fi, ok := tree[p]
		r.Eval()
		if !ok {
			bad("accepted entry %q is missing", p)
			return
		}
		x := fi.Sys().(*iso9660.FileInfo)
		switch e.Kind {
		case 'd':
			if !fi.IsDir() {
				bad("%q is not a directory", p)
			}
		case 'l':
			if x.Target() != path.Clean(e.Leaf.Target) {
				bad("link %q has target %q, want %q", p, x.Target(), e.Leaf.Target)
			}
		case 'f':
			if fi.Size() != e.Leaf.Size || !fi.Mode().IsRegular() {
				bad("file %q has size %d mode %v, want %d", p, fi.Size(), fi.Mode(), e.Leaf.Size)
			}
			n := int(e.Leaf.Size)
			if n > 300 {
				n = 300
			}
			o, err := v.OpenExtent(x.Extent())
			if err != nil {
				bad("file %q cannot be opened: %v", p, err)
				return
			}
			if o.Size() != e.Leaf.Size {
				bad("file %q opens with size %d, want %d", p, o.Size(), e.Leaf.Size)
			}
			if n > 0 {
				if d := mon.CheckReadAt(o, &mon.VFile{Gen: true, ID: 7, Len: e.Leaf.Size}, e.Leaf.Size, e.Leaf.Size-int64(n), n); d != "" {
					bad("file %q: %s", p, d)
				}
			}
			o.Close()
		}
	}
	for p, fi := range tree {
		if model.All[p] == nil && !(fi.IsDir() && phantom[p]) {
			bad("%q (%v) exists but was never successfully added", p, fi.Mode())
			return
		}
	}
	if i < 4 {
		r.Sample("sequence %d (%s rule): %d additions, %d entries on the disc", i, rule, len(hist), len(model.All))
	}
}

// why names the reason for the verdict.
func why(m *mon.Model, c string) string {
	parts := strings.Split(strings.TrimPrefix(c, "/"), "/")
	cur := m.Root
	for i, p := range parts {
		ch, ok := cur.Children[p]
		if !ok {
			for _, q := range parts[i:] {
				if q == "" || q == "." || q == ".." {
					return "reserved"
				}
				if !m.Valid(q) {
					return "name"
				}
			}
			return "ok"
		}
		if i == len(parts)-1 {
			return "collision"
		}
		if ch.Kind != 'd' {
			return "leaf"
		}
		cur = ch
	}
	return "collision"
}

// runes: every character of the first plane and some others, in each rule,
// as a file name, a directory name and a link name.
func runes(r *mon.Run) {
	for _, ext := range []bool{false, true} {
		valid := mon.PosixName
		if ext {
			valid = extName
		}
		check := func(c rune, form int) {
			mk := func() *iso9660.Volume {
				if ext {
					return iso9660.NewNvidiaExtendedVolume()
				}
				return iso9660.NewPosixPortableVolume()
			}
			v := mk()
			name := []string{string(c) + "x", "x" + string(c), "x" + string(c) + "y"}[form%3]
			obj := mon.NewMemObject("vt://src/a", &mon.VFile{Gen: true, ID: 7, Len: 3})
			var err error
			switch (form / 3) % 3 {
			case 0:
				err = v.AddFile("/d/"+name, obj)
			case 1:
				err = v.AddFile("/"+name+"/f", obj)
			case 2:
				err = v.AddSymlink("/"+name, "t")
			}
			r.Eval()
			want := true
			for _, q := range strings.Split(name, "/") {
				if q != "" && !valid(q) {
					want = false
				}
			}
			if c == '/' {
				return
			}
			if (err == nil) != want {
				r.Violate("rune", "character %U (extended=%v, form %d): addition of %q gave %v, the rule says accept=%v", c, ext, form, name, err, want)
			}
		}
		for c := rune(0); c < 0x3000; c++ {
			check(c, int(c)%9)
			if c < 0x100 {
				for f := 0; f < 9; f++ {
					check(c, f)
				}
			}
		}
		rng := r.Rng("runes")
		for k := 0; k < r.N(3000, 60000); k++ {
			c := rune(rng.Intn(0x110000))
			if c >= 0xd800 && c < 0xe000 {
				continue
			}
			check(c, rng.Intn(9))
		}
	}
}
