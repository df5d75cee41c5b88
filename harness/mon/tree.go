package mon

import (
	"fmt"
	"math/rand"
	"path"
	"sort"
	"strings"
)

// Leaf is one addition to a disc: a file or a symbolic link.
type Leaf struct {
	Path   string // as passed to the builder
	Link   bool
	Target string // links: as passed to the builder
	URL    string // files: address of the source
	Size   int64  // files: declared size
	Src    *VFile // files: the source content
}

func (l *Leaf) String() string {
	if l.Link {
		return fmt.Sprintf("link %q -> %q", Trunc(l.Path, 48), Trunc(l.Target, 48))
	}
	return fmt.Sprintf("file %q = %q size %d", Trunc(l.Path, 48), l.URL, l.Size)
}

// Clean gives the path inside the disc: "/a/b".
func Clean(p string) string {
	c := path.Clean(p)
	if !path.IsAbs(c) {
		c = "/" + c
	}
	return c
}

// Entry is one node of the expected tree.
type Entry struct {
	Kind     byte // 'd', 'f', 'l'
	Path     string
	Leaf     *Leaf
	Children map[string]*Entry
	Parent   *Entry
	Name     string
}

// Subdirs counts the child directories.
func (e *Entry) Subdirs() int {
	n := 0
	for _, c := range e.Children {
		if c.Kind == 'd' {
			n++
		}
	}
	return n
}

// Names lists the children in order.
func (e *Entry) Names() []string {
	var ns []string
	for n := range e.Children {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// Model is the expected tree: a plain reference implementation of the
// naming rules, independent of the code under test.
type Model struct {
	Root  *Entry
	All   map[string]*Entry // by cleaned path
	Valid func(name string) bool
}

// NewModel creates an empty tree.
func NewModel(valid func(string) bool) *Model {
	root := &Entry{Kind: 'd', Path: "/", Name: ".", Children: map[string]*Entry{}}
	root.Parent = root
	return &Model{Root: root, All: map[string]*Entry{"/": root}, Valid: valid}
}

// Add applies one addition; it reports whether it is to be accepted.
// Directories made on the way of a rejected addition are remembered in
// Maybe, as the statement leaves them open.
func (m *Model) Add(l *Leaf) bool {
	c := path.Clean(l.Path)
	c = strings.TrimPrefix(c, "/")
	parts := strings.Split(c, "/")
	cur := m.Root
	for i, p := range parts {
		if ch, ok := cur.Children[p]; ok {
			if i == len(parts)-1 || ch.Kind != 'd' {
				return false
			}
			cur = ch
			continue
		}
		// a new component: the rest must all be valid
		for _, q := range parts[i:] {
			if q == "" || q == "." || q == ".." || !m.Valid(q) {
				return false
			}
		}
		for j := i; j < len(parts); j++ {
			e := &Entry{Kind: 'd', Name: parts[j], Parent: cur, Path: path.Join(cur.Path, parts[j])}
			if j == len(parts)-1 {
				e.Leaf = l
				e.Kind = 'f'
				if l.Link {
					e.Kind = 'l'
				}
			} else {
				e.Children = map[string]*Entry{}
			}
			cur.Children[parts[j]] = e
			m.All[e.Path] = e
			cur = e
		}
		return true
	}
	return false
}

// Paths lists all paths in order.
func (m *Model) Paths() []string {
	var ps []string
	for p := range m.All {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// Dirs counts the directories.
func (m *Model) Dirs() int {
	n := 0
	for _, e := range m.All {
		if e.Kind == 'd' {
			n++
		}
	}
	return n
}

// Walk resolves a path textually without following links. It returns the
// entry, or "ENOENT" or "ENOTDIR".
func (m *Model) Walk(p string) (*Entry, string) {
	c := path.Clean("/" + p)
	if c == "/" {
		return m.Root, ""
	}
	cur := m.Root
	for _, part := range strings.Split(c[1:], "/") {
		if cur.Kind != 'd' {
			return nil, "ENOTDIR"
		}
		ch, ok := cur.Children[part]
		if !ok {
			return nil, "ENOENT"
		}
		cur = ch
	}
	return cur, ""
}

// Follow resolves a path, following a link in its final component (the
// components before it must be directories).
func (m *Model) Follow(p string) (*Entry, string) {
	p = path.Clean("/" + p)
	for i := 0; i < 40; i++ {
		e, msg := m.Walk(p)
		if e == nil {
			return nil, msg
		}
		if e.Kind != 'l' {
			return e, ""
		}
		t := path.Clean(e.Leaf.Target)
		if path.IsAbs(t) {
			p = t
		} else {
			p = path.Join(path.Dir(e.Path), t)
		}
	}
	return nil, "ELOOP"
}

const posixRunes = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-."

// PosixName reports whether the name consists of POSIX portable characters.
func PosixName(s string) bool {
	for _, r := range s {
		if r > 127 || !strings.ContainsRune(posixRunes, r) {
			return false
		}
	}
	return true
}

var extendedRunes = []rune("abcXYZ019_-.=#~@+,;&'()[]{}^`éßжλ日本語한글🙂ﬁÅ½→")

// Name makes one path component.
func Name(rng *rand.Rand, extended bool) string {
	n := 1 + rng.Intn(12)
	switch rng.Intn(14) {
	case 0:
		n = 1
	case 1:
		n = 90 + rng.Intn(60) // around the room of one directory record
	case 2:
		n = 240 + rng.Intn(20) // around the name part limit
	case 3:
		n = 20 + rng.Intn(80)
	case 4:
		if rng.Intn(3) == 0 {
			n = 495 + rng.Intn(20)
		}
	}
	var b strings.Builder
	for b.Len() < n {
		if extended {
			b.WriteRune(extendedRunes[rng.Intn(len(extendedRunes))])
		} else {
			b.WriteByte(posixRunes[rng.Intn(len(posixRunes))])
		}
	}
	s := b.String()
	if s == "." || s == ".." {
		s += "x"
	}
	return s
}

// Target makes the text of a symbolic link.
func Target(rng *rand.Rand, extended bool, existing []string) string {
	switch rng.Intn(12) {
	case 0:
		return []string{"/", ".", "..", "../..", "./", "../", "/.", "//", "/..", "a/..", "../.", "./.."}[rng.Intn(12)]
	case 1:
		return Name(rng, extended) + "/.."
	case 2:
		return "/" + Name(rng, extended)
	case 3:
		return "../" + Name(rng, extended) + "/"
	case 4, 5, 6:
		if len(existing) > 0 {
			t := existing[rng.Intn(len(existing))]
			switch rng.Intn(4) {
			case 0:
				return t // absolute
			case 1:
				return "../" + strings.TrimPrefix(t, "/")
			case 2:
				return path.Base(t)
			}
			return strings.TrimPrefix(t, "/")
		}
	}
	var parts []string
	for i := 1 + rng.Intn(6); i > 0; i-- {
		switch rng.Intn(8) {
		case 0:
			parts = append(parts, "..")
		case 1:
			parts = append(parts, ".")
		default:
			parts = append(parts, Name(rng, extended))
		}
	}
	if rng.Intn(6) == 0 {
		for i := 0; i < 80; i++ {
			parts = append(parts, Name(rng, extended)[:1])
		}
	}
	t := strings.Join(parts, "/")
	t = strings.ToValidUTF8(t, "u")
	if rng.Intn(4) == 0 {
		t = "/" + t
	}
	return t
}

// Size makes a file size; most are near block boundaries.
func Size(rng *rand.Rand, max int64) int64 {
	var s int64
	switch rng.Intn(9) {
	case 0:
		s = 0
	case 1:
		s = 1
	case 2, 3:
		s = int64(rng.Intn(12)+1)*2048 + int64(rng.Intn(5)-2)
	case 4:
		s = int64(rng.Intn(12)+1) * 2048
	case 5:
		s = int64(rng.Intn(int(max)))
	default:
		s = int64(rng.Intn(9000))
	}
	if s > max {
		s = max
	}
	return s
}

// GenPaths makes n distinct leaf paths that form a tree: kind says how bushy.
func GenPaths(rng *rand.Rand, n int, extended bool) []string {
	dirs := []string{""}
	isDir := map[string]bool{"": true}
	taken := map[string]bool{}
	var out []string
	for len(out) < n {
		d := dirs[rng.Intn(len(dirs))]
		if rng.Intn(3) == 0 && strings.Count(d, "/") < 12 {
			for k := 1 + rng.Intn(3); k > 0; k-- {
				c := d + "/" + Name(rng, extended)
				if taken[c] {
					break
				}
				if !isDir[c] {
					isDir[c] = true
					dirs = append(dirs, c)
				}
				d = c
			}
		}
		p := d + "/" + Name(rng, extended)
		if taken[p] || isDir[p] {
			continue
		}
		taken[p] = true
		out = append(out, p)
	}
	return out
}
