// C35: local objects and directories agree with what was stored in them.
package main

import (
	"context"
	"encoding/base64"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	ramdriver "github.com/NVIDIA/vdisc/pkg/storage/ram"

	"vdiscverif/mon"
)

func main() {
	mon.Main("C35", "distinct (kind of object, length, kind of step) object steps and (kind of store, operation, target, outcome) directory steps judged", func(r *mon.Run) {
		driver.Register("ram", ramdriver.NewDriver())
		// relative addresses are meant from here
		if err := os.Chdir(r.Dir("cwd")); err != nil {
			r.Inconclusive("chdir: %v", err)
			return
		}
		r.Parallel(r.N(1200, 30000), 6, func(i int) { object(r, i) })
		r.Parallel(r.N(160, 4000), 6, func(i int) { tree(r, i) })
		r.Parallel(r.N(120, 3000), 6, func(i int) { replaced(r, i) })
		rootOfMemory(r)
		for i := 0; i < r.N(6, 60) && !r.Failed(); i++ {
			shared(r, i)
		}
		r.Need("objects read", 1000)
		r.Need("positioned reads", 10000)
		r.Need("sequential steps", 10000)
		r.Need("reads after close", 300)
		r.Need("directory steps", 5000)
		r.Need("trees compared", 1000)
		r.Need("steps that had to fail", 500)
		r.Need("objects replaced while open", 30)
		r.Need("addresses spelled differently", 2000)
		r.Assume("nobody else changes the files; an object is removed or replaced as a whole")
	})
}

// ---- objects ----

func object(r *mon.Run, i int) {
	rng := r.Rng("object", i)
	kind := []string{"file", "ram", "data", "zero"}[i%4]
	n := []int{0, 1, 2, 17, 511, 4096, 5000, 70000}[rng.Intn(8)]
	f := &mon.VFile{Gen: true, ID: uint64(i)*7 + 3, Len: int64(n)}
	var url string
	switch kind {
	case "file", "ram":
		base := "file://" + r.Dir(fmt.Sprintf("o%d", i))
		if kind == "ram" {
			base = fmt.Sprintf("ram:///o%d", i)
		}
		w, err := storage.Create(base + "/x")
		if err != nil {
			r.Violate("create", "object %d: %v", i, err)
			return
		}
		if _, err := w.Write(f.Range(0, n)); err != nil {
			r.Violate("create", "object %d: %v", i, err)
			return
		}
		if _, err := w.Commit(); err != nil {
			r.Violate("create", "object %d: %v", i, err)
			return
		}
		w.Abort()
		url = base + "/x"
		defer storage.Remove(url)
	case "data":
		b := f.Range(0, n)
		switch rng.Intn(3) {
		case 0:
			url = "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(b)
		case 1:
			url = "data:;base64," + base64.StdEncoding.EncodeToString(b)
		default:
			var s strings.Builder
			s.WriteString("data:text/plain,")
			for _, c := range b {
				if rng.Intn(2) == 0 && (c >= 'a' && c <= 'z' || c >= '0' && c <= '9') {
					s.WriteByte(c)
				} else {
					fmt.Fprintf(&s, "%%%02X", c)
				}
			}
			url = s.String()
		}
	case "zero":
		f = &mon.VFile{Data: make([]byte, n), Len: int64(n)}
		url = fmt.Sprintf("zero:%d", n)
		if rng.Intn(5) == 0 {
			huge(r, rng, i)
			return
		}
	}
	label := fmt.Sprintf("object %d: %s of %d bytes", i, kind, n)
	defer r.Begin("%s", label)()
	o, err := storage.Open(url)
	if err != nil {
		r.Violate("open", "%s: %v", label, err)
		return
	}
	if i < 8 {
		r.Sample("%s (%s)", label, mon.Trunc(url, 60))
	}
	r.Count("objects read", 1)
	fi, err := storage.Stat(url)
	if err != nil || fi.Size() != int64(n) || o.Size() != int64(n) || fi.IsDir() {
		r.Violate("size", "%s: stat gives %v, %v; the open object says %d", label, fi, err, o.Size())
		return
	}
	size := n
	length := func(rng *rand.Rand) int {
		switch rng.Intn(4) {
		case 0:
			return 1 + rng.Intn(3)
		case 1:
			return size + 1 + rng.Intn(5)
		}
		return 1 + rng.Intn(size+2)
	}
	// positioned reads in parallel do not disturb each other
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed))
			for k := 0; k < 6; k++ {
				off, m := rng.Intn(size+3), length(rng)
				if k == 0 {
					off = size
				}
				r.Eval()
				r.Count("positioned reads", 1)
				if d := mon.CheckReadAt(o, f, int64(size), int64(off), m); d != "" {
					r.Violate("read", "%s: %s", label, d)
					return
				}
			}
		}()
	}
	wg.Wait()
	// a history of reads and seeks, with positioned reads in between
	at := 0
	data := f.Range(0, size)
	for k := 0; k < 25 && !r.Failed(); k++ {
		r.Eval()
		r.Count("sequential steps", 1)
		switch rng.Intn(5) {
		case 0, 1:
			to := rng.Intn(size + 1)
			outside := rng.Intn(4) == 0
			if outside {
				to = -1 - rng.Intn(size+3)
				if rng.Intn(3) == 0 {
					to = size + 1 + rng.Intn(size+3)
				}
			}
			var got int64
			var err error
			how := rng.Intn(3)
			switch how {
			case 0:
				got, err = o.Seek(int64(to), io.SeekStart)
			case 1:
				got, err = o.Seek(int64(to-at), io.SeekCurrent)
			case 2:
				got, err = o.Seek(int64(to-size), io.SeekEnd)
			}
			r.Distinct("main", fmt.Sprintf("%s %d seek %d %v", kind, n, how, outside))
			if outside {
				if err == nil && (got < 0 || got > int64(to) && got > 0) {
					r.Violate("seek", "%s: seek kind %d from %d to %d gave %d", label, how, at, to, got)
				}
				if err == nil {
					at = int(got)
				}
				continue
			}
			if err != nil || got != int64(to) {
				r.Violate("seek", "%s: seek kind %d from %d to %d gave %d, %v", label, how, at, to, got, err)
			}
			at = to
		case 2:
			off, m := rng.Intn(size+3), length(rng)
			if d := mon.CheckReadAt(o, f, int64(size), int64(off), m); d != "" {
				r.Violate("read", "%s: %s", label, d)
			}
		default:
			p := make([]byte, length(rng))
			got, err := o.Read(p)
			r.Distinct("main", fmt.Sprintf("%s %d read %v", kind, n, at >= size))
			if at >= size {
				if got != 0 || err != io.EOF {
					r.Violate("read", "%s: a read at %d gave %d, %v", label, at, got, err)
				}
				continue
			}
			if got < 0 || got > len(p) || at+got > size || got == 0 || err != nil && err != io.EOF || err == io.EOF && at+got < size {
				r.Violate("read", "%s: Read(%d) at %d gave %d, %v", label, len(p), at, got, err)
				break
			}
			if d := mon.Diff(p[:got], data[at:at+got]); d != "" {
				r.Violate("read", "%s: Read(%d) at %d: %s", label, len(p), at, d)
			}
			at += got
		}
	}
	// the address of the open object names it
	if o2, err := storage.Open(o.URL()); err != nil {
		r.Violate("address", "%s: its address %s cannot be opened: %v", label, mon.Trunc(o.URL(), 100), err)
	} else {
		if d := mon.CheckReadAt(o2, f, int64(size), 0, size+1); d != "" {
			r.Violate("address", "%s: its address %s gives another object: %s", label, mon.Trunc(o.URL(), 100), d)
		}
		o2.Close()
	}
	if err := o.Close(); err != nil {
		r.Violate("close", "%s: %v", label, err)
	}
	if kind != "zero" {
		p := make([]byte, 4)
		if got, err := o.ReadAt(p, 0); err == nil || got > 0 {
			r.Violate("closed", "%s: a positioned read after close gave %d, %v", label, got, err)
		}
		if got, err := o.Read(p); err == nil || got > 0 {
			r.Violate("closed", "%s: a read after close gave %d, %v", label, got, err)
		}
		r.Count("reads after close", 1)
	}
}

// huge reads parts of zeros too many to store.
func huge(r *mon.Run, rng *rand.Rand, i int) {
	size := int64(1)<<uint(31+rng.Intn(31)) - rng.Int63n(3) + 1
	url := fmt.Sprintf("zero:%d", size)
	o, err := storage.Open(url)
	if err != nil || o.Size() != size {
		r.Violate("open", "object %d: %s: %v", i, url, err)
		return
	}
	defer o.Close()
	r.Count("objects read", 1)
	for k := 0; k < 20; k++ {
		off := rng.Int63n(size)
		if k%4 == 0 {
			off = size - int64(rng.Intn(50))
		}
		n := 1 + rng.Intn(100)
		p := mon.Bytes(9, 0, n)
		want := n
		if int64(n) > size-off {
			want = int(size - off)
		}
		got, err := o.ReadAt(p, off)
		r.Eval()
		r.Count("positioned reads", 1)
		if got != want || err != nil && err != io.EOF || want == 0 && err != io.EOF {
			r.Violate("read", "object %d: %s: ReadAt(%d, %d) gave %d, %v", i, url, n, off, got, err)
			return
		}
		for _, c := range p[:got] {
			if c != 0 {
				r.Violate("read", "object %d: %s: ReadAt(%d, %d) gave a byte %d", i, url, n, off, c)
				return
			}
		}
	}
}

// ---- directories ----

var names = []string{"a", "b", "c.txt", "D", "with blank", "ünï", "per%cent", "per%25", "q?x=1", "h#y", "plus+", "semi;1", "a:b", "..x", ".hidden", "tilde~", "\xfe\xff", "amp&", "back\\slash", "...", "x@y", "[z]", "new\nline"}

// store is a directory tree and what should be in it.
type store struct {
	r     *mon.Run
	rng   *rand.Rand
	kind  string
	root  string            // clean path of the root
	rel   string            // the root as seen from the working directory, if it is below it
	files map[string][]byte // paths below the root
	dirs  map[string]bool
	log   []string
	label string
}

func (s *store) violate(key, format string, a ...interface{}) {
	s.r.Violate(key, "%s: %s\n%s", s.label, fmt.Sprintf(format, a...), mon.Trunc(strings.Join(s.log, "\n"), 3000))
}

func simple(p string) bool {
	return strings.IndexFunc(p, func(c rune) bool {
		return !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '/' || c == '.' || c == '-')
	}) < 0
}

// spell writes the address of a path in one of its forms.
func (s *store) spell(p string) string {
	full := path.Join(s.root, p)
	plain := s.rng.Intn(3) == 0
	if !plain {
		// detours
		segs := strings.Split(full, "/")
		var out []string
		for k, g := range segs {
			out = append(out, g)
			switch {
			case k == len(segs)-1:
			case s.rng.Intn(8) == 0:
				out = append(out, ".")
			case s.rng.Intn(8) == 0 && k > 0:
				out = append(out, "")
			case s.rng.Intn(8) == 0 && k > 0:
				out = append(out, "no.such", "..")
			}
		}
		full = strings.Join(out, "/")
		if s.rng.Intn(8) == 0 && full != "/" {
			full += []string{"/", "/."}[s.rng.Intn(2)]
		}
		s.r.Count("addresses spelled differently", 1)
	}
	esc := ""
	for k := 0; k < len(full); k++ {
		c := full[k]
		switch {
		case c == '/' || c == '.':
			esc += string(rune(c))
		case simple(string(rune(c))) && c < 128 && (plain || s.rng.Intn(12) > 0):
			esc += string(rune(c))
		default:
			esc += fmt.Sprintf("%%%02X", c)
		}
	}
	if s.kind == "ram" {
		switch {
		case s.rng.Intn(4) == 0 && simple(full):
			return "ram:" + strings.TrimLeft(full, "/")
		case s.rng.Intn(3) == 0 && !strings.HasPrefix(esc, "//"):
			return "ram:" + esc
		}
		return "ram://" + esc
	}
	if s.rel != "" && s.rng.Intn(3) == 0 {
		q := path.Join(s.rel, p)
		if simple(q) {
			return []string{q, "file:" + q, "./" + q}[s.rng.Intn(3)]
		}
	}
	switch s.rng.Intn(3) {
	case 0:
		if !strings.HasPrefix(esc, "//") {
			return esc
		}
	case 1:
		if !strings.HasPrefix(esc, "//") {
			return "file:" + esc
		}
	}
	return "file://" + esc
}

func newStore(r *mon.Run, rng *rand.Rand, kind, name string) *store {
	s := &store{r: r, rng: rng, kind: kind, files: map[string][]byte{}, dirs: map[string]bool{"": true}}
	if kind == "file" {
		s.root = r.Dir(name)
	} else {
		s.root = "/" + name
		w, err := storage.Create("ram:///" + name + "/seed")
		if err == nil {
			_, err = w.Commit()
		}
		if err != nil {
			r.Violate("create", "%v", err)
		}
		s.files["seed"] = nil
	}
	return s
}

func (s *store) pick() string {
	var p []string
	for k := 1 + s.rng.Intn(4); k > 0; k-- {
		n := len(names)
		if s.rng.Intn(2) == 0 {
			n = 4
		}
		p = append(p, names[s.rng.Intn(n)])
	}
	return path.Join(p...)
}

// existing gives a path that is there, if any.
func (s *store) existing() string {
	var all []string
	for p := range s.files {
		all = append(all, p)
	}
	for p := range s.dirs {
		if p != "" {
			all = append(all, p)
		}
	}
	if len(all) == 0 {
		return s.pick()
	}
	sort.Strings(all)
	return all[s.rng.Intn(len(all))]
}

func (s *store) below(p string) int {
	n := 0
	for q := range s.files {
		if strings.HasPrefix(q, p+"/") || p == "" {
			n++
		}
	}
	for q := range s.dirs {
		if strings.HasPrefix(q, p+"/") || p == "" && q != "" {
			n++
		}
	}
	return n
}

func (s *store) belowFile(p string) bool {
	for q := path.Dir(p); q != "."; q = path.Dir(q) {
		if _, ok := s.files[q]; ok {
			return true
		}
	}
	return false
}

func (s *store) step() bool {
	r, rng := s.r, s.rng
	r.Eval()
	r.Count("directory steps", 1)
	p := s.pick()
	if rng.Intn(2) == 0 {
		p = s.existing()
		if rng.Intn(6) == 0 {
			p = path.Join(p, names[rng.Intn(len(names))])
		}
	}
	_, isFile := s.files[p]
	isDir := s.dirs[p]
	what := "nothing"
	switch {
	case isFile:
		what = "file"
	case isDir:
		what = fmt.Sprintf("directory (empty %v)", s.below(p) == 0)
	case s.belowFile(p):
		what = "below a file"
	}
	u := s.spell(p)
	var op string
	var err error
	mustFail := false
	switch k := rng.Intn(10); {
	case k < 4:
		op = "write"
		b := mon.Bytes(rng.Uint64(), 0, []int{0, 1, 100, 9000}[rng.Intn(4)])
		mustFail = isDir || s.belowFile(p)
		var w storage.ObjectWriter
		if w, err = storage.Create(u); err == nil {
			if _, err = w.Write(b); err == nil {
				_, err = w.Commit()
			}
			w.Abort()
		}
		if err == nil && !mustFail {
			s.files[p] = b
			for q := path.Dir(p); q != "."; q = path.Dir(q) {
				s.dirs[q] = true
			}
		}
	case k < 7:
		op = "remove"
		if rng.Intn(25) == 0 {
			// the place where everything is
			p, isFile, isDir, what = "", false, true, "root"
			u = s.spell("")
		}
		mustFail = !isFile && (!isDir || s.below(p) > 0)
		if p == "" && !mustFail {
			return true
		}
		err = storage.Remove(u)
		if err == nil && !mustFail {
			delete(s.files, p)
			delete(s.dirs, p)
		}
	case k < 8:
		op = "read"
		mustFail = !isFile
		var o storage.Object
		if o, err = storage.Open(u); err == nil {
			n := len(s.files[p])
			b := make([]byte, n+10)
			var m int
			m, err = io.ReadFull(o, b)
			if err == io.ErrUnexpectedEOF || err == io.EOF {
				err = nil
			}
			if err == nil && isFile && (mon.Diff(b[:m], s.files[p]) != "" || o.Size() != int64(n)) {
				s.violate("content", "reading %s (%q): %s, size %d", u, p, mon.Diff(b[:m], s.files[p]), o.Size())
				return false
			}
			o.Close()
		}
	case k < 9:
		op = "stat"
		mustFail = !isFile && !isDir
		var fi os.FileInfo
		if fi, err = storage.Stat(u); err == nil && !mustFail {
			if fi.IsDir() != isDir || fi.Mode().IsDir() != isDir || isFile && fi.Size() != int64(len(s.files[p])) || fi.Name() != path.Base(p) {
				s.violate("stat", "stat of %s (%q, a %s of %d bytes) gives name %q, directory %v, size %d", u, p, what, len(s.files[p]), fi.Name(), fi.IsDir(), fi.Size())
				return false
			}
		}
	default:
		op = "list"
		mustFail = !isDir
		_, err = storage.Readdir(u)
	}
	s.log = append(s.log, fmt.Sprintf("%s %s (%q, %s): %v", op, u, p, what, err))
	r.Distinct("main", fmt.Sprintf("%s %s %s %v", s.kind, op, what, err == nil))
	if mustFail {
		r.Count("steps that had to fail", 1)
	}
	if mustFail && err == nil {
		s.violate("no-error", "%s of %s (%q, %s) reports success", op, u, p, what)
		return false
	}
	if !mustFail && err != nil {
		s.violate("error", "%s of %s (%q, %s) fails: %v", op, u, p, what, err)
		return false
	}
	if err != nil && what == "nothing" && op != "write" && !os.IsNotExist(err) {
		s.violate("error", "%s of %s (%q), which does not exist, fails with %v", op, u, p, err)
		return false
	}
	return true
}

// compare lists everything.
func (s *store) compare() bool {
	s.r.Count("trees compared", 1)
	var got, want []string
	var walk func(p string) bool
	walk = func(p string) bool {
		u := s.spell(p)
		fis, err := storage.Readdir(u)
		if err != nil {
			s.violate("list", "listing %s (%q): %v", u, p, err)
			return false
		}
		for _, fi := range fis {
			if fi.Name() == "." || fi.Name() == ".." {
				continue
			}
			q := path.Join(p, fi.Name())
			if fi.IsDir() {
				got = append(got, q+"/")
				if !walk(q) {
					return false
				}
			} else {
				got = append(got, fmt.Sprintf("%s %d", q, fi.Size()))
			}
		}
		return true
	}
	if !walk("") {
		return false
	}
	for p, b := range s.files {
		want = append(want, fmt.Sprintf("%s %d", p, len(b)))
	}
	for p := range s.dirs {
		if p != "" {
			want = append(want, p+"/")
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		s.violate("list", "the directories hold %q, want %q", got, want)
		return false
	}
	return true
}

func tree(r *mon.Run, i int) {
	rng := r.Rng("tree", i)
	kind := []string{"file", "ram"}[i%2]
	name := fmt.Sprintf("t%d", i)
	if kind == "file" && rng.Intn(2) == 0 {
		name = "cwd/" + name
	}
	s := newStore(r, rng, kind, name)
	if strings.HasPrefix(name, "cwd/") {
		s.rel = name[4:]
	}
	s.label = fmt.Sprintf("tree %d in %s", i, kind)
	defer r.Begin("%s", s.label)()
	for k := 0; k < 50 && !r.Failed(); k++ {
		if !s.step() {
			return
		}
		if k%4 == 3 && !s.compare() {
			return
		}
	}
	s.compare()
	if i < 4 {
		r.Sample("%s: %d files and %d directories at the end", s.label, len(s.files), len(s.dirs)-1)
	}
}

// shared runs several histories in neighbouring directories of one store.
func shared(r *mon.Run, i int) {
	rng := r.Rng("shared", i)
	kind := []string{"file", "ram"}[i%2]
	name := fmt.Sprintf("s%d", i)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		seed := rng.Int63()
		sub := filepath.Join(name, fmt.Sprint(g))
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := newStore(r, rand.New(rand.NewSource(seed)), kind, sub)
			s.label = fmt.Sprintf("shared %d, directory %s in %s", i, sub, kind)
			defer r.Begin("%s", s.label)()
			for k := 0; k < 40 && !r.Failed(); k++ {
				if !s.step() || k%4 == 3 && !s.compare() {
					return
				}
			}
			s.compare()
		}()
	}
	wg.Wait()
}

// replaced opens an object that is then written again or removed. What was
// opened stays one object as a whole.
func replaced(r *mon.Run, i int) {
	rng := r.Rng("replaced", i)
	kind := []string{"file", "ram"}[i%2]
	u := "file://" + r.Dir("replaced") + fmt.Sprintf("/%d/x", i)
	if kind == "ram" {
		u = fmt.Sprintf("ram:///replaced/%d/x", i)
	}
	label := fmt.Sprintf("replaced %d: %s", i, u)
	defer r.Begin("%s", label)()
	put := func(data []byte) bool {
		w, err := storage.Create(u)
		if err == nil {
			if _, err = w.Write(data); err == nil {
				_, err = w.Commit()
			}
			w.Abort()
		}
		if err != nil {
			r.Violate("create", "%s: %v", label, err)
		}
		return err == nil
	}
	gen := func(k int) []byte { return mon.Bytes(uint64(i)*100+uint64(k), 0, 1+rng.Intn(9000)) }
	now := gen(0)
	if !put(now) {
		return
	}
	type held struct {
		o    storage.Object
		data []byte
	}
	var open []held
	defer func() {
		for _, h := range open {
			h.o.Close()
		}
	}()
	for k := 1; k < 6 && !r.Failed(); k++ {
		o, err := storage.Open(u)
		if err != nil {
			r.Violate("open", "%s: %v", label, err)
			return
		}
		open = append(open, held{o, now})
		head := make([]byte, len(now)/2)
		if _, err := io.ReadFull(o, head); err != nil {
			r.Violate("read", "%s, version %d: %v", label, k, err)
			return
		}
		if rng.Intn(4) == 0 {
			if err := storage.Remove(u); err != nil {
				r.Violate("remove", "%s: %v", label, err)
				return
			}
		}
		now = gen(k)
		if !put(now) {
			return
		}
		r.Count("objects replaced while open", 1)
		for j, h := range open {
			r.Eval()
			got := make([]byte, len(h.data))
			n, err := h.o.ReadAt(got, 0)
			if err != nil && err != io.EOF || n < len(got) {
				r.Count("reads of replaced objects that failed", 1)
				continue
			}
			if d := mon.Diff(got, h.data); d != "" {
				r.Violate("replaced", "%s: opened as version %d and written again up to version %d: %s", label, j, k, d)
				return
			}
			if h.o.Size() != int64(len(h.data)) {
				r.Violate("size", "%s: opened as version %d of %d bytes, later has %d", label, j, len(h.data), h.o.Size())
				return
			}
		}
		r.Distinct("main", fmt.Sprint("replaced", kind, k))
	}
}

// rootOfMemory tries to remove the directory that holds everything.
func rootOfMemory(r *mon.Run) {
	ctx := context.Background()
	for k, u := range []string{"ram:///", "ram:/", "ram:.", "ram:///a/..", "ram:"} {
		d := ramdriver.NewDriver()
		put := func(u string) error {
			w, err := d.Create(ctx, u)
			if err != nil {
				return err
			}
			_, err = w.Commit()
			return err
		}
		if k%2 == 0 {
			if err := put("ram:///a/x"); err != nil {
				r.Violate("create", "root: %v", err)
			}
		}
		r.Eval()
		if err := d.Remove(ctx, u); err == nil {
			r.Violate("no-error", "removing the root of the memory store as %q reports success", u)
			return
		}
		if fi, err := d.Stat(ctx, "ram:///"); err != nil || !fi.IsDir() {
			r.Violate("stat", "after an attempt to remove it the root of the memory store is %v, %v", fi, err)
			return
		}
		if err := put("ram:///b/y"); err != nil {
			r.Violate("create", "root, after an attempt to remove it: %v", err)
		}
		if fis, err := d.Readdir(ctx, "ram:///b"); err != nil || len(fis) == 0 {
			r.Violate("list", "root, after an attempt to remove it: %v, %v", fis, err)
		}
	}
}
