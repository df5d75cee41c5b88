// C25: the command line gives the same disc contents in every cache mode.
package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	stdurl "net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vdiscverif/mon"
)

var (
	tool string
	srv  *httptest.Server
	web  = struct {
		sync.Mutex
		m map[string][]byte
	}{m: map[string][]byte{}}
)

// world is one directory with sources, a listing and a disc.
type world struct {
	r    *mon.Run
	what string
	dir  string
	url  string // of the disc, as given to the tool
	root string // cache
}

// run starts the tool in the world's directory.
func (w *world) run(stdout io.Writer, args ...string) (out string, code int) {
	var o, e bytes.Buffer
	c := exec.Command(tool, args...)
	c.Dir = w.dir
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + w.dir, "TMPDIR=" + w.dir, "NO_COLOR=1", "TZ=UTC"}
	c.Stdout, c.Stderr = &o, &e
	if stdout != nil {
		c.Stdout = stdout
	}
	done := make(chan struct{})
	if err := c.Start(); err != nil {
		panic(err)
	}
	go func() {
		select {
		case <-done:
		case <-time.After(140 * time.Second):
			c.Process.Kill()
		}
	}()
	err := c.Wait()
	close(done)
	w.r.Count("commands run", 1)
	w.r.Tick()
	if err == nil {
		return o.String(), 0
	}
	x, ok := err.(*exec.ExitError)
	if !ok {
		panic(err)
	}
	if x.ExitCode() < 0 {
		w.r.Violate("killed", "%s: %q ended by %v: %s", w.what, args, err, mon.Trunc(e.String(), 300))
	}
	if strings.Contains(e.String(), "goroutine ") {
		w.r.Violate("crash", "%s: %q crashed: %s", w.what, args, mon.Trunc(e.String(), 600))
	}
	return o.String(), x.ExitCode()
}

type file struct {
	path, url string // as in the listing
	shown     string // the address the disc reports
	size      int64
	data      []byte // the first size bytes
}

var treeLine = regexp.MustCompile(`^((?:│   |    )*)(?:├── |└── ) \[ *(\d+)\] (.*)$`)

type node struct {
	dir  bool
	size int64
	url  string
}

// parseTree reads the output of the tree command.
func parseTree(out string) (map[string]node, error) {
	res := map[string]node{}
	var stack []string
	lines := strings.Split(strings.TrimRight(out, "\n"), "\n")
	if lines[0] != "/" {
		return nil, fmt.Errorf("starts with %q", lines[0])
	}
	for _, l := range lines[1:] {
		m := treeLine.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("line %q", l)
		}
		depth := len([]rune(m[1])) / 4
		if depth > len(stack) {
			return nil, fmt.Errorf("line %q is too deep", l)
		}
		stack = stack[:depth]
		name, n := m[3], node{dir: true}
		n.size, _ = strconv.ParseInt(m[2], 10, 64)
		if i := strings.Index(name, " ⇒ "); i >= 0 {
			n.url = name[i+len(" ⇒ "):]
			n.dir = false
			name = name[:i]
		}
		p := "/" + strings.Join(append(append([]string{}, stack...), name), "/")
		if _, dup := res[p]; dup {
			return nil, fmt.Errorf("%q appears twice", p)
		}
		res[p] = n
		if n.dir {
			stack = append(stack, name)
		}
	}
	return res, nil
}

var longLine = regexp.MustCompile(`^([-dl][-rwx]{9}) \S+ \S+ +(\d+) \w{3} \d\d \d\d:\d\d \d{4} (.*)$`)

// parseLs reads the output of a recursive listing.
func parseLs(out string, long bool) (map[string]node, error) {
	res := map[string]node{}
	cur := "/"
	lines := strings.Split(out, "\n")
	for i, l := range lines {
		if l == "" {
			continue
		}
		if i > 0 && lines[i-1] == "" && strings.HasPrefix(l, "/") && strings.HasSuffix(l, ":") {
			cur = strings.TrimSuffix(l, ":")
			continue
		}
		name, n := l, node{}
		if long {
			m := longLine.FindStringSubmatch(l)
			if m == nil {
				return nil, fmt.Errorf("line %q", l)
			}
			n.dir = m[1][0] == 'd'
			n.size, _ = strconv.ParseInt(m[2], 10, 64)
			name = m[3]
		}
		p := path.Join(cur, name)
		if _, dup := res[p]; dup {
			return nil, fmt.Errorf("%q appears twice", p)
		}
		res[p] = n
	}
	return res, nil
}

func writeCSV(name string, rows [][]string, quote bool) {
	var b bytes.Buffer
	if quote {
		for _, r := range rows {
			for i, c := range r {
				if i > 0 {
					b.WriteByte(',')
				}
				if i < 2 {
					c = `"` + strings.Replace(c, `"`, `""`, -1) + `"`
				}
				b.WriteString(c)
			}
			b.WriteByte('\n')
		}
	} else {
		w := csv.NewWriter(&b)
		w.WriteAll(rows)
	}
	if err := ioutil.WriteFile(name, b.Bytes(), 0666); err != nil {
		panic(err)
	}
}

func clean(p string) string { return path.Clean("/" + p) }

func (w *world) modes(rng *rand.Rand) [][]string {
	bs := []string{"--cache-bsize=4KiB", "--cache-bsize=64KiB", "--cache-bsize=4MiB", "--cache-bsize=1000B"}
	ra := []string{"--cache-read-ahead-window=" + strconv.Itoa(rng.Intn(5)), "--cache-read-ahead-tokens=" + strconv.Itoa(rng.Intn(5))}
	mem := append([]string{"--cache-mode=memory", bs[rng.Intn(4)], "--cache-bcount=" + strconv.Itoa(4+rng.Intn(20))}, ra...)
	d1 := append([]string{"--cache-mode=disk", bs[rng.Intn(4)], "--cache-root=" + w.root}, ra...)
	d2 := []string{"--cache-mode=disk", bs[rng.Intn(4)], "--cache-root=" + w.root}
	return [][]string{
		{"--cache-mode=disabled"},
		append(mem, "--log-level=warn"),
		d1, d1, d2,
	}
}

func scenario(r *mon.Run, i int) {
	rng := r.Rng("scenario", i)
	dir := r.Dir(fmt.Sprintf("s%d", i))
	defer os.RemoveAll(dir)
	w := &world{r: r, dir: dir, what: fmt.Sprintf("scenario %d", i), root: filepath.Join(dir, "cache")}
	os.Mkdir(filepath.Join(dir, "src"), 0777)
	os.Mkdir(filepath.Join(dir, "discs"), 0777)

	// where the disc goes, and how relative addresses look from there
	discDir := ""
	switch rng.Intn(4) {
	case 0:
		w.url = "o.vdsc"
	case 1:
		w.url = filepath.Join(dir, "o.vdsc")
	case 2:
		w.url = "file://" + filepath.Join(dir, "o.vdsc")
	default:
		w.url = "discs/o.vdsc"
		discDir = "discs"
	}
	base, err := stdurl.Parse(w.url)
	if err != nil {
		panic(err)
	}

	extended := rng.Intn(2) == 0
	var rows [][]string
	var files []*file
	model := mon.NewModel(func(n string) bool { return true })
	kinds := ""
	nf := rng.Intn(9)
	if rng.Intn(10) == 0 {
		nf = 40
	}
	for _, p := range mon.GenPaths(rng, nf, extended) {
		ok := true
		for _, c := range p {
			if c < 0x21 || c == 0x7f || strings.ContainsRune("⇒→│└├", c) || c == 0xfffd || c >= 0x80 && c < 0xa0 {
				ok = false
			}
		}
		if !ok || strings.Contains(p, "//") || clean(p) == "/" {
			continue
		}
		n := len(files)
		id := uint64(rng.Intn(1 << 30))
		f := &file{path: p, size: mon.Size(rng, 100000)}
		extra := int64(0)
		if rng.Intn(3) == 0 {
			extra = int64(rng.Intn(3000))
		}
		all := mon.Bytes(id, 0, int(f.size+extra))
		f.data = all[:f.size]
		name := fmt.Sprintf("f%d", n)
		if rng.Intn(4) == 0 {
			name = fmt.Sprintf("f %d,\"%d", n, n)
		}
		local := filepath.Join(dir, "src", name)
		esc := (&stdurl.URL{Path: name}).EscapedPath()
		switch k := rng.Intn(4); {
		case k == 0:
			f.url = "file://" + (&stdurl.URL{Path: local}).EscapedPath()
		case k == 1:
			f.url = (&stdurl.URL{Path: local}).EscapedPath()
		case k == 2 && discDir == "" && base.Scheme == "" && !strings.HasPrefix(base.Path, "/"):
			f.url = "src/" + esc
		default:
			f.url = srv.URL + fmt.Sprintf("/%d/%d", i, n)
			web.Lock()
			web.m[fmt.Sprintf("/%d/%d", i, n)] = all
			web.Unlock()
		}
		if !strings.HasPrefix(f.url, "http") {
			if err := ioutil.WriteFile(local, all, 0666); err != nil {
				panic(err)
			}
		}
		u, err := stdurl.Parse(f.url)
		if err != nil {
			panic(err)
		}
		f.shown = base.ResolveReference(u).String()
		if base.Scheme == "" && !strings.HasPrefix(base.Path, "/") && u.Scheme == "" && !strings.HasPrefix(u.Path, "/") {
			f.shown = f.url
		}
		if !model.Add(&mon.Leaf{Path: p, URL: f.url, Size: f.size}) {
			continue
		}
		kinds += f.url[:1]
		files = append(files, f)
		rows = append(rows, []string{p, f.url, strconv.FormatInt(f.size, 10)})
	}
	writeCSV(filepath.Join(dir, "l.csv"), rows, rng.Intn(2) == 0)

	args := []string{"burn", "-i", "l.csv", "-o", w.url}
	if extended {
		args = append(args, "--iso9660-name-validation=extended")
	}
	volid := ""
	if rng.Intn(2) == 0 {
		volid = fmt.Sprintf("VOL_%d", rng.Intn(1000))
		args = append(args, "--iso9660-volume-identifier="+volid)
	}
	r.Eval()
	if _, code := w.run(nil, args...); code != 0 {
		out, code := w.run(nil, args...)
		r.Violate("burn", "%s: %q exits with %d on a good listing of %d files: %s", w.what, args, code, len(rows), out)
		return
	}
	want := map[string]node{}
	for _, p := range model.Paths() {
		e, _ := model.Walk(p)
		if p == "/" || e == nil {
			continue
		}
		if e.Leaf == nil {
			want[p] = node{dir: true}
		}
	}
	for _, f := range files {
		want[clean(f.path)] = node{size: f.size, url: f.shown}
	}

	first := map[string]string{}
	modes := w.modes(rng)
	for mi, m := range modes {
		for _, c := range [][]string{{"tree"}, {"ls", "-r", "-p", "/"}, {"ls", "-r", "-l", "-p", "/"}, {"inspect"}} {
			key := strings.Join(c, " ")
			args := append(append(append([]string{}, m...), c...), "-u", w.url)
			out, code := w.run(nil, args...)
			r.Eval()
			if code != 0 {
				r.Violate("exit", "%s: %q exits with %d", w.what, args, code)
				return
			}
			if mi > 0 {
				if out != first[key] {
					r.Violate("differs", "%s: %q prints something else than without cache:\n%s\nand\n%s", w.what, args, mon.Trunc(out, 2000), mon.Trunc(first[key], 2000))
					return
				}
				continue
			}
			first[key] = out
			if c[0] == "inspect" {
				var x struct {
					FsType                  string
					BlockSize               int
					PrimaryVolumeDescriptor struct {
						VolumeIdentifier string
						VolumeSpaceSize  int64
					}
				}
				if err := json.Unmarshal([]byte(out), &x); err != nil {
					r.Violate("inspect", "%s: %v: %s", w.what, err, out)
					return
				}
				if x.FsType != "iso9660" || x.BlockSize != 2048 || volid != "" && x.PrimaryVolumeDescriptor.VolumeIdentifier != volid {
					r.Violate("inspect", "%s: file system %q, block size %d, volume %q instead of %q", w.what, x.FsType, x.BlockSize, x.PrimaryVolumeDescriptor.VolumeIdentifier, volid)
				}
				continue
			}
			var got map[string]node
			var err error
			if c[0] == "tree" {
				got, err = parseTree(out)
			} else {
				got, err = parseLs(out, len(c) == 5)
			}
			if err != nil {
				r.Violate("output", "%s: %q: %v", w.what, args, err)
				return
			}
			if d := compare(got, want, c[0] == "tree", c[0] == "tree" || len(c) == 5); d != "" {
				r.Violate("contents", "%s: %q: %s", w.what, args, d)
				return
			}
			r.Count("entries compared", int64(len(want)))
		}
		for fi, f := range files {
			if len(files) > 10 && rng.Intn(3) > 0 {
				continue
			}
			outName := filepath.Join(dir, "out")
			args := append(append([]string{}, m...), "cp", "-u", w.url, "-p", f.path)
			var got []byte
			var code int
			if fi%3 == 0 {
				var s string
				s, code = w.run(nil, append(args, "--out=-")...)
				got = []byte(s)
			} else {
				os.Remove(outName)
				if rng.Intn(2) == 0 {
					ioutil.WriteFile(outName, make([]byte, f.size+100), 0666)
				}
				_, code = w.run(nil, append(args, "-o", outName)...)
				got, _ = ioutil.ReadFile(outName)
			}
			r.Eval()
			if code != 0 {
				r.Violate("exit", "%s: %q exits with %d", w.what, args, code)
				return
			}
			if d := mon.Diff(got, f.data); d != "" {
				r.Violate("copy", "%s: %q (size %d): %s", w.what, args, f.size, d)
				return
			}
			r.Count("files copied", 1)
		}
		r.Distinct("main", fmt.Sprintf("%s/%s/%d/%v", strings.Join(m, " "), kinds, len(want), extended))
	}
	if i < 2 {
		r.Sample("%s: disc %s with %d files, %d entries, extended names %v", w.what, w.url, len(files), len(want), extended)
	}
	if len(files) > 0 {
		w.failures(rng, rows, files, modes, extended)
	}
}

func compare(got, want map[string]node, urls, sizes bool) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, ok := got[k]
		x, ok2 := want[k]
		switch {
		case !ok:
			return fmt.Sprintf("%q is missing", k)
		case !ok2:
			return fmt.Sprintf("%q is not in the listing", k)
		case sizes && g.dir != x.dir:
			return fmt.Sprintf("%q: directory %v, want %v", k, g.dir, x.dir)
		case sizes && !x.dir && g.size != x.size:
			return fmt.Sprintf("%q: size %d, want %d", k, g.size, x.size)
		case urls && !x.dir && g.url != x.url:
			return fmt.Sprintf("%q: address %q, want %q", k, g.url, x.url)
		}
	}
	return ""
}

// failures gives the tool something it has to fail on.
func (w *world) failures(rng *rand.Rand, rows [][]string, files []*file, modes [][]string, extended bool) {
	r := w.r
	fails := func(what string, stdout io.Writer, args ...string) {
		r.Eval()
		if _, code := w.run(stdout, args...); code == 0 {
			r.Violate("no-failure", "%s: %s: %q exits with success", w.what, what, args)
		}
		r.Count("commands that had to fail", 1)
		r.Distinct("main", "failure "+what+" "+args[0])
	}
	mode := modes[rng.Intn(len(modes))]
	with := func(a ...string) []string { return append(append([]string{}, mode...), a...) }
	f := files[rng.Intn(len(files))]
	missing := path.Join(f.path, "no")
	fails("no such file", nil, with("cp", "-u", w.url, "-p", missing, "-o", filepath.Join(w.dir, "none"))...)
	fails("no such file", nil, with("ls", "-u", w.url, "-p", "/no.such")...)
	fails("no such file", nil, with("ls", "-r", "-u", w.url, "-p", "/no.such")...)
	fails("no such file", nil, with("tree", "-u", w.url, "-p", "/no.such")...)
	fails("a directory", nil, with("cp", "-u", w.url, "-p", "/", "-o", filepath.Join(w.dir, "none"))...)
	fails("no such disc", nil, with([]string{"tree", "inspect"}[rng.Intn(2)], "-u", w.url+".no")...)
	fails("no output directory", nil, with("cp", "-u", w.url, "-p", f.path, "-o", filepath.Join(w.dir, "nodir", "x"))...)
	if f.size > 0 {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err == nil {
			fails("full output", full, with("cp", "-u", w.url, "-p", f.path, "--out=-")...)
			full.Close()
		}
	}

	// burns that cannot succeed leave no disc
	bad := append([][]string{}, rows...)
	at := rng.Intn(len(bad) + 1)
	insert := func(row []string) [][]string {
		return append(append(append([][]string{}, rows[:at]...), row), rows[at:]...)
	}
	var why string
	switch rng.Intn(5) {
	case 0:
		bad, why = insert([]string{f.path, f.url, "1"}), "duplicate path"
	case 1:
		bad, why = insert([]string{path.Join(f.path, "below"), f.url, "1"}), "path below a file"
		if at <= indexOf(rows, f.path) {
			bad = append(append([][]string{}, rows...), []string{path.Join(f.path, "below"), f.url, "1"})
		}
	case 2:
		bad, why = insert([]string{"/zz.fresh", f.url, []string{"x", "", "1.5", "1e3", "99999999999999999999"}[rng.Intn(5)]}), "bad size"
	case 3:
		bad, why = insert([]string{"/zz.fresh", "nosuchscheme://h/x", "1"}), "unknown scheme"
	case 4:
		bad, why = insert([]string{"/zz.fresh", f.url, "1", "extra"}), "a column too many"
		if len(rows) == 0 || at == 0 {
			bad = append(append([][]string{}, rows...), []string{"/zz.fresh", f.url, "1", "extra"})
		}
	}
	writeCSV(filepath.Join(w.dir, "bad.csv"), bad, false)
	args := []string{"burn", "-i", "bad.csv", "-o", "bad.vdsc"}
	if extended {
		args = append(args, "--iso9660-name-validation=extended")
	}
	fails(why, nil, args...)
	if _, err := os.Stat(filepath.Join(w.dir, "bad.vdsc")); err == nil {
		r.Violate("disc-left", "%s: a burn that failed (%s) left a disc", w.what, why)
	}
	fails("no listing", nil, "burn", "-i", "no.csv", "-o", "bad.vdsc")
	fails("no place for the disc", nil, "burn", "-i", "l.csv", "-o", "l.csv/bad.vdsc", "--iso9660-name-validation=extended")

	// sources that have changed since, read with a cold cache
	os.RemoveAll(w.root)
	for tries := 0; tries < 10; tries++ {
		f = files[rng.Intn(len(files))]
		if f.size > 0 {
			break
		}
	}
	if f.size == 0 {
		return
	}
	short := rng.Int63n(f.size)
	gone := rng.Intn(2) == 0
	u, _ := stdurl.Parse(f.url)
	if u.Scheme == "http" {
		web.Lock()
		web.m[u.Path] = f.data[:short]
		if gone {
			delete(web.m, u.Path)
		}
		web.Unlock()
	} else {
		p := u.Path
		if !filepath.IsAbs(p) {
			p = filepath.Join(w.dir, p)
		}
		if gone {
			os.Remove(p)
		} else {
			os.Truncate(p, short)
		}
	}
	for _, m := range modes[:3] {
		fails(fmt.Sprintf("a source that is gone: %v", gone), nil, append(append([]string{}, m...), "cp", "-u", w.url, "-p", f.path, "-o", filepath.Join(w.dir, "none"))...)
	}
	// the header object is gone
	h := w.url + ".isohdr"
	h = strings.TrimPrefix(h, "file://")
	if !filepath.IsAbs(h) {
		h = filepath.Join(w.dir, h)
	}
	// a part of the header is gone, so that some directory cannot be read
	if hdr, err := ioutil.ReadFile(h); err == nil {
		if dirs := mon.DecodeISO(hdr).Dirs; len(dirs) > 1 {
			last := dirs[0]
			for _, d := range dirs {
				if d.Start > last.Start {
					last = d
				}
			}
			os.RemoveAll(w.root)
			os.Truncate(h, int64(last.Start)*2048+rng.Int63n(34))
			fails("a directory cut off", nil, with("ls", "-r", "-u", w.url, "-p", "/")...)
			fails("a directory cut off", nil, with("tree", "-u", w.url)...)
			r.Count("listings with a directory cut off", 1)
		}
	}
	os.RemoveAll(w.root)
	os.Truncate(h, 16*2048+rng.Int63n(3*2048))
	fails("truncated header", nil, with("ls", "-r", "-u", w.url, "-p", "/")...)
	fails("truncated header", nil, with("tree", "-u", w.url)...)
	os.RemoveAll(w.root)
	os.Remove(h)
	fails("no header", nil, with("ls", "-r", "-u", w.url, "-p", "/")...)
	fails("no header", nil, with("inspect", "-u", w.url)...)
}

func indexOf(rows [][]string, p string) int {
	for i, r := range rows {
		if r[0] == p {
			return i
		}
	}
	return -1
}

func main() {
	mon.Main("C25", "listings burned and read back by the command-line tool, told apart by cache flags, kinds of addresses and number of entries; and kinds of failures", func(r *mon.Run) {
		tool = os.Getenv("VERIF_TOOL")
		srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			web.Lock()
			b, ok := web.m[q.URL.Path]
			web.Unlock()
			if !ok {
				rw.WriteHeader(404)
				return
			}
			rw.Header().Set("Content-Type", "application/octet-stream")
			http.ServeContent(rw, q, "", time.Unix(0, 0), bytes.NewReader(b))
		}))
		r.Assume("addresses are local paths, file and HTTP addresses; the mount command is not run")
		r.Parallel(r.N(120, 2500), 0, func(i int) { scenario(r, i) })
		r.Need("commands run", 2000)
		r.Need("files copied", 500)
		r.Need("entries compared", 500)
		r.Need("commands that had to fail", 500)
		r.Need("listings with a directory cut off", 10)
	})
}
