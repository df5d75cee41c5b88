// C21: bucket listings are complete across pages.
package main

import (
	"bytes"
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	stdurl "net/url"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/NVIDIA/vdisc/pkg/s3util"
	_ "github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"

	"vdiscverif/mon"
)

// An object of the store has one or more versions, the newest first.
type version struct {
	key, id, etag, modified string
	size                    int64
	latest, deleted         bool
}

// store answers version listings the way the service does: strictly by the
// markers in the request.
type store struct {
	mu       sync.Mutex
	rng      *rand.Rand
	bucket   string
	versions []version // by key, newest first
	max      int       // entries on a page (varied around)
	vary     bool

	// failure on page fail (0 based), -1 for none
	fail int
	how  string
	err  error

	requests int
	problems []string
	bodies   []*body
	pages    int
	tail     string // form of the last page's markers
	emptyID  bool   // an absent version marker is given as an empty element
	splits   int    // pages that end between two versions of one key
	prefixes int    // pages that end with a directory
}

type body struct {
	r      io.Reader
	closed bool
	mu     sync.Mutex
}

func (b *body) Read(p []byte) (int, error) { return b.r.Read(p) }
func (b *body) Close() error {
	b.mu.Lock()
	b.closed = true
	b.mu.Unlock()
	return nil
}

type cutReader struct {
	r   io.Reader
	err error
}

func (c *cutReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == io.EOF {
		err = c.err
	}
	return n, err
}

func esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// entry is what a page lists: a version or a directory.
type entry struct {
	dir string
	v   version
}

// listing returns everything the store lists for a prefix after the markers.
func (s *store) listing(prefix, keyMarker, idMarker string) []entry {
	var out []entry
	after := keyMarker == ""
	last := ""
	for _, v := range s.versions {
		if !strings.HasPrefix(v.key, prefix) {
			continue
		}
		rest := v.key[len(prefix):]
		if i := strings.IndexByte(rest, '/'); i >= 0 {
			d := prefix + rest[:i+1]
			if d == last || (keyMarker != "" && d <= keyMarker) {
				continue
			}
			last = d
			out = append(out, entry{dir: d})
			continue
		}
		if !after {
			if v.key < keyMarker {
				continue
			}
			if v.key == keyMarker {
				if idMarker != "" && v.id == idMarker {
					after = true
				}
				continue
			}
			after = true
		}
		out = append(out, entry{v: v})
	}
	return out
}

func (s *store) respond(req *http.Request, status int, b io.Reader) *http.Response {
	bd := &body{r: b}
	s.bodies = append(s.bodies, bd)
	return &http.Response{
		Status: fmt.Sprintf("%d x", status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: bd, ContentLength: -1, Request: req,
	}
}

func (s *store) RoundTrip(req *http.Request) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()

	q, err := stdurl.ParseQuery(req.URL.RawQuery)
	if err != nil {
		s.problems = append(s.problems, fmt.Sprintf("the query %q cannot be parsed: %v", req.URL.RawQuery, err))
		return s.respond(req, 400, strings.NewReader("bad query")), nil
	}
	if _, ok := q["location"]; ok {
		return s.respond(req, 200, strings.NewReader(`<?xml version="1.0" encoding="UTF-8"?><LocationConstraint xmlns="http://s3.amazonaws.com/doc/2006-03-01/">eu-west-1</LocationConstraint>`)), nil
	}

	n := s.requests
	s.requests++
	if n > 2000 {
		s.problems = append(s.problems, "2000 requests for one listing")
		return s.respond(req, 500, strings.NewReader("enough")), nil
	}
	if req.Method != "GET" {
		s.problems = append(s.problems, "method "+req.Method)
	}
	if _, ok := q["versions"]; !ok {
		s.problems = append(s.problems, fmt.Sprintf("query %q does not ask for versions", req.URL.RawQuery))
		return s.respond(req, 400, strings.NewReader("not supported")), nil
	}
	for k, vs := range q {
		if len(vs) != 1 {
			s.problems = append(s.problems, fmt.Sprintf("parameter %q is there %d times", k, len(vs)))
		}
	}
	if q.Get("delimiter") != "/" {
		s.problems = append(s.problems, fmt.Sprintf("delimiter %q", q.Get("delimiter")))
	}
	prefix := q.Get("prefix")
	if s.bucket != "" { // container in the path or, in front of the prefix, in the query
		p := strings.TrimPrefix(req.URL.Path, "/")
		if p == "" && strings.HasPrefix(prefix, s.bucket+"/") {
			prefix = prefix[len(s.bucket)+1:]
		} else if strings.TrimSuffix(p, "/") != s.bucket {
			s.problems = append(s.problems, fmt.Sprintf("listing of %q prefix %q instead of container %q", req.URL.Path, prefix, s.bucket))
		}
	}

	var b bytes.Buffer
	entries := s.listing(prefix, q.Get("key-marker"), q.Get("version-id-marker"))
	max := s.max
	if s.vary {
		max = 1 + s.rng.Intn(s.max)
	}
	truncated := len(entries) > max
	page := entries
	if truncated {
		page = entries[:max]
	}

	if s.fail >= 0 && n == s.fail {
		switch s.how {
		case "status":
			return s.respond(req, s.rng.Intn(2)*100+400+[]int{0, 3, 9, 10}[s.rng.Intn(4)], strings.NewReader("<Error><Code>x</Code></Error>")), nil
		case "missing":
			return s.respond(req, 404, strings.NewReader("<Error><Code>NoSuchBucket</Code></Error>")), nil
		case "no content":
			return s.respond(req, 204, strings.NewReader("")), nil
		case "partial content":
			// falls through to a complete page with status 206 below
		case "network":
			return nil, s.err
		case "not xml":
			return s.respond(req, 200, strings.NewReader("{\"Versions\": []}")), nil
		case "other xml":
			return s.respond(req, 200, strings.NewReader("<Error><Code>InternalError</Code><IsTruncated>false</IsTruncated></Error>")), nil
		case "empty":
			return s.respond(req, 200, strings.NewReader("")), nil
		}
	}

	fmt.Fprintf(&b, `<?xml version="1.0" encoding="UTF-8"?>`+"\n"+`<ListVersionsResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/"><Name>bucket</Name><Prefix>%s</Prefix><KeyMarker>%s</KeyMarker><MaxKeys>%d</MaxKeys><Delimiter>/</Delimiter>`,
		esc(prefix), esc(q.Get("key-marker")), max)
	if truncated {
		l := page[len(page)-1]
		switch {
		case s.fail >= 0 && n == s.fail && s.how == "no marker":
		case l.dir != "":
			s.prefixes++
			fmt.Fprintf(&b, `<NextKeyMarker>%s</NextKeyMarker>`, esc(l.dir))
			if s.emptyID {
				fmt.Fprintf(&b, `<NextVersionIdMarker></NextVersionIdMarker>`)
			}
		default:
			if f := entries[max]; f.dir == "" && f.v.key == l.v.key {
				s.splits++
			}
			fmt.Fprintf(&b, `<NextKeyMarker>%s</NextKeyMarker><NextVersionIdMarker>%s</NextVersionIdMarker>`, esc(l.v.key), esc(l.v.id))
		}
	} else if s.tail == "empty" {
		fmt.Fprintf(&b, `<NextKeyMarker></NextKeyMarker><NextVersionIdMarker></NextVersionIdMarker>`)
	} else if s.tail == "left over" && len(page) > 0 {
		l := page[0]
		fmt.Fprintf(&b, `<NextKeyMarker>%s</NextKeyMarker>`, esc(l.dir+l.v.key))
	}
	fmt.Fprintf(&b, `<IsTruncated>%v</IsTruncated>`, truncated)
	for _, e := range page {
		if e.dir != "" {
			continue
		}
		el := "Version"
		if e.v.deleted {
			el = "DeleteMarker"
		}
		fmt.Fprintf(&b, `<%s><Key>%s</Key><VersionId>%s</VersionId><IsLatest>%v</IsLatest><LastModified>%s</LastModified>`, el, esc(e.v.key), esc(e.v.id), e.v.latest, e.v.modified)
		if !e.v.deleted {
			fmt.Fprintf(&b, `<ETag>%s</ETag><Size>%d</Size><StorageClass>STANDARD</StorageClass>`, esc(e.v.etag), e.v.size)
		}
		fmt.Fprintf(&b, `<Owner><ID>o</ID></Owner></%s>`, el)
	}
	for _, e := range page {
		if e.dir != "" {
			fmt.Fprintf(&b, `<CommonPrefixes><Prefix>%s</Prefix></CommonPrefixes>`, esc(e.dir))
		}
	}
	b.WriteString(`</ListVersionsResult>`)
	s.pages++

	if s.fail >= 0 && n == s.fail {
		switch s.how {
		case "partial content":
			return s.respond(req, 206, &b), nil
		case "cut":
			return s.respond(req, 200, bytes.NewReader(b.Bytes()[:s.rng.Intn(b.Len()-1)])), nil
		case "broken off":
			return s.respond(req, 200, &cutReader{bytes.NewReader(b.Bytes()[:s.rng.Intn(b.Len()+1)]), s.err}), nil
		}
	}
	return s.respond(req, 200, &b), nil
}

var atoms = []string{"a", "b", "Z", "0", " ", "+", "&", "%", "%2F", "=", ";", "#", "?", "é", "日本", "<", ">", "\"", "'", "~", "*", ":", "@", "&amp;", "\\", "|", ".", "-", "_", "(", "a b"}

func name(rng *rand.Rand) string {
	for {
		var b strings.Builder
		for i := 0; i < 1+rng.Intn(4); i++ {
			b.WriteString(atoms[rng.Intn(len(atoms))])
		}
		if s := b.String(); s != "." && s != ".." {
			return s
		}
	}
}

func build(rng *rand.Rand, dir string) []version {
	seen := map[string]bool{}
	var keys []string
	add := func(k string) {
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	n := rng.Intn(25)
	for i := 0; i < n; i++ {
		switch rng.Intn(8) {
		case 0, 1:
			add(dir + name(rng) + "/" + name(rng))
		case 2:
			d := dir + name(rng) + "/"
			for j := 0; j < 1+rng.Intn(3); j++ {
				add(d + name(rng))
			}
		case 3:
			add("other" + name(rng) + "/" + name(rng))
		default:
			add(dir + name(rng))
		}
	}
	if rng.Intn(3) == 0 && dir != "" {
		add(dir) // directory marker object
	}
	sort.Strings(keys)
	var out []version
	serial := 0
	for _, k := range keys {
		m := 1
		if rng.Intn(3) == 0 {
			m += rng.Intn(6)
		}
		if rng.Intn(12) == 0 {
			m += 10
		}
		for j := 0; j < m; j++ {
			serial++
			v := version{
				key: k, latest: j == 0, size: rng.Int63n(1 << 40),
				id:       fmt.Sprintf("v%d%s", serial, []string{"", "+/=", "&x=%20", ".a b", "null"}[rng.Intn(5)]),
				etag:     fmt.Sprintf("\"%08x\"", rng.Uint32()),
				modified: time.Unix(1e9+rng.Int63n(5e8), int64(rng.Intn(1000))*1e6).UTC().Format("2006-01-02T15:04:05.000Z"),
				deleted:  rng.Intn(9) == 0,
			}
			out = append(out, v)
		}
	}
	return out
}

func show(e entry) string {
	if e.dir != "" {
		return fmt.Sprintf("directory %q", e.dir)
	}
	return fmt.Sprintf("%q version %q latest %v size %d etag %s modified %s", e.v.key, e.v.id, e.v.latest, e.v.size, e.v.etag, e.v.modified)
}

// flatten turns the pages the callback saw into entries, in the order given:
// versions and directories are separate lists on a page.
func flatten(vs []s3util.ObjectVersion, ds []s3util.DirEntry) (files, dirs []entry) {
	for _, v := range vs {
		files = append(files, entry{v: version{key: v.Key, id: v.VersionId, etag: v.ETag, modified: v.LastModified, size: v.Size, latest: v.IsLatest}})
	}
	for _, d := range ds {
		dirs = append(dirs, entry{dir: d.Prefix})
	}
	return files, dirs
}

var failures = []string{"status", "missing", "no content", "partial content", "network", "not xml", "other xml", "empty", "no marker", "cut", "broken off", "caller"}

func one(r *mon.Run, i int) {
	rng := r.Rng(fmt.Sprint("list", i))
	dir := ""
	if rng.Intn(5) != 0 {
		dir = name(rng) + "/"
		if rng.Intn(3) == 0 {
			dir += name(rng) + "/"
		}
	}
	s := &store{rng: rng, versions: build(rng, dir), fail: -1, max: 1 + rng.Intn(12), vary: rng.Intn(3) == 0, emptyID: rng.Intn(3) == 0, tail: []string{"", "empty", "left over"}[rng.Intn(3)]}
	if rng.Intn(3) == 0 {
		s.max = 1
	}
	full := s.listing(dir, "", "")
	var wantFiles, wantDirs []entry
	for _, e := range full {
		if e.dir != "" {
			wantDirs = append(wantDirs, e)
		} else if !e.v.deleted {
			e.v.deleted = false
			wantFiles = append(wantFiles, e)
		}
	}

	callerErr := error(nil)
	callerAt := -1
	if i%2 == 1 {
		s.how = failures[(i/2)%len(failures)]
		s.err = mon.Fault(i / 2 / len(failures))
		s.fail = 0
		if n := (len(full) - 1) / s.max; n > 0 {
			s.fail = rng.Intn(n + 1)
		}
		if s.how == "no marker" {
			s.vary = false
			if len(full) <= s.max*(s.fail+1) {
				s.fail, s.how = -1, ""
			}
		}
		if s.how == "caller" {
			callerErr, callerAt = s.err, s.fail
			s.fail = -1
		}
	}

	p := strings.TrimSuffix(dir, "/")
	if rng.Intn(2) == 0 {
		p = dir
	}
	u := &stdurl.URL{Scheme: "https", Host: "bucket.store.example", Path: "/" + p}
	what := fmt.Sprintf("case %d: listing %q, %d entries, pages of %d, %s on page %d", i, dir, len(full), s.max, s.how, s.fail)

	var gotFiles, gotDirs []entry
	calls := 0
	late := 0
	done := false
	var err error
	msg, panicked := mon.Catch(func() {
		err = s3util.ListBucket(&http.Client{Transport: s}, u.String(), func(page *s3util.ListBucketPage) error {
			if done {
				late++
			}
			f, d := flatten(page.Version, page.CommonPrefixes)
			gotFiles = append(gotFiles, f...)
			gotDirs = append(gotDirs, d...)
			calls++
			if calls-1 == callerAt {
				done = true
				return callerErr
			}
			if len(f)+len(d) > 0 && rng.Intn(2) == 0 {
				// the page belongs to the caller
				for j := range page.Version {
					page.Version[j].Key = "x"
				}
			}
			return nil
		})
	})
	r.Eval()
	r.Count("pages delivered", int64(calls))
	r.Count("entries delivered", int64(len(gotFiles)+len(gotDirs)))
	r.Count("pages ending between versions of a key", int64(s.splits))
	r.Count("pages ending with a directory", int64(s.prefixes))
	if panicked {
		r.Violate("panic", "%s: panic: %s", what, msg)
		return
	}
	for _, p := range s.problems {
		r.Violate("request", "%s: %s", what, p)
		return
	}
	for _, b := range s.bodies {
		b.mu.Lock()
		c := b.closed
		b.mu.Unlock()
		if !c {
			r.Violate("body-left-open", "%s: an answer's body was not closed", what)
			return
		}
	}
	failed := (s.fail >= 0 && s.requests > s.fail) || (callerAt >= 0 && calls > callerAt)
	if failed {
		r.Count("failures met: "+s.how, 1)
		if err == nil {
			r.Violate("failure-hidden", "%s: the listing succeeded although page %d failed (%s)", what, s.fail, s.how)
			return
		}
		if callerAt >= 0 {
			if !errors.Is(err, callerErr) {
				r.Violate("caller-error-replaced", "%s: the caller's error %v became %v", what, callerErr, err)
			}
			if calls != callerAt+1 {
				r.Violate("called-after-error", "%s: %d pages delivered, the caller failed on page %d", what, calls, callerAt)
			}
		}
		if s.how == "missing" {
			if s.fail == 0 && !os.IsNotExist(err) && !errors.Is(err, os.ErrNotExist) {
				r.Violate("missing-not-reported", "%s: error %v is not about a missing directory", what, err)
			}
			if s.fail > 0 && errors.Is(err, os.ErrNotExist) {
				r.Count("vanished on a later page, reported as missing", 1)
			}
		}
		if s.how == "network" && !errors.Is(err, s.err) {
			r.Violate("error-replaced", "%s: the error %v became %v", what, s.err, err)
		}
		if s.requests > s.fail+1 && s.fail >= 0 {
			r.Violate("asked-on", "%s: %d requests, the answer to number %d was bad", what, s.requests, s.fail)
		}
		limit := s.fail
		if s.how == "no marker" {
			limit++ // the page itself may be delivered
		}
		if callerAt < 0 && calls > limit {
			r.Violate("bad-page-delivered", "%s: %d pages delivered", what, calls)
		}
		// what was delivered before must be the beginning of the listing
		if len(gotFiles) > len(wantFiles) || len(gotDirs) > len(wantDirs) {
			r.Violate("too-much", "%s: more entries delivered than there are", what)
			return
		}
		wantFiles, wantDirs = wantFiles[:len(gotFiles)], wantDirs[:len(gotDirs)]
	} else if err != nil {
		r.Violate("failed", "%s: error %v", what, err)
		return
	}
	compare(r, what, "version", gotFiles, wantFiles)
	compare(r, what, "directory", gotDirs, wantDirs)
	if calls >= 3 && s.splits > 0 {
		r.Distinct("main", fmt.Sprintf("%d/%d/%d/%s%d", len(full), calls, s.splits, s.how, s.fail))
	}
	if i < 4 {
		r.Sample("%s", what)
	}
}

func compare(r *mon.Run, what, kind string, got, want []entry) {
	for k := 0; k < len(got) || k < len(want); k++ {
		g, w := "nothing", "nothing"
		if k < len(got) {
			g = show(got[k])
		}
		if k < len(want) {
			w = show(want[k])
		}
		if g != w {
			r.Violate("entries", "%s: %s %d is %s, should be %s", what, kind, k, g, w)
			return
		}
	}
}

// drivers lists through the store drivers: the latest versions and the
// directories, whatever page they are on.
func drivers(r *mon.Run, i int) {
	rng := r.Rng(fmt.Sprint("driver", i))
	scheme := []string{"s3", "swift"}[i%2]
	drv, err := driver.Find(scheme + "://x/")
	if err != nil {
		r.Violate("driver", "no driver for %s: %v", scheme, err)
		return
	}
	dir := name(rng) + "/"
	if rng.Intn(3) == 0 {
		dir += name(rng) + "/"
	}
	s := &store{rng: rng, versions: build(rng, dir), fail: -1, max: 1 + rng.Intn(6), vary: rng.Intn(2) == 0, emptyID: rng.Intn(3) == 0}
	for k := range s.versions {
		if s.versions[k].deleted && s.versions[k].latest && rng.Intn(2) == 0 {
			s.versions[k].deleted = false
		}
	}
	u := &stdurl.URL{Scheme: scheme, Host: "bucket", Path: "/" + dir}
	if scheme == "swift" {
		s.bucket = "cont"
		u.Host = "store.example"
		u.Path = "/acct/cont/" + dir
	}
	if !mon.SetTransport(drv, s) {
		r.Count("drivers without a reachable transport", 1)
		return
	}
	rd, ok := drv.(driver.Readdirer)
	if !ok {
		r.Violate("driver", "%s cannot list", scheme)
		return
	}
	missing := i%11 == 5
	if missing {
		s.fail, s.how = 0, "missing"
	}
	var want []string
	for _, e := range s.listing(dir, "", "") {
		if e.dir != "" {
			p := strings.Split(e.dir, "/")
			want = append(want, fmt.Sprintf("directory %q", p[len(p)-2]))
		} else if e.v.latest && !e.v.deleted && e.v.key != dir {
			want = append(want, fmt.Sprintf("file %q size %d time %s", e.v.key[len(dir):], e.v.size, e.v.modified))
		}
	}
	what := fmt.Sprintf("driver case %d: %s, %d versions in the store, pages of %d", i, u, len(s.versions), s.max)
	var fis []os.FileInfo
	msg, panicked := mon.Catch(func() { fis, err = rd.Readdir(context.Background(), u.String()) })
	r.Eval()
	if panicked {
		r.Violate("driver-panic", "%s: panic %s", what, msg)
		return
	}
	for _, p := range s.problems {
		r.Violate("driver-request", "%s: %s", what, p)
		return
	}
	if missing {
		if err == nil || !(os.IsNotExist(err) || errors.Is(err, os.ErrNotExist)) {
			r.Violate("driver-missing", "%s: the directory is missing, error %v", what, err)
		}
		r.Count("missing directories", 1)
		return
	}
	if err != nil {
		r.Violate("driver-failed", "%s: %v", what, err)
		return
	}
	var got []string
	for _, fi := range fis {
		if fi.IsDir() {
			got = append(got, fmt.Sprintf("directory %q", fi.Name()))
		} else {
			got = append(got, fmt.Sprintf("file %q size %d time %s", fi.Name(), fi.Size(), fi.ModTime().UTC().Format("2006-01-02T15:04:05.000Z")))
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if len(got) != len(want) {
		r.Violate("driver-entries", "%s: %d entries, should be %d: %q instead of %q", what, len(got), len(want), got, want)
		return
	}
	for k := range got {
		if got[k] != want[k] {
			r.Violate("driver-entries", "%s: %s instead of %s", what, got[k], want[k])
			return
		}
	}
	r.Count("driver entries compared", int64(len(got)))
	if s.pages > 2 {
		r.Distinct("main", fmt.Sprintf("driver/%s/%d/%d", scheme, s.pages, len(got)))
	}
}

func main() {
	for k, v := range map[string]string{"AWS_ACCESS_KEY_ID": "AKID", "AWS_SECRET_ACCESS_KEY": "secret", "AWS_REGION": "eu-west-1", "SWIFT_ACCESS_KEY_ID": "acct", "SWIFT_SECRET_ACCESS_KEY": "secret"} {
		os.Setenv(k, v)
	}
	mon.Main("C21", "a listing counts when it took at least three pages, one of which ended between two versions of the same key; told apart by numbers of entries, pages, such ends and the failure", func(r *mon.Run) {
		r.Assume("the store follows the service's documented version listing: a page ends with the key and version markers to continue from, a page that ends with a directory has a key marker only")
		n := r.N(12000, 200000)
		for i := 0; i < n && !r.Enough(); i++ {
			one(r, i)
		}
		m := r.N(600, 8000)
		for i := 0; i < m && !r.Enough(); i++ {
			drivers(r, i)
		}
		for _, f := range failures {
			r.Need("failures met: "+f, 20)
		}
		r.Need("pages ending between versions of a key", 1000)
		r.Need("pages ending with a directory", 500)
	})
}
