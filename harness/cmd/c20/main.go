// C20: an S3 upload stores exactly the written bytes or nothing.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/xml"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	stdurl "net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/credentials"
	"github.com/aws/aws-sdk-go/aws/session"
	"github.com/aws/aws-sdk-go/service/s3"

	"github.com/NVIDIA/vdisc/pkg/s3util"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/pkg/storage/s3"

	"vdiscverif/mon"
)

const mib = 1 << 20

type version struct {
	id   string
	data []byte
}

type upload struct {
	key   string
	parts map[int][]byte
}

// store is a small object store that speaks enough of the protocol.
type store struct {
	r      *mon.Run
	label  string
	faults func(kind string, n int) string // what to do with request n of a kind
	delay  func()

	mu       sync.Mutex
	objects  map[string][]version
	uploads  map[string]*upload
	seq      int
	counts   map[string]int
	injected map[string]bool // kinds of requests that were made to fail
	lost     bool            // an answer was lost after the request took effect
	aborts   int
	busy     int
	maxBusy  int
	sawParts int
	bad      string
}

func (s *store) fail(w http.ResponseWriter, code int, name string) {
	w.Header().Set("Content-Type", "application/xml")
	w.WriteHeader(code)
	fmt.Fprintf(w, "<Error><Code>%s</Code><Message>injected</Message></Error>", name)
}

func (s *store) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	q := req.URL.Query()
	path := req.URL.Path
	_, uploads := q["uploads"]
	uid := q.Get("uploadId")
	kind := "?"
	switch {
	case req.Method == "PUT" && uid != "":
		kind = "part"
	case req.Method == "PUT":
		kind = "put"
	case req.Method == "POST" && uploads:
		kind = "create"
	case req.Method == "POST" && uid != "":
		kind = "complete"
	case req.Method == "DELETE" && uid != "":
		kind = "abort"
	}
	s.mu.Lock()
	n := s.counts[kind]
	s.counts[kind]++
	s.busy++
	if s.busy > s.maxBusy {
		s.maxBusy = s.busy
	}
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		s.busy--
		s.mu.Unlock()
	}()
	what := ""
	if s.faults != nil {
		what = s.faults(kind, n)
	}
	if what != "" {
		s.mu.Lock()
		s.injected[kind] = true
		s.mu.Unlock()
	}
	if what == "drop" {
		panic(http.ErrAbortHandler)
	}
	body, err := ioutil.ReadAll(req.Body)
	if err != nil {
		return // the client went away
	}
	s.delay()
	switch what {
	case "500":
		s.fail(w, 500, "InternalError")
		return
	case "503":
		s.fail(w, 503, "SlowDown")
		return
	case "403":
		s.fail(w, 403, "AccessDenied")
		return
	case "200-error":
		s.fail(w, 200, "InternalError")
		return
	}
	if kind == "put" || kind == "part" {
		sum := sha256.Sum256(body)
		if h := req.Header.Get("X-Amz-Content-Sha256"); h != hex.EncodeToString(sum[:]) {
			s.fail(w, 400, "XAmzContentSHA256Mismatch")
			return
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	switch kind {
	case "put":
		s.seq++
		id := fmt.Sprintf("v%d/+x", s.seq)
		s.objects[path] = append(s.objects[path], version{id, body})
		w.Header().Set("x-amz-version-id", id)
		w.Header().Set("ETag", fmt.Sprintf("\"%x\"", mon.Sum(body)))
	case "create":
		s.seq++
		id := fmt.Sprintf("u%d", s.seq)
		s.uploads[id] = &upload{path, map[int][]byte{}}
		if what == "lost" {
			s.lost = true
			panic(http.ErrAbortHandler)
		}
		fmt.Fprintf(w, "<InitiateMultipartUploadResult><UploadId>%s</UploadId></InitiateMultipartUploadResult>", id)
		return
	case "part":
		u := s.uploads[uid]
		var num int
		fmt.Sscan(q.Get("partNumber"), &num)
		if u == nil || u.key != path {
			s.fail(w, 404, "NoSuchUpload")
			return
		}
		if num < 1 || num > 10000 {
			s.fail(w, 400, "InvalidArgument")
			return
		}
		u.parts[num] = body
		s.sawParts++
		w.Header().Set("ETag", fmt.Sprintf("\"%x-%d\"", mon.Sum(body), num))
	case "complete":
		u := s.uploads[uid]
		if u == nil || u.key != path {
			s.fail(w, 404, "NoSuchUpload")
			return
		}
		var in struct {
			Part []struct {
				PartNumber int
				ETag       string
			}
		}
		if err := xml.Unmarshal(body, &in); err != nil || len(in.Part) == 0 {
			s.fail(w, 400, "MalformedXML")
			return
		}
		var data []byte
		for k, p := range in.Part {
			b, ok := u.parts[p.PartNumber]
			if !ok || p.ETag != fmt.Sprintf("\"%x-%d\"", mon.Sum(b), p.PartNumber) {
				s.fail(w, 400, "InvalidPart")
				return
			}
			if k > 0 && in.Part[k-1].PartNumber >= p.PartNumber {
				s.fail(w, 400, "InvalidPartOrder")
				return
			}
			if k < len(in.Part)-1 && len(b) < 5*mib {
				s.fail(w, 400, "EntityTooSmall")
				return
			}
			data = append(data, b...)
		}
		delete(s.uploads, uid)
		s.seq++
		id := fmt.Sprintf("v%d/+x", s.seq)
		s.objects[path] = append(s.objects[path], version{id, data})
		if what == "lost" {
			s.lost = true
			panic(http.ErrAbortHandler)
		}
		w.Header().Set("x-amz-version-id", id)
		fmt.Fprint(w, "<CompleteMultipartUploadResult><Location>x</Location><ETag>\"e\"</ETag></CompleteMultipartUploadResult>")
		return
	case "abort":
		s.aborts++
		if _, ok := s.uploads[uid]; !ok {
			s.fail(w, 404, "NoSuchUpload")
			return
		}
		delete(s.uploads, uid)
		w.WriteHeader(204)
		return
	default:
		s.bad = fmt.Sprintf("unexpected request %s %s", req.Method, req.URL)
		s.fail(w, 400, "BadRequest")
		return
	}
	if what == "lost" {
		s.lost = true
		panic(http.ErrAbortHandler)
	}
}

var sess *session.Session

func main() {
	mon.Main("C20", "distinct (size, write pattern, requests, faults, ending) uploads whose store contents were compared with the bytes written", func(r *mon.Run) {
		var err error
		sess, err = session.NewSession(aws.NewConfig().WithRegion("us-west-2").WithCredentials(credentials.NewStaticCredentials("AKIDEXAMPLE", "secret", "")))
		if err != nil {
			r.Inconclusive("no session: %v", err)
			return
		}
		r.Parallel(r.N(220, 5000), 6, func(i int) { one(r, i) })
		r.Parallel(r.N(1200, 20000), 0, func(i int) { small(r, i) })
		r.Parallel(r.N(30, 600), 6, func(i int) { direct(r, i) })
		r.Need("uploads committed", 300)
		r.Need("uploads in parts committed", 20)
		r.Need("uploads refused", 150)
		r.Need("uploads aborted", 100)
		r.Need("parts stored", 100)
		r.Need("sources that failed", 20)
		r.Assume("where the store carried out a request whose answer was lost, only a reported success is judged")
		r.Assume("an upload that the store was made to refuse to abort may stay behind")
	})
}

func (s *store) start() (url string, stop func(), ok bool) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		s.r.Inconclusive("no loopback network: %v", err)
		return "", nil, false
	}
	srv := &http.Server{Handler: s}
	go srv.Serve(ln)
	return "http://" + ln.Addr().String(), func() { srv.Close() }, true
}

// source is data to upload; it may fail on the way.
type source struct {
	data   []byte
	pos    int
	failAt int // -1: never
	err    error
	rng    *rand.Rand
	most   int // bytes given at once, 0: any number
	failed int32
}

func (s *source) Read(p []byte) (int, error) {
	end := len(s.data)
	if s.failAt >= 0 {
		end = s.failAt
	}
	if s.pos >= end {
		if s.failAt >= 0 {
			atomic.StoreInt32(&s.failed, 1)
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if n > end-s.pos {
		n = end - s.pos
	}
	if n > 1 && s.rng.Intn(2) == 0 {
		n = 1 + s.rng.Intn(n)
	}
	if s.most > 0 && n > s.most {
		n = s.most
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == end && s.rng.Intn(2) == 0 {
		if s.failAt >= 0 {
			atomic.StoreInt32(&s.failed, 1)
			return n, s.err
		}
		return n, io.EOF
	}
	return n, nil
}

// seekable is a source that can be read at any place.
type seekable struct {
	*bytes.Reader
	size   int64
	failAt int64
	err    error
	failed int32
}

func (s *seekable) ReadAt(p []byte, off int64) (int, error) {
	if s.failAt >= 0 && off+int64(len(p)) > s.failAt {
		atomic.StoreInt32(&s.failed, 1)
		if s.failAt > off {
			n, _ := s.Reader.ReadAt(p[:s.failAt-off], off)
			return n, s.err
		}
		return 0, s.err
	}
	return s.Reader.ReadAt(p, off)
}

func one(r *mon.Run, i int) {
	rng := r.Rng("big", i)
	size := []int{5*mib - 1, 5 * mib, 5*mib + 1, 10 * mib, 10*mib + 1, 3 * mib, 12*mib + rng.Intn(mib), rng.Intn(20 * mib), 15 * mib, 26*mib + 5}[rng.Intn(10)]
	run(r, fmt.Sprintf("big %d", i), rng, size, uint64(i)+1)
}

func small(r *mon.Run, i int) {
	rng := r.Rng("small", i)
	size := []int{0, 0, 1, 2, 100, 4096, rng.Intn(100000)}[rng.Intn(7)]
	run(r, fmt.Sprintf("small %d", i), rng, size, uint64(i)+100000)
}

var kinds = []string{"put", "create", "part", "part", "complete", "abort"}
var effects = []string{"500", "503", "403", "drop", "lost", "200-error"}

func run(r *mon.Run, label string, rng *rand.Rand, size int, id uint64) {
	if r.Failed() {
		return
	}
	data := mon.Bytes(id, 0, size)
	s := &store{r: r, delay: func() {}, objects: map[string][]version{}, uploads: map[string]*upload{}, counts: map[string]int{}, injected: map[string]bool{}}
	if rng.Intn(2) == 0 {
		s.delay = mon.Delay(rng.Int63(), 300*time.Microsecond)
	}
	fault := "none"
	if rng.Intn(2) == 0 {
		k := kinds[rng.Intn(len(kinds))]
		if size < 5*mib {
			k = "put"
		}
		e := effects[rng.Intn(len(effects))]
		if e == "200-error" && k != "complete" {
			e = "403"
		}
		at := 0
		if k == "part" {
			at = rng.Intn(size/(5*mib) + 1)
		}
		times := []int{1, 2, 1000}[rng.Intn(3)]
		fault = fmt.Sprintf("%s of %s %d, %d times", e, k, at, times)
		s.faults = func(kind string, n int) string {
			if kind == k && n >= at && n < at+times {
				return e
			}
			if k == "abort" && kind == "part" {
				return "403" // so that there is something to abort
			}
			return ""
		}
	}
	retries := rng.Intn(3)
	way := []string{"write", "write", "write", "readfrom", "readfrom", "seekable", "positioned"}[rng.Intn(7)]
	ending := []string{"commit", "commit", "commit", "commit", "abort", "abort then commit", "twice", "commit then abort"}[rng.Intn(8)]
	failAt := -1
	if way != "write" && rng.Intn(4) == 0 {
		failAt = rng.Intn(size + 1)
	}
	key := []string{"/dir/obj", "/a b/c+d", "/p%q/é", "/x", "/dir//double", "/q?mark=1&x#frag"}[rng.Intn(6)]
	scheme := []string{"s3", "s3", "swift", "https"}[rng.Intn(4)]
	old := rng.Intn(2) == 0
	most := 0
	if rng.Intn(4) == 0 {
		most = 500 + rng.Intn(8000)
	}
	label = fmt.Sprintf("%s: %d bytes to %s by %s, at most %d at once, source fails at %d, %s, fault: %s, %d retries", label, size, key, way, most, failAt, ending, fault, retries)
	s.label = label
	defer r.Begin("%s", label)()
	url, stop, ok := s.start()
	if !ok {
		return
	}
	defer stop()
	path := "/bucket" + key
	if strings.Contains(key, "//") {
		path = "/bucket/dir/double" // the client library cleans addresses
	}
	if old {
		s.objects[path] = []version{{"old", []byte("old")}}
	}
	tr := &http.Transport{MaxIdleConnsPerHost: 10}
	defer tr.CloseIdleConnections()
	svc := s3.New(sess, aws.NewConfig().WithEndpoint(url).WithS3ForcePathStyle(true).WithDisableSSL(true).WithMaxRetries(retries).
		WithS3DisableContentMD5Validation(true).WithHTTPClient(&http.Client{Transport: tr}))
	canon := (&stdurl.URL{Scheme: scheme, Host: "bucket", Path: key}).String()
	ow := s3driver.NewObjectWriter(svc, "bucket", key, canon)
	var writeErr, commitErr, sourceErr error
	var info driver.CommitInfo
	committed, aborted := false, false
	sourceFailed := false
	msg, bad := mon.Catch(func() {
		switch way {
		case "write":
			rest := data
			for len(rest) > 0 && writeErr == nil {
				n := len(rest)
				switch rng.Intn(4) {
				case 0:
					n = 1 + rng.Intn(n)
				case 1:
					if n > 64<<10 {
						n = 64 << 10
					}
				}
				if most > 0 && n > most {
					n = most
				}
				buf := append([]byte(nil), rest[:n]...)
				var got int
				got, writeErr = ow.Write(buf)
				for k := range buf {
					buf[k] = 0xDB // the writer must have taken its copy
				}
				if writeErr == nil && got != n {
					r.Violate("count", "%s: wrote %d of %d without an error", label, got, n)
				}
				rest = rest[n:]
			}
		default:
			rf, ok := ow.(io.ReaderFrom)
			if !ok {
				way = "none"
				return
			}
			var src io.Reader
			plain := &source{data: data, failAt: failAt, err: mon.Fault(rng.Intn(100)), rng: rng, most: most}
			src = plain
			var sk *seekable
			if way != "readfrom" {
				pre := 0
				if way == "positioned" {
					pre = 1 + rng.Intn(1000)
				}
				all := append(make([]byte, pre), data...)
				sk = &seekable{Reader: bytes.NewReader(all), size: int64(len(all)), failAt: -1, err: mon.Fault(rng.Intn(100))}
				if failAt >= 0 && failAt < size {
					sk.failAt = int64(failAt + pre)
				}
				sk.Seek(int64(pre), io.SeekStart)
				src = sk
			}
			var n int64
			n, sourceErr = rf.ReadFrom(src)
			sourceFailed = atomic.LoadInt32(&plain.failed) == 1 || (sk != nil && atomic.LoadInt32(&sk.failed) == 1)
			if sourceErr == nil && s.faults == nil && n != int64(size) {
				r.Violate("count", "%s: took over %d bytes without an error", label, n)
			}
			if sourceFailed && sourceErr == nil {
				r.Violate("source", "%s: the source failed and no error was reported", label)
			}
		}
		switch ending {
		case "abort":
			ow.Abort()
			aborted = true
		case "abort then commit":
			ow.Abort()
			aborted = true
			info, commitErr = ow.Commit()
			committed = true
		case "twice":
			ow.Commit()
			info, commitErr = ow.Commit()
			committed = true
		case "commit then abort":
			info, commitErr = ow.Commit()
			committed = true
			ow.Abort()
		default:
			info, commitErr = ow.Commit()
			committed = true
		}
	})
	if bad {
		r.Violate("crash", "%s: %s", label, msg)
		return
	}
	stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	r.Eval()
	if s.bad != "" {
		r.Violate("request", "%s: %s", label, s.bad)
		return
	}
	if sourceFailed {
		r.Count("sources that failed", 1)
	}
	r.Count("parts stored", int64(s.sawParts))
	r.Max("requests at once", int64(s.maxBusy))
	r.Distinct("main", fmt.Sprint(size, way, s.counts, fault, ending, failAt >= 0))
	vs := s.objects[path]
	if old {
		if len(vs) == 0 || vs[0].id != "old" || string(vs[0].data) != "old" {
			r.Violate("old", "%s: the former version was changed", label)
			return
		}
		vs = vs[1:]
	}
	for p := range s.objects {
		if p != path {
			r.Violate("key", "%s: an object appeared at %q", label, p)
			return
		}
	}
	faulted := len(s.injected) > 0
	success := committed && commitErr == nil && writeErr == nil && sourceErr == nil
	if committed && commitErr == nil && (writeErr != nil || sourceErr != nil) {
		r.Violate("commit", "%s: committed although writing failed with %v %v", label, writeErr, sourceErr)
		return
	}
	if success && aborted {
		r.Violate("commit", "%s: the commit of an aborted upload reported success", label)
		return
	}
	if success && failAt >= 0 && sourceFailed {
		r.Violate("commit", "%s: committed although the source failed", label)
		return
	}
	if success {
		r.Count("uploads committed", 1)
		if s.counts["complete"] > 0 {
			r.Count("uploads in parts committed", 1)
		}
		if len(vs) != 1 && !s.lost {
			r.Violate("published", "%s: %d versions were stored", label, len(vs))
			return
		}
		if len(vs) == 0 {
			r.Violate("published", "%s: reported success but nothing was stored", label)
			return
		}
		last := vs[len(vs)-1]
		if d := mon.Diff(last.data, data); d != "" {
			r.Violate("bytes", "%s: the stored object differs: %s", label, d)
			return
		}
		u, err := stdurl.Parse(info.ObjectURL())
		if err != nil || u.Scheme != scheme || u.Host != "bucket" || u.Path != key {
			r.Violate("address", "%s: reported address %q", label, info.ObjectURL())
			return
		}
		want := last.id
		if scheme == "https" {
			want = ""
		}
		if u.Query().Get("versionId") != want {
			r.Violate("address", "%s: reported address %q, the stored version is %q", label, info.ObjectURL(), last.id)
			return
		}
	} else {
		if !aborted && !faulted && !sourceFailed {
			r.Violate("refused", "%s: failed without any fault: %v %v %v", label, writeErr, sourceErr, commitErr)
			return
		}
		if aborted {
			r.Count("uploads aborted", 1)
		} else {
			r.Count("uploads refused", 1)
		}
		if len(vs) > 0 && !s.lost {
			if aborted && way != "write" && way != "none" && !sourceFailed && sourceErr == nil {
				r.Violate("published-by-readfrom", "an upload from a reader is published before it is committed: %s", label)
				return
			}
			r.Violate("published", "%s: %d bytes were published although it did not succeed (%v %v %v)", label, len(vs[0].data), writeErr, sourceErr, commitErr)
			return
		}
	}
	if len(s.uploads) > 0 && !s.injected["abort"] && !(s.lost && s.injected["create"]) {
		var ids []string
		for id := range s.uploads {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		r.Violate("left", "%s: uploads left behind: %v", label, ids)
		return
	}
	if len(label)%7 == 0 {
		r.Sample("%s: requests %v", label, s.counts)
	}
}

// direct uses the uploader itself with other limits.
func direct(r *mon.Run, i int) {
	if r.Failed() {
		return
	}
	rng := r.Rng("direct", i)
	s := &store{r: r, delay: func() {}, objects: map[string][]version{}, uploads: map[string]*upload{}, counts: map[string]int{}, injected: map[string]bool{}}
	url, stop, ok := s.start()
	if !ok {
		return
	}
	defer stop()
	size := rng.Intn(30 * mib)
	max := 1 + rng.Intn(5)
	conc := 1 + rng.Intn(8)
	seek := rng.Intn(2) == 0
	if i%3 == 0 {
		// Between the most parts of the usual size and one more.
		seek, size = true, max*5*mib+rng.Intn(5*mib)
	}
	label := fmt.Sprintf("direct %d: %d bytes, at most %d parts, %d at once, seekable %v", i, size, max, conc, seek)
	defer r.Begin("%s", label)()
	tr := &http.Transport{MaxIdleConnsPerHost: 10}
	defer tr.CloseIdleConnections()
	svc := s3.New(sess, aws.NewConfig().WithEndpoint(url).WithS3ForcePathStyle(true).WithDisableSSL(true).WithMaxRetries(0).WithHTTPClient(&http.Client{Transport: tr}))
	up := s3util.NewS3Uploader(svc, func(u *s3util.S3Uploader) {
		u.MaxUploadParts = max
		u.Concurrency = conc
	})
	data := mon.Bytes(uint64(i)+777, 0, size)
	var body io.Reader = bytes.NewReader(data)
	if !seek {
		body = &source{data: data, failAt: -1, rng: rng}
	}
	out, err := up.Upload(&s3util.S3UploadInput{Bucket: aws.String("bucket"), Key: aws.String("k"), Body: body})
	stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	r.Eval()
	r.Count("parts stored", int64(s.sawParts))
	fits := seek || size <= max*5*mib
	if max == 1 {
		fits = size < 5*mib
	}
	if err != nil {
		r.Count("uploads refused", 1)
		if fits && !(size == max*5*mib) && max > 1 {
			r.Violate("refused", "%s: %v", label, err)
			return
		}
		if len(s.objects) > 0 || len(s.uploads) > 0 {
			r.Violate("published", "%s: failed with %v, but %d objects and %d uploads remain", label, err, len(s.objects), len(s.uploads))
		}
		return
	}
	r.Count("uploads committed", 1)
	vs := s.objects["/bucket/k"]
	if len(vs) != 1 || len(s.uploads) != 0 {
		r.Violate("published", "%s: %d versions, %d uploads left", label, len(vs), len(s.uploads))
		return
	}
	if d := mon.Diff(vs[0].data, data); d != "" {
		r.Violate("bytes", "%s: %s", label, d)
		return
	}
	if out == nil || out.VersionID == nil || *out.VersionID != vs[0].id {
		r.Violate("address", "%s: reported version %v", label, out)
	}
	if s.maxBusy > conc {
		r.Violate("limit", "%s: %d requests at once", label, s.maxBusy)
	}
	r.Distinct("main", fmt.Sprint("direct", size, max, conc, seek))
}
