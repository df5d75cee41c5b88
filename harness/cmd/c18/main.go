// C18: HTTP retries are faithful, selective and bounded.
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/NVIDIA/vdisc/pkg/httputil"

	"vdiscverif/mon"
)

// attempt is one request as the transport below saw it.
type attempt struct {
	start, end    time.Time
	method, url   string
	header        string
	body          []byte
	bodyErr       error
	length        int64
	afterCancel   bool
	outcomeStatus int
	outcomeErr    error
}

// script is the transport below: it answers with the planned outcomes.
type script struct {
	r       *mon.Run
	label   string
	plan    []int // status; negative: failure number
	partial bool  // read only part of the body before failing
	cancel  func()
	at      int // the attempt during which the caller cancels; -1 never
	during  bool

	mu        sync.Mutex
	attempts  []attempt
	bodies    []*body
	cancelled bool
	busy      int
	cancelAt  time.Time
}

// body is a response body that records whether it was closed.
type body struct {
	*strings.Reader
	closed int32
}

func (b *body) Close() error {
	atomic.StoreInt32(&b.closed, 1)
	return nil
}

func headers(h http.Header) string {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&out, "%s: %q\n", k, h[k])
	}
	return out.String()
}

func (s *script) RoundTrip(req *http.Request) (*http.Response, error) {
	a := attempt{start: time.Now(), method: req.Method, url: req.URL.String(), header: headers(req.Header), length: req.ContentLength}
	s.mu.Lock()
	k := len(s.attempts)
	a.afterCancel = s.cancelled
	s.busy++
	if s.busy > 1 {
		s.r.Violate("overlap", "%s: two attempts at the same time", s.label)
	}
	s.attempts = append(s.attempts, a)
	s.mu.Unlock()
	if req.Body != nil {
		if s.partial && k%2 == 0 {
			buf := make([]byte, 7)
			n, _ := io.ReadFull(req.Body, buf)
			a.body = buf[:n]
			a.bodyErr = io.ErrShortBuffer
		} else {
			a.body, a.bodyErr = ioutil.ReadAll(req.Body)
		}
		req.Body.Close()
	}
	st := s.plan[len(s.plan)-1]
	if k < len(s.plan) {
		st = s.plan[k]
	}
	if k == s.at && s.during {
		s.doCancel()
	}
	a.outcomeStatus = st
	var resp *http.Response
	var err error
	if st < 0 {
		err = mon.Fault(-st)
		if req.Context().Err() != nil {
			err = req.Context().Err()
		}
	} else {
		b := &body{Reader: strings.NewReader(fmt.Sprintf("answer %d of %s", k, s.label))}
		resp = &http.Response{StatusCode: st, Status: fmt.Sprint(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{"X-Attempt": {fmt.Sprint(k)}}, Body: b, Request: req, ContentLength: int64(b.Len())}
		s.mu.Lock()
		s.bodies = append(s.bodies, b)
		s.mu.Unlock()
	}
	a.outcomeErr = err
	a.end = time.Now()
	s.mu.Lock()
	s.attempts[k] = a
	s.busy--
	s.mu.Unlock()
	if k == s.at && !s.during {
		go func() {
			time.Sleep(2 * time.Millisecond)
			s.doCancel()
		}()
	}
	return resp, err
}

func (s *script) doCancel() {
	s.cancel() // from here on the request's context is done
	s.mu.Lock()
	s.cancelled = true
	s.mu.Unlock()
}

func retryable(st int) bool { return st < 0 || st == 429 || st >= 500 }

var statuses = []int{500, 501, 502, 503, 504, 507, 520, 599, 429, 429, 503, -1, -2, -3, -4, -5, -6, -8, -10}
var finals = []int{200, 201, 204, 206, 301, 302, 304, 307, 400, 401, 403, 404, 405, 408, 409, 410, 416, 428, 430, 431, 451, 499}

// nobody hides that a reader can be rewound.
type nobody struct{ io.Reader }

func main() {
	mon.Main("C18", "distinct (outcome sequence, body kind, cancellation point) requests whose every attempt was recorded and judged", func(r *mon.Run) {
		r.Parallel(r.N(4000, 100000), 64, func(i int) { one(r, i) })
		r.Parallel(r.N(160, 2000), 32, func(i int) { exhausted(r, i) })
		r.Parallel(r.N(80, 1000), 8, func(i int) { overNetwork(r, i) })
		r.Parallel(r.N(200, 4000), 16, func(i int) { lostBody(r, i) })
		firstWait(r)
		r.Need("attempts", 5000)
		r.Need("requests sent again", 1000)
		r.Need("requests sent once", 300)
		r.Need("requests with a body sent again", 300)
		r.Need("requests cancelled", 200)
		r.Need("waits cancelled", 50)
		r.Need("bodies lost", 50)
		r.Need("allowances used up", 50)
		r.Need("requests over the network", 50)
		r.Assume("a body that the request cannot produce again is sent at most once")
	})
}

func request(rng *rand.Rand, ctx context.Context, url string) (req *http.Request, data []byte, kind string) {
	method := []string{"GET", "HEAD", "PUT", "POST", "DELETE", "OPTIONS"}[rng.Intn(6)]
	kind = "none"
	var rd io.Reader
	if method == "PUT" || method == "POST" || rng.Intn(8) == 0 {
		data = mon.Bytes(rng.Uint64(), 0, rng.Intn(5000))
		switch rng.Intn(4) {
		case 0:
			rd, kind = bytes.NewReader(data), "reader"
		case 1:
			rd, kind = bytes.NewBuffer(append([]byte(nil), data...)), "buffer"
		case 2:
			rd, kind = strings.NewReader(string(data)), "string"
		default:
			if len(data) == 0 {
				data = []byte("x")
			}
			rd, kind = nobody{bytes.NewReader(data)}, "once"
		}
		if len(data) == 0 {
			kind = "empty"
		}
	}
	req, err := http.NewRequest(method, url, rd)
	if err != nil {
		panic(err)
	}
	req = req.WithContext(ctx)
	for k := 0; k < rng.Intn(4); k++ {
		req.Header.Add([]string{"Range", "Authorization", "X-A", "Accept-Encoding"}[rng.Intn(4)], fmt.Sprintf("v%d", rng.Intn(1000)))
	}
	return
}

func one(r *mon.Run, i int) {
	rng := r.Rng("one", i)
	s := &script{r: r, at: -1, partial: rng.Intn(2) == 0}
	n := rng.Intn(5)
	if rng.Intn(20) == 0 {
		n = 12
	}
	for k := 0; k < n; k++ {
		s.plan = append(s.plan, statuses[rng.Intn(len(statuses))])
	}
	s.plan = append(s.plan, finals[rng.Intn(len(finals))])
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s.cancel = cancel
	url := fmt.Sprintf("http://host%d/some/path?q=%d", rng.Intn(3), i)
	req, data, kind := request(rng, ctx, url)
	opts := httputil.RetryOptions{InitialInterval: 200 * time.Microsecond, MaxInterval: time.Millisecond, MaxElapsedTime: time.Hour}
	early, long := false, false
	if n > 0 && rng.Intn(3) == 0 {
		s.at = rng.Intn(n)
		s.during = rng.Intn(2) == 0
		if !s.during {
			opts.InitialInterval, opts.MaxInterval = 60*time.Millisecond, 60*time.Millisecond
			if rng.Intn(2) == 0 {
				// the wait is still going on when the caller cancels
				long, s.at = true, 0
				opts.InitialInterval, opts.MaxInterval, opts.MaxElapsedTime = time.Hour, time.Hour, 1000*time.Hour
			}
		}
		for k := range s.plan {
			if !retryable(s.plan[k]) {
				s.plan[k] = 503 // cancellation is the only way out
			}
		}
	} else if rng.Intn(12) == 0 {
		early = true
		cancel()
		s.cancelled = true
		for k := range s.plan {
			s.plan[k] = -1
		}
	}
	s.label = fmt.Sprintf("request %d: %s with body %s (%d bytes), outcomes %v, cancelled in attempt %d (during %v), before %v", i, req.Method, kind, len(data), s.plan, s.at, s.during, early)
	defer r.Begin("%s", s.label)()
	wantHeader, wantURL, wantMethod, wantLen := headers(req.Header), req.URL.String(), req.Method, req.ContentLength
	rt := httputil.WithRetries(s, opts)
	var resp *http.Response
	var err error
	if msg, bad := mon.Catch(func() { resp, err = rt.RoundTrip(req) }); bad {
		r.Violate("crash", "%s: %s", s.label, msg)
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	r.Count("attempts", int64(len(s.attempts)))
	r.EvalN(len(s.attempts))
	r.Distinct("main", fmt.Sprint(s.plan, kind, s.at, s.during, early))
	if !faithful(r, s, data, kind, wantHeader, wantURL, wantMethod, wantLen) {
		return
	}
	last := len(s.attempts) - 1
	after := 0
	for _, a := range s.attempts {
		if a.afterCancel {
			after++
		}
	}
	switch {
	case s.at >= 0 || early:
		r.Count("requests cancelled", 1)
		allowed := 0
		if !s.during || early {
			allowed = 1 // it may be under way at that moment
		}
		if long {
			r.Count("waits cancelled", 1)
			if last != 0 {
				r.Violate("cancelled", "%s: %d attempts although the caller cancelled during the first wait of an hour", s.label, last+1)
				return
			}
		}
		if after > allowed {
			r.Violate("cancelled", "%s: %d attempts were made after the caller had cancelled", s.label, after)
			return
		}
	case kind == "once" && retryable(s.plan[0]):
		if last != 0 && s.plan[0] >= 0 {
			// the transport below has read some of the body
			r.Violate("body", "%s: %d attempts with a body that cannot be produced again", s.label, last+1)
			return
		}
	default:
		if last != len(s.plan)-1 {
			r.Violate("count", "%s: %d attempts, want %d", s.label, last+1, len(s.plan))
			return
		}
		if last == 0 {
			r.Count("requests sent once", 1)
		} else {
			r.Count("requests sent again", 1)
			if len(data) > 0 {
				r.Count("requests with a body sent again", 1)
			}
		}
		if err != nil || resp == nil || resp.StatusCode != s.plan[last] || resp.Header.Get("X-Attempt") != fmt.Sprint(last) {
			r.Violate("result", "%s: returned %v, %v", s.label, resp, err)
			return
		}
	}
	if last >= 0 {
		outcome(r, s, resp, err, ctx)
	}
	if i < 4 {
		r.Sample("%s: %d attempts", s.label, last+1)
	}
}

// faithful: every attempt repeats the request exactly.
func faithful(r *mon.Run, s *script, data []byte, kind, hdr, url, method string, length int64) bool {
	for k, a := range s.attempts {
		if a.method != method || a.url != url || a.header != hdr {
			r.Violate("changed", "%s: attempt %d was %s %s with headers %q, want %s %s %q", s.label, k, a.method, a.url, a.header, method, url, hdr)
			return false
		}
		if a.length != length {
			r.Violate("changed", "%s: attempt %d announced %d body bytes, want %d", s.label, k, a.length, length)
			return false
		}
		want := data
		if a.bodyErr == io.ErrShortBuffer {
			if len(want) > 7 {
				want = want[:7]
			}
		} else if a.bodyErr != nil {
			r.Violate("body", "%s: attempt %d: reading the body: %v", s.label, k, a.bodyErr)
			return false
		}
		if d := mon.Diff(a.body, want); d != "" {
			r.Violate("body", "%s: attempt %d carried another body: %s", s.label, k, d)
			return false
		}
	}
	return true
}

// outcome: the returned answer is readable, abandoned ones are closed.
func outcome(r *mon.Run, s *script, resp *http.Response, err error, ctx context.Context) {
	last := len(s.attempts) - 1
	a := s.attempts[last]
	if resp == nil && err == nil {
		r.Violate("result", "%s: neither an answer nor an error", s.label)
		return
	}
	if resp != nil && err != nil {
		r.Violate("result", "%s: both an answer and an error", s.label)
		return
	}
	cancelled := ctx.Err() != nil
	var keep io.ReadCloser
	if resp != nil {
		keep = resp.Body
		if resp.Header.Get("X-Attempt") != fmt.Sprint(last) || resp.StatusCode != a.outcomeStatus {
			r.Violate("result", "%s: returned the answer of attempt %s, status %d, after %d attempts", s.label, resp.Header.Get("X-Attempt"), resp.StatusCode, last+1)
			return
		}
		got, rerr := ioutil.ReadAll(resp.Body)
		if rerr != nil || string(got) != fmt.Sprintf("answer %d of %s", last, s.label) {
			r.Violate("result", "%s: the returned answer's body reads %q, %v", s.label, mon.Trunc(string(got), 60), rerr)
			return
		}
	} else if err != a.outcomeErr && !cancelled {
		r.Violate("result", "%s: returned error %v, the last attempt's was %v", s.label, err, a.outcomeErr)
		return
	}
	for _, b := range s.bodies {
		if io.ReadCloser(b) != keep && atomic.LoadInt32(&b.closed) == 0 {
			r.Violate("leak", "%s: an abandoned answer was not closed", s.label)
			return
		}
	}
	if keep != nil {
		if b, ok := keep.(*body); ok && atomic.LoadInt32(&b.closed) == 1 {
			r.Violate("result", "%s: the returned answer was closed", s.label)
		}
		keep.Close()
	}
}

// exhausted: nothing but failures until the allowance is used up.
func exhausted(r *mon.Run, i int) {
	rng := r.Rng("exhausted", i)
	s := &script{r: r, at: -1}
	for k := 0; k < 40; k++ {
		s.plan = append(s.plan, statuses[rng.Intn(len(statuses))])
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s.cancel = cancel
	req, err := http.NewRequest("GET", "http://h/x", nil)
	if err != nil {
		panic(err)
	}
	req = req.WithContext(ctx)
	allow := time.Duration(5+rng.Intn(60)) * time.Millisecond
	max := time.Duration(1+rng.Intn(5)) * time.Millisecond
	opts := httputil.RetryOptions{InitialInterval: time.Millisecond, MaxInterval: max, MaxElapsedTime: allow}
	s.label = fmt.Sprintf("allowance %d: %v, waits up to %v", i, allow, max)
	defer r.Begin("%s", s.label)()
	begin := time.Now()
	resp, err := httputil.WithRetries(s, opts).RoundTrip(req)
	took := time.Since(begin)
	s.mu.Lock()
	defer s.mu.Unlock()
	r.Count("attempts", int64(len(s.attempts)))
	r.EvalN(len(s.attempts))
	r.Count("allowances used up", 1)
	r.Distinct("main", fmt.Sprint("allowance", allow, max, len(s.attempts)))
	if took < allow-3*max {
		r.Violate("early", "%s: gave up after %v", s.label, took)
		return
	}
	for k := 1; k < len(s.attempts); k++ {
		if gone := s.attempts[k-1].end.Sub(s.attempts[0].start); gone > allow {
			r.Violate("late", "%s: sent again although the attempt before ended after %v", s.label, gone)
			return
		}
		if k == 1 {
			if w := s.attempts[1].start.Sub(s.attempts[0].end); w < opts.InitialInterval/3 {
				r.Violate("hammer", "%s: only %v between the first two attempts, the configured wait is %v", s.label, w, opts.InitialInterval)
				return
			}
		}
	}
	outcome(r, s, resp, err, ctx)
}

// lostBody: a body that can be produced a few times only. It is never
// replaced by another one, and running out of it is an error.
func lostBody(r *mon.Run, i int) {
	rng := r.Rng("lost body", i)
	s := &script{r: r, at: -1, partial: rng.Intn(2) == 0}
	fails := 1 + rng.Intn(6)
	for k := 0; k < fails; k++ {
		s.plan = append(s.plan, statuses[rng.Intn(len(statuses))])
	}
	s.plan = append(s.plan, 200)
	data := mon.Bytes(rng.Uint64(), 0, 1+rng.Intn(3000))
	req, err := http.NewRequest("PUT", "http://h/x", bytes.NewReader(data))
	if err != nil {
		panic(err)
	}
	again := rng.Intn(7)
	calls := 0
	req.GetBody = func() (io.ReadCloser, error) {
		calls++
		if calls > again {
			return nil, mon.Fault(3)
		}
		return ioutil.NopCloser(bytes.NewReader(data)), nil
	}
	s.label = fmt.Sprintf("body %d: %d bytes that can be produced %d times more, outcomes %v", i, len(data), again, s.plan)
	defer r.Begin("%s", s.label)()
	opts := httputil.RetryOptions{InitialInterval: 100 * time.Microsecond, MaxInterval: 200 * time.Microsecond, MaxElapsedTime: time.Hour}
	wantHeader := headers(req.Header)
	var resp *http.Response
	if msg, bad := mon.Catch(func() { resp, err = httputil.WithRetries(s, opts).RoundTrip(req) }); bad {
		r.Violate("crash", "%s: %s", s.label, msg)
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	r.Count("attempts", int64(len(s.attempts)))
	r.EvalN(len(s.attempts))
	r.Distinct("main", fmt.Sprint("lost", s.plan, again, s.partial))
	if !faithful(r, s, data, "reader", wantHeader, "http://h/x", "PUT", int64(len(data))) {
		return
	}
	if again >= fails {
		if err != nil || resp == nil || resp.StatusCode != 200 || len(s.attempts) != fails+1 {
			r.Violate("result", "%s: %v, %v after %d attempts", s.label, resp, err, len(s.attempts))
		}
		return
	}
	r.Count("bodies lost", 1)
	if len(s.attempts) > again+1 {
		r.Violate("body", "%s: %d attempts", s.label, len(s.attempts))
		return
	}
	if err == nil && (resp == nil || !retryable(resp.StatusCode)) {
		r.Violate("result", "%s: returned %v without an error", s.label, resp)
		return
	}
	for _, b := range s.bodies {
		if (resp == nil || io.ReadCloser(b) != resp.Body) && atomic.LoadInt32(&b.closed) == 0 {
			r.Violate("leak", "%s: an abandoned answer was not closed", s.label)
			return
		}
	}
}

// firstWait: the configured first wait is used, not a fixed one. The shortest
// of many waits is looked at, so that a busy machine does not matter.
func firstWait(r *mon.Run) {
	for _, first := range []time.Duration{time.Millisecond, 30 * time.Millisecond} {
		var mu sync.Mutex
		min := time.Hour
		r.Parallel(40, 8, func(i int) {
			s := &script{r: r, at: -1, plan: []int{503, 200}, label: "first wait"}
			req, err := http.NewRequest("GET", "http://h/x", nil)
			if err != nil {
				panic(err)
			}
			resp, err := httputil.WithRetries(s, httputil.RetryOptions{InitialInterval: first, MaxInterval: time.Second, MaxElapsedTime: time.Hour}).RoundTrip(req)
			if err != nil || resp.StatusCode != 200 || len(s.attempts) != 2 {
				r.Violate("count", "first wait: %v, %v, %d attempts", resp, err, len(s.attempts))
				return
			}
			w := s.attempts[1].start.Sub(s.attempts[0].end)
			r.Count("first waits measured", 1)
			mu.Lock()
			if w < min {
				min = w
			}
			mu.Unlock()
		})
		if min < time.Hour && (min < first/3 || min > first*3/2+100*time.Millisecond) {
			r.Violate("wait", "the shortest of 40 first waits was %v, configured %v", min, first)
		}
	}
}

// overNetwork: a real server and a real transport with one connection per
// host, which an abandoned answer would hold.
func overNetwork(r *mon.Run, i int) {
	rng := r.Rng("network", i)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("no loopback network: %v", err)
		return
	}
	var mu sync.Mutex
	var got []string
	fails := 1 + rng.Intn(4)
	size := rng.Intn(300000)
	big := mon.Bytes(uint64(i)+5, 0, size)
	drop := rng.Intn(2) == 0
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		b, _ := ioutil.ReadAll(req.Body)
		mu.Lock()
		got = append(got, fmt.Sprintf("%s %s %x", req.Method, req.URL, mon.Sum(b)))
		k := len(got)
		mu.Unlock()
		if k <= fails {
			if drop && k%2 == 0 {
				panic(http.ErrAbortHandler)
			}
			w.WriteHeader([]int{500, 503, 429}[k%3])
			w.Write(big)
			return
		}
		w.WriteHeader(200)
		w.Write(big)
	})}
	go srv.Serve(ln)
	defer srv.Close()
	tr := &http.Transport{MaxConnsPerHost: 1}
	defer tr.CloseIdleConnections()
	label := fmt.Sprintf("network %d: %d failures, dropping %v, answers of %d bytes", i, fails, drop, size)
	defer r.Begin("%s", label)()
	c := &http.Client{Transport: httputil.WithRetries(tr, httputil.RetryOptions{InitialInterval: time.Millisecond, MaxInterval: 2 * time.Millisecond, MaxElapsedTime: time.Hour})}
	data := mon.Bytes(uint64(i)+77, 0, rng.Intn(200000))
	req, err := http.NewRequest("PUT", "http://"+ln.Addr().String()+"/x", bytes.NewReader(data))
	if err != nil {
		panic(err)
	}
	resp, err := c.Do(req)
	if err != nil {
		r.Violate("result", "%s: %v", label, err)
		return
	}
	b, err := ioutil.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil || resp.StatusCode != 200 || !bytes.Equal(b, big) {
		r.Violate("result", "%s: status %d, %d bytes, %v", label, resp.StatusCode, len(b), err)
		return
	}
	mu.Lock()
	defer mu.Unlock()
	r.Count("requests over the network", 1)
	r.EvalN(len(got))
	want := fmt.Sprintf("PUT /x %x", mon.Sum(data))
	for k, g := range got {
		if g != want {
			r.Violate("changed", "%s: attempt %d arrived as %s, want %s", label, k, g, want)
			return
		}
	}
	r.Distinct("main", fmt.Sprint("network", fails, drop, size > 100000))
}
