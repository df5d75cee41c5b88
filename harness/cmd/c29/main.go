// C29: each storage request uses the options its context carries.
package main

import (
	"context"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/aws/aws-sdk-go/aws/credentials"
	v4 "github.com/aws/aws-sdk-go/aws/signer/v4"

	_ "github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	httpdriver "github.com/NVIDIA/vdisc/pkg/storage/http"
	s3driver "github.com/NVIDIA/vdisc/pkg/storage/s3"
	swiftdriver "github.com/NVIDIA/vdisc/pkg/storage/swift"

	"vdiscverif/mon"
)

// options is what a context should carry.
type options struct {
	authz        *string
	httpTimeout  *time.Duration
	s3Creds      *credentials.Credentials
	s3Timeout    *time.Duration
	swCreds      *swiftdriver.SwiftCreds
	swTimeout    *time.Duration
	region       *string
	s3ID, s3Sec  string
	s3Tok        string
	order        string
	foreign      map[interface{}]interface{}
	ctx          context.Context
	cancel       context.CancelFunc
	set, distint int
}

type foreignKey struct{ k int }

func dur(rng *rand.Rand) time.Duration {
	return time.Duration(rng.Int63n(3000)+400)*time.Second + time.Duration(rng.Int63n(1e9))
}

func word(rng *rand.Rand) string {
	b := make([]byte, 1+rng.Intn(12))
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[rng.Intn(62)]
	}
	return string(b)
}

func (o options) with(rng *rand.Rand) options {
	f := map[interface{}]interface{}{}
	for k, v := range o.foreign {
		f[k] = v
	}
	o.foreign = f
	o.set++
	switch rng.Intn(10) {
	case 0:
		v := word(rng)
		if rng.Intn(6) == 0 {
			v = ""
		}
		o.authz = &v
		o.ctx = httpdriver.CtxWithAuthz(o.ctx, v)
		o.order += "a"
	case 1:
		v := dur(rng)
		o.httpTimeout = &v
		o.ctx = httpdriver.CtxWithTimeout(o.ctx, v)
		o.order += "t"
	case 2:
		o.s3ID, o.s3Sec, o.s3Tok = word(rng), word(rng), ""
		if rng.Intn(2) == 0 {
			o.s3Tok = word(rng)
		}
		o.s3Creds = credentials.NewStaticCredentials(o.s3ID, o.s3Sec, o.s3Tok)
		o.ctx = s3driver.CtxWithCredentials(o.ctx, o.s3Creds)
		o.order += "C"
	case 3:
		v := dur(rng)
		o.s3Timeout = &v
		o.ctx = s3driver.CtxWithTimeout(o.ctx, v)
		o.order += "T"
	case 4:
		o.swCreds = &swiftdriver.SwiftCreds{AccessKeyId: word(rng), SecretAccessKey: word(rng)}
		o.ctx = swiftdriver.CtxWithCredentials(o.ctx, o.swCreds)
		o.order += "c"
	case 5:
		v := dur(rng)
		o.swTimeout = &v
		o.ctx = swiftdriver.CtxWithTimeout(o.ctx, v)
		o.order += "s"
	case 6:
		v := "region-" + word(rng)
		o.region = &v
		o.ctx = swiftdriver.CtxWithRegion(o.ctx, v)
		o.order += "r"
	case 7:
		// values of somebody else
		k := []interface{}{foreignKey{rng.Intn(3)}, rng.Intn(3), word(rng)}[rng.Intn(3)]
		v := []interface{}{word(rng), rng.Intn(100), dur(rng)}[rng.Intn(3)]
		o.foreign[k] = v
		o.ctx = context.WithValue(o.ctx, k, v)
		o.order += "f"
	case 8:
		ctx, cancel := context.WithCancel(o.ctx)
		o.ctx, o.cancel = ctx, cancel
		o.order += "x"
	case 9:
		ctx, cancel := context.WithTimeout(o.ctx, time.Hour)
		o.ctx, o.cancel = ctx, cancel
		o.order += "d"
	}
	return o
}

func (o *options) check(r *mon.Run, what string) {
	r.EvalN(7)
	bad := func(name string, got, want interface{}) {
		r.Violate("option", "%s: after %s the %s reads %v instead of %v", what, o.order, name, got, want)
	}
	str := func(name string, got *string, ok bool, want *string) {
		if ok != (want != nil) || ok && (got == nil || *got != *want) {
			bad(name, show(got, ok), show(want, want != nil))
		}
	}
	tim := func(name string, got *time.Duration, ok bool, want *time.Duration) {
		if ok != (want != nil) || ok && (got == nil || *got != *want) {
			bad(name, fmt.Sprint(got, ok), fmt.Sprint(want, want != nil))
		}
	}
	a, ok := httpdriver.AuthzFromCtx(o.ctx)
	str("HTTP authorisation", a, ok, o.authz)
	t, ok := httpdriver.TimeoutFromCtx(o.ctx)
	tim("HTTP timeout", t, ok, o.httpTimeout)
	c, ok := s3driver.CredentialsFromCtx(o.ctx)
	if ok != (o.s3Creds != nil) || ok && c != o.s3Creds {
		bad("S3 credentials", fmt.Sprint(c, ok), o.s3Creds)
	}
	t, ok = s3driver.TimeoutFromCtx(o.ctx)
	tim("S3 timeout", t, ok, o.s3Timeout)
	sc, ok := swiftdriver.CredentialsFromCtx(o.ctx)
	if ok != (o.swCreds != nil) || ok && *sc != *o.swCreds {
		bad("Swift credentials", fmt.Sprint(sc, ok), o.swCreds)
	}
	t, ok = swiftdriver.TimeoutFromCtx(o.ctx)
	tim("Swift timeout", t, ok, o.swTimeout)
	g, ok := swiftdriver.RegionFromCtx(o.ctx)
	str("Swift region", &g, ok, o.region)
	for k, v := range o.foreign {
		if o.ctx.Value(k) != v {
			r.Violate("foreign", "%s: after %s the value of %v reads %v", what, o.order, k, o.ctx.Value(k))
		}
	}
}

func show(s *string, ok bool) string {
	if !ok || s == nil {
		return "absent"
	}
	return strconv.Quote(*s)
}

func sequences(r *mon.Run, i int) {
	rng := r.Rng("sequence", i)
	all := []options{{ctx: context.Background()}}
	for k := 0; k < 14; k++ {
		o := all[rng.Intn(len(all))].with(rng)
		all = append(all, o)
		what := fmt.Sprintf("sequence %d", i)
		o.check(r, what)
		// the one it was made from is unchanged
		b := all[rng.Intn(len(all))]
		b.check(r, what)
		r.Distinct("main", o.order)
	}
	for _, o := range all {
		if o.cancel != nil {
			o.cancel()
		}
	}
}

// wire records what drivers send. Requests are told apart by a mark in the
// path.
type wire struct {
	mu    sync.Mutex
	fail  map[string]int
	calls map[string][]seen
}

type seen struct {
	req      *http.Request
	at       time.Time
	deadline time.Time
	has      bool
}

func (w *wire) RoundTrip(req *http.Request) (*http.Response, error) {
	at := time.Now()
	d, has := req.Context().Deadline()
	resp := &http.Response{Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req, StatusCode: 200}
	body := ""
	if _, ok := req.URL.Query()["location"]; ok {
		h := strings.TrimPrefix(req.URL.Host, "b-")
		body = `<?xml version="1.0" encoding="UTF-8"?><LocationConstraint xmlns="http://s3.amazonaws.com/doc/2006-03-01/">` + h[:strings.Index(h, ".")] + `</LocationConstraint>`
	} else {
		mark := markOf(req.URL.String())
		c := req.Clone(context.Background())
		c.ContentLength = req.ContentLength
		c.Body = nil
		if req.Body != nil {
			ioutil.ReadAll(req.Body)
			req.Body.Close()
		}
		w.mu.Lock()
		w.calls[mark] = append(w.calls[mark], seen{c, at, d, has})
		again := w.fail[mark] > 0
		if again {
			w.fail[mark]--
		}
		w.mu.Unlock()
		switch {
		case again:
			resp.StatusCode = 503
		case req.Method == "GET" && req.Header.Get("Range") != "":
			var a, b int64
			fmt.Sscanf(req.Header.Get("Range"), "bytes=%d-%d", &a, &b)
			resp.StatusCode = 206
			resp.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", a, b, 1000))
			body = string(mon.Bytes(1, a, int(b-a+1)))
		case req.Method == "GET":
			body = `<?xml version="1.0" encoding="UTF-8"?><ListVersionsResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/"><Name>b</Name><IsTruncated>false</IsTruncated></ListVersionsResult>`
		case req.Method == "HEAD":
			resp.Header.Set("Content-Length", "1000")
			resp.ContentLength = 1000
		case req.Method == "DELETE":
			resp.StatusCode = 204
		case req.Method == "PUT":
			resp.Header.Set("ETag", `"x"`)
		}
	}
	resp.Status = strconv.Itoa(resp.StatusCode) + " x"
	resp.Body = ioutil.NopCloser(strings.NewReader(body))
	if req.Method != "HEAD" {
		resp.ContentLength = int64(len(body))
	}
	return resp, nil
}

func markOf(u string) string {
	i := strings.Index(u, "mark-")
	if i < 0 {
		return ""
	}
	e := i + 5
	for e < len(u) && u[e] >= '0' && u[e] <= '9' {
		e++
	}
	return u[i:e]
}

var (
	drivers = map[string]driver.Driver{}
	uploads = map[string]bool{}
	reach   = map[string]bool{}
	w       *wire
)

// signed checks that a request is signed with the given credentials.
func signed(req *http.Request, id, secret, token, region string) string {
	a := req.Header.Get("Authorization")
	want := "AWS4-HMAC-SHA256 Credential=" + id + "/"
	if !strings.HasPrefix(a, want) {
		return fmt.Sprintf("authorisation %q instead of credential %q", a, id)
	}
	scope := strings.Split(strings.SplitN(a[len(want):], ",", 2)[0], "/")
	if len(scope) != 4 || scope[1] != region {
		return fmt.Sprintf("signed for the region of %q instead of %q", scope, region)
	}
	if got := req.Header.Get("X-Amz-Security-Token"); got != token {
		return fmt.Sprintf("session token %q instead of %q", got, token)
	}
	// the signature itself
	var names, sig string
	for _, p := range strings.Split(a, ",") {
		p = strings.TrimSpace(p)
		if strings.HasPrefix(p, "SignedHeaders=") {
			names = p[len("SignedHeaders="):]
		} else if strings.HasPrefix(p, "Signature=") {
			sig = p[len("Signature="):]
		}
	}
	t, err := time.Parse("20060102T150405Z", req.Header.Get("X-Amz-Date"))
	if err != nil {
		return fmt.Sprintf("date %q", req.Header.Get("X-Amz-Date"))
	}
	c := req.Clone(context.Background())
	c.Header = http.Header{}
	for _, n := range strings.Split(names, ";") {
		if v, ok := req.Header[http.CanonicalHeaderKey(n)]; ok {
			c.Header[http.CanonicalHeaderKey(n)] = v
		}
	}
	if h := req.Header.Get("X-Amz-Content-Sha256"); h != "" {
		c.Header.Set("X-Amz-Content-Sha256", h)
	}
	s := v4.NewSigner(credentials.NewStaticCredentials(id, secret, token))
	s.DisableURIPathEscaping = true
	if _, err := s.Sign(c, nil, "s3", region, t); err != nil {
		return err.Error()
	}
	if b := c.Header.Get("Authorization"); !strings.HasSuffix(b, "Signature="+sig) {
		return fmt.Sprintf("the signature is not the one of the credentials: %q instead of %q", a, b)
	}
	return ""
}

const (
	envID, envSecret     = "envid", "envsecret"
	swEnvID, swEnvSecret = "swiftenv", "swiftenvsecret"
	swEnvRegion          = "env-region"
)

func requests(r *mon.Run, i int) {
	rng := r.Rng("request", i)
	scheme := []string{"http", "s3", "swift"}[i%3]
	if !reach[scheme] {
		r.Count("drivers without a reachable transport", 1)
		return
	}
	drv := drivers[scheme]
	o := options{ctx: context.Background()}
	for k := rng.Intn(10); k > 0; k-- {
		o = o.with(rng)
	}
	if o.cancel != nil {
		defer o.cancel()
	}
	mark := fmt.Sprintf("mark-%d", i)
	bucketRegion := []string{"eu-west-1", "ap-east-1", "us-west-2"}[rng.Intn(3)]
	var url string
	switch scheme {
	case "http":
		url = "http://web.example/d/" + mark
	case "s3":
		url = "s3://b-" + bucketRegion + "/" + mark
	case "swift":
		url = "swift://store.example/acct/cont/" + mark
	}
	if rng.Intn(6) == 0 && scheme != "http" {
		w.mu.Lock()
		w.fail[mark] = 1
		w.mu.Unlock()
	}
	op := []string{"read", "read unknown size", "stat", "remove", "list", "upload"}[rng.Intn(6)]
	if scheme == "http" && (op == "list" || op == "upload") || op == "upload" && !uploads[scheme] {
		op = "stat"
	}
	if op == "upload" {
		w.mu.Lock()
		delete(w.fail, mark)
		w.mu.Unlock()
	}
	what := fmt.Sprintf("request %d: %s of %s with options %q", i, op, url, o.order)
	end := r.Begin("%s", what)
	defer end()
	start := time.Now()
	var err error
	switch op {
	case "read", "read unknown size":
		size := int64(1000)
		if op != "read" {
			size = -1
		}
		var obj driver.Object
		if obj, err = drv.Open(o.ctx, url, size); err == nil {
			b := make([]byte, 10)
			_, err = obj.ReadAt(b, 5)
			if err == nil && string(b) != string(mon.Bytes(1, 5, 10)) {
				err = fmt.Errorf("wrong bytes")
			}
			obj.Close()
		}
	case "stat":
		_, err = drv.Stat(o.ctx, url)
	case "remove":
		err = drv.(driver.Remover).Remove(o.ctx, url)
	case "list":
		_, err = drv.(driver.Readdirer).Readdir(o.ctx, url+"/")
	case "upload":
		var ow driver.ObjectWriter
		if ow, err = drv.(driver.Creator).Create(o.ctx, url); err == nil {
			ow.Write(mon.Bytes(1, 0, 100))
			_, err = ow.Commit()
		}
	}
	if err != nil {
		r.Violate("failed", "%s: %v", what, err)
		return
	}
	w.mu.Lock()
	calls := w.calls[mark]
	delete(w.calls, mark)
	w.mu.Unlock()
	if len(calls) == 0 {
		r.Violate("unsent", "%s: no request was sent", what)
		return
	}
	for _, c := range calls {
		r.Eval()
		r.Count("requests", 1)
		r.Count(scheme+" "+op, 1)
		timeout := 30 * time.Second
		var set *time.Duration
		problem := ""
		switch scheme {
		case "http":
			set = o.httpTimeout
			got, ok := c.req.Header["Authorization"]
			if o.authz == nil {
				if ok {
					problem = fmt.Sprintf("authorisation %q without one in the context", got)
				}
			} else if len(got) != 1 || got[0] != *o.authz {
				problem = fmt.Sprintf("authorisation %q instead of %q", got, *o.authz)
			}
		case "s3":
			set = o.s3Timeout
			id, sec, tok := envID, envSecret, ""
			if o.s3Creds != nil {
				id, sec, tok = o.s3ID, o.s3Sec, o.s3Tok
			}
			problem = signed(c.req, id, sec, tok, bucketRegion)
		case "swift":
			set = o.swTimeout
			id, sec, region := swEnvID, swEnvSecret, swEnvRegion
			if o.swCreds != nil {
				id, sec = o.swCreds.AccessKeyId, o.swCreds.SecretAccessKey
			}
			if id != "acct" {
				id += ":AUTH_acct"
			}
			if o.region != nil {
				region = *o.region
			}
			problem = signed(c.req, id, sec, "", region)
		}
		if problem != "" {
			r.Violate("sent", "%s: %s", what, problem)
		}
		if op == "upload" {
			continue
		}
		if set != nil {
			timeout = *set
		}
		// a timeout counts from somewhere between the call and the request
		if !c.has {
			if set != nil {
				r.Violate("timeout", "%s: no deadline", what)
			}
			continue
		}
		if from := c.deadline.Add(-timeout); from.Before(start) || from.After(c.at) {
			r.Violate("timeout", "%s: the deadline is %v after the call, the timeout %v", what, c.deadline.Sub(start), timeout)
		}
		if set != nil {
			r.Count("timeouts", 1)
		}
	}
	r.Distinct("main", op+scheme+o.order)
	if i < 6 {
		r.Sample("%s: %d requests, authorisation %q", what, len(calls), calls[0].req.Header.Get("Authorization"))
	}
}

func main() {
	for k, v := range map[string]string{"AWS_ACCESS_KEY_ID": envID, "AWS_SECRET_ACCESS_KEY": envSecret, "AWS_REGION": "eu-west-1", "SWIFT_ACCESS_KEY_ID": swEnvID, "SWIFT_SECRET_ACCESS_KEY": swEnvSecret, "SWIFT_REGION": swEnvRegion} {
		os.Setenv(k, v)
	}
	os.Unsetenv("AWS_SESSION_TOKEN")
	// the drivers read the environment when they are registered, which is
	// before main
	if os.Getenv("VERIF_C29") == "" {
		os.Setenv("VERIF_C29", "1")
		if exe, err := os.Executable(); err == nil {
			err = syscall.Exec(exe, os.Args, os.Environ())
			fmt.Fprintln(os.Stderr, err)
		}
		os.Exit(2)
	}
	mon.Main("C29", "orders in which options were set, and operations by driver and order", func(r *mon.Run) {
		w = &wire{fail: map[string]int{}, calls: map[string][]seen{}}
		for _, s := range []string{"http", "s3", "swift"} {
			d, err := driver.Find(s + "://x/")
			if err != nil {
				r.Violate("driver", "no driver for %s: %v", s, err)
				return
			}
			drivers[s] = d
			reach[s] = mon.SetTransport(d, w)
			if s != "http" {
				uploads[s] = mon.SetSession(d, w)
			}
		}
		r.Parallel(r.N(3000, 60000), 0, func(i int) { sequences(r, i) })
		r.Parallel(r.N(6000, 120000), 40, func(i int) { requests(r, i) })
		r.Need("requests", 3000)
		r.Need("timeouts", 300)
	})
}
