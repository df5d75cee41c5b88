package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"encoding/xml"
	"fmt"
	"io/ioutil"
	"net/http"
	stdurl "net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// version is one version of a stored object.
type version struct {
	id      string
	data    []byte
	deleted bool
}

// bucket is one bucket of a store, or one container of an account.
type bucket struct {
	mu        sync.Mutex
	name      string
	region    string // where it is
	location  string // how the store says so
	versioned bool
	objects   map[string][]version // by key, oldest first
	n         int
	refuse    int // lookups of the location to refuse
	lookups   int
	problems  []string
	requests  int
}

func (b *bucket) problem(format string, a ...interface{}) {
	b.problems = append(b.problems, fmt.Sprintf(format, a...))
}

// stores answers the requests of all cases.
type stores struct {
	mu      sync.Mutex
	buckets map[string]*bucket
	strays  []string
}

func (s *stores) get(name string) *bucket {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.buckets[name]
}

func (s *stores) add(b *bucket) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.buckets[b.name] = b
}

func (s *stores) drop(b *bucket) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.buckets, b.name)
}

func (s *stores) stray(format string, a ...interface{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.strays) < 100 {
		s.strays = append(s.strays, fmt.Sprintf(format, a...))
	}
}

var (
	virtualRE = regexp.MustCompile(`^(.+)\.s3[-.]([a-z]+-[a-z]+-[0-9])\.amazonaws\.com$`)
	globalRE  = regexp.MustCompile(`^(.+)\.s3\.amazonaws\.com$`)
	pathRE    = regexp.MustCompile(`^s3[-.]([a-z]+-[a-z]+-[0-9])\.amazonaws\.com$`)
)

const (
	awsID, awsSecret = "AKTEST", "secretkey"
	swID, swSecret   = "swid", "swsecret"
	swRegion         = "sw-region-1"
)

func answer(req *http.Request, code int, body []byte) *http.Response {
	return &http.Response{Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req,
		StatusCode: code, Status: strconv.Itoa(code) + " x", ContentLength: int64(len(body)), Body: ioutil.NopCloser(bytes.NewReader(body))}
}

func fault(req *http.Request, code int, name string) *http.Response {
	return answer(req, code, []byte("<?xml version=\"1.0\" encoding=\"UTF-8\"?><Error><Code>"+name+"</Code><Message>m</Message></Error>"))
}

func (s *stores) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		var err error
		body, err = ioutil.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
	}
	uri := req.URL.RequestURI()
	raw := uri
	if i := strings.IndexByte(raw, '?'); i >= 0 {
		raw = raw[:i]
	}
	p, err := stdurl.PathUnescape(raw)
	if err != nil || !strings.HasPrefix(p, "/") {
		s.stray("path %q", raw)
		return fault(req, 400, "InvalidURI"), nil
	}
	p = p[1:]
	host := req.URL.Host
	if req.Host != "" {
		host = req.Host
	}
	var name, region, key, id, secret string
	inPath := false
	if strings.HasSuffix(host, ".amazonaws.com") {
		id, secret = awsID, awsSecret
		host = strings.TrimSuffix(host, ":443")
		if m := virtualRE.FindStringSubmatch(host); m != nil {
			name, region, key = m[1], m[2], p
		} else if m := globalRE.FindStringSubmatch(host); m != nil {
			name, region, key = m[1], "us-east-1", p
		} else if m := pathRE.FindStringSubmatch(host); m != nil {
			region, inPath = m[1], true
		} else if host == "s3.amazonaws.com" {
			region, inPath = "us-east-1", true
		} else {
			s.stray("%s %s%s: no such host", req.Method, host, uri)
			return nil, fmt.Errorf("dial: no such host %q", host)
		}
	} else {
		// path style only; the account is in the credential
		region, inPath, secret = swRegion, true, swSecret
		a := req.Header.Get("Authorization")
		a = strings.TrimPrefix(a, "AWS4-HMAC-SHA256 Credential="+swID+":AUTH_")
		if i := strings.IndexByte(a, '/'); i > 0 {
			id = swID + ":AUTH_" + a[:i]
			name = host + "/" + a[:i] + "/"
		}
	}
	if inPath {
		parts := strings.SplitN(p, "/", 2)
		name += parts[0]
		if len(parts) > 1 {
			key = parts[1]
		}
	}
	b := s.get(name)
	if b == nil {
		s.stray("%s %s%s: there is no bucket %q", req.Method, host, uri, name)
		return fault(req, 404, "NoSuchBucket"), nil
	}
	q, _ := stdurl.ParseQuery(req.URL.RawQuery)
	_, location := q["location"]
	signedFor := b.region
	if location {
		signedFor = "eu-west-1"
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	b.requests++
	if location && key == "" {
		if msg := signed(req, raw, id, secret, signedFor); msg != "" {
			b.problem("%s %s%s: %s", req.Method, host, uri, msg)
			return fault(req, 403, "SignatureDoesNotMatch"), nil
		}
		b.lookups++
		if b.refuse > 0 {
			b.refuse--
			return fault(req, 403, "AccessDenied"), nil
		}
		return answer(req, 200, []byte(`<?xml version="1.0" encoding="UTF-8"?><LocationConstraint xmlns="http://s3.amazonaws.com/doc/2006-03-01/">`+b.location+`</LocationConstraint>`)), nil
	}
	if region != b.region {
		b.problem("%s %s%s: sent to region %q, the bucket is in %q", req.Method, host, uri, region, b.region)
		return fault(req, 301, "PermanentRedirect"), nil
	}
	if msg := signed(req, raw, id, secret, signedFor); msg != "" {
		b.problem("%s %s%s: %s", req.Method, host, uri, msg)
		return fault(req, 403, "SignatureDoesNotMatch"), nil
	}
	if _, ok := q["versions"]; ok && key == "" && req.Method == "GET" {
		return answer(req, 200, b.list(q.Get("prefix"), q.Get("delimiter"))), nil
	}
	vs := b.objects[key]
	if req.Method == "PUT" {
		b.n++
		v := version{data: body}
		if b.versioned {
			v.id = fmt.Sprintf("v%d.%x+/=", b.n, b.n*7919)
			b.objects[key] = append(vs, v)
		} else {
			b.objects[key] = []version{v}
		}
		resp := answer(req, 200, nil)
		resp.Header.Set("ETag", `"e"`)
		if v.id != "" {
			resp.Header.Set("x-amz-version-id", v.id)
		}
		return resp, nil
	}
	at := len(vs) - 1
	if want, ok := q["versionId"]; ok {
		for at = len(vs) - 1; at >= 0 && vs[at].id != want[0]; at-- {
		}
	}
	if req.Method == "DELETE" {
		if _, ok := q["versionId"]; ok {
			if at >= 0 {
				b.objects[key] = append(append([]version(nil), vs[:at]...), vs[at+1:]...)
				if len(vs) == 1 {
					delete(b.objects, key)
				}
			}
		} else if b.versioned && len(vs) > 0 {
			b.objects[key] = append(vs, version{deleted: true})
		} else {
			delete(b.objects, key)
		}
		return answer(req, 204, nil), nil
	}
	if at < 0 || vs[at].deleted {
		resp := fault(req, 404, "NoSuchKey")
		if req.Method == "HEAD" {
			resp = answer(req, 404, nil)
		}
		return resp, nil
	}
	data := vs[at].data
	if req.Method == "HEAD" {
		resp := answer(req, 200, nil)
		resp.ContentLength = int64(len(data))
		resp.Header.Set("Content-Length", fmt.Sprint(len(data)))
		return resp, nil
	}
	var first, last int
	if n, _ := fmt.Sscanf(req.Header.Get("Range"), "bytes=%d-%d", &first, &last); n != 2 {
		return answer(req, 200, data), nil
	}
	if last >= len(data) {
		last = len(data) - 1
	}
	if first > last {
		return fault(req, 416, "InvalidRange"), nil
	}
	resp := answer(req, 206, data[first:last+1])
	resp.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", first, last, len(data)))
	return resp, nil
}

// list lists the versions below a prefix.
func (b *bucket) list(prefix, delimiter string) []byte {
	var keys []string
	for k := range b.objects {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out bytes.Buffer
	text := func(name, v string) {
		out.WriteString("<" + name + ">")
		xml.EscapeText(&out, []byte(v))
		out.WriteString("</" + name + ">")
	}
	out.WriteString(`<?xml version="1.0" encoding="UTF-8"?><ListVersionsResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/">`)
	text("Name", b.name)
	text("Prefix", prefix)
	out.WriteString("<IsTruncated>false</IsTruncated>")
	dirs := map[string]bool{}
	var order []string
	for _, k := range keys {
		if !strings.HasPrefix(k, prefix) {
			continue
		}
		if i := strings.Index(k[len(prefix):], delimiter); delimiter != "" && i >= 0 {
			d := k[:len(prefix)+i+len(delimiter)]
			if !dirs[d] {
				dirs[d] = true
				order = append(order, d)
			}
			continue
		}
		vs := b.objects[k]
		for i := len(vs) - 1; i >= 0; i-- {
			if vs[i].deleted {
				continue
			}
			out.WriteString("<Version>")
			text("Key", k)
			id := vs[i].id
			if id == "" {
				id = "null"
			}
			text("VersionId", id)
			text("IsLatest", fmt.Sprint(i == len(vs)-1))
			text("LastModified", "2019-10-12T17:50:30.000Z")
			text("ETag", `"e"`)
			text("Size", fmt.Sprint(len(vs[i].data)))
			out.WriteString("</Version>")
		}
	}
	for _, d := range order {
		out.WriteString("<CommonPrefixes>")
		text("Prefix", d)
		out.WriteString("</CommonPrefixes>")
	}
	out.WriteString("</ListVersionsResult>")
	return out.Bytes()
}

// encode is the encoding of the signature's canonical form.
func encode(s string, slash bool) string {
	var out bytes.Buffer
	for i := 0; i < len(s); i++ {
		c := s[i]
		if 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || c == '-' || c == '_' || c == '.' || c == '~' || c == '/' && slash {
			out.WriteByte(c)
		} else {
			fmt.Fprintf(&out, "%%%02X", c)
		}
	}
	return out.String()
}

func mac(key []byte, s string) []byte {
	m := hmac.New(sha256.New, key)
	m.Write([]byte(s))
	return m.Sum(nil)
}

// signed checks the signature of a request as a store does.
func signed(req *http.Request, raw, id, secret, region string) string {
	a := req.Header.Get("Authorization")
	want := "AWS4-HMAC-SHA256 Credential=" + id + "/"
	if id == "" || !strings.HasPrefix(a, want) {
		return fmt.Sprintf("authorisation %q instead of credential %q", a, id)
	}
	scope := strings.SplitN(a[len(want):], ",", 2)[0]
	parts := strings.Split(scope, "/")
	if len(parts) != 4 || parts[1] != region || parts[2] != "s3" {
		return fmt.Sprintf("signed for %q instead of region %q", scope, region)
	}
	var names, sig string
	for _, p := range strings.Split(a, ",") {
		p = strings.TrimSpace(p)
		if strings.HasPrefix(p, "SignedHeaders=") {
			names = p[len("SignedHeaders="):]
		} else if strings.HasPrefix(p, "Signature=") {
			sig = p[len("Signature="):]
		}
	}
	path, _ := stdurl.PathUnescape(raw)
	q, err := stdurl.ParseQuery(req.URL.RawQuery)
	if err != nil {
		return "query: " + err.Error()
	}
	var qs []string
	for k, vs := range q {
		for _, v := range vs {
			qs = append(qs, encode(k, false)+"="+encode(v, false))
		}
	}
	sort.Strings(qs)
	c := req.Method + "\n" + encode(path, true) + "\n" + strings.Join(qs, "&") + "\n"
	host := false
	for _, n := range strings.Split(names, ";") {
		v := strings.Join(req.Header[http.CanonicalHeaderKey(n)], ",")
		switch n {
		case "host":
			host = true
			if v = req.Host; v == "" {
				v = req.URL.Host
			}
		case "content-length":
			v = fmt.Sprint(req.ContentLength)
		}
		c += n + ":" + strings.Join(strings.Fields(v), " ") + "\n"
	}
	if !host {
		return "the host is not signed"
	}
	payload := req.Header.Get("X-Amz-Content-Sha256")
	if payload == "" {
		return "no hash of the content"
	}
	c += "\n" + names + "\n" + payload
	h := sha256.Sum256([]byte(c))
	date := req.Header.Get("X-Amz-Date")
	k := mac(mac(mac(mac([]byte("AWS4"+secret), parts[0]), parts[1]), "s3"), "aws4_request")
	if got := hex.EncodeToString(mac(k, "AWS4-HMAC-SHA256\n"+date+"\n"+scope+"\n"+hex.EncodeToString(h[:]))); got != sig {
		return fmt.Sprintf("wrong signature for %q", c)
	}
	return ""
}
