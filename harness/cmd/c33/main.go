// C33: an object-store address names the same object in every operation.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	stdurl "net/url"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"syscall"

	_ "github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"

	"vdiscverif/mon"
)

var (
	wire     = &stores{buckets: map[string]*bucket{}}
	drivers  = map[string]driver.Driver{}
	regions  = []string{"us-east-1", "eu-west-1", "us-west-2", "eu-central-1", "ap-southeast-2"}
	segments = []string{"a", "b", "a b", "a+b", "a%20b", "a%2Fb", "a&b=c", "a?b", "a#b", "a:b", "a;b,c", "@a", "a'b", `a"b`, "(a)", "a*b", "a!b$", "a~b_-.", "ä", "日本", "é", "é", "%", "%41", "A", "a\\b", "<a>", "[a]", "{a}", "|", "^`", "...", "=", "x y+z%"}
)

// spell writes a key as the path of an address, in one of several ways.
func spell(rng *rand.Rand, key string) string {
	switch rng.Intn(3) {
	case 0: // everything that may be escaped is
		var out strings.Builder
		for i := 0; i < len(key); i++ {
			c := key[i]
			if c == '/' || 'a' <= c && c <= 'z' || '0' <= c && c <= '9' {
				out.WriteByte(c)
			} else {
				fmt.Fprintf(&out, "%%%02X", c)
			}
		}
		return out.String()
	case 1: // nothing that need not be
		return strings.NewReplacer("%", "%25", "?", "%3F", "#", "%23", "\\", "%5C", "\"", "%22").Replace(key)
	}
	return (&stdurl.URL{Path: key}).EscapedPath()
}

type place struct {
	b      *bucket
	prefix string // of the addresses of its objects, up to and with the '/'
	scheme string
}

func (p *place) addr(rng *rand.Rand, key string) string {
	return p.prefix + spell(rng, key)
}

// state is what a bucket should hold.
type state struct {
	latest   map[string][]byte
	versions map[string][]byte // by address
	history  map[string][]past // of each key, in versioned buckets
}

type past struct {
	addr    string
	data    []byte
	deleted bool
}

// forget takes a version out of the history.
func (s *state) forget(key, addr string) {
	h := s.history[key]
	for i := range h {
		if h[i].addr == addr {
			h = append(append([]past(nil), h[:i]...), h[i+1:]...)
			break
		}
	}
	s.history[key] = h
	delete(s.versions, addr)
	delete(s.latest, key)
	if n := len(h); n > 0 && !h[n-1].deleted {
		s.latest[key] = h[n-1].data
	}
}

func makeKey(rng *rand.Rand, odd bool) string {
	n := 1 + rng.Intn(3)
	var parts []string
	for i := 0; i < n; i++ {
		s := segments[rng.Intn(len(segments))]
		if rng.Intn(4) == 0 {
			s += segments[rng.Intn(len(segments))]
		}
		if odd && rng.Intn(3) == 0 {
			s = []string{"", ".", ".."}[rng.Intn(3)]
		}
		parts = append(parts, s)
	}
	k := strings.Join(parts, "/")
	if k == "" {
		k = "a"
	}
	return k
}

func newBucket(name, region string) *bucket {
	b := &bucket{name: name, region: region, location: region, objects: map[string][]version{}}
	if region == "us-east-1" {
		b.location = ""
	}
	return b
}

func run(r *mon.Run, i int) {
	rng := r.Rng("case", i)
	scheme := []string{"s3", "swift"}[i%2]
	odd := rng.Intn(3) == 0
	drv := drivers[scheme]
	var places []*place
	for k := 0; k < 1+rng.Intn(2); k++ {
		p := &place{scheme: scheme}
		if scheme == "s3" {
			name := fmt.Sprintf("bucket-%d-%d", i, k)
			if rng.Intn(4) == 0 {
				name = fmt.Sprintf("my.bucket.%d.%d", i, k)
			}
			p.b = newBucket(name, regions[rng.Intn(len(regions))])
			if p.b.region == "eu-west-1" && rng.Intn(2) == 0 {
				p.b.location = "EU"
			}
			p.prefix = "s3://" + name + "/"
		} else {
			host := []string{"store.example", "store.example:8443"}[rng.Intn(2)]
			acct := fmt.Sprintf("acct%d", rng.Intn(3))
			cont := fmt.Sprintf("cont-%d-%d", i, k)
			p.b = newBucket(host+"/"+acct+"/"+cont, swRegion)
			p.prefix = "swift://" + host + "/" + acct + "/" + cont + "/"
		}
		p.b.versioned = rng.Intn(2) == 0
		wire.add(p.b)
		defer wire.drop(p.b)
		places = append(places, p)
	}
	var keys []string
	for k := 0; k < 2+rng.Intn(6); k++ {
		keys = append(keys, makeKey(rng, odd))
	}
	states := map[*place]*state{}
	for _, p := range places {
		states[p] = &state{map[string][]byte{}, map[string][]byte{}, map[string][]past{}}
	}
	end := r.Begin("case %d: %s", i, scheme)
	defer end()
	ctx := context.Background()
	serial := 0
	upload := func(p *place, key string) bool {
		a := p.addr(rng, key)
		serial++
		data := mon.Bytes(uint64(i)<<16+uint64(serial), 0, rng.Intn(3000))
		c, ok := drv.(driver.Creator)
		if !ok {
			r.Violate("driver", "%s cannot create", scheme)
			return false
		}
		w, err := c.Create(ctx, a)
		if err != nil {
			r.Violate("create", "case %d: creating %q (key %q): %v", i, a, key, err)
			return false
		}
		if _, err = io.Copy(struct{ io.Writer }{w}, bytes.NewReader(data)); err != nil {
			r.Violate("write", "case %d: writing %q (key %q): %v", i, a, key, err)
		}
		ci, err := w.Commit()
		w.Abort()
		r.Eval()
		r.Count("uploads", 1)
		if err != nil {
			r.Violate("commit", "case %d: uploading %q (key %q): %v", i, a, key, err)
			return false
		}
		s := states[p]
		s.latest[key] = data
		if p.b.versioned {
			s.versions[ci.ObjectURL()] = data
			s.history[key] = append(s.history[key], past{addr: ci.ObjectURL(), data: data})
		}
		return true
	}
	check := func(p *place, a, key string, want []byte, ok bool) {
		what := fmt.Sprintf("case %d: %q (key %q)", i, a, key)
		r.Eval()
		fi, err := drv.Stat(ctx, a)
		if ok && (err != nil || fi.Size() != int64(len(want))) {
			r.Violate("stat", "%s: stat gives %v, %v instead of size %d", what, fi, err, len(want))
			return
		}
		if !ok && !(os.IsNotExist(err) || errors.Is(err, os.ErrNotExist)) {
			r.Violate("stat-missing", "%s: stat of an object that does not exist: %v", what, err)
			return
		}
		size := int64(-1)
		if rng.Intn(2) == 0 {
			if size = int64(len(want)); !ok {
				size = 10
			}
		}
		o, err := drv.Open(ctx, a, size)
		if err != nil {
			r.Violate("open", "%s: open: %v", what, err)
			return
		}
		defer o.Close()
		got := make([]byte, len(want)+10)
		n, err := o.ReadAt(got, 0)
		if ok {
			if n != len(want) || !bytes.Equal(got[:n], want) || n == 0 && err != io.EOF || n > 0 && err != nil && err != io.EOF {
				r.Violate("bytes", "%s: read %d bytes, %v instead of the %d of the object: %s", what, n, err, len(want), mon.Diff(got[:n], want))
			}
			r.Count("objects read", 1)
		} else if n != 0 || err == nil || err == io.EOF {
			r.Violate("bytes-missing", "%s: read %d bytes, %v of an object that does not exist", what, n, err)
		} else {
			r.Count("missing objects", 1)
		}
		r.Distinct("main", scheme+p.b.location+" "+key)
	}
	for step := 0; step < 8+rng.Intn(20) && !r.Enough(); step++ {
		p := places[rng.Intn(len(places))]
		s := states[p]
		key := keys[rng.Intn(len(keys))]
		switch rng.Intn(6) {
		case 0, 1:
			if !upload(p, key) {
				return
			}
		case 2: // remove
			rm, ok := drv.(driver.Remover)
			if !ok {
				continue
			}
			if h := s.history[key]; len(h) > 0 && rng.Intn(2) == 0 {
				// one version of it
				if v := h[rng.Intn(len(h))]; !v.deleted {
					r.Eval()
					if err := rm.Remove(ctx, v.addr); err != nil {
						r.Violate("remove-version", "case %d: removing %q (key %q): %v", i, v.addr, key, err)
						return
					}
					s.forget(key, v.addr)
					check(p, v.addr, key, nil, false)
					want, ok := s.latest[key]
					check(p, p.addr(rng, key), key, want, ok)
					r.Count("versions removed", 1)
					continue
				}
			}
			a := p.addr(rng, key)
			r.Eval()
			if err := rm.Remove(ctx, a); err != nil {
				r.Violate("remove", "case %d: removing %q (key %q): %v", i, a, key, err)
				return
			}
			delete(s.latest, key)
			if len(s.history[key]) > 0 {
				s.history[key] = append(s.history[key], past{deleted: true})
			}
			r.Count("removals", 1)
		case 3: // a version
			var as []string
			for a := range s.versions {
				as = append(as, a)
			}
			if len(as) == 0 {
				continue
			}
			sort.Strings(as)
			a := as[rng.Intn(len(as))]
			check(p, a, "version", s.versions[a], true)
			r.Count("versions read", 1)
		case 4:
			want, ok := s.latest[key]
			check(p, p.addr(rng, key), key, want, ok)
		case 5: // list the directory of a key
			if odd {
				continue
			}
			list(r, rng, i, drv, p, s, path.Dir(key))
		}
	}
	// what the buckets hold in the end
	for _, p := range places {
		s := states[p]
		p.b.mu.Lock()
		for _, m := range p.b.problems {
			r.Violate("request", "case %d: %s", i, m)
		}
		for k, vs := range p.b.objects {
			if len(vs) == 0 || vs[len(vs)-1].deleted {
				if _, ok := s.latest[k]; ok {
					r.Violate("lost", "case %d: the store has lost %q", i, k)
				}
				continue
			}
			if want, ok := s.latest[k]; !ok || !bytes.Equal(want, vs[len(vs)-1].data) {
				r.Violate("stored", "case %d: %s holds %q (%d bytes), uploaded were %q", i, p.b.name, k, len(vs[len(vs)-1].data), keysOf(s.latest))
			}
			r.Eval()
		}
		for k := range s.latest {
			if len(p.b.objects[k]) == 0 {
				r.Violate("stored", "case %d: %s does not hold %q", i, p.b.name, k)
			}
		}
		if scheme == "s3" && p.b.lookups > 1 {
			r.Count("buckets looked up more than once", 1)
		}
		r.Count("requests answered", int64(p.b.requests))
		p.b.mu.Unlock()
		r.Count(scheme+" buckets", 1)
	}
}

func keysOf(m map[string][]byte) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func list(r *mon.Run, rng *rand.Rand, i int, drv driver.Driver, p *place, s *state, dir string) {
	prefix := dir + "/"
	if dir == "." || dir == "/" {
		prefix = ""
	}
	var want []string
	seen := map[string]bool{}
	p.b.mu.Lock()
	for k := range p.b.objects { // removed objects still make directories
		if !strings.HasPrefix(k, prefix) {
			continue
		}
		rest := k[len(prefix):]
		if j := strings.IndexByte(rest, '/'); j >= 0 {
			if d := "dir " + rest[:j]; !seen[d] {
				seen[d] = true
				want = append(want, d)
			}
		} else if data, ok := s.latest[k]; ok {
			want = append(want, fmt.Sprintf("file %s %d", rest, len(data)))
		}
	}
	p.b.mu.Unlock()
	sort.Strings(want)
	a := p.addr(rng, strings.TrimSuffix(prefix, "/"))
	if prefix != "" && rng.Intn(2) == 0 {
		a += "/"
	}
	rd, ok := drv.(driver.Readdirer)
	if !ok {
		r.Violate("driver", "%s cannot list", p.scheme)
		return
	}
	fis, err := rd.Readdir(context.Background(), a)
	r.Eval()
	if err != nil {
		r.Violate("list", "case %d: listing %q (prefix %q): %v", i, a, prefix, err)
		return
	}
	var got []string
	for _, fi := range fis {
		if fi.IsDir() {
			got = append(got, "dir "+fi.Name())
		} else {
			got = append(got, fmt.Sprintf("file %s %d", fi.Name(), fi.Size()))
		}
	}
	sort.Strings(got)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		r.Violate("listing", "case %d: listing %q (prefix %q) gives %q instead of %q", i, a, prefix, got, want)
	}
	r.Count("listings", 1)
	if len(want) > 0 {
		r.Count("listings with entries", 1)
	}
}

// lookups refuses the first lookups of a bucket's region: only the operations
// that waited for those fail.
func lookups(r *mon.Run, i int) {
	rng := r.Rng("lookup", i)
	b := newBucket(fmt.Sprintf("region-%d", i), regions[rng.Intn(len(regions))])
	data := mon.Bytes(uint64(i)+7, 0, 100)
	b.objects["k"] = []version{{data: data}}
	b.refuse = rng.Intn(3)
	refused := b.refuse
	wire.add(b)
	defer wire.drop(b)
	end := r.Begin("lookup %d", i)
	defer end()
	fails := 0
	for round := 0; round < 5; round++ {
		b.mu.Lock()
		before := b.refuse
		b.mu.Unlock()
		n := 1
		if rng.Intn(2) == 0 {
			n = 2 + rng.Intn(8)
		}
		errs := make([]error, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				var o driver.Object
				o, errs[k] = drivers["s3"].Open(context.Background(), "s3://"+b.name+"/k", 100)
				if errs[k] != nil {
					return
				}
				p := make([]byte, 100)
				if m, err := o.ReadAt(p, 0); m != 100 || err != nil && err != io.EOF || !bytes.Equal(p, data) {
					r.Violate("lookup-read", "lookup %d: read %d bytes, %v", i, m, err)
				}
				o.Close()
			}()
		}
		wg.Wait()
		r.EvalN(n)
		failed := 0
		for _, err := range errs {
			if err != nil {
				failed++
			}
		}
		fails += failed
		if before == 0 && failed > 0 {
			r.Violate("lookup-remembered", "lookup %d: %d of %d opens failed although no lookup of the region was refused any more: %v", i, failed, n, errs)
			return
		}
		if failed > 0 {
			r.Count("opens with a refused lookup", int64(failed))
		}
		if before == 0 {
			break
		}
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	if refused > 0 && fails == 0 && b.refuse < refused {
		r.Violate("lookup-hidden", "lookup %d: a refused lookup was not reported", i)
	}
	for _, m := range b.problems {
		r.Violate("request", "lookup %d: %s", i, m)
	}
	r.Distinct("main", fmt.Sprintf("lookup %s %d", b.region, refused))
}

func main() {
	for k, v := range map[string]string{"AWS_ACCESS_KEY_ID": awsID, "AWS_SECRET_ACCESS_KEY": awsSecret, "AWS_REGION": "eu-west-1", "SWIFT_ACCESS_KEY_ID": swID, "SWIFT_SECRET_ACCESS_KEY": swSecret, "SWIFT_REGION": swRegion} {
		os.Setenv(k, v)
	}
	os.Unsetenv("AWS_SESSION_TOKEN")
	// the drivers read the environment when they are registered, which is
	// before main
	if os.Getenv("VERIF_C33") == "" {
		os.Setenv("VERIF_C33", "1")
		if exe, err := os.Executable(); err == nil {
			err = syscall.Exec(exe, os.Args, os.Environ())
			fmt.Fprintln(os.Stderr, err)
		}
		os.Exit(2)
	}
	mon.Main("C33", "keys by driver and location, and refused lookups by region", func(r *mon.Run) {
		for _, s := range []string{"s3", "swift"} {
			d, err := driver.Find(s + "://x/")
			if err != nil {
				r.Violate("driver", "no driver for %s: %v", s, err)
				return
			}
			drivers[s] = d
			if !mon.SetTransport(d, wire) || !mon.SetSession(d, wire) {
				r.Inconclusive("the way of the %s driver to the network is out of reach", s)
				return
			}
		}
		r.Parallel(r.N(1500, 30000), 0, func(i int) { run(r, i) })
		r.Parallel(r.N(300, 6000), 0, func(i int) { lookups(r, i) })
		for _, m := range wire.strays {
			r.Violate("stray", "%s", m)
		}
		r.Need("objects read", 1000)
		r.Need("uploads", 1000)
		r.Need("versions read", 200)
		r.Need("removals", 300)
		r.Need("versions removed", 50)
		r.Need("listings with entries", 300)
		r.Need("opens with a refused lookup", 100)
	})
}
