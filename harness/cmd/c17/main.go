// C17: reads over HTTP return exactly the requested bytes or an error.
package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"net/http"
	stdurl "net/url"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/pkg/storage/http"

	"vdiscverif/mon"
)

// answer describes how the server answers a request for a range.
type answer struct {
	name  string
	right bool // the answer is a proper one: an error is not acceptable
	// raw builds the bytes of the answer; hold keeps the connection open afterwards
	raw func(q *query) (out []byte, hold bool)
}

type query struct {
	rng    *rand.Rand
	data   []byte // the object
	size   int64  // its size
	decl   int64  // the size the client knows
	a, b   int64  // requested range, inclusive
	path   string
	count  int
	accept string // the encodings the client accepts
}

func (q *query) body() []byte {
	if q.a < 0 || q.a > q.b {
		return nil
	}
	b := q.b + 1
	if b > q.size {
		b = q.size
	}
	if q.a >= b {
		return nil
	}
	return q.data[q.a:b]
}

func head(status string, hdr ...string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %s\r\n", status)
	for _, h := range hdr {
		b.WriteString(h + "\r\n")
	}
	b.WriteString("\r\n")
	return b.Bytes()
}

func cr(a, b, t interface{}) string { return fmt.Sprintf("Content-Range: bytes %v-%v/%v", a, b, t) }
func cl(n interface{}) string       { return fmt.Sprintf("Content-Length: %v", n) }

// other is a body of the same length with other bytes.
func other(q *query, n int) []byte {
	o := make([]byte, n)
	q.rng.Read(o)
	for i := range o {
		o[i] |= 0x80 // the objects only contain bytes below
	}
	return o
}

func sane(q *query) ([]byte, bool) {
	if q.a >= q.size || q.a < 0 || q.a > q.b {
		return head("416 Range Not Satisfiable", fmt.Sprintf("Content-Range: bytes */%d", q.size), cl(0)), true
	}
	body := q.body()
	return append(head("206 Partial Content", cr(q.a, q.a+int64(len(body))-1, q.size), cl(len(body))), body...), true
}

func answers() []answer {
	var out []answer
	add := func(name string, right bool, f func(q *query) ([]byte, bool)) {
		out = append(out, answer{name, right, f})
	}
	add("proper", true, sane)
	add("proper, then closes", true, func(q *query) ([]byte, bool) { b, _ := sane(q); return b, false })
	add("compressed unless told otherwise", true, func(q *query) ([]byte, bool) {
		if strings.TrimSpace(q.accept) == "identity" {
			return sane(q)
		}
		b := other(q, len(q.body()))
		return append(head("206 Partial Content", cr(q.a, q.a+int64(len(b))-1, q.size), cl(len(b)), "Content-Encoding: gzip"), b...), true
	})
	add("larger total", true, func(q *query) ([]byte, bool) {
		b := q.body()
		return append(head("206 Partial Content", cr(q.a, q.b, q.size+1+int64(q.rng.Intn(1000))), cl(len(b))), b...), true
	})
	add("chunked", false, func(q *query) ([]byte, bool) {
		b := q.body()
		h := head("206 Partial Content", cr(q.a, q.b, q.size), "Transfer-Encoding: chunked")
		return append(append(h, []byte(fmt.Sprintf("%x\r\n", len(b)))...), append(append([]byte{}, b...), []byte("\r\n0\r\n\r\n")...)...), true
	})
	add("chunked, cut", false, func(q *query) ([]byte, bool) {
		b := q.body()
		h := head("206 Partial Content", cr(q.a, q.b, q.size), "Transfer-Encoding: chunked")
		return append(append(h, []byte(fmt.Sprintf("%x\r\n", len(b)))...), b[:q.rng.Intn(len(b)+1)]...), false
	})
	add("no length, until close", false, func(q *query) ([]byte, bool) {
		return append(head("206 Partial Content", cr(q.a, q.b, q.size)), q.body()...), false
	})
	add("no length, cut", false, func(q *query) ([]byte, bool) {
		b := q.body()
		return append(head("206 Partial Content", cr(q.a, q.b, q.size)), b[:q.rng.Intn(len(b)+1)]...), false
	})
	add("whole object, status 200", false, func(q *query) ([]byte, bool) {
		return append(head("200 OK", cl(q.size)), q.data...), true
	})
	add("start of object with the range's length, status 200", false, func(q *query) ([]byte, bool) {
		n := q.b - q.a + 1
		if n > q.size {
			n = q.size
		}
		return append(head("200 OK", cl(n)), q.data[:n]...), true
	})
	add("status 200 with range header", false, func(q *query) ([]byte, bool) {
		b := q.body()
		return append(head("200 OK", cr(q.a, q.b, q.size), cl(len(b))), other(q, len(b))...), true
	})
	for _, st := range []string{"204 No Content", "304 Not Modified", "400 Bad", "401 No", "403 No", "404 No", "410 Gone", "416 Range", "429 Slow", "500 Oops", "502 Oops", "503 Oops", "205 Reset", "207 Multi", "100 Continue", "101 Switching Protocols", "999 What"} {
		st := st
		add("status "+st[:3], false, func(q *query) ([]byte, bool) {
			b := q.body()
			if st[:3] == "204" || st[:3] == "304" || st[:3] == "100" || st[:3] == "101" {
				return head(st), false
			}
			return append(head(st, cr(q.a, q.b, q.size), cl(len(b))), other(q, len(b))...), true
		})
	}
	add("whole object, status 206 without range", false, func(q *query) ([]byte, bool) {
		return append(head("206 Partial Content", cl(q.size)), q.data...), true
	})
	add("no range header", false, func(q *query) ([]byte, bool) {
		b := q.body()
		return append(head("206 Partial Content", cl(len(b))), other(q, len(b))...), true
	})
	for _, h := range []string{"bytes", "bytes 1-2", "bytes */5", "bytes 0-/5", "items 0-4/5", "bytes 0-4/*", "bytes -1-4/5", "bytes 4-0/5", "bytes 0-4/0",
		"bytes 9-9/9", "bytes 0-18446744073709551615/18446744073709551615", "bytes 0-18446744073709551614/18446744073709551615", "bytes 1-18446744073709551614/18446744073709551615",
		"bytes 9223372036854775807-9223372036854775808/9223372036854775809", "bytes 0-99999999999999999999/999999999999999999999", "bytes 0-9223372036854775807/9223372036854775808",
		"bytes 18446744073709551615-18446744073709551615/18446744073709551615", "bytes  0-4/5 ", "\x00", "bytes 0-4/5, bytes 5-9/10"} {
		h := h
		add("range header "+h, false, func(q *query) ([]byte, bool) {
			b := q.body()
			return append(head("206 Partial Content", "Content-Range: "+h, cl(len(b))), other(q, len(b))...), true
		})
	}
	// absurd range headers that name the requested start
	for _, last := range []string{"18446744073709551615", "18446744073709551614", "9223372036854775807", "9223372036854775808"} {
		last := last
		for _, total := range []string{"0", "18446744073709551615"} {
			total := total
			add("range header first-"+last+"/"+total, false, func(q *query) ([]byte, bool) {
				b := q.body()
				return append(head("206 Partial Content", cr(q.a, last, total), cl(len(b))), other(q, len(b))...), true
			})
			add("range header 0-"+last+"/"+total+" without length", false, func(q *query) ([]byte, bool) {
				return append(head("206 Partial Content", cr(0, last, total)), other(q, 10)...), false
			})
		}
	}
	add("range header total 0", false, func(q *query) ([]byte, bool) {
		b := q.body()
		return append(head("206 Partial Content", cr(q.a, q.b, 0), cl(len(b))), other(q, len(b))...), true
	})
	shift := func(name string, da, db int64) {
		add("shifted range "+name, false, func(q *query) ([]byte, bool) {
			a, b := q.a+da, q.b+db
			if a < 0 || b < a {
				return head("500 Oops", cl(0)), true
			}
			n := int(b - a + 1)
			return append(head("206 Partial Content", cr(a, b, q.size+10), cl(n)), other(q, n)...), true
		})
	}
	shift("+1+1", 1, 1)
	shift("-1-1", -1, -1)
	shift("+0+1", 0, 1)
	shift("+0-1", 0, -1)
	shift("+1+0", 1, 0)
	shift("-1+0", -1, 0)
	shift("+2048+2048", 2048, 2048)
	add("shrunken object, total", false, func(q *query) ([]byte, bool) {
		b := q.body()
		total := q.b
		if q.b+1 < q.decl {
			total = q.b + 1 + q.rng.Int63n(q.decl-q.b-1)
		}
		return append(head("206 Partial Content", cr(q.a, q.b, total), cl(len(b))), other(q, len(b))...), true
	})
	add("shrunken object, clipped range", false, func(q *query) ([]byte, bool) {
		n := int64(len(q.body()))
		if n < 2 {
			return head("416 Range", cl(0)), true
		}
		m := 1 + q.rng.Int63n(n-1)
		return append(head("206 Partial Content", cr(q.a, q.a+m-1, q.a+m), cl(m)), q.data[q.a:q.a+m]...), true
	})
	add("clipped range, same total", false, func(q *query) ([]byte, bool) {
		n := int64(len(q.body()))
		if n < 2 {
			return head("416 Range", cl(0)), true
		}
		m := 1 + q.rng.Int63n(n-1)
		return append(head("206 Partial Content", cr(q.a, q.a+m-1, q.size), cl(m)), q.data[q.a:q.a+m]...), true
	})
	add("short length", false, func(q *query) ([]byte, bool) {
		b := q.body()
		m := q.rng.Intn(len(b))
		return append(head("206 Partial Content", cr(q.a, q.b, q.size), cl(m)), b[:m]...), true
	})
	add("long length", false, func(q *query) ([]byte, bool) {
		b := q.body()
		k := 1 + q.rng.Intn(50)
		return append(append(head("206 Partial Content", cr(q.a, q.b, q.size), cl(len(b)+k)), b...), other(q, k)...), true
	})
	add("absurd length", false, func(q *query) ([]byte, bool) {
		return append(head("206 Partial Content", cr(q.a, q.b, q.size), cl("9223372036854775807")), q.body()...), false
	})
	add("negative length", false, func(q *query) ([]byte, bool) {
		return append(head("206 Partial Content", cr(q.a, q.b, q.size), cl("-5")), q.body()...), false
	})
	add("cut body", false, func(q *query) ([]byte, bool) {
		b := q.body()
		return append(head("206 Partial Content", cr(q.a, q.b, q.size), cl(len(b))), b[:q.rng.Intn(len(b))]...), false
	})
	add("empty body", false, func(q *query) ([]byte, bool) {
		return head("206 Partial Content", cr(q.a, q.b, q.size), cl(len(q.body()))), false
	})
	add("more bytes than the length", false, func(q *query) ([]byte, bool) {
		b := q.body()
		return append(append(head("206 Partial Content", cr(q.a, q.b, q.size), cl(len(b))), b...), other(q, 30)...), false
	})
	add("cut headers", false, func(q *query) ([]byte, bool) {
		h := head("206 Partial Content", cr(q.a, q.b, q.size), cl(len(q.body())))
		return h[:q.rng.Intn(len(h))], false
	})
	add("no answer", false, func(q *query) ([]byte, bool) { return nil, false })
	add("noise", false, func(q *query) ([]byte, bool) { return other(q, 200), false })
	add("several ranges", false, func(q *query) ([]byte, bool) {
		b := []byte("--x\r\nContent-Range: bytes 0-1/5\r\n\r\nab\r\n--x--\r\n")
		return append(head("206 Partial Content", "Content-Type: multipart/byteranges; boundary=x", cl(len(b))), b...), true
	})
	add("redirect to itself", false, func(q *query) ([]byte, bool) { return head("302 Found", "Location: "+q.path, cl(0)), true })
	add("redirect nowhere", false, func(q *query) ([]byte, bool) { return head("302 Found", cl(0)), true })
	add("redirect once", true, func(q *query) ([]byte, bool) {
		if q.count == 0 {
			return head("307 Temporary Redirect", "Location: "+q.path, cl(0)), true
		}
		return sane(q)
	})
	add("stalls in the body", false, func(q *query) ([]byte, bool) {
		b := q.body()
		return append(head("206 Partial Content", cr(q.a, q.b, q.size), cl(len(b))), b[:q.rng.Intn(len(b))]...), true
	})
	add("stalls in the headers", false, func(q *query) ([]byte, bool) {
		h := head("206 Partial Content", cr(q.a, q.b, q.size), cl(len(q.body())))
		return h[:q.rng.Intn(len(h))], true
	})
	return out
}

type world struct {
	r    *mon.Run
	ln   net.Listener
	mu   sync.Mutex
	objs map[string]*object
}

type object struct {
	data   []byte
	size   int64
	decl   int64
	ans    *answer
	head   int // how HEAD is answered
	seed   int64
	mu     sync.Mutex
	counts map[string]int
	seen   int
}

// page is what the server shows when it refuses: shorter or longer than the object.
func (o *object) page() []byte {
	if o.seed%2 == 0 {
		return o.data[:len(o.data)/2]
	}
	return append(append([]byte{}, o.data...), "<html>"...)
}

func (w *world) serve(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		ioutil.ReadAll(req.Body)
		w.mu.Lock()
		o := w.objs[req.URL.Path]
		w.mu.Unlock()
		if o == nil {
			c.Write(head("404 Not Found", cl(0)))
			continue
		}
		o.mu.Lock()
		id := req.Method + req.Header.Get("Range")
		n := o.counts[id]
		o.counts[id]++
		o.seen++
		rng := rand.New(rand.NewSource(o.seed + int64(o.seen)))
		o.mu.Unlock()
		var out []byte
		hold := true
		switch {
		case req.Method == "HEAD":
			switch o.head {
			case 0:
				out = head("200 OK", cl(o.size))
			case 1:
				out = head("405 Method Not Allowed")
			case 2:
				out = head("200 OK")
			case 3:
				out = head("404 Not Found")
			case 4:
				out = head("403 Forbidden", cl(len(o.page())))
			case 5, 6, 7:
				out = head("405 Method Not Allowed")
			}
		case req.Header.Get("Range") == "":
			switch o.head {
			case 5:
				out, hold = append(head("200 OK", cl(o.size)), o.data[:len(o.data)/2]...), false
			case 6:
				out = append(head("403 Forbidden", cl(len(o.page()))), o.page()...)
			case 7:
				out = append(head("404 Not Found", cl(len(o.page()))), o.page()...)
			default:
				out = append(head("200 OK", cl(o.size)), o.data...)
			}
		default:
			q := &query{rng: rng, data: o.data, size: o.size, decl: o.decl, path: req.URL.Path, count: n, accept: req.Header.Get("Accept-Encoding")}
			if k, err := fmt.Sscanf(req.Header.Get("Range"), "bytes=%d-%d", &q.a, &q.b); k != 2 || err != nil || q.a < 0 || q.b < q.a || strings.Contains(req.Header.Get("Range"), "--") {
				out = head("400 Bad Request", cl(0))
				break
			}
			if q.a >= o.size {
				out, hold = sane(q)
				break
			}
			if q.b >= o.size && !o.ans.right {
				out, hold = sane(q)
				break
			}
			out, hold = o.ans.raw(q)
		}
		if _, err := c.Write(out); err != nil {
			return
		}
		if !hold {
			return
		}
	}
}

func (w *world) put(path string, o *object) string {
	o.counts = map[string]int{}
	w.mu.Lock()
	w.objs[path] = o
	w.mu.Unlock()
	return "http://" + w.ln.Addr().String() + path
}

func (w *world) drop(path string) {
	w.mu.Lock()
	delete(w.objs, path)
	w.mu.Unlock()
}

// ascii is content whose bytes are all below 128, so that wrong bytes show.
func ascii(id uint64, n int) []byte {
	b := mon.Bytes(id, 0, n)
	for i := range b {
		b[i] &= 0x7f
	}
	return b
}

func main() {
	mon.Main("C17", "distinct (answer of the server, position and length class, outcome) reads judged against the object's bytes", func(r *mon.Run) {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			r.Inconclusive("no loopback network: %v", err)
			return
		}
		defer ln.Close()
		w := &world{r: r, ln: ln, objs: map[string]*object{}}
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				go w.serve(c)
			}
		}()
		log.SetOutput(ioutil.Discard) // remarks of the HTTP client about noise
		all := answers()
		r.Max("kinds of answers", int64(len(all)))
		rounds := r.N(24, 400)
		r.Parallel(rounds*len(all), 0, func(i int) { w.one(i, &all[i%len(all)]) })
		r.Parallel(r.N(64, 1500), 0, func(i int) { w.viaDriver(i) })
		r.Need("reads that returned the bytes", 1000)
		r.Need("reads refused", 500)
		r.Need("sizes asked for", 50)
		r.Need("sizes refused", 20)
		r.Need("reads through the storage layer", 300)
		r.Assume("a server that sends other bytes with headers that are right in every way cannot be told from an honest one")
	})
}

func (w *world) one(i int, a *answer) {
	r := w.r
	rng := r.Rng("case", i)
	n := []int{1, 2, 100, 5000, 70000}[rng.Intn(5)]
	o := &object{data: ascii(uint64(i)+1, n), size: int64(n), ans: a, seed: rng.Int63()}
	declared := int64(n)
	sizeless := rng.Intn(3) == 0
	if sizeless {
		o.head = rng.Intn(8)
		declared = -1
	} else if n > 2 && rng.Intn(4) == 0 {
		declared = int64(n) - rng.Int63n(int64(n)) // only a prefix is declared
	}
	o.decl = o.size
	if declared >= 0 {
		o.decl = declared
	}
	path := fmt.Sprintf("/o%d/x", i)
	url := w.put(path, o)
	defer w.drop(path)
	label := fmt.Sprintf("case %d: answer %q, %d bytes, declared %d, HEAD kind %d", i, a.name, n, declared, o.head)
	defer r.Begin("%s", label)()
	tr := &http.Transport{DisableKeepAlives: rng.Intn(2) == 0 || a.name == "proper, then closes"}
	defer tr.CloseIdleConnections()
	client := &http.Client{Transport: tr, Timeout: 20 * time.Second}
	stall := strings.HasPrefix(a.name, "stalls")
	if stall {
		client.Timeout = 60 * time.Millisecond
	}
	u, err := stdurl.Parse(url)
	if err != nil {
		panic(err)
	}
	obj := httpdriver.NewObject(client, url, u, declared)
	size := declared
	known := true
	if sizeless {
		r.Count("sizes asked for", 1)
		var sz int64
		if perr, bad := mon.Catch(func() { sz = obj.Size() }); bad {
			r.Violate("crash", "%s: asking for the size: %v", label, perr)
			return
		}
		switch {
		case sz == o.size:
			size = sz
		case sz < 0:
			r.Count("sizes refused", 1)
			known = false
			if o.head <= 1 && !stall {
				r.Violate("size", "%s: size refused", label)
			}
		default:
			r.Violate("size", "%s: size %d", label, sz)
			return
		}
	}
	if obj.URL() != url {
		r.Violate("url", "%s: address %q", label, obj.URL())
	}
	var wg sync.WaitGroup
	threads := 1 + rng.Intn(4)
	reads := 8
	if stall {
		threads, reads = 2, 2
	}
	for t := 0; t < threads; t++ {
		rng := r.Rng("case", i, t)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < reads && !r.Failed(); k++ {
				var off int64
				ln := 1 + rng.Intn(n+10)
				switch rng.Intn(6) {
				case 0:
					off = int64(n) + rng.Int63n(3) - 1
				case 1:
					off = 0
				case 2:
					off = int64(n) - int64(ln)
					if off < 0 {
						off = 0
					}
				default:
					off = rng.Int63n(int64(n))
				}
				if known && rng.Intn(12) == 0 {
					off = -1 - rng.Int63n(5)
				}
				if rng.Intn(30) == 0 {
					off = 1<<62 + rng.Int63n(1<<62)
				}
				w.read(label, a, obj, o, size, known, off, ln, stall)
			}
		}()
	}
	wg.Wait()
	if known && !stall && !r.Failed() {
		w.sequential(label, a, obj, o, size, rng)
	}
	obj.Close()
	var e error
	if perr, bad := mon.Catch(func() { _, e = obj.ReadAt(make([]byte, 3), 0) }); bad || e == nil || e == io.EOF {
		r.Violate("closed", "%s: read after close: %v %v", label, perr, e)
	}
	if i < 3 {
		r.Sample("%s", label)
	}
}

func class(off int64, ln int, size int64) string {
	switch {
	case off < 0:
		return "negative"
	case off >= size:
		return "past end"
	case off+int64(ln) > size:
		return "crossing end"
	case off+int64(ln) == size:
		return "to end"
	}
	return "inside"
}

func (w *world) read(label string, a *answer, obj driver.Object, o *object, size int64, known bool, off int64, ln int, stall bool) {
	r := w.r
	p := make([]byte, ln)
	for i := range p {
		p[i] = 0xEE
	}
	var n int
	var err error
	if perr, bad := mon.Catch(func() { n, err = obj.ReadAt(p, off) }); bad {
		r.Violate("crash", "%s: read of %d at %d: %v", label, ln, off, perr)
		return
	}
	r.Eval()
	r.Count("reads", 1)
	what := fmt.Sprintf("%s: read of %d at %d", label, ln, off)
	if n < 0 || n > ln {
		r.Violate("count", "%s returned %d, %v", what, n, err)
		return
	}
	if !known || off < 0 {
		if err == nil || n != 0 || (off >= 0 && err == io.EOF) {
			r.Violate("hidden", "%s with unknown size or bad position returned %d, %v", what, n, err)
		}
		r.Count("reads refused", 1)
		return
	}
	cls := class(off, ln, size)
	if off >= size {
		if n != 0 || err != io.EOF {
			r.Violate("end", "%s returned %d, %v", what, n, err)
		}
		r.Count("reads past the end", 1)
		r.Distinct("main", a.name+"|"+cls)
		return
	}
	want := o.data[off:]
	if int64(len(want)) > size-off {
		want = want[:size-off]
	}
	if len(want) > ln {
		want = want[:ln]
	}
	if err == nil || err == io.EOF {
		if n != len(want) {
			r.Violate("missing", "%s returned %d bytes, %v; want %d", what, n, err, len(want))
			return
		}
		if err == io.EOF && n == ln && off+int64(n) < size {
			r.Violate("missing", "%s reported end of file in the middle", what)
			return
		}
		if d := mon.Diff(p[:n], want); d != "" {
			r.Violate("wrong", "%s: %s", what, d)
			return
		}
		r.Count("reads that returned the bytes", 1)
		r.Distinct("main", a.name+"|"+cls+"|bytes")
		return
	}
	if a.right && !stall {
		r.Violate("refused", "%s failed although the server answers properly: %v", what, err)
		return
	}
	if d := mon.Diff(p[:n], want[:minInt(n, len(want))]); d != "" || n > len(want) {
		r.Violate("wrong", "%s failed with %v after %d bytes that are not the object's: %s", what, err, n, d)
		return
	}
	r.Count("reads refused", 1)
	r.Distinct("main", a.name+"|"+cls+"|error")
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// sequential reads with a position.
func (w *world) sequential(label string, a *answer, obj driver.Object, o *object, size int64, rng *rand.Rand) {
	r := w.r
	var pos int64
	if _, err := obj.Seek(0, io.SeekStart); err != nil {
		r.Violate("seek", "%s: seek: %v", label, err)
		return
	}
	for k := 0; k < 6; k++ {
		if rng.Intn(3) == 0 {
			to := rng.Int63n(size + 1)
			var got int64
			var err error
			switch rng.Intn(3) {
			case 0:
				got, err = obj.Seek(to, io.SeekStart)
			case 1:
				got, err = obj.Seek(to-pos, io.SeekCurrent)
			case 2:
				got, err = obj.Seek(to-size, io.SeekEnd)
			}
			if err != nil || got != to {
				r.Violate("seek", "%s: seek to %d gave %d, %v", label, to, got, err)
				return
			}
			pos = to
		}
		p := make([]byte, 1+rng.Intn(int(size)+5))
		var n int
		var err error
		if perr, bad := mon.Catch(func() { n, err = obj.Read(p) }); bad {
			r.Violate("crash", "%s: sequential read: %v", label, perr)
			return
		}
		r.Eval()
		r.Count("sequential reads", 1)
		if n < 0 || int64(n) > size-pos {
			r.Violate("count", "%s: sequential read of %d at %d returned %d", label, len(p), pos, n)
			return
		}
		if d := mon.Diff(p[:n], o.data[pos:pos+int64(n)]); d != "" {
			r.Violate("wrong", "%s: sequential read of %d at %d: %s", label, len(p), pos, d)
			return
		}
		if err == io.EOF && pos+int64(n) != size {
			r.Violate("missing", "%s: sequential read reported end of file at %d of %d", label, pos+int64(n), size)
			return
		}
		if err == nil && n == 0 {
			r.Violate("missing", "%s: sequential read returned nothing at %d of %d", label, pos, size)
			return
		}
		pos += int64(n)
		if a.right && err != nil && err != io.EOF {
			r.Violate("refused", "%s: sequential read failed: %v", label, err)
			return
		}
	}
}

// viaDriver goes through the storage layer as the tool does.
func (w *world) viaDriver(i int) {
	r := w.r
	rng := r.Rng("driver", i)
	n := 1 + rng.Intn(20000)
	ans := &answer{"proper", true, sane}
	o := &object{data: ascii(uint64(i)+1000000, n), size: int64(n), ans: ans, seed: rng.Int63(), head: rng.Intn(2)}
	name := []string{"plain", "with%20space", "q%3Fmark", "%C3%A9", "a%25b"}[rng.Intn(5)]
	path := fmt.Sprintf("/d%d/", i) + name
	u, _ := stdurl.Parse(path)
	url := w.put(u.Path, o)
	defer w.drop(u.Path)
	url = "http://" + w.ln.Addr().String() + path
	label := fmt.Sprintf("storage %d: %s, %d bytes, HEAD kind %d", i, url, n, o.head)
	defer r.Begin("%s", label)()
	ctx := context.Background()
	declared := int64(-1)
	if rng.Intn(2) == 0 {
		declared = int64(n)
	}
	obj, err := storage.OpenContextSize(ctx, url, declared)
	if err != nil {
		r.Violate("open", "%s: %v", label, err)
		return
	}
	defer obj.Close()
	if obj.Size() != int64(n) {
		r.Violate("size", "%s: size %d", label, obj.Size())
		return
	}
	for k := 0; k < 6; k++ {
		w.read(label, ans, obj, o, int64(n), true, rng.Int63n(int64(n)+2), 1+rng.Intn(n+5), false)
		r.Count("reads through the storage layer", 1)
	}
	fi, err := storage.StatContext(ctx, url)
	if err != nil || fi.Size() != int64(n) || fi.IsDir() {
		r.Violate("stat", "%s: stat gave %v, %v", label, fi, err)
	}
	if _, err := storage.StatContext(ctx, "http://"+w.ln.Addr().String()+"/none"); !os.IsNotExist(err) {
		r.Violate("stat", "%s: stat of a missing object gave %v", label, err)
	}
	miss, err := storage.OpenContextSize(ctx, "http://"+w.ln.Addr().String()+"/none", int64(n))
	if err == nil {
		if m, err := miss.ReadAt(make([]byte, 5), 0); m != 0 || err == nil || err == io.EOF {
			r.Violate("hidden", "%s: reading a missing object gave %d, %v", label, m, err)
		}
	}
}
