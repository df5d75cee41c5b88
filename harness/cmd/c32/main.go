// C32: narrowing conversions are exact or refused; byte counters are exact.
package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"

	"github.com/NVIDIA/vdisc/pkg/countio"

	"vdiscverif/mon"
)

// extend makes the 64 bits of a value of the source type from arbitrary bits.
func extend(b uint64, bits uint, sign bool) uint64 {
	if bits == 64 {
		return b
	}
	b &= 1<<bits - 1
	if sign && b>>(bits-1) != 0 {
		b |= ^uint64(0) << bits
	}
	return b
}

// fits tells whether the target type has the value.
func fits(b uint64, sign bool, bits uint, toSign bool) bool {
	neg := sign && int64(b) < 0
	if neg {
		return toSign && int64(b) >= -1<<(bits-1)
	}
	if toSign {
		return b <= 1<<(bits-1)-1
	}
	return bits == 64 || b <= 1<<bits-1
}

func try(c *conversion, b uint64) (out uint64, refused bool) {
	defer func() {
		if recover() != nil {
			refused = true
		}
	}()
	return c.do(b), false
}

func value(r *mon.Run, c *conversion, b uint64) (exact, refused int64) {
	b = extend(b, c.from, c.fromSign)
	want := fits(b, c.fromSign, c.to, c.toSign)
	out, ref := try(c, b)
	show := fmt.Sprint
	if ref == want || !ref && out != b {
		in := show(b)
		if c.fromSign {
			in = show(int64(b))
		}
		got := "refused"
		if !ref {
			got = show(out)
			if c.toSign {
				got = show(int64(out))
			}
		}
		r.Violate("conversion", "%s(%s) is %s", c.name, in, got)
	}
	if ref {
		return 0, 1
	}
	return 1, 0
}

func convert(r *mon.Run, k int) {
	c := &conversions[k]
	rng := r.Rng("conversion", k)
	var exact, refused int64
	add := func(b uint64) {
		e, f := value(r, c, b)
		exact += e
		refused += f
	}
	if c.from <= 16 {
		for b := uint64(0); b < 1<<c.from; b++ {
			add(b)
		}
	} else {
		for s := uint(0); s < 64; s++ {
			for t := uint(0); t < 64; t++ {
				// around every sum and difference of powers of two
				for d := uint64(0); d < 5; d++ {
					add(uint64(1)<<s + uint64(1)<<t + d - 2)
					add(uint64(1)<<s - uint64(1)<<t + d - 2)
				}
			}
			for d := uint64(0); d < 300; d++ {
				add(uint64(1)<<s + d - 150)
				add(-(uint64(1) << s) + d - 150)
			}
		}
		for n := 0; n < r.N(30000, 3000000); n++ {
			add(rng.Uint64() >> uint(rng.Intn(64)))
			add(-(rng.Uint64() >> uint(rng.Intn(64))))
			if n&0xffff == 0 {
				r.Tick()
			}
		}
	}
	r.EvalN(int(exact + refused))
	r.Count("values converted", exact)
	r.Count("values refused", refused)
	r.Distinct("main", c.name)
	if k%20 == 0 {
		r.Sample("%s: %d values converted, %d refused", c.name, exact, refused)
	}
}

var odd = errors.New("odd")

// script is a source and sink of transfers of every kind.
type script struct {
	rng *rand.Rand
	n   int
	err error
	in  []byte
	off int64
	wh  int
	op  string
}

func (s *script) plan(p []byte) (int, error) {
	s.n = len(p)
	if len(p) > 0 && s.rng.Intn(3) == 0 {
		s.n = s.rng.Intn(len(p) + 1)
	}
	s.err = []error{nil, nil, nil, io.EOF, odd, io.ErrShortWrite}[s.rng.Intn(6)]
	return s.n, s.err
}

func (s *script) Read(p []byte) (int, error) {
	s.op, s.in = "read", p
	n, err := s.plan(p)
	s.rng.Read(p[:n])
	s.in = append([]byte{}, p...)
	return n, err
}

func (s *script) ReadAt(p []byte, off int64) (int, error) {
	n, err := s.Read(p)
	s.op, s.off = "readat", off
	return n, err
}

func (s *script) Write(p []byte) (int, error) {
	s.op, s.in = "write", append([]byte{}, p...)
	return s.plan(p)
}

func (s *script) Seek(off int64, wh int) (int64, error) {
	s.op, s.off, s.wh = "seek", off, wh
	s.n = s.rng.Int()
	s.err = []error{nil, odd}[s.rng.Intn(2)]
	return int64(s.n), s.err
}

// transfers drives one wrapper through a random sequence of calls.
func transfers(r *mon.Run, i int) {
	rng := r.Rng("transfers", i)
	s := &script{rng: r.Rng("script", i)}
	shared := rng.Int63()
	at := shared
	var counter *int64
	with := rng.Intn(2) == 0
	if with {
		counter = &shared
	}
	var rd io.Reader
	var wr io.Writer
	var ra interface {
		io.ReaderAt
		io.Seeker
	}
	var count func() int64
	kind := i % 3
	switch kind {
	case 0:
		c := countio.NewReader(s)
		if with {
			c = countio.NewReaderWithAtomicCounter(s, counter)
		}
		rd, count = c, c.BytesRead
	case 1:
		c := countio.NewWriter(s)
		if with {
			c = countio.NewWriterWithAtomicCounter(s, counter)
		}
		wr, count = c, c.BytesWritten
	case 2:
		c := countio.NewReaderAtSeeker(s)
		if with {
			c = countio.NewReaderAtSeekerWithAtomicCounter(s, counter)
		}
		rd, ra, count = c, c, c.BytesRead
	}
	var sum int64
	seq := ""
	for k := 0; k < 40; k++ {
		p := make([]byte, []int{0, 1, 7, 512, 5000}[rng.Intn(5)])
		rng.Read(p)
		before := append([]byte{}, p...)
		var n int
		var err error
		op := ""
		off := rng.Int63()
		s.op = ""
		switch {
		case wr != nil:
			op = "write"
			n, err = wr.Write(p)
			if s.op == op && string(s.in) != string(before) {
				r.Violate("data", "wrapper %d: other bytes were written", i)
			}
		case ra != nil && rng.Intn(3) == 0:
			op = "seek"
			wh := rng.Intn(3)
			m, e := ra.Seek(off, wh)
			if s.op != op || s.off != off || s.wh != wh || m != int64(s.n) || e != s.err {
				r.Violate("seek", "wrapper %d: seeking to %d from %d gave %d, %v instead of %d, %v", i, off, wh, m, e, s.n, s.err)
			}
		case ra != nil && rng.Intn(2) == 0:
			op = "readat"
			n, err = ra.ReadAt(p, off)
			if s.op == op && s.off != off {
				r.Violate("data", "wrapper %d: read at %d instead of %d", i, s.off, off)
			}
		default:
			op = "read"
			n, err = rd.Read(p)
		}
		r.Eval()
		if s.op != op {
			r.Violate("call", "wrapper %d: %s became %q", i, op, s.op)
		}
		if op != "seek" {
			if n != s.n || err != s.err {
				r.Violate("result", "wrapper %d: %s gave %d, %v instead of %d, %v", i, op, n, err, s.n, s.err)
			}
			if op != "write" && string(p) != string(s.in) {
				r.Violate("data", "wrapper %d: the bytes read are others", i)
			}
			sum += int64(s.n)
		}
		if c := count(); c != sum {
			r.Violate("count", "wrapper %d: %d bytes counted after %d", i, c, sum)
		}
		if with && shared != at+sum || !with && shared != at {
			r.Violate("count", "wrapper %d: the shared counter changed by %d instead of %d", i, shared-at, sum)
		}
		r.Count("transfers", 1)
		seq += fmt.Sprintf("%s%d%v", op[:1], s.n&1, s.err != nil)
	}
	r.Distinct("main", fmt.Sprintf("%d %v %x", kind, with, mon.Sum([]byte(seq))))
}

// plain transfers everything asked for; safe for concurrent use.
type plain struct{ calls *int64 }

func (p plain) Read(b []byte) (int, error) {
	atomic.AddInt64(p.calls, int64(len(b)))
	return len(b), nil
}
func (p plain) ReadAt(b []byte, off int64) (int, error) {
	return p.Read(b)
}
func (p plain) Write(b []byte) (int, error) { return p.Read(b) }
func (p plain) Seek(off int64, wh int) (int64, error) {
	return off, nil
}

// crowd lets several wrappers share a counter, and several readers share a
// wrapper for positioned reads.
func crowd(r *mon.Run, i int) {
	rng := r.Rng("crowd", i)
	var counter, moved int64
	src := plain{&moved}
	shared := countio.NewReaderAtSeekerWithAtomicCounter(src, &counter)
	var viaShared int64
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < 6; g++ {
		g := g
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed))
			rd := countio.NewReaderWithAtomicCounter(src, &counter)
			ww := countio.NewWriterWithAtomicCounter(src, &counter)
			rs := countio.NewReaderAtSeekerWithAtomicCounter(src, &counter)
			buf := make([]byte, 100)
			var a, b, c int64
			<-start
			for k := 0; k < 200; k++ {
				p := buf[:rng.Intn(100)]
				n := int64(len(p))
				switch (k + g) % 4 {
				case 0:
					rd.Read(p)
					a += n
				case 1:
					ww.Write(p)
					b += n
				case 2:
					rs.ReadAt(p, 5)
					c += n
				case 3:
					shared.ReadAt(p, 7)
					atomic.AddInt64(&viaShared, n)
				}
			}
			if rd.BytesRead() != a || ww.BytesWritten() != b || rs.BytesRead() != c {
				r.Violate("count", "crowd %d: own counts %d %d %d instead of %d %d %d", i, rd.BytesRead(), ww.BytesWritten(), rs.BytesRead(), a, b, c)
			}
		}()
	}
	close(start)
	wg.Wait()
	r.EvalN(20)
	if got := atomic.LoadInt64(&counter); got != atomic.LoadInt64(&moved) {
		r.Violate("shared", "crowd %d: the shared counter says %d after %d bytes", i, got, moved)
	}
	if got := shared.BytesRead(); got != atomic.LoadInt64(&viaShared) {
		r.Violate("shared", "crowd %d: concurrent positioned reads counted %d of %d bytes", i, got, viaShared)
	}
	r.Count("crowds", 1)
}

func main() {
	mon.Main("C32", "conversions, each over all small or boundary and random values, and sequences of transfers with their outcomes", func(r *mon.Run) {
		r.Parallel(len(conversions), 0, func(i int) { convert(r, i) })
		r.Parallel(r.N(3000, 60000), 0, func(i int) { transfers(r, i) })
		r.Parallel(r.N(300, 6000), 3, func(i int) { crowd(r, i) })
		r.Need("values refused", 100000)
		r.Need("values converted", 1000000)
		r.Need("transfers", 50000)
		r.Need("crowds", 100)
	})
}
