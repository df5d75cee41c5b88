// C24: the block device answers every command exactly once.
package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/tnarg/go-tcmu"

	"github.com/NVIDIA/vdisc/pkg/blockdev"
	"github.com/NVIDIA/vdisc/pkg/vdisc"

	"vdiscverif/mon"
)

// newHandler makes a device's command handler; nil where it is out of reach.
var newHandler func(r io.ReaderAt) tcmu.SCSICmdHandler

// set gives a field of a library structure a value, whatever its name is
// visible as.
func set(s interface{}, field string, v interface{}) {
	f := reflect.ValueOf(s).Elem().FieldByName(field)
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
}

type rsp struct {
	id     uint16
	status byte
	sense  string
}

func open(x tcmu.SCSIResponse) rsp {
	v := reflect.ValueOf(x)
	return rsp{uint16(v.FieldByName("id").Uint()), byte(v.FieldByName("status").Uint()), string(v.FieldByName("senseBuffer").Bytes())}
}

// world observes one pool.
type world struct {
	r    *mon.Run
	what string
	size int
	bsz  int

	mu      sync.Mutex
	active  map[*byte]uint64 // buffers in use
	handled map[uint64]int   // by command
	now     int
	most    int
	closed  bool // Close has returned
	late    int
	order   uint64
}

func (w *world) violate(key, format string, a ...interface{}) {
	w.r.Violate(key, "%s: %s", w.what, fmt.Sprintf(format, a...))
}

type device struct {
	w     *world
	n     int
	in    chan *tcmu.SCSICmd
	out   chan tcmu.SCSIResponse
	mode  int
	jit   *mon.Jitter
	slow  map[int]bool
	hold  int32 // commands that take seconds
	ids   map[*tcmu.SCSICmd]uint64
	idsMu sync.Mutex

	mu      sync.Mutex
	queued  map[uint64]bool
	answers map[uint64]int
	wrong   []string
	ended   bool
}

func (d *device) id(cmd *tcmu.SCSICmd) (uint64, bool) {
	d.idsMu.Lock()
	defer d.idsMu.Unlock()
	x, ok := d.ids[cmd]
	return x, ok
}

func payload(id uint64) []byte {
	b := make([]byte, 16)
	binary.LittleEndian.PutUint64(b, id)
	binary.LittleEndian.PutUint64(b[8:], id*0x9e3779b97f4a7c15)
	return b
}

func (d *device) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse, error) {
	w := d.w
	id, ok := d.id(cmd)
	if !ok {
		w.violate("foreign-command", "device %d was given a command of another device or none", d.n)
	}
	buf := cmd.Buf
	var key *byte
	w.mu.Lock()
	if w.closed {
		w.late++
	}
	w.handled[id]++
	w.now++
	if w.now > w.most {
		w.most = w.now
	}
	if w.now > w.size {
		w.mu.Unlock()
		w.violate("pool-size", "%d commands handled at once by a pool of %d", w.now, w.size)
		w.mu.Lock()
	}
	if len(buf) < w.bsz {
		w.mu.Unlock()
		w.violate("buffer-size", "buffer of %d bytes instead of %d", len(buf), w.bsz)
		w.mu.Lock()
	}
	if len(buf) > 0 {
		key = &buf[0]
		if other, used := w.active[key]; used {
			w.mu.Unlock()
			w.violate("buffer-shared", "commands %d and %d were given the same buffer", other, id)
			w.mu.Lock()
		}
		w.active[key] = id
	}
	w.order = w.order*1000003 + id
	w.mu.Unlock()

	for i := range buf {
		buf[i] = byte(id) + byte(i)
	}
	d.delay(id)
	for i := range buf {
		if buf[i] != byte(id)+byte(i) {
			w.violate("buffer-overwritten", "the buffer of command %d was changed while it was handled", id)
			break
		}
	}
	w.mu.Lock()
	if key != nil {
		delete(w.active, key)
	}
	w.now--
	w.mu.Unlock()
	if d.mode&1 != 0 && id%7 == 3 {
		cmd.Buf = make([]byte, len(buf)+16) // a handler may take a larger buffer
	}
	return cmd.RespondSenseData(byte(id), payload(id)), nil
}

func (d *device) delay(id uint64) {
	switch {
	case atomic.AddInt32(&d.hold, -1) >= 0:
		time.Sleep(6 * time.Second)
	case d.slow[int(id%97)]:
		time.Sleep(time.Duration(1+d.jit.Intn(3000)) * time.Microsecond)
	case d.jit.Intn(4) == 0:
		runtime.Gosched()
	case d.jit.Intn(6) == 0:
		time.Sleep(time.Duration(d.jit.Intn(100)) * time.Microsecond)
	}
}

// collect receives answers until the stream is closed or stop is.
func (d *device) collect(stop chan struct{}, lazy bool) {
	for {
		if lazy && d.jit.Intn(8) == 0 {
			time.Sleep(time.Duration(d.jit.Intn(300)) * time.Microsecond)
		}
		select {
		case x, ok := <-d.out:
			d.mu.Lock()
			if !ok {
				d.ended = true
				d.mu.Unlock()
				return
			}
			o := open(x)
			id := uint64(0)
			if len(o.sense) == 16 {
				id = binary.LittleEndian.Uint64([]byte(o.sense))
			}
			if o.sense != string(payload(id)) || o.status != byte(id) || o.id != uint16(id) {
				d.wrong = append(d.wrong, fmt.Sprintf("%+v", o))
			} else {
				d.answers[id]++
			}
			d.mu.Unlock()
		case <-stop:
			return
		}
	}
}

func workers() int {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	c := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "vdisc/pkg/blockdev.") && !strings.Contains(g, "HandleCommand") {
			c++
		}
	}
	return c
}

var serial uint64

// Pools from this number on are kept busy for seconds.
const stuck = 1 << 20

func pool(r *mon.Run, i int) {
	rng := r.Rng("pool", i)
	w := &world{r: r, what: fmt.Sprintf("pool %d", i), active: map[*byte]uint64{}, handled: map[uint64]int{}}
	w.size = 1 + rng.Intn(4)
	if rng.Intn(3) == 0 {
		w.size = 1 + rng.Intn(24)
	}
	w.bsz = []int{1, 64, 512, 4096}[rng.Intn(4)]
	kind := i % 3 // 0: all streams end, then Close; 1: Close at any point; 2: streams come and go
	nd := 1 + rng.Intn(4)
	per := rng.Intn(60)
	if rng.Intn(4) == 0 {
		per = 200
	}
	held := i >= stuck
	if held {
		kind, per = 0, 30
		if w.size > 4 {
			w.size = 4
		}
	}
	end := r.Begin("%s", w.what)
	defer end()

	p := blockdev.NewCmdPool(w.size, w.bsz)
	stop := make(chan struct{})
	var devs []*device
	var senders, collectors sync.WaitGroup
	total := int64(0)
	quit := make(chan struct{}) // the kernel stops queueing
	start := func(k int) {
		d := &device{w: w, n: k, mode: rng.Intn(4), jit: mon.NewJitter(r.Rng("jitter", i, k)), slow: map[int]bool{}, ids: map[*tcmu.SCSICmd]uint64{}, queued: map[uint64]bool{}, answers: map[uint64]int{}}
		if held && k == 0 {
			d.hold = int32(w.size)
			r.Count("pools busy for seconds", 1)
		}
		for t := rng.Intn(12); t > 0; t-- {
			d.slow[rng.Intn(97)] = true
		}
		d.in = make(chan *tcmu.SCSICmd, rng.Intn(2)*rng.Intn(40))
		d.out = make(chan tcmu.SCSIResponse, rng.Intn(2)*rng.Intn(40))
		devs = append(devs, d)
		if err := p.DevReady(d)(d.in, d.out); err != nil {
			w.violate("ready", "device %d: %v", k, err)
			return
		}
		lazy := rng.Intn(2) == 0
		collectors.Add(1)
		go func() { defer collectors.Done(); d.collect(stop, lazy) }()
		n := per
		if kind == 2 {
			n = rng.Intn(per + 1)
		}
		burst := rng.Intn(2) == 0
		var cmds []*tcmu.SCSICmd
		for c := 0; c < n; c++ {
			id := atomic.AddUint64(&serial, 1)
			cmd := &tcmu.SCSICmd{}
			set(cmd, "id", uint16(id))
			d.ids[cmd] = id
			cmds = append(cmds, cmd)
		}
		senders.Add(1)
		go func() {
			defer senders.Done()
			defer close(d.in)
			for _, cmd := range cmds {
				if !burst && d.jit.Intn(3) == 0 {
					time.Sleep(time.Duration(d.jit.Intn(200)) * time.Microsecond)
				}
				id, _ := d.id(cmd)
				d.mu.Lock()
				d.queued[id] = true
				d.mu.Unlock()
				select {
				case d.in <- cmd:
					atomic.AddInt64(&total, 1)
				case <-quit:
					d.mu.Lock()
					delete(d.queued, id)
					d.mu.Unlock()
					return
				}
			}
		}()
	}
	for k := 0; k < nd; k++ {
		start(k)
		if kind == 2 {
			time.Sleep(time.Duration(rng.Intn(800)) * time.Microsecond)
		}
	}

	if kind != 1 {
		senders.Wait()
		collectors.Wait() // ends when every answer stream has been closed
		for _, d := range devs {
			for id := range d.queued {
				r.Eval()
				if n := d.answers[id]; n != 1 {
					w.violate("answers", "device %d closed its answer stream with %d answers to command %d (pool size %d, %d devices)", d.n, n, id, w.size, nd)
					return
				}
			}
		}
		if err := p.Close(); err != nil {
			w.violate("close", "%v", err)
		}
	} else {
		until := time.Duration(rng.Intn(3000)) * time.Microsecond
		at := int64(rng.Intn(nd*per + 1))
		for t := time.Now(); time.Since(t) < until && atomic.LoadInt64(&total) < at; {
			runtime.Gosched()
		}
		if err := p.Close(); err != nil {
			w.violate("close", "%v", err)
		}
		w.mu.Lock()
		w.closed = true
		w.mu.Unlock()
		r.Count("pools closed with commands under way", 1)
	}
	// closing ends the workers
	w.mu.Lock()
	n := w.now
	w.mu.Unlock()
	if n != 0 {
		w.violate("close-early", "the pool is closed, %d commands are being handled", n)
	}
	if atomic.AddInt64(&running, 0) == 1 {
		left := 0
		for t := 0; t < 2000; t++ {
			if left = workers(); left == 0 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		if left != 0 {
			w.violate("workers-left", "%d goroutines of the pool are left after it was closed", left)
		}
		r.Count("pools seen without workers after closing", 1)
	}
	close(quit)
	senders.Wait()
	if kind == 1 {
		time.Sleep(time.Duration(rng.Intn(2)) * time.Millisecond)
		// answers may still lie in the stream
		for _, d := range devs {
			for len(d.out) > 0 {
				runtime.Gosched()
			}
		}
		close(stop)
		collectors.Wait()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.late > 0 {
		w.violate("late", "%d commands were handled after the pool was closed", w.late)
	}
	got := 0
	for _, d := range devs {
		if len(d.wrong) > 0 {
			w.violate("wrong-answer", "device %d: %s", d.n, d.wrong[0])
			return
		}
		for id, n := range d.answers {
			got++
			if n != 1 || !d.queued[id] {
				w.violate("answers", "device %d: %d answers to command %d (queued to it: %v)", d.n, n, id, d.queued[id])
				return
			}
			if w.handled[id] != 1 {
				w.violate("handled", "command %d was answered and handled %d times", id, w.handled[id])
				return
			}
		}
		for id := range d.queued {
			h, a := w.handled[id], d.answers[id]
			if h > 1 || h != a {
				w.violate("handled", "command %d was handled %d times and answered %d times", id, h, a)
				return
			}
		}
		r.Count("streams closed", map[bool]int64{true: 1}[d.ended])
	}
	r.EvalN(got)
	r.Count("commands answered", int64(got))
	r.Max("handled at once", int64(w.most))
	if w.most == w.size && w.size > 1 {
		r.Count("pools used to their size", 1)
	}
	if got > 1 {
		r.Distinct("main", fmt.Sprintf("%d/%d/%d/%d/%x", kind, w.size, nd, got, w.order))
	}
	if i < 3 {
		r.Sample("%s: size %d, %d devices, %d commands queued, %d answered, at most %d at once", w.what, w.size, nd, total, got, w.most)
	}
}

var running int64

// reads sends read commands through a pool to the handler of a device.
func reads(r *mon.Run, i int) {
	rng := r.Rng("reads", i)
	var leaves []*mon.Leaf
	model := mon.NewModel(func(string) bool { return true })
	for k := 0; k < 1+rng.Intn(6); k++ {
		id := uint64(1 + rng.Intn(3))
		l := &mon.Leaf{Path: fmt.Sprintf("/f%d", k), URL: fmt.Sprintf("vt://src/%d", id), Size: mon.Size(rng, 200000), Src: &mon.VFile{Gen: true, ID: id, Len: 1 << 30}}
		model.Add(l)
		leaves = append(leaves, l)
	}
	what := fmt.Sprintf("device %d", i)
	url, err := mon.Burn(fmt.Sprintf("vt://t/%d.vdsc", i), false, leaves)
	if err != nil {
		r.Violate("burn", "%s: %v", what, err)
		return
	}
	ref, _, err := mon.RefImage(vt.Lookup(url+".isohdr").Data, model)
	if err != nil {
		r.Violate("image", "%s: %v", what, err)
		return
	}
	v, err := vdisc.Load(url, mon.Modes("", 1<<16, 64, 0, 0)[rng.Intn(2)].Cache)
	if err != nil {
		r.Violate("load", "%s: %v", what, err)
		return
	}
	defer v.Close()
	size := v.Image().Size()
	blocks := size / 2048
	failing := int32(0)
	h := newHandler(&failingReader{v.Image(), &failing})
	dev := &tcmu.Device{}
	set(dev, "scsi", &tcmu.SCSIHandler{VolumeName: "v", DataSizes: tcmu.DataSizes{VolumeSize: size, BlockSize: 2048}})

	p := blockdev.NewCmdPool(1+rng.Intn(6), 1<<16)
	in, out := make(chan *tcmu.SCSICmd, 5), make(chan tcmu.SCSIResponse, 5)
	if err := p.DevReady(h)(in, out); err != nil {
		r.Violate("ready", "%s: %v", what, err)
		return
	}
	type sent struct {
		what string
		off  int64
		n    int64
		mem  []byte
		want string // ok, ready or error
	}
	n := 60
	reqs := make([]*sent, n)
	go func() {
		defer close(in)
		for k := 0; k < n; k++ {
			s := &sent{}
			op := []byte{0x28, 0xA8, 0x88}[rng.Intn(3)]
			lba := rng.Int63n(blocks)
			cnt := 1 + rng.Int63n(40)
			if rng.Intn(4) == 0 {
				lba = blocks - 1 - rng.Int63n(3)
				if lba < 0 {
					lba = 0
				}
			}
			s.want = "ok"
			if lba+cnt > blocks {
				if rng.Intn(4) > 0 {
					cnt = blocks - lba
				} else {
					s.want = "error"
				}
			}
			cdb := make([]byte, 16)
			cdb[0] = op
			switch op {
			case 0x28:
				binary.BigEndian.PutUint32(cdb[2:], uint32(lba))
				binary.BigEndian.PutUint16(cdb[7:], uint16(cnt))
			case 0xA8:
				binary.BigEndian.PutUint32(cdb[2:], uint32(lba))
				binary.BigEndian.PutUint32(cdb[6:], uint32(cnt))
			case 0x88:
				binary.BigEndian.PutUint64(cdb[2:], uint64(lba))
				binary.BigEndian.PutUint32(cdb[10:], uint32(cnt))
			}
			s.off, s.n = lba*2048, cnt*2048
			s.what = fmt.Sprintf("read command %#x of %d blocks at %d of %d", op, cnt, lba, blocks)
			s.mem = make([]byte, s.n+64)
			for j := range s.mem {
				s.mem[j] = 0xA7
			}
			// the kernel's memory is in pieces
			var vecs [][]byte
			for rest := s.mem[:s.n:s.n]; len(rest) > 0; {
				m := len(rest)
				if rng.Intn(3) > 0 {
					m = 1 + rng.Intn(m)
				}
				vecs = append(vecs, rest[:m:m])
				rest = rest[m:]
			}
			switch rng.Intn(12) {
			case 0:
				cdb = make([]byte, 16)
				cdb[0] = 0x00 // test unit ready
				s.what, s.n, s.want = "test unit ready", 0, "ready"
			case 1:
				cdb[0] = []byte{0x2A, 0x8A, 0xAA, 0x35, 0x42}[rng.Intn(5)] // writes and others
				s.what, s.n, s.want = fmt.Sprintf("command %#x", cdb[0]), 0, "error"
			}
			cmd := &tcmu.SCSICmd{}
			set(cmd, "id", uint16(k))
			set(cmd, "cdb", cdb)
			set(cmd, "vecs", vecs)
			set(cmd, "device", dev)
			reqs[k] = s
			in <- cmd
		}
	}()
	seen := map[uint16]bool{}
	for x := range out {
		o := open(x)
		r.Eval()
		if int(o.id) >= n || seen[o.id] {
			r.Violate("device-answers", "%s: answer to command %d, seen before: %v", what, o.id, seen[o.id])
			return
		}
		seen[o.id] = true
		s := reqs[o.id]
		if s.want == "error" {
			if o.status == 0 {
				r.Violate("device-accepted", "%s: %s was answered with success", what, s.what)
			}
			r.Count("commands refused", 1)
			continue
		}
		if o.status != 0 {
			r.Violate("device-failed", "%s: %s failed with status %d", what, s.what, o.status)
			continue
		}
		if s.want == "ok" {
			if df := mon.Diff(s.mem[:s.n], ref.Range(s.off, int(s.n))); df != "" {
				r.Violate("device-bytes", "%s: %s: %s", what, s.what, df)
			}
			for _, b := range s.mem[s.n:] {
				if b != 0xA7 {
					r.Violate("device-overrun", "%s: %s wrote behind its memory", what, s.what)
					break
				}
			}
			r.Count("blocks read through the device", s.n/2048)
		}
	}
	if len(seen) != n {
		r.Violate("device-answers", "%s: %d answers to %d commands", what, len(seen), n)
	}
	p.Close()
	// a failing read is answered with an error
	atomic.StoreInt32(&failing, 1)
	cmd := &tcmu.SCSICmd{}
	cdb := make([]byte, 16)
	cdb[0], cdb[8] = 0x28, 1
	set(cmd, "cdb", cdb)
	set(cmd, "vecs", [][]byte{make([]byte, 2048)})
	set(cmd, "device", dev)
	x, err := h.HandleCommand(cmd)
	r.Eval()
	if err != nil || open(x).status == 0 {
		r.Violate("device-fault", "%s: a read that failed was answered with status %d, %v", what, open(x).status, err)
	}
	r.Count("failed reads answered", 1)
	vt.Delete(url)
	vt.Delete(url + ".isohdr")
}

type failingReader struct {
	r    io.ReaderAt
	fail *int32
}

func (f *failingReader) ReadAt(p []byte, off int64) (int, error) {
	if atomic.LoadInt32(f.fail) != 0 {
		return len(p) / 2, mon.ErrInjected
	}
	return f.r.ReadAt(p, off)
}

var vt *mon.VT

func main() {
	mon.Main("C24", "pools that answered at least two commands, told apart by kind of ending, size, devices, answers and the order in which commands were started", func(r *mon.Run) {
		vt = mon.NewVT("vt")
		for k := 1; k < 4; k++ {
			vt.Put(fmt.Sprintf("vt://src/%d", k), &mon.VFile{Gen: true, ID: uint64(k), Len: 1 << 30})
		}
		r.Assume("handlers answer every command (the device's own handler does); the kernel side receives answers until the stream is closed or the pool is")
		// alone, so that goroutines of the pool can be counted
		atomic.StoreInt64(&running, 1)
		n := r.N(400, 4000)
		for i := 0; i < n && !r.Enough(); i++ {
			pool(r, i)
		}
		atomic.StoreInt64(&running, 2)
		r.Parallel(r.N(1600, 30000), 12, func(i int) { pool(r, n+i) })
		r.Parallel(r.N(12, 60), 12, func(i int) { pool(r, stuck+i) })
		if newHandler != nil {
			r.Parallel(r.N(40, 600), 0, func(i int) { reads(r, i) })
			r.Need("blocks read through the device", 1000)
		} else {
			r.Assume("the device's command handler was out of reach; only the pool was observed")
		}
		r.Need("commands answered", 20000)
		r.Need("pools used to their size", 50)
		r.Need("pools closed with commands under way", 100)
		r.Need("pools seen without workers after closing", 100)
	})
}
