// C14: object writes are all-or-nothing.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	filedriver "github.com/NVIDIA/vdisc/pkg/storage/file"
	ramdriver "github.com/NVIDIA/vdisc/pkg/storage/ram"

	"vdiscverif/mon"
)

type drv interface {
	driver.Driver
	driver.Creator
	driver.Remover
}

// version makes content that says by itself which version it is and whether
// it is complete.
func version(id uint64, n int) []byte {
	b := mon.Bytes(id, 0, n+16)
	binary.LittleEndian.PutUint64(b, id)
	binary.LittleEndian.PutUint64(b[8:], uint64(n))
	return b
}

func identify(b []byte) (uint64, string) {
	if len(b) < 16 {
		return 0, fmt.Sprintf("only %d bytes", len(b))
	}
	id := binary.LittleEndian.Uint64(b)
	n := binary.LittleEndian.Uint64(b[8:])
	if n > 1<<26 {
		return 0, "no version header"
	}
	if d := mon.Diff(b, version(id, int(n))); d != "" {
		return 0, fmt.Sprintf("not the complete version %d: %s", id, d)
	}
	return id, ""
}

func readAll(d driver.Driver, url string) ([]byte, error) {
	o, err := d.Open(context.Background(), url, -1)
	if err != nil {
		return nil, err
	}
	defer o.Close()
	var out bytes.Buffer
	if _, err := io.Copy(&out, o); err != nil {
		return nil, err
	}
	if int64(out.Len()) != o.Size() {
		return nil, fmt.Errorf("size says %d but %d bytes came", o.Size(), out.Len())
	}
	return out.Bytes(), nil
}

func main() {
	mon.Child("write", childWrite)
	mon.Child("limited", childLimited)
	mon.Main("C14", "distinct (driver, operation, writer state, earlier content) steps, concurrent register reads and kill outcomes judged", func(r *mon.Run) {
		r.Parallel(r.N(300, 6000), 6, func(i int) { history(r, i) })
		for i := 0; i < r.N(60, 500) && !r.Failed(); i++ {
			register(r, i)
		}
		r.Parallel(r.N(60, 800), 4, func(i int) { kill(r, i) })
		r.Parallel(r.N(12, 100), 4, func(i int) { obstacles(r, i) })
		r.Parallel(r.N(16, 200), 4, func(i int) { durable(r, i) })
		dataURL(r)
		r.Need("history steps", 5000)
		r.Need("commits", 500)
		r.Need("aborts", 500)
		r.Need("concurrent reads", 300)
		r.Need("different versions seen by concurrent readers", 50)
		r.Need("processes killed", 30)
		r.Need("kills with a commit or write under way", 5)
		r.Need("failed commits or writes", 10)
		r.Assume("writers are not used again after they committed or aborted, except to commit or abort once more")
	})
}

type wr struct {
	w     driver.ObjectWriter
	addr  int
	data  []byte
	state string // open, committed, aborted
}

func newDriver(r *mon.Run, kind int, name string) (drv, string, func()) {
	if kind == 0 {
		dir := r.Dir(name)
		return &filedriver.Driver{}, dir, func() { os.RemoveAll(dir) }
	}
	return ramdriver.NewDriver(), "ram://", func() {}
}

func history(r *mon.Run, i int) {
	rng := r.Rng("history", i)
	kind := i % 2
	kn := []string{"file", "ram"}[kind]
	d, base, done := newDriver(r, kind, fmt.Sprintf("h%d", i))
	defer done()
	defer r.Begin("history %d on the %s driver", i, kn)()
	ctx := context.Background()
	paths := []string{"/a", "/b", "/dir/a", "/dir/sub/deep", "/with%20blank"}
	urls := make([]string, len(paths))
	for k, p := range paths {
		urls[k] = base + p
		if kind == 0 && rng.Intn(3) == 0 {
			urls[k] = "file://" + base + p
		}
	}
	model := map[int][]byte{}
	var log []string
	var ws []*wr
	check := func() bool {
		for k, u := range urls {
			want, ok := model[k]
			got, err := readAll(d, u)
			fi, serr := d.Stat(ctx, u)
			if !ok {
				if err == nil || serr == nil {
					r.Violate("visible", "history %d on the %s driver: %s exists (%d bytes) but nothing was committed there\n%s", i, kn, u, len(got), strings.Join(log, "\n"))
					return false
				}
				continue
			}
			if err != nil || serr != nil {
				r.Violate("missing", "history %d on the %s driver: %s cannot be read: %v %v\n%s", i, kn, u, err, serr, strings.Join(log, "\n"))
				return false
			}
			if df := mon.Diff(got, want); df != "" || fi.Size() != int64(len(want)) {
				r.Violate("content", "history %d on the %s driver: %s (stat size %d): %s\n%s", i, kn, u, fi.Size(), df, strings.Join(log, "\n"))
				return false
			}
		}
		return true
	}
	for step := 0; step < 40; step++ {
		r.Eval()
		r.Count("history steps", 1)
		op := rng.Intn(10)
		switch {
		case op < 2 || len(ws) == 0:
			k := rng.Intn(len(urls))
			w, err := d.Create(ctx, urls[k])
			if err != nil {
				r.Violate("create", "history %d: create %s: %v", i, urls[k], err)
				return
			}
			ws = append(ws, &wr{w: w, addr: k, state: "open"})
			log = append(log, fmt.Sprintf("writer %d: create %s", len(ws)-1, urls[k]))
		case op < 3:
			k := rng.Intn(len(urls))
			_, had := model[k]
			err := d.Remove(ctx, urls[k])
			log = append(log, fmt.Sprintf("remove %s: %v", urls[k], err))
			if had != (err == nil) {
				r.Violate("remove", "history %d: remove %s (existing: %v): %v", i, urls[k], had, err)
				return
			}
			delete(model, k)
		default:
			j := rng.Intn(len(ws))
			w := ws[j]
			_, had := model[w.addr]
			switch {
			case op < 7:
				if w.state != "open" {
					continue
				}
				p := mon.Bytes(rng.Uint64(), 0, []int{0, 1, 10, 5000, 70000}[rng.Intn(5)])
				n, err := w.w.Write(p)
				log = append(log, fmt.Sprintf("writer %d: write %d: %d %v", j, len(p), n, err))
				if n != len(p) || err != nil {
					r.Violate("write", "history %d: write %d: %d %v", i, len(p), n, err)
					return
				}
				w.data = append(w.data, p...)
			case op < 8:
				w.w.Abort()
				log = append(log, fmt.Sprintf("writer %d: abort when %s", j, w.state))
				r.Count("aborts", 1)
				r.Distinct("main", fmt.Sprintf("%s abort %s %v", kn, w.state, had))
				if w.state == "open" {
					w.state = "aborted"
				}
			default:
				ci, err := w.w.Commit()
				log = append(log, fmt.Sprintf("writer %d: commit when %s: %v", j, w.state, err))
				r.Distinct("main", fmt.Sprintf("%s commit %s %v %d", kn, w.state, had, len(w.data)))
				switch w.state {
				case "open":
					if err != nil {
						r.Violate("commit", "history %d: commit failed: %v\n%s", i, err, strings.Join(log, "\n"))
						return
					}
					r.Count("commits", 1)
					w.state = "committed"
					model[w.addr] = w.data
					// the reported address names the object
					if got, err := readAll(d, ci.ObjectURL()); !strings.Contains(urls[w.addr], "%") && (err != nil || mon.Diff(got, w.data) != "") {
						r.Violate("address", "history %d: the reported address %s does not give the bytes: %v", i, ci.ObjectURL(), err)
					}
				case "aborted":
					if err == nil {
						r.Violate("commit-after-abort", "history %d on the %s driver: a commit after an abort succeeded\n%s", i, kn, strings.Join(log, "\n"))
						return
					}
				}
			}
		}
		if !check() {
			return
		}
	}
	for _, w := range ws {
		w.w.Abort()
	}
	log = append(log, "abort all writers")
	if !check() || kind != 0 {
		return
	}
	var left []string
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			left = append(left, p)
		}
		return nil
	})
	if len(left) != len(model) {
		r.Violate("leftover", "history %d: %d objects are stored but the files are %q\n%s", i, len(model), left, strings.Join(log, "\n"))
	}
}

// register runs several writers and readers of one address.
func register(r *mon.Run, i int) {
	rng := r.Rng("register", i)
	kind := i % 2
	kn := []string{"file", "ram"}[kind]
	d, base, done := newDriver(r, kind, fmt.Sprintf("r%d", i))
	defer done()
	url := base + "/reg"
	ctx := context.Background()
	type iv struct{ start, end int64 }
	var mu sync.Mutex
	commits := map[uint64]iv{}
	var clock, next int64
	now := func() int64 { return atomic.AddInt64(&clock, 1) }
	type rd struct {
		id         uint64
		start, end int64
	}
	var reads []rd
	write := func(rng *rand.Rand) {
		id := uint64(atomic.AddInt64(&next, 1))
		w, err := d.Create(ctx, url)
		if err != nil {
			r.Violate("create", "%v", err)
			return
		}
		defer w.Abort()
		b := version(id, rng.Intn(60000))
		for len(b) > 0 {
			n := 1 + rng.Intn(len(b))
			if _, err := w.Write(b[:n]); err != nil {
				r.Violate("write", "%v", err)
				return
			}
			b = b[n:]
		}
		if rng.Intn(4) == 0 {
			w.Abort()
			return
		}
		mu.Lock()
		commits[id] = iv{now(), 1 << 60}
		mu.Unlock()
		_, err = w.Commit()
		mu.Lock()
		commits[id] = iv{commits[id].start, now()}
		mu.Unlock()
		if err != nil {
			r.Violate("commit", "%v", err)
		}
	}
	write(rand.New(rand.NewSource(1<<20 + 1)))
	for len(commits) == 0 {
		write(rng)
	}
	var wg sync.WaitGroup
	var stop int32
	for k := 0; k < 3; k++ {
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed))
			for j := 0; j < 25; j++ {
				write(rng)
			}
			atomic.StoreInt32(&stop, 1)
		}()
	}
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 && !r.Failed() {
				s := now()
				b, err := readAll(d, url)
				e := now()
				r.Eval()
				r.Count("concurrent reads", 1)
				if err != nil {
					r.Violate("concurrent", "register %d on the %s driver: a read during commits failed: %v", i, kn, err)
					return
				}
				id, bad := identify(b)
				if bad != "" {
					r.Violate("torn", "register %d on the %s driver: a read during commits gave %s", i, kn, bad)
					return
				}
				mu.Lock()
				reads = append(reads, rd{id, s, e})
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	seen := map[uint64]bool{}
	for _, x := range reads {
		seen[x.id] = true
		c, ok := commits[x.id]
		if !ok || c.start > x.end {
			r.Violate("uncommitted", "register %d on the %s driver: a read saw version %d, which was not being committed", i, kn, x.id)
			return
		}
		for id, o := range commits {
			if o.start > c.end && o.end < x.start {
				r.Violate("stale", "register %d on the %s driver: a read saw version %d after version %d had replaced it", i, kn, x.id, id)
				return
			}
		}
	}
	r.Count("different versions seen by concurrent readers", int64(len(seen)))
	r.Distinct("main", fmt.Sprintf("%s register %d", kn, len(seen)))
}

// childWrite commits versions of one file one after another and says so.
func childWrite(args []string) {
	path, log := args[0], args[1]
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	first, _ := strconv.ParseUint(args[3], 10, 64)
	rng := rand.New(rand.NewSource(seed))
	lf, err := os.OpenFile(log, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
	if err != nil {
		panic(err)
	}
	for id := first; id < first+40; id++ {
		w, err := storage.Create(path)
		if err != nil {
			fmt.Println("create:", err)
			os.Exit(4)
		}
		b := version(id, rng.Intn(1<<uint(10+rng.Intn(12))))
		for len(b) > 0 {
			n := 1 + rng.Intn(len(b))
			if _, err := w.Write(b[:n]); err != nil {
				fmt.Println("write:", err)
				os.Exit(4)
			}
			b = b[n:]
		}
		if rng.Intn(5) == 0 {
			fmt.Fprintf(lf, "abort %d\n", id)
			w.Abort()
			continue
		}
		fmt.Fprintf(lf, "begin %d\n", id)
		if _, err := w.Commit(); err != nil {
			fmt.Println("commit:", err)
			os.Exit(4)
		}
		fmt.Fprintf(lf, "done %d\n", id)
		w.Abort()
	}
}

func kill(r *mon.Run, i int) {
	rng := r.Rng("kill", i)
	dir := r.Dir(fmt.Sprintf("k%d", i))
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "x", "obj")
	log := filepath.Join(dir, "log")
	defer r.Begin("kill %d", i)()
	d := &filedriver.Driver{}
	var last uint64
	next := uint64(1)
	trace := i%2 == 0 && haveStrace()
	for k := 0; k < 3; k++ {
		cmd := mon.Command("write", path, log, fmt.Sprint(rng.Int63n(1<<40)), fmt.Sprint(next))
		how := "by time"
		if trace {
			call := []string{"openat", "write", "fsync", "rename,renameat,renameat2", "unlinkat", "close"}[rng.Intn(6)]
			when := 1 + rng.Intn(8)
			if call == "openat" || call == "write" || call == "close" {
				when += rng.Intn(20)
			}
			how = fmt.Sprintf("at %s %d", call, when)
			args := append([]string{"-f", "-qq", "-o", "/dev/null", "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", call, when)}, cmd.Args...)
			cmd = exec.Command("strace", args...)
			cmd.Run()
		} else {
			cmd.Start()
			done := make(chan struct{})
			go func() { cmd.Wait(); close(done) }()
			for w := 0; w < 3000; w++ {
				if _, err := os.Stat(filepath.Dir(path)); err == nil {
					break
				}
				time.Sleep(100 * time.Microsecond)
			}
			time.Sleep(time.Duration(rng.Int63n(int64(15 * time.Millisecond))))
			cmd.Process.Kill()
			<-done
		}
		r.Tick()
		r.Eval()
		if cmd.ProcessState != nil && !cmd.ProcessState.Success() {
			r.Count("processes killed", 1)
		}
		// what may be there: the last version reported done, or any begun after it
		may := map[uint64]bool{}
		if last != 0 {
			may[last] = true
		}
		begun := false
		lb, _ := ioutil.ReadFile(log)
		os.Remove(log)
		for _, l := range strings.Split(string(lb), "\n") {
			var id uint64
			if _, err := fmt.Sscanf(l, "begin %d", &id); err == nil {
				may[id] = true
				begun = true
			} else if _, err := fmt.Sscanf(l, "done %d", &id); err == nil {
				may = map[uint64]bool{id: true}
				last = id
				begun = false
			}
		}
		if begun {
			r.Count("kills with a commit or write under way", 1)
		}
		if fs, _ := ioutil.ReadDir(filepath.Dir(path)); len(fs) > 1 {
			r.Count("kills with a commit or write under way", 1)
			for _, f := range fs {
				if f.Name() != "obj" {
					os.Remove(filepath.Join(filepath.Dir(path), f.Name()))
				}
			}
		}
		b, err := readAll(d, path)
		if err != nil {
			if len(may) > 0 && last != 0 {
				r.Violate("kill", "kill %d (%s): version %d had been committed but the object cannot be read: %v", i, how, last, err)
				return
			}
			if !os.IsNotExist(err) {
				r.Violate("kill", "kill %d (%s): %v", i, how, err)
				return
			}
			r.Distinct("main", "kill "+how+" nothing")
		} else {
			id, bad := identify(b)
			if bad != "" || !may[id] {
				r.Violate("kill", "kill %d (%s): the object holds version %d (%s), allowed: %v", i, how, id, bad, may)
				return
			}
			r.Distinct("main", fmt.Sprintf("kill %s %v", how, begun))
			last = id
		}
		next += 40
	}
}

var straceOnce sync.Once
var straceOK bool

func haveStrace() bool {
	straceOnce.Do(func() {
		out, err := exec.Command("strace", "-f", "-o", "/dev/null", "-e", "trace=fsync", "-e", "inject=fsync:error=EIO", "/bin/echo", "hello").CombinedOutput()
		straceOK = err == nil && strings.Contains(string(out), "hello")
	})
	return straceOK
}

// childLimited writes a file that does not fit and reports what happened.
func childLimited(args []string) {
	n, _ := strconv.Atoi(args[1])
	lim, _ := strconv.Atoi(args[2])
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(lim), Max: uint64(lim)})
	w, err := storage.Create(args[0])
	if err != nil {
		fmt.Println("create failed")
		return
	}
	b := version(7, n)
	m, err := w.Write(b)
	if err == nil && m == len(b) {
		fmt.Println("write succeeded")
	} else {
		fmt.Println("write failed")
	}
	w.Abort()
}

// obstacles makes a write or a commit fail.
func obstacles(r *mon.Run, i int) {
	rng := r.Rng("obstacles", i)
	dir := r.Dir(fmt.Sprintf("o%d", i))
	defer os.RemoveAll(dir)
	d := &filedriver.Driver{}
	ctx := context.Background()
	put := func(p string, id uint64) {
		w, err := d.Create(ctx, p)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		w.Write(version(id, 5000))
		if _, err := w.Commit(); err != nil {
			r.Inconclusive("%v", err)
		}
		w.Abort()
	}
	same := func(what, p string, id uint64) {
		b, err := readAll(d, p)
		if err != nil {
			r.Violate("failed", "%s: the earlier content is gone: %v", what, err)
			return
		}
		if got, bad := identify(b); got != id {
			r.Violate("failed", "%s: the earlier content changed: version %d %s", what, got, bad)
		}
	}
	r.Eval()
	switch i % 3 {
	case 0: // out of space while writing
		p := filepath.Join(dir, "a")
		put(p, 1)
		n := 10000 + rng.Intn(100000)
		out, _ := mon.Command("limited", p, fmt.Sprint(n), fmt.Sprint(1+rng.Intn(n))).Output()
		if strings.Contains(string(out), "write succeeded") {
			r.Violate("failed", "a write beyond the space was reported as successful")
		}
		if strings.Contains(string(out), "write failed") {
			r.Count("failed commits or writes", 1)
		}
		same("out of space", p, 1)
	case 1: // a directory is in the way
		p := filepath.Join(dir, "b")
		os.MkdirAll(filepath.Join(p, "keep"), 0755)
		put(filepath.Join(p, "keep", "x"), 2)
		w, err := d.Create(ctx, p)
		if err == nil {
			w.Write(version(3, 100))
			_, err = w.Commit()
			w.Abort()
		}
		if err == nil {
			r.Violate("failed", "a commit over a directory succeeded")
		}
		r.Count("failed commits or writes", 1)
		same("directory in the way", filepath.Join(p, "keep", "x"), 2)
	case 2: // the directory vanishes before the commit
		p := filepath.Join(dir, "sub", "c")
		w, err := d.Create(ctx, p)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		w.Write(version(4, 100))
		os.RemoveAll(filepath.Join(dir, "sub"))
		if _, err := w.Commit(); err == nil {
			r.Violate("failed", "a commit into a vanished directory succeeded")
		}
		w.Abort()
		r.Count("failed commits or writes", 1)
		if _, err := d.Stat(ctx, p); err == nil {
			r.Violate("failed", "a failed commit left an object")
		}
	}
	r.Distinct("main", fmt.Sprintf("obstacle %d", i%3))
}

// dataURL checks the driver whose addresses carry their content.
func dataURL(r *mon.Run) {
	rng := r.Rng("data")
	for i := 0; i < r.N(200, 3000) && !r.Failed(); i++ {
		pre := string([]byte{'a' + byte(rng.Intn(26)), 'b'})[:rng.Intn(3)]
		w, err := storage.Create("data:text/plain," + pre)
		if err != nil {
			r.Violate("data", "create: %v", err)
			return
		}
		want := []byte(pre)
		for k := 0; k < rng.Intn(5); k++ {
			b := mon.Bytes(rng.Uint64(), 0, rng.Intn(300))
			if n, err := w.Write(b); n != len(b) || err != nil {
				r.Violate("data", "write: %d %v", n, err)
			}
			want = append(want, b...)
		}
		r.Eval()
		if rng.Intn(4) == 0 {
			w.Abort()
			if _, err := w.Commit(); err == nil {
				r.Violate("commit-after-abort", "data: a commit after an abort succeeded")
			}
			continue
		}
		ci, err := w.Commit()
		if err != nil {
			r.Violate("data", "commit: %v", err)
			return
		}
		w.Abort()
		d, _ := driver.Find("data:")
		if d == nil {
			return
		}
		got, err := readAll(d, ci.ObjectURL())
		if err != nil || mon.Diff(got, want) != "" {
			r.Violate("data", "the address reported for %d bytes gives %v %s", len(want), err, mon.Diff(got, want))
		}
		r.Distinct("main", fmt.Sprintf("data %d %d", len(pre), len(want)/100))
	}
}
