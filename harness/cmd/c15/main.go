// C15: storage locks exclude each other, across threads, processes and deaths.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/sys/unix"

	"github.com/NVIDIA/vdisc/pkg/storage"

	"vdiscverif/mon"
)

// hold is the time one lock was certainly held: from just after it was
// obtained to just before it was given back, on the system-wide clock.
type hold struct {
	Path string
	Excl bool
	A, B int64
	Who  string
}

func now() int64 {
	var ts unix.Timespec
	unix.ClockGettime(unix.CLOCK_MONOTONIC, &ts)
	return ts.Nano()
}

type conf struct {
	Dir     string
	Paths   int
	Threads int
	Rounds  int
	Seed    int64
	Who     string
}

func name(dir string, k int) string {
	switch k % 3 {
	case 1:
		return "file://" + filepath.Join(dir, "sub", fmt.Sprintf("lock%d", k))
	case 2:
		return filepath.Join(dir, fmt.Sprintf(".lock.%d", k))
	}
	return filepath.Join(dir, fmt.Sprintf("lock%d", k))
}

func lock(path string, excl bool) (io.Closer, error) {
	if excl {
		return storage.Lock(path)
	}
	return storage.RLock(path)
}

func work(c *conf, tick func()) (out []hold, err error) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	for t := 0; t < c.Threads; t++ {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(c.Seed + int64(t)))
			for k := 0; k < c.Rounds; k++ {
				p := name(c.Dir, rng.Intn(c.Paths))
				excl := rng.Intn(2) == 0
				l, e := lock(p, excl)
				a := now()
				if e != nil {
					mu.Lock()
					err = fmt.Errorf("lock %s: %v", p, e)
					mu.Unlock()
					return
				}
				if rng.Intn(3) > 0 {
					time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
				}
				b := now()
				if e := l.Close(); e != nil {
					mu.Lock()
					err = fmt.Errorf("unlock %s: %v", p, e)
					mu.Unlock()
					return
				}
				tick()
				mu.Lock()
				out = append(out, hold{p, excl, a, b, fmt.Sprintf("%s thread %d", c.Who, t)})
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return
}

func main() {
	mon.Child("work", func(args []string) {
		var c conf
		json.Unmarshal([]byte(args[0]), &c)
		hs, err := work(&c, func() {})
		if err != nil {
			fmt.Println("error", err)
			os.Exit(4)
		}
		json.NewEncoder(os.Stdout).Encode(hs)
	})
	// hold: take a lock, say so, keep it until told to end or killed
	mon.Child("hold", func(args []string) {
		l, err := lock(args[0], args[1] == "x")
		if err != nil {
			fmt.Println("error", err)
			os.Exit(4)
		}
		fmt.Println("held", now())
		bufio.NewReader(os.Stdin).ReadString('\n')
		fmt.Println("releasing", now())
		l.Close()
	})
	mon.Main("C15", "distinct (kind of lock, kind of the one held before, same or other process) successions on one address, deaths of holders, and groups of shared holders", func(r *mon.Run) {
		for i := 0; i < r.N(30, 400) && !r.Failed(); i++ {
			contention(r, i)
		}
		for i := 0; i < r.N(40, 400) && !r.Failed(); i++ {
			death(r, i)
		}
		for i := 0; i < r.N(6, 60) && !r.Failed(); i++ {
			shared(r, i)
		}
		r.Need("locks held", 3000)
		r.Need("successions between processes", 200)
		r.Need("holders killed", 20)
		r.Need("groups of shared holders", 4)
		r.Assume("lock files are not removed while in use")
	})
}

func contention(r *mon.Run, i int) {
	rng := r.Rng("contention", i)
	c := conf{Dir: r.Dir(fmt.Sprintf("c%d", i)), Paths: 1 + rng.Intn(3), Threads: 1 + rng.Intn(6), Rounds: 30, Who: "process 0"}
	defer os.RemoveAll(c.Dir)
	procs := 1 + rng.Intn(4)
	var mu sync.Mutex
	var all []hold
	var wg sync.WaitGroup
	for p := 0; p < procs; p++ {
		cp := c
		cp.Seed = rng.Int63n(1 << 40)
		cp.Who = fmt.Sprintf("process %d", p)
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			var hs []hold
			if p == 0 {
				var err error
				hs, err = work(&cp, r.Tick)
				if err != nil {
					r.Violate("error", "contention %d: %v", i, err)
				}
			} else {
				b, _ := json.Marshal(&cp)
				out, err := mon.Command("work", string(b)).Output()
				if err != nil || json.Unmarshal(out, &hs) != nil {
					r.Violate("error", "contention %d: a process failed: %v %s", i, err, mon.Trunc(string(out), 300))
					return
				}
			}
			mu.Lock()
			all = append(all, hs...)
			mu.Unlock()
		}()
	}
	wg.Wait()
	byPath := map[string][]hold{}
	for _, h := range all {
		byPath[h.Path] = append(byPath[h.Path], h)
	}
	for p, hs := range byPath {
		sort.Slice(hs, func(a, b int) bool { return hs[a].A < hs[b].A })
		// the latest end of an exclusive hold and of any hold so far
		var lastX, last hold
		for k, h := range hs {
			r.Eval()
			r.Count("locks held", 1)
			if k > 0 {
				if h.Excl && h.A < last.B {
					r.Violate("excluded", "contention %d: %s was held by %s (exclusive: %v) from %d to %d and by %s (exclusive) from %d to %d", i, p, last.Who, last.Excl, last.A, last.B, h.Who, h.A, h.B)
					return
				}
				if h.A < lastX.B {
					r.Violate("excluded", "contention %d: %s was held by %s (exclusive) from %d to %d and by %s (exclusive: %v) from %d to %d", i, p, lastX.Who, lastX.A, lastX.B, h.Who, h.Excl, h.A, h.B)
					return
				}
				same := hs[k-1].Who[:9] == h.Who[:9]
				if !same {
					r.Count("successions between processes", 1)
				}
				if !h.Excl && h.A < last.B {
					r.Count("shared locks held together", 1)
				}
				r.Distinct("main", fmt.Sprintf("%v after %v, same process %v, overlapping %v", h.Excl, hs[k-1].Excl, same, h.A < last.B))
			}
			if h.B > last.B {
				last = h
			}
			if h.Excl && h.B > lastX.B {
				lastX = h
			}
		}
	}
	if i < 3 {
		r.Sample("contention %d: %d processes of %d threads on %d addresses, %d locks held", i, procs, c.Threads, c.Paths, len(all))
	}
}

type holder struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startHolder(r *mon.Run, path string, excl bool) *holder {
	k := "s"
	if excl {
		k = "x"
	}
	h := &holder{cmd: mon.Command("hold", path, k)}
	h.in, _ = h.cmd.StdinPipe()
	o, _ := h.cmd.StdoutPipe()
	h.out = bufio.NewReader(o)
	if err := h.cmd.Start(); err != nil {
		r.Inconclusive("%v", err)
		return nil
	}
	return h
}

// death: the process holding a lock is killed while others wait for it.
func death(r *mon.Run, i int) {
	rng := r.Rng("death", i)
	dir := r.Dir(fmt.Sprintf("d%d", i))
	defer os.RemoveAll(dir)
	p := name(dir, i)
	hx := rng.Intn(3) > 0
	defer r.Begin("death %d of a holder (exclusive %v): waiting for the lock", i, hx)()
	h := startHolder(r, p, hx)
	if h == nil {
		return
	}
	if _, err := h.out.ReadString('\n'); err != nil {
		r.Inconclusive("holder: %v", err)
		return
	}
	var wg sync.WaitGroup
	var ended int64 // when the kill began
	for k := 0; k < 1+rng.Intn(4); k++ {
		excl := hx && rng.Intn(2) == 0 || !hx
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			var a int64
			if k%2 == 0 {
				l, err := lock(p, excl)
				a = now()
				if err != nil {
					r.Violate("death", "death %d: waiting locker failed: %v", i, err)
					return
				}
				defer l.Close()
			} else {
				w := startHolder(r, p, excl)
				if w == nil {
					return
				}
				line, err := w.out.ReadString('\n')
				if _, e := fmt.Sscanf(line, "held %d", &a); e != nil {
					r.Violate("death", "death %d: waiting process: %q %v", i, line, err)
				}
				w.in.Write([]byte("\n"))
				w.out.ReadString('\n')
				w.cmd.Wait()
			}
			r.Eval()
			if e := atomic.LoadInt64(&ended); e == 0 || a < e {
				r.Violate("excluded", "death %d: %s was obtained (exclusive %v) while another process held it (exclusive %v)", i, p, excl, hx)
			}
			r.Count("locks obtained after a death", 1)
		}()
	}
	time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
	atomic.StoreInt64(&ended, now())
	if rng.Intn(5) == 0 {
		h.in.Write([]byte("\n"))
	} else {
		h.cmd.Process.Kill()
		r.Count("holders killed", 1)
	}
	wg.Wait()
	h.cmd.Wait()
	r.Distinct("main", fmt.Sprintf("death %v", hx))
}

// shared: several shared holders in threads and processes at the same time,
// and an exclusive one that gets its turn once they are gone.
func shared(r *mon.Run, i int) {
	dir := r.Dir(fmt.Sprintf("s%d", i))
	defer os.RemoveAll(dir)
	p := name(dir, i)
	defer r.Begin("shared holders %d: waiting until all hold the lock", i)()
	var hs []*holder
	var cs []io.Closer
	for k := 0; k < 3; k++ {
		l, err := storage.RLock(p)
		if err != nil {
			r.Violate("shared", "%v", err)
			return
		}
		cs = append(cs, l)
		h := startHolder(r, p, false)
		if h == nil {
			return
		}
		if line, err := h.out.ReadString('\n'); err != nil || len(line) < 4 || line[:4] != "held" {
			r.Violate("shared", "a shared lock could not be obtained: %q %v", line, err)
		}
		hs = append(hs, h)
		r.Tick()
	}
	r.Eval()
	r.Count("groups of shared holders", 1)
	var freed int32
	done := make(chan struct{})
	go func() {
		l, err := storage.Lock(p)
		if err != nil {
			r.Violate("shared", "%v", err)
		} else {
			if atomic.LoadInt32(&freed) == 0 {
				r.Violate("excluded", "shared %d: an exclusive lock was obtained while others held shared ones", i)
			}
			l.Close()
		}
		close(done)
	}()
	time.Sleep(20 * time.Millisecond)
	for _, h := range hs {
		h.in.Write([]byte("\n"))
		h.cmd.Wait()
	}
	for k, c := range cs {
		if k == len(cs)-1 {
			atomic.StoreInt32(&freed, 1)
		}
		c.Close()
	}
	<-done
	r.Distinct("main", "shared")
}
