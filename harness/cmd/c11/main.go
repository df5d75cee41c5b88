// C11: a crash or a failure while filling the disk cache leaves only valid
// entries and never fails the read.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	_ "github.com/NVIDIA/vdisc/pkg/storage/file"

	"vdiscverif/mon"
)

type conf struct {
	Dir     string
	Case    int
	Bsize   int64
	Sizes   []int64
	Long    int // length of the object addresses
	Window  int
	Threads int
	Seed    int64
	Who     string
	FSize   int64 // file size limit, 0: none
	NoFile  uint64
	Loops   int
	Dead    bool // the source must not be used
}

func (c *conf) sources() []*mon.MemObject {
	var out []*mon.MemObject
	for k, s := range c.Sizes {
		url := fmt.Sprintf("u://c11/%d/%d/", c.Case, k)
		if len(url) < c.Long {
			url += strings.Repeat("x", c.Long-len(url))
		}
		out = append(out, mon.NewMemObject(url, &mon.VFile{Gen: true, ID: uint64(c.Case*16 + k + 1), Len: s}))
	}
	return out
}

// fill reads everything once in random order and judges each read.
func fill(r *mon.Run, c *conf) {
	sl := caching.NewDiskSlicer(c.Dir, c.Bsize)
	for l := 0; l < c.Loops; l++ {
		cache := caching.NewCache(sl, c.Window, 2)
		srcs := c.sources()
		var wg sync.WaitGroup
		for t := 0; t < c.Threads; t++ {
			t := t
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := rand.New(rand.NewSource(c.Seed + int64(t)))
				for _, k := range rng.Perm(len(srcs)) {
					o := cache.WithCaching(srcs[k])
					nb := int((srcs[k].F.Len + c.Bsize - 1) / c.Bsize)
					order := rng.Perm(nb)
					if rng.Intn(2) == 0 {
						for i := range order {
							order[i] = i
						}
					}
					for _, b := range order {
						if !readBlock(r, c, o, srcs[k], int64(b)) {
							return
						}
					}
					o.Close()
				}
			}()
		}
		wg.Wait()
	}
	sl.Wait()
}

func readBlock(r *mon.Run, c *conf, o storage.Object, s *mon.MemObject, b int64) bool {
	r.Eval()
	r.Count("reads", 1)
	off, n := b*c.Bsize, c.Bsize
	if c.Bsize > 2 && b%2 == 1 && (b+1)*c.Bsize <= s.F.Len {
		// a piece of the block needs it just as well
		off += c.Bsize / 3
		n = c.Bsize / 2
	}
	if d := mon.CheckReadAt(o, s.F, s.F.Len, off, int(n)); d != "" {
		r.Violate("read", "case %d, %s, block %d: %s", c.Case, c.Who, b, d)
		return false
	}
	return true
}

// stored reads every block with a source that refuses to be read: whatever is
// delivered comes from the cache. It returns how many blocks were stored.
func stored(r *mon.Run, c *conf, who string) (have, total int) {
	sl := caching.NewDiskSlicer(c.Dir, c.Bsize)
	cache := caching.NewCache(sl, 0, 0)
	for _, s := range c.sources() {
		s.Hook = func(op mon.Op) error { return mon.ErrInjected }
		o := cache.WithCaching(s)
		for b := int64(0); b*c.Bsize < s.F.Len; b++ {
			total++
			r.Eval()
			want := s.F.Range(b*c.Bsize, int(c.Bsize))
			p := make([]byte, len(want))
			n, err := o.ReadAt(p, b*c.Bsize)
			if n == 0 && err != nil {
				continue
			}
			if d := mon.Diff(p[:n], want); d != "" {
				r.Violate("entry", "case %d, %s: the stored block %d of an object of %d gives %s (%v)", c.Case, who, b, s.F.Len, d, err)
				return
			}
			have++
		}
		o.Close()
	}
	sl.Wait()
	return
}

func main() {
	mon.Child("fill", func(args []string) {
		var c conf
		if err := json.Unmarshal([]byte(args[0]), &c); err != nil {
			panic(err)
		}
		if c.FSize > 0 {
			signal.Ignore(syscall.SIGXFSZ)
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(c.FSize), Max: uint64(c.FSize)})
		}
		r := mon.ChildRun("C11", c.Seed)
		fill(r, &c)
		r.Report()
	})
	mon.Main("C11", "distinct (failure or kill kind, point, share of blocks stored afterwards) cache directories left behind and examined", func(r *mon.Run) {
		ok := straceWorks(r)
		r.Parallel(r.N(60, 900), 4, func(i int) { kill(r, i) })
		n := len(failures)
		r.Parallel(n*r.N(3, 30), 4, func(i int) { failing(r, failures[i%n], i) })
		if ok {
			calls := []string{"openat", "flock", "write", "fsetxattr", "fsync", "rename,renameat,renameat2", "unlinkat", "close", "fgetxattr", "mkdirat"}
			reps := r.N(4, 16)
			r.Parallel(len(calls)*reps, 4, func(i int) { straceKill(r, calls[i%len(calls)], 1+i/len(calls), i) })
			errs := []string{"fsetxattr:error=ENOSPC", "fsetxattr:error=EOPNOTSUPP", "fsync:error=EIO", "rename,renameat,renameat2:error=EIO", "unlinkat:error=EACCES", "flock:error=ENOLCK", "fgetxattr:error=EIO"}
			r.Parallel(len(errs)*r.N(2, 8), 4, func(i int) { straceFail(r, errs[i%len(errs)], i) })
			r.Count("cases with traced system calls", int64(len(calls)*reps+len(errs)))
		} else {
			r.Assume("system call tracing was not available; kills were placed by time and failures by limits, permissions and obstacles only")
		}
		r.Need("processes killed", 20)
		r.Need("entries found after kills", 20)
		r.Need("blocks missing after kills", 20)
		r.Need("failing cases", 10)
		r.Need("reads", 1000)
	})
}

func straceWorks(r *mon.Run) bool {
	p, err := exec.LookPath("strace")
	if err != nil {
		return false
	}
	out, err := exec.Command(p, "-f", "-o", "/dev/null", "-e", "trace=fsync", "-e", "inject=fsync:error=EIO", "/bin/echo", "hello").CombinedOutput()
	return err == nil && strings.Contains(string(out), "hello")
}

func newConf(r *mon.Run, rng *rand.Rand, i int, name string) *conf {
	c := &conf{
		Dir: r.Dir(name), Case: i, Bsize: []int64{512, 4096, 1 << 16, 1 << 20}[rng.Intn(4)],
		Window: rng.Intn(3), Threads: 1 + rng.Intn(3), Seed: rng.Int63n(1 << 40), Who: "filling", Loops: 1,
	}
	for k := 0; k < 1+rng.Intn(3); k++ {
		c.Sizes = append(c.Sizes, c.Bsize*int64(1+rng.Intn(6))-rng.Int63n(c.Bsize))
	}
	return c
}

func (c *conf) json() string {
	b, _ := json.Marshal(c)
	return string(b)
}

// after examines what a killed or failing process left behind.
func after(r *mon.Run, c *conf, what string) (have, total int) {
	sl := caching.NewDiskSlicer(c.Dir, c.Bsize)
	if _, err := os.Stat(filepath.Join(c.Dir, "v0")); err == nil {
		if err := sl.CheckIntegrity(); err != nil {
			r.Violate("integrity", "case %d, after %s: the integrity check failed: %v", c.Case, what, err)
			return
		}
	}
	have, total = stored(r, c, "after "+what)
	return
}

// refill checks that others can use and complete the cache.
func refill(r *mon.Run, c *conf, what string) {
	cp := *c
	cp.Who, cp.FSize, cp.Seed = "refilling after "+what, 0, c.Seed+5
	if c.Seed%3 == 0 {
		r.RunChild(fmt.Sprintf("case %d refilling", c.Case), "fill", cp.json())
	} else {
		fill(r, &cp)
	}
	if r.Failed() {
		return
	}
	have, total := stored(r, &cp, "after refilling")
	if have != total {
		r.Violate("refill", "case %d: after %s and a full pass by another process only %d of %d blocks are stored", c.Case, what, have, total)
	}
	if err := caching.NewDiskSlicer(c.Dir, c.Bsize).CheckIntegrity(); err != nil {
		r.Violate("integrity", "case %d, after refilling: %v", c.Case, err)
	}
}

func kill(r *mon.Run, i int) {
	rng := r.Rng("kill", i)
	c := newConf(r, rng, i, fmt.Sprintf("k%d", i))
	defer os.RemoveAll(c.Dir)
	defer r.Begin("kill case %d", i)()
	n := 1 + rng.Intn(3)
	for k := 0; k < n; k++ {
		c.Seed = rng.Int63n(1 << 40)
		cmd := mon.Command("fill", c.json())
		if err := cmd.Start(); err != nil {
			r.Inconclusive("start: %v", err)
			return
		}
		// wait for the first sign of life in the directory, then a little
		done := make(chan struct{})
		go func() { cmd.Wait(); close(done) }()
		for w := 0; w < 4000; w++ {
			if fs, _ := ioutil.ReadDir(filepath.Join(c.Dir, "v0")); len(fs) > 0 {
				break
			}
			time.Sleep(100 * time.Microsecond)
		}
		time.Sleep(time.Duration(rng.Int63n(int64(8 * time.Millisecond))))
		cmd.Process.Kill()
		<-done
		if !cmd.ProcessState.Success() {
			r.Count("processes killed", 1)
		}
		have, total := after(r, c, "a kill")
		r.Count("entries found after kills", int64(have))
		r.Count("blocks missing after kills", int64(total-have))
		r.Distinct("main", fmt.Sprintf("kill %d %d/%d", c.Bsize, have, total))
		if r.Failed() {
			return
		}
	}
	refill(r, c, "kills")
	if i < 2 {
		r.Sample("kill case %d: blocks of %d, objects %v, %d kills", i, c.Bsize, c.Sizes, n)
	}
}

var failures = []string{"tag", "write", "create", "rename", "nodir", "lockdir", "readonly"}

// failing makes storing impossible in some way; every read must still succeed.
func failing(r *mon.Run, kind string, i int) {
	rng := r.Rng("failing", i)
	c := newConf(r, rng, 10000+i, fmt.Sprintf("f%d", i))
	defer os.RemoveAll(c.Dir)
	defer r.Begin("failing case %d %s", i, kind)()
	c.Loops = 2
	c.Who = "storing fails: " + kind
	var undo func()
	run := func() { r.RunChild(fmt.Sprintf("failing case %d (%s)", i, kind), "fill", c.json()) }
	switch kind {
	case "tag":
		// the address does not fit into an attribute
		c.Long = 70000
		c.Sizes = c.Sizes[:1]
		run()
	case "write":
		c.FSize = 1 + rng.Int63n(c.Bsize-1)
		run()
	case "rename", "create":
		// fill normally, then put something in the way of some entries
		fill(r, c)
		es := entries(c.Dir)
		for k, e := range es {
			if k%2 == 0 {
				os.Remove(e)
				os.Mkdir(e, 0755)
				if kind == "create" {
					ioutil.WriteFile(filepath.Join(e, "x"), nil, 0644)
				}
			}
		}
		undo = func() {
			for _, e := range es {
				if fi, err := os.Stat(e); err == nil && fi.IsDir() {
					os.RemoveAll(e)
				}
			}
		}
		run()
	case "nodir":
		// a file where the directory of the entries should be
		ioutil.WriteFile(filepath.Join(c.Dir, "v0"), []byte("x"), 0644)
		undo = func() { os.Remove(filepath.Join(c.Dir, "v0")) }
		run()
	case "lockdir":
		// lock files cannot be made: their names are taken by directories
		fill(r, c)
		var made []string
		for _, e := range entries(c.Dir) {
			l := filepath.Join(filepath.Dir(e), ".lock."+filepath.Base(e))
			os.Remove(e)
			os.Remove(l)
			os.MkdirAll(filepath.Join(l, "x"), 0755)
			made = append(made, l)
		}
		undo = func() {
			for _, l := range made {
				os.RemoveAll(l)
			}
		}
		run()
	case "readonly":
		// an unprivileged process that may read the cache but not write it
		fill(r, c)
		for k, e := range entries(c.Dir) {
			if k%2 == 0 {
				os.Remove(e)
			}
		}
		self, err := os.Executable()
		if err != nil {
			return
		}
		// the program must be reachable for the other user
		tmp, err := ioutil.TempDir("", "verif.c11.")
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer os.RemoveAll(tmp)
		os.Chmod(tmp, 0755)
		exe := filepath.Join(tmp, "prog")
		if out, err := exec.Command("cp", self, exe).CombinedOutput(); err != nil {
			r.Inconclusive("%s", out)
			return
		}
		os.Chmod(exe, 0755)
		exec.Command("cp", "-a", c.Dir, filepath.Join(tmp, "cache")).Run()
		exec.Command("chmod", "-R", "a+rX,a-w", filepath.Join(tmp, "cache")).Run()
		cp := *c
		cp.Dir = filepath.Join(tmp, "cache")
		cmd := exec.Command(exe, "-child", "fill", "--", cp.json())
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0")
		out, err := cmd.Output()
		if !r.Merge(fmt.Sprintf("failing case %d (%s)", i, kind), out) {
			r.Count("unprivileged runs without an answer", 1)
		} else {
			r.Count("unprivileged runs", 1)
		}
	}
	r.Count("failing cases", 1)
	if r.Failed() {
		return
	}
	if kind != "nodir" {
		have, total := after(r, c, "failing to store ("+kind+")")
		r.Distinct("main", fmt.Sprintf("%s %d %d/%d", kind, c.Bsize, have, total))
		if kind == "tag" && have != 0 {
			r.Violate("tag", "failing case %d: %d blocks count as stored although they could not be tagged", i, have)
		}
	}
	if undo != nil {
		undo()
	}
	if kind != "tag" && !r.Failed() {
		refill(r, c, "failing to store ("+kind+")")
	}
}

func entries(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && !strings.HasPrefix(fi.Name(), ".") {
			out = append(out, p)
		}
		return nil
	})
	return out
}

func traced(inject string, c *conf) (*exec.Cmd, string) {
	base := mon.Command("fill", c.json())
	log := c.Dir + ".trace"
	calls := strings.SplitN(inject, ":", 2)[0]
	args := append([]string{"-f", "-qq", "-o", log, "-e", "trace=" + calls, "-e", "inject=" + inject}, base.Args...)
	return exec.Command("strace", args...), log
}

func straceKill(r *mon.Run, call string, when int, i int) {
	rng := r.Rng("straceKill", i)
	c := newConf(r, rng, 20000+i, fmt.Sprintf("s%d", i))
	if rng.Intn(2) == 0 {
		fillSome(r, c, rng)
	}
	defer os.RemoveAll(c.Dir)
	// the Go runtime makes some of these calls at start; go past them
	if call == "openat" || call == "close" || call == "write" {
		when += rng.Intn(12)
	}
	defer r.Begin("kill at %s %d", call, when)()
	cmd, log := traced(fmt.Sprintf("%s:signal=KILL:when=%d", call, when), c)
	defer os.Remove(log)
	err := cmd.Run()
	r.Tick()
	if err != nil {
		r.Count("processes killed", 1)
		r.Count("processes killed at a chosen system call", 1)
	}
	have, total := after(r, c, fmt.Sprintf("a kill at %s number %d", call, when))
	r.Count("entries found after kills", int64(have))
	r.Count("blocks missing after kills", int64(total-have))
	r.Distinct("main", fmt.Sprintf("kill at %s %d: %d/%d", call, when, have, total))
	if !r.Failed() {
		refill(r, c, fmt.Sprintf("a kill at %s number %d", call, when))
	}
}

// fillSome stores a few blocks beforehand.
func fillSome(r *mon.Run, c *conf, rng *rand.Rand) {
	fill(r, c)
	for _, e := range entries(c.Dir) {
		if rng.Intn(2) == 0 {
			os.Remove(e)
		}
	}
}

func straceFail(r *mon.Run, inject string, i int) {
	rng := r.Rng("straceFail", i)
	c := newConf(r, rng, 30000+i, fmt.Sprintf("t%d", i))
	c.Loops = 2
	c.Who = "with " + inject
	fillSome(r, c, rng)
	defer os.RemoveAll(c.Dir)
	defer r.Begin("failing %s", inject)()
	cmd, log := traced(inject, c)
	defer os.Remove(log)
	out, _ := cmd.Output()
	r.Tick()
	if !r.Merge("case with "+inject, out) {
		r.Count("traced runs without an answer", 1)
		return
	}
	r.Count("failing cases", 1)
	have, total := after(r, c, inject)
	r.Distinct("main", fmt.Sprintf("%s: %d/%d", inject, have, total))
	if !r.Failed() {
		refill(r, c, inject)
	}
}
