package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	filedriver "github.com/NVIDIA/vdisc/pkg/storage/file"

	"vdiscverif/mon"
)

const durableCalls = "openat,write,pwrite64,writev,pwritev,pwritev2,ftruncate,fallocate,copy_file_range,sendfile,splice,fsetxattr,fsync,fdatasync,sync,syncfs,sync_file_range,rename,renameat,renameat2,link,linkat"

var (
	lineRe   = regexp.MustCompile(`^(\d+) +(.*)$`)
	callRe   = regexp.MustCompile(`^(\w+)\((.*)\) += (-?\d+)`)
	fdRe     = regexp.MustCompile(`^\d+<([^>]*)>`)
	outFdRe  = regexp.MustCompile(`\d+<([^>]*)>`)
	quotedRe = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)
)

type sysCall struct {
	name string
	args string
	ok   bool
}

// calls puts the pieces of each traced call together, in order of completion.
func calls(trace string) []sysCall {
	var out []sysCall
	open := map[string]string{}
	for _, l := range strings.Split(trace, "\n") {
		m := lineRe.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		pid, s := m[1], m[2]
		if i := strings.Index(s, " <unfinished ...>"); i >= 0 {
			open[pid] = s[:i]
			continue
		}
		if strings.HasPrefix(s, "<... ") {
			if i := strings.Index(s, " resumed>"); i >= 0 {
				s = open[pid] + s[i+len(" resumed>"):]
				delete(open, pid)
			}
		}
		if c := callRe.FindStringSubmatch(s); c != nil {
			out = append(out, sysCall{c[1], c[2], !strings.HasPrefix(c[3], "-")})
		}
	}
	return out
}

// durable watches the system calls of a writing process: a file that gets an
// object's name has been synced since it was last written, and a commit whose
// sync or rename fails is not reported as successful.
func durable(r *mon.Run, i int) {
	if !haveStrace() {
		r.Assume("strace does not work here: the order of syncing and renaming was not watched")
		return
	}
	rng := r.Rng("durable", i)
	dir := r.Dir(fmt.Sprintf("d%d", i))
	defer os.RemoveAll(dir)
	defer r.Begin("watched writer %d", i)()
	path := filepath.Join(dir, "x", "obj")
	log := filepath.Join(dir, "log")
	tf := filepath.Join(dir, "trace")
	cmd := mon.Command("write", path, log, fmt.Sprint(rng.Int63n(1<<40)), "1")
	args := []string{"-f", "-qq", "-y", "-s", "8", "-o", tf, "-e", "trace=" + durableCalls}
	inject := ""
	if i%2 == 1 {
		inject = []string{"fsync,fdatasync,syncfs", "rename,renameat,renameat2"}[i/2%2]
		args = append(args, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d+", inject, []string{"EIO", "ENOSPC"}[rng.Intn(2)], 2+rng.Intn(12)))
	}
	out, _ := exec.Command("strace", append(args, cmd.Args...)...).CombinedOutput()
	r.Tick()
	tb, err := ioutil.ReadFile(tf)
	if err != nil {
		r.Inconclusive("no trace: %v %s", err, out)
		return
	}
	dirty := map[string]bool{}
	synced := map[string]bool{} // opened so that every write is synced
	failed := false
	for _, c := range calls(string(tb)) {
		r.Eval()
		r.Count("watched system calls", 1)
		switch c.name {
		case "openat":
			if q := quotedRe.FindStringSubmatch(c.args); q != nil && (strings.Contains(c.args, "O_SYNC") || strings.Contains(c.args, "O_DSYNC")) {
				synced[q[1]] = true
			}
		case "fsync", "fdatasync":
			if f := fdRe.FindStringSubmatch(c.args); f != nil && c.ok {
				delete(dirty, f[1])
			}
			failed = failed || !c.ok
		case "sync", "syncfs":
			if c.ok {
				dirty = map[string]bool{}
			}
		case "sync_file_range":
		case "rename", "renameat", "renameat2", "link", "linkat":
			q := quotedRe.FindAllStringSubmatch(c.args, -1)
			failed = failed || !c.ok
			if len(q) != 2 || !c.ok {
				continue
			}
			if filepath.Base(q[1][1]) == "obj" {
				r.Count("watched commits", 1)
				if dirty[q[0][1]] {
					r.Violate("durable", "watched writer %d: %s(%s) gives the object its new content before that content is on stable storage", i, c.name, c.args)
					return
				}
			}
			if dirty[q[0][1]] {
				dirty[q[1][1]] = true
			}
			if strings.HasPrefix(c.name, "rename") {
				delete(dirty, q[0][1])
			}
		case "copy_file_range", "sendfile", "splice":
			for _, f := range outFdRe.FindAllStringSubmatch(c.args, -1) {
				if !synced[f[1]] {
					dirty[f[1]] = true
				}
			}
		default:
			if f := fdRe.FindStringSubmatch(c.args); f != nil && strings.HasPrefix(f[1], filepath.Dir(path)) && !synced[f[1]] {
				dirty[f[1]] = true
			}
		}
	}
	// what the writer said it had done
	lb, _ := ioutil.ReadFile(log)
	var done, begun uint64
	for _, l := range strings.Split(string(lb), "\n") {
		var id uint64
		if _, err := fmt.Sscanf(l, "begin %d", &id); err == nil {
			begun = id
		} else if _, err := fmt.Sscanf(l, "done %d", &id); err == nil {
			done = id
		}
	}
	if inject == "" || !failed {
		r.Distinct("main", fmt.Sprintf("watched %v", inject))
		return
	}
	r.Count("failed commits or writes", 1)
	r.Distinct("main", "watched failing "+inject)
	if !strings.Contains(string(out), "commit:") && !strings.Contains(string(out), "create:") && !strings.Contains(string(out), "write:") {
		r.Violate("failed", "watched writer %d: %s failed but no commit did (last begun %d, last done %d): %s", i, inject, begun, done, out)
		return
	}
	b, err := readAll(&filedriver.Driver{}, path)
	if done == 0 {
		if err == nil {
			r.Violate("failed", "watched writer %d: the first commit failed on %s but the object exists (%d bytes)", i, inject, len(b))
		}
		return
	}
	if err != nil {
		r.Violate("failed", "watched writer %d: the commit of %d failed on %s and version %d is gone: %v", i, begun, inject, done, err)
		return
	}
	if id, bad := identify(b); id != done {
		r.Violate("failed", "watched writer %d: the commit of %d failed on %s but the object is version %d (%s), not %d", i, begun, inject, id, bad, done)
	}
}
