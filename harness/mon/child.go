package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
)

// childReport is what a child process tells its parent.
type childReport struct {
	Evals    int64
	Counters map[string]int64
	Sets     map[string][]string
	Viols    [][2]string
}

// ChildRun makes the recorder used inside a child process.
func ChildRun(id string, seed int64) *Run {
	r := &Run{
		ID: id, Seed: seed, Quick: os.Getenv("VERIF_TIER") != "thorough",
		counters: map[string]*int64{}, sets: map[string]map[string]struct{}{},
		needs: map[string]int64{}, known: map[string]bool{}, perKey: map[string]int{}, current: map[int64]string{},
	}
	return r
}

// Report writes what the child recorded to its standard output.
func (r *Run) Report() {
	r.mu.Lock()
	defer r.mu.Unlock()
	rep := childReport{Evals: r.evals, Counters: map[string]int64{}, Sets: map[string][]string{}}
	for k, v := range r.counters {
		rep.Counters[k] = *v
	}
	for k, s := range r.sets {
		for e := range s {
			rep.Sets[k] = append(rep.Sets[k], e)
		}
	}
	for _, v := range r.viol {
		rep.Viols = append(rep.Viols, [2]string{v.Key, v.Detail})
	}
	b, _ := json.Marshal(rep)
	fmt.Printf("\nREPORT %s\n", b)
}

// Merge adds a child's report found in its output. It says whether there was one.
func (r *Run) Merge(who string, out []byte) bool {
	i := bytes.LastIndex(out, []byte("\nREPORT "))
	if i < 0 {
		return false
	}
	line := out[i+8:]
	if j := bytes.IndexByte(line, '\n'); j >= 0 {
		line = line[:j]
	}
	var rep childReport
	if json.Unmarshal(line, &rep) != nil {
		return false
	}
	r.EvalN(int(rep.Evals))
	for k, v := range rep.Counters {
		r.Count(k, v)
	}
	for k, s := range rep.Sets {
		for _, e := range s {
			r.Distinct(k, e)
		}
	}
	for _, v := range rep.Viols {
		r.Violate(v[0], "%s: %s", who, v[1])
	}
	return true
}

// Command makes a command that runs this program in a child role.
func Command(role string, args ...string) *exec.Cmd {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return exec.Command(self, append([]string{"-child", role, "--"}, args...)...)
}

// RunChild runs a child to its end, merges its report and judges crashes.
func (r *Run) RunChild(who, role string, args ...string) {
	c := Command(role, args...)
	var ob, eb SyncBuffer
	c.Stdout, c.Stderr = &ob, &eb
	err := c.Run()
	r.Tick()
	if !r.Merge(who, ob.Bytes()) {
		se := string(eb.Bytes())
		if strings.Contains(se, "/repo/") && (strings.Contains(se, "panic:") || strings.Contains(se, "fatal error:") || strings.Contains(se, "SIG")) {
			r.Violate("crash", "%s crashed: %v\n%s", who, err, Trunc(se, 3000))
			return
		}
		r.Inconclusive("%s gave no report: %v %s", who, err, Trunc(se, 1000))
	}
}

// SyncBuffer is a buffer usable from several goroutines.
type SyncBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *SyncBuffer) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *SyncBuffer) Bytes() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte(nil), s.b.Bytes()...)
}
