package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Job asks a worker for one simulated run.
type Job struct {
	Prop     string
	Scenario string `json:",omitempty"`
	Seed     uint64
	Plan     *Plan `json:",omitempty"`
	Choices  bool  `json:",omitempty"`
	Verbose  bool  `json:",omitempty"`
}

// worker performs runs: jobs on standard input, results on descriptor 3.
func worker() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.NewFile(3, "results"))
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var j Job
		must(json.Unmarshal(line, &j))
		p := j.Plan
		if p == nil {
			p = genPlan(j.Prop, j.Seed, j.Scenario)
		}
		r := runPlan(p, runOpts{verbose: j.Verbose, choices: j.Choices})
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		r.HeapMB = int(ms.HeapAlloc >> 20)
		b, err := json.Marshal(r)
		must(err)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// proc is a worker process.
type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	outf   *os.File
	stderr *tailBuf
	runs   int
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func startProc(points string) (*proc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c := exec.Command(exe, "worker", "-points", points)
	// A fixed environment: the program under test reads flags from it.
	c.Env = []string{"GIN_MODE=release", "GOTRACEBACK=all", "PATH=/usr/bin:/bin", "TZ=UTC", "HOME=/nonexistent"}
	c.ExtraFiles = []*os.File{w}
	t := &tailBuf{}
	c.Stderr = t
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	w.Close()
	return &proc{cmd: c, in: in, out: bufio.NewReaderSize(r, 1<<20), outf: r, stderr: t}, nil
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.outf.Close()
}

// crash describes a worker that ended in the middle of a run.
type crash struct {
	hang   bool
	stderr string
}

func (c *crash) Error() string {
	if c.hang {
		return "run did not finish in real time"
	}
	return "worker ended: " + firstLines(c.stderr, 3)
}

func (p *proc) do(j *Job, limit time.Duration) (*Result, error) {
	b, err := json.Marshal(j)
	if err != nil {
		return nil, err
	}
	type ans struct {
		b   []byte
		err error
	}
	ch := make(chan ans, 1)
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		p.cmd.Wait()
		return nil, &crash{stderr: p.stderr.String()}
	}
	go func() {
		l, err := p.out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	p.runs++
	select {
	case a := <-ch:
		if a.err != nil {
			p.cmd.Wait()
			return nil, &crash{stderr: p.stderr.String()}
		}
		var r Result
		if err := json.Unmarshal(a.b, &r); err != nil {
			return nil, fmt.Errorf("worker answered %q: %v", short(string(a.b)), err)
		}
		return &r, nil
	case <-time.After(limit):
		p.cmd.Process.Kill()
		<-ch
		return nil, &crash{hang: true, stderr: p.stderr.String()}
	}
}

// pool runs jobs on several workers.
type pool struct {
	points string
	mu     sync.Mutex
	idle   []*proc
}

const (
	runLimit    = 120 * time.Second
	recycleRuns = 400
	recycleMB   = 600
)

func (q *pool) get() (*proc, error) {
	q.mu.Lock()
	if n := len(q.idle); n > 0 {
		p := q.idle[n-1]
		q.idle = q.idle[:n-1]
		q.mu.Unlock()
		return p, nil
	}
	q.mu.Unlock()
	return startProc(q.points)
}

func (q *pool) do(j *Job, fresh bool) (*Result, error) {
	var p *proc
	var err error
	if fresh {
		p, err = startProc(q.points)
	} else {
		p, err = q.get()
	}
	if err != nil {
		return nil, err
	}
	r, err := p.do(j, runLimit)
	if err != nil || fresh || p.runs >= recycleRuns || r.HeapMB > recycleMB {
		p.stop()
		return r, err
	}
	q.mu.Lock()
	q.idle = append(q.idle, p)
	q.mu.Unlock()
	return r, nil
}

func (q *pool) close() {
	q.mu.Lock()
	defer q.mu.Unlock()
	for _, p := range q.idle {
		p.stop()
	}
	q.idle = nil
}

func hasProp(v *Violation, prop string) bool {
	for _, x := range v.Props {
		if x == prop {
			return true
		}
	}
	return false
}

// hit returns the first violation of prop.
func (r *Result) hit(prop, rule string) *Violation {
	if r == nil {
		return nil
	}
	for i := range r.Viol {
		v := &r.Viol[i]
		if hasProp(v, prop) && (rule == "" || v.Rule == rule) {
			return v
		}
	}
	return nil
}

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	must(err)
	var q Plan
	must(json.Unmarshal(b, &q))
	return &q
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}
