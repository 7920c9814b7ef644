package orch

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// Dev is a recorded choice.
type Dev struct {
	At   int    `json:"at"`
	Pick int    `json:"pick"`
	Note string `json:"note,omitempty"`
}

// Job mirrors the worker's.
type Job struct {
	Op     string          `json:"op"`
	Prop   string          `json:"prop"`
	Seed   uint64          `json:"seed"`
	Tier   string          `json:"tier,omitempty"`
	Spec   json.RawMessage `json:"spec,omitempty"`
	Replay bool            `json:"replay,omitempty"`
	Devs   []Dev           `json:"devs,omitempty"`
	Trace  bool            `json:"trace,omitempty"`
}

// Violation mirrors the worker's.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

// Answer mirrors the worker's.
type Answer struct {
	Seed      uint64            `json:"seed"`
	Violation *Violation        `json:"violation,omitempty"`
	Err       string            `json:"err,omitempty"`
	Spec      json.RawMessage   `json:"spec,omitempty"`
	Devs      []Dev             `json:"devs,omitempty"`
	Steps     int               `json:"steps"`
	Choices   int               `json:"choices"`
	Switches  int               `json:"switches"`
	Hash      string            `json:"hash"`
	VirtualMs int64             `json:"virtual_ms"`
	Sims      int               `json:"sims"`
	Stats     map[string]int    `json:"stats,omitempty"`
	Trace     []string          `json:"trace,omitempty"`
	Specs     []json.RawMessage `json:"specs,omitempty"`
	Nontriv   bool              `json:"nontriv,omitempty"`
	Rule      string            `json:"rule,omitempty"`
	Real      string            `json:"real,omitempty"`
	Stub      string            `json:"stub,omitempty"`
}

func (a *Answer) kind() string {
	if a == nil || a.Violation == nil {
		return ``
	}
	return a.Violation.Kind
}

// worker is one worker process.
type worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	err  *tail
	done []uint64 // the seeds it has run
	dead bool
}

type tail struct {
	mu   sync.Mutex
	head bytes.Buffer
	last []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.head.Len() < 16384 {
		t.head.Write(b)
	} else {
		t.last = append(t.last, b...)
		if len(t.last) > 8192 {
			t.last = t.last[len(t.last)-4096:]
		}
	}
	return len(b), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.head.String() + string(t.last)
}

func startWorker(bin, dir string) (*worker, error) {
	cmd := exec.Command(bin, `-test.run`, `^TestSim$`, `-test.timeout`, `0`)
	cmd.Env = []string{`SIM_WORKER=1`, `GODEBUG=asyncpreemptoff=1`, `GOMAXPROCS=1`, `HOME=` + dir, `TMPDIR=` + dir, `GOTRACEBACK=single`}
	cmd.Dir = dir
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	t := &tail{}
	cmd.Stdout, cmd.Stderr = t, t
	if err = cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	return &worker{cmd: cmd, in: in, out: bufio.NewReaderSize(r, 1<<16), err: t}, nil
}

// answerLimit is the real time that one evaluation may take. They usually take milliseconds.
const answerLimit = 75 * time.Second

// do runs one job. A worker that dies makes a `fatal` violation if the code under test caused it.
func (w *worker) do(j *Job) *Answer {
	bs, err := json.Marshal(j)
	if err != nil {
		return &Answer{Seed: j.Seed, Err: err.Error()}
	}
	if j.Op == `run` {
		w.done = append(w.done, j.Seed)
	}
	stuck := false
	tm := time.AfterFunc(answerLimit, func() { stuck = true; _ = w.cmd.Process.Kill() })
	defer tm.Stop()
	if _, err = w.in.Write(append(bs, '\n')); err == nil {
		var line []byte
		if line, err = w.out.ReadBytes('\n'); err == nil {
			a := &Answer{}
			if err = json.Unmarshal(line, a); err == nil {
				return a
			}
		}
	}
	w.dead = true
	_ = w.in.Close()
	_ = w.cmd.Wait()
	text := w.err.String()
	a := &Answer{Seed: j.Seed, Spec: j.Spec}
	switch {
	case stuck:
		a.Violation = &Violation{Kind: `hang`, Msg: `the evaluation does not end within ` + answerLimit.String() + ` of real time`}
	case strings.Contains(text, `fatal error: `) && !strings.Contains(text, `out of memory`) || strings.Contains(text, `goroutine stack exceeds`):
		i := strings.Index(text, `fatal error: `)
		if i < 0 {
			i = strings.Index(text, `goroutine stack exceeds`)
		}
		a.Violation = &Violation{Kind: `fatal`, Msg: `the process dies: ` + first(text[i:], 1500)}
	default:
		a.Err = fmt.Sprintf("the worker died: %v\n%s", err, first(text, 4000))
	}
	return a
}

func (w *worker) close() {
	if !w.dead {
		w.dead = true
		_ = w.in.Close()
		_ = w.cmd.Process.Kill()
		_ = w.cmd.Wait()
	}
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n] + `...`
	}
	return s
}
