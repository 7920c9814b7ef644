//go:build go1.22

// Package zzsim is the simulation harness. It is compiled into the module of the code under test through an overlay
// and drives that code, unmodified but for the instrumentation, inside simulated worlds.
package zzsim

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/sirupsen/logrus"
	"simkit/facade/simhttp"
	"simkit/simrt"
	"simkit/simsync"
	"simkit/world"
)

// Job is one request of the orchestrator.
type Job struct {
	Op     string      `json:"op"` // run, gen, shrink
	Prop   string      `json:"prop"`
	Seed   uint64      `json:"seed"`
	Tier   string      `json:"tier,omitempty"`
	Spec   *Spec       `json:"spec,omitempty"`
	Replay bool        `json:"replay,omitempty"`
	Devs   []simrt.Dev `json:"devs,omitempty"`
	Trace  bool        `json:"trace,omitempty"`
}

// Answer is the outcome of a job.
type Answer struct {
	Seed      uint64           `json:"seed"`
	Violation *simrt.Violation `json:"violation,omitempty"`
	Err       string           `json:"err,omitempty"`
	Spec      *Spec            `json:"spec,omitempty"`
	Devs      []simrt.Dev      `json:"devs,omitempty"`
	Steps     int              `json:"steps"`
	Choices   int              `json:"choices"`
	Switches  int              `json:"switches"`
	Hash      string           `json:"hash"`
	VirtualMs int64            `json:"virtual_ms"`
	Sims      int              `json:"sims"`
	Stats     map[string]int   `json:"stats,omitempty"`
	Trace     []string         `json:"trace,omitempty"`
	Specs     []*Spec          `json:"specs,omitempty"`
	Nontriv   bool             `json:"nontriv,omitempty"`
	Rule      string           `json:"rule,omitempty"`
	Real      string           `json:"real,omitempty"`
	Stub      string           `json:"stub,omitempty"`
}

// Scenario decides one property.
type Scenario struct {
	Gen    func(g *Gen) *Spec
	Run    func(r *Run)
	Shrink func(s *Spec) []*Spec
	Rule   string // how cases are made and what makes one non-trivial
	Stub   string // what is simulated, beyond the usual
}

var scenarios = map[string]*Scenario{}

var serverMain func()

// Main is the entry point of the worker.
func Main(t *testing.T, main func()) {
	serverMain = main
	if os.Getenv(`SIM_WORKER`) == `` {
		t.Skip(`not a worker`)
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	out := os.NewFile(3, `answers`)
	if out == nil {
		t.Fatal(`no answer file`)
	}
	w := bufio.NewWriter(out)
	in := bufio.NewReader(os.Stdin)
	// What the code under test prints must not end up in the worker's own output.
	for {
		line, err := in.ReadBytes('\n')
		if err == io.EOF {
			break
		}
		if err != nil {
			t.Fatal(err)
		}
		j := &Job{}
		if err := json.Unmarshal(line, j); err != nil {
			t.Fatal(err)
		}
		a := do(t, j)
		bs, err := json.Marshal(a)
		if err != nil {
			t.Fatal(err)
		}
		_, _ = w.Write(append(bs, '\n'))
		_ = w.Flush()
	}
}

func do(t *testing.T, j *Job) (a *Answer) {
	a = &Answer{Seed: j.Seed, Stats: map[string]int{}}
	sc := scenarios[j.Prop]
	if sc == nil {
		a.Err = `no scenario for ` + j.Prop
		return
	}
	if j.Op == `info` {
		a.Rule = sc.Rule
		a.Real = `all of hiera (api, cli, config, explain, hiera, hieraserver/rest, merge, plugin, provider, session), hierasdk, dgo, dgoyaml, doublestar, cobra, logrus, net/http request parsing, mux, transport and response reading`
		a.Stub = `operating system (files, processes, signals, environment, stdio), TCP listening and connections, HTTP server loop, clock and timers, goroutine scheduling and sync primitives, plugin executables; ` + sc.Stub
		return
	}
	spec := j.Spec
	if spec == nil {
		spec = sc.Gen(newGen(j.Seed, j.Tier))
		spec.Prop = j.Prop
	}
	switch j.Op {
	case `gen`:
		a.Spec = spec
		return
	case `shrink`:
		seen := map[string]bool{}
		a.Specs = nil
		ls := genericShrink(spec)
		if sc.Shrink != nil {
			ls = append(sc.Shrink(spec), ls...)
		}
		for _, s := range ls {
			bs, _ := json.Marshal(s)
			if !seen[string(bs)] {
				seen[string(bs)] = true
				a.Specs = append(a.Specs, s)
			}
		}
		return
	}
	r := &Run{T: t, Job: j, Spec: spec, A: a}
	sc.Run(r)
	if j.Trace || a.Violation != nil || a.Err != `` {
		a.Spec = spec
	}
	return
}

// Run is one evaluation: one or more simulations of a spec.
type Run struct {
	T    *testing.T
	Job  *Job
	Spec *Spec
	A    *Answer
}

// Stop tells that the evaluation is decided.
func (r *Run) Stop() bool { return r.A.Violation != nil || r.A.Err != `` }

// Sub runs a side simulation with a fixed sequential schedule: what happens without interference.
func (r *Run) Sub(body func(x *Exec)) {
	r.sim(simrt.Config{Seed: 1, Policy: simrt.Policy{Kind: `seq`}, MaxSteps: r.Spec.MaxSteps}, false, body)
}

// Main runs the simulation whose schedule and faults are searched.
func (r *Run) Main(body func(x *Exec)) {
	cfg := simrt.Config{Seed: r.Job.Seed, Policy: r.Spec.Policy, MaxSteps: r.Spec.MaxSteps, Replay: r.Job.Replay, Devs: r.Job.Devs, Trace: r.Job.Trace}
	r.sim(cfg, true, body)
}

func (r *Run) sim(cfg simrt.Config, main bool, body func(x *Exec)) {
	if r.Stop() {
		return
	}
	var res simrt.Result
	var w *world.World
	synctest.Test(r.T, func(t *testing.T) {
		simhttp.ResetDefaults()
		logrus.SetOutput(io.Discard)
		res = simrt.Run(cfg, func(s *simrt.Sim) {
			w = world.New(s)
			x := &Exec{R: r, S: s, W: w, Spec: r.Spec}
			s.OnPanic = x.onPanic
			logrus.SetOutput(&logSink{x})
			body(x)
		})
		world.W = nil
	})
	r.A.Sims++
	for k, n := range w.Stats {
		if main {
			r.A.Stats[k] += n
		}
	}
	r.A.VirtualMs += int64(res.Virtual / time.Millisecond)
	if main {
		r.A.Devs = res.Devs
		r.A.Steps += res.Steps
		r.A.Choices += res.Choices
		r.A.Switches += res.Switches
		r.A.Hash = strconv.FormatUint(res.Hash, 16)
		r.A.Trace = append(r.A.Trace, res.Trace...)
	}
	if res.Err != `` {
		r.A.Err = res.Err
	} else if res.Violation != nil && r.A.Violation == nil {
		v := *res.Violation
		if !main {
			v.Msg = `in a sequential reference run: ` + v.Msg
		}
		r.A.Violation = &v
	}
}

// Fail records a violation found after the simulations.
func (r *Run) Fail(kind, f string, a ...interface{}) {
	if r.A.Violation == nil && r.A.Err == `` {
		r.A.Violation = &simrt.Violation{Kind: kind, Msg: fmt.Sprintf(f, a...)}
	}
}

// Exec is one simulation.
type Exec struct {
	R     *Run
	S     *simrt.Sim
	W     *world.World
	Spec  *Spec
	Log   []LogRec
	Crash string
	crash simrt.WaitQ
	Plug  []*PlugRec
	// ExpectCrash makes an uncaught panic of the system part of the history instead of a violation.
	ExpectCrash bool
	// Settled is called when all operations are done, before the session or server ends.
	Settled func()
	// Options is what several sessions of the process are made from, one after the other.
	Options dgo.Map
	Making  simsync.Mutex
	srv     *Server
}

// LogRec is one write to the log output of the host.
type LogRec struct {
	Task string
	Data string
}

type logSink struct{ x *Exec }

func (l *logSink) Write(b []byte) (int, error) {
	x := l.x
	if simrt.Active() != x.S || simrt.Aborting() {
		return len(b), nil
	}
	name := `-`
	if t := simrt.Cur(); t != nil {
		name = t.Name
	}
	x.Log = append(x.Log, LogRec{name, string(b)})
	// The logger may hold a lock here, so this is not a scheduling point.
	x.S.Eventf(`log write`)
	return len(b), nil
}

func (x *Exec) onPanic(t *simrt.Task, v interface{}, stack string) {
	msg := fmt.Sprint(v)
	if t.Env && !simsync.IsFatal(v) {
		x.S.Harness(`panic in environment task ` + t.Name + `: ` + msg + "\n" + stack)
		return
	}
	x.Crash = t.Name + `: ` + msg
	x.crash.WakeAll()
	if !x.ExpectCrash {
		x.S.Fail(`crash`, `the process dies of an uncaught panic in `+t.Name+`: `+msg+"\n"+trimStack(stack))
	}
}

func trimStack(st string) string {
	var ls []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, `lyraproj`) || strings.Contains(l, `.go:`) {
			if i := strings.LastIndex(l, `/`); i > 0 && strings.Contains(l, `.go:`) {
				l = `  ` + l[i+1:]
			}
			ls = append(ls, l)
		}
		if len(ls) > 24 {
			break
		}
	}
	return strings.Join(ls, "\n")
}

// Fail records a violation.
func (x *Exec) Fail(kind, f string, a ...interface{}) { x.S.Fail(kind, fmt.Sprintf(f, a...)) }

// Wait waits until the given tasks are done.
func (x *Exec) Wait(ts ...*simrt.Task) { x.WaitFor(0, ts...) }

// WaitFor waits until the given tasks are done, at most the given time. It tells if they are.
func (x *Exec) WaitFor(d time.Duration, ts ...*simrt.Task) bool {
	var q simrt.WaitQ
	for _, t := range ts {
		if !t.Done() {
			t.OnExit(q.WakeAll)
		}
	}
	end := x.S.Now() + d
	for {
		left := 0
		for _, t := range ts {
			if !t.Done() {
				left++
			}
		}
		if left == 0 {
			return true
		}
		rem := time.Duration(0)
		if d > 0 {
			if rem = end - x.S.Now(); rem <= 0 {
				return false
			}
		}
		q.WaitOn(`clients`, nil, rem)
	}
}

// Caught runs f and returns what it panics with, as an error text.
func Caught(f func()) (msg string, failed bool) {
	defer func() {
		if r := recover(); r != nil {
			if simsync.IsFatal(r) {
				panic(r)
			}
			failed = true
			if e, ok := r.(error); ok {
				msg = e.Error()
			} else {
				msg = fmt.Sprint(r)
			}
		}
	}()
	f()
	return
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
