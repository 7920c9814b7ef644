// Package simrt is the deterministic simulator's core: a cooperative scheduler that owns every
// interleaving, inside a testing/synctest bubble that owns every clock.
//
// Exactly one task runs between two scheduling points. All nondeterminism is drawn through Choose, so
// that an execution is the list of choices that differed from the default (0): that list is what the
// replay file stores and what the minimiser shrinks.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

// Policy says how the seeded scheduler draws its choices.
type Policy struct {
	Kind     string  `json:"kind"` // seq, walk, pct
	PreemptP float64 `json:"preempt_p,omitempty"`
	IOP      float64 `json:"io_p,omitempty"` // preemption probability at I/O points
	Depth    int     `json:"depth,omitempty"`
	Span     int     `json:"span,omitempty"`
}

// Dev is one recorded choice that differs from the default.
type Dev struct {
	At   int    `json:"at"`
	Pick int    `json:"pick"`
	Note string `json:"note,omitempty"`
}

// Config configures one run.
type Config struct {
	Seed      uint64
	Policy    Policy
	Replay    bool
	Devs      []Dev
	MaxSteps  int
	HangAfter time.Duration
	Trace     bool
}

// Violation is a failed oracle.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

// Result of one run.
type Result struct {
	Violation *Violation
	Devs      []Dev
	Steps     int
	Choices   int
	Switches  int
	Hash      uint64
	Virtual   time.Duration
	Trace     []string
	Leaked    []string
	Err       string // harness trouble
}

// Task is a simulated thread.
type Task struct {
	ID      int
	Name    string
	Env     bool // belongs to the simulated environment, not to the system under test
	gate    chan struct{}
	kill    chan struct{}
	killed  bool
	done    bool
	waiting string
	prio    int
	onExit  []func()
}

// Done tells if the task has ended.
func (t *Task) Done() bool { return t.done }

// Waiting tells what the task is blocked on.
func (t *Task) Waiting() string { return t.waiting }

// Sim is one run.
type Sim struct {
	maps     map[uintptr]*mapState
	cfg      Config
	mu       sync.Mutex
	rng      *RNG
	ready    []*Task
	tasks    []*Task
	live     int
	cur      *Task
	last     *Task
	kick     chan struct{}
	steps    int
	since    int
	nchoice  int
	switches int
	seq      int
	devs     []Dev
	devAt    map[int]int
	hash     uint64
	trace    []string
	viol     *Violation
	harness  string
	aborting bool
	stop     bool
	start    time.Time
	change   map[int]bool
	nextPrio int
	minPrio  int
	main     *Task
	nextID   int
	noYield  int
	// OnPanic is called when a task of the system under test ends in an uncaught panic, which in a real
	// process is fatal to the whole process.
	OnPanic func(t *Task, v interface{}, stack string)
}

var active *Sim

// Active returns the running simulation, or nil.
func Active() *Sim { return active }

// Cur returns the current task or nil.
func Cur() *Task {
	if s := active; s != nil {
		return s.cur
	}
	return nil
}

// Run executes one simulation. It must be called from inside a synctest bubble's root goroutine.
func Run(cfg Config, main func(s *Sim)) (res Result) {
	s := &Sim{cfg: cfg, rng: NewRNG(cfg.Seed ^ 0x5ca1ab1e), kick: make(chan struct{}, 1), start: time.Now(), hash: 14695981039346656037}
	if s.cfg.MaxSteps == 0 {
		s.cfg.MaxSteps = 400000
	}
	if s.cfg.HangAfter == 0 {
		s.cfg.HangAfter = time.Hour
	}
	if cfg.Replay {
		s.devAt = map[int]int{}
		for _, d := range cfg.Devs {
			s.devAt[d.At] = d.Pick
		}
	}
	if cfg.Policy.Kind == `pct` {
		s.change = map[int]bool{}
		for i := 0; i < cfg.Policy.Depth; i++ {
			s.change[s.rng.Intn(cfg.Policy.Span+1)] = true
		}
	}
	active = s
	s.main = s.spawn(`main`, true, func() { main(s) })
	s.loop()
	s.teardown()
	active = nil
	res = Result{Violation: s.viol, Devs: s.devs, Steps: s.steps, Choices: s.nchoice, Switches: s.switches, Hash: s.hash,
		Virtual: time.Since(s.start), Trace: s.trace, Err: s.harness}
	return
}

func (s *Sim) loop() {
	for {
		synctest.Wait()
		if s.stop || s.main.done {
			return
		}
		s.mu.Lock()
		n := len(s.ready)
		s.mu.Unlock()
		if n == 0 {
			s.cur = nil
			tm := time.NewTimer(s.cfg.HangAfter)
			select {
			case <-s.kick:
				tm.Stop()
			case <-tm.C:
				s.Fail(`hang`, `no task can make progress: `+s.Blocked())
				return
			}
			continue
		}
		select {
		case <-s.kick:
		default:
		}
		t := s.pick()
		s.switches++
		s.cur = t
		s.last = t
		s.since = 0
		s.mix(uint64(t.ID))
		t.waiting = ``
		t.gate <- struct{}{}
	}
}

// Blocked lists the tasks that are blocked and what they wait for.
func (s *Sim) Blocked() string {
	var ls []string
	for _, t := range s.tasks {
		if !t.done && !t.Env {
			ls = append(ls, fmt.Sprintf(`%s waits for %s`, t.Name, t.waiting))
		}
	}
	if s.main != nil && !s.main.done {
		ls = append(ls, fmt.Sprintf(`main waits for %s`, s.main.waiting))
	}
	return strings.Join(ls, `; `)
}

func (s *Sim) pick() *Task {
	s.mu.Lock()
	defer s.mu.Unlock()
	sort.Slice(s.ready, func(i, j int) bool {
		a, b := s.ready[i], s.ready[j]
		if s.last != nil && a.ID != b.ID {
			if a == s.last {
				return s.since < maxRun
			}
			if b == s.last {
				return s.since >= maxRun
			}
		}
		return a.ID < b.ID
	})
	i := 0
	if n := len(s.ready); n > 1 {
		i = s.choose(n, `pick`, func() int {
			switch s.cfg.Policy.Kind {
			case `pct`:
				best := 0
				for k, t := range s.ready {
					if t.prio > s.ready[best].prio {
						best = k
					}
				}
				return best
			case `seq`:
				return 0
			}
			return s.rng.Intn(n)
		})
		if i > 0 && s.cfg.Trace {
			s.tracef(`-- run %s`, s.ready[i].Name)
		}
	}
	t := s.ready[i]
	s.ready = append(s.ready[:i], s.ready[i+1:]...)
	return t
}

const maxRun = 20000

func (s *Sim) mix(v uint64) {
	s.hash = (s.hash ^ v) * 1099511628211
}

// choose is the one place where a choice is drawn, replayed and recorded.
func (s *Sim) choose(n int, note string, draw func() int) int {
	idx := s.nchoice
	s.nchoice++
	c := 0
	if s.cfg.Replay {
		c = s.devAt[idx]
		if c >= n {
			c = n - 1
		}
	} else {
		c = draw()
	}
	if c != 0 {
		s.devs = append(s.devs, Dev{At: idx, Pick: c, Note: note})
		s.mix(uint64(idx)<<8 ^ uint64(c))
	}
	return c
}

// Choose draws a number in [0,n) for the given purpose. 0 is the default that minimisation moves to.
func Choose(n int, note string) int {
	s := active
	if s == nil || n <= 1 || s.aborting {
		return 0
	}
	return s.choose(n, note, func() int {
		if s.cfg.Policy.Kind == `seq` {
			return 0
		}
		return s.rng.Intn(n)
	})
}

// Yield is inserted before every statement of the code under test.
func Yield(site string) {
	s := active
	if s == nil || s.cur == nil || s.aborting {
		return
	}
	s.yield(site, s.cfg.Policy.PreemptP)
}

// YieldLow is a less likely preemption point, for hot library code.
func YieldLow(site string) {
	s := active
	if s == nil || s.cur == nil || s.aborting {
		return
	}
	s.yield(site, s.cfg.Policy.PreemptP/16)
}

// YieldIO is a preemption point at the boundary of a simulated system call.
func YieldIO(site string) {
	s := active
	if s == nil || s.cur == nil || s.aborting {
		return
	}
	p := s.cfg.Policy.IOP
	if p == 0 {
		p = s.cfg.Policy.PreemptP
	}
	s.yield(site, p)
}

// Atomically runs f without scheduling points.
func Atomically(f func()) {
	if s := active; s != nil && s.cur != nil {
		s.noYield++
		defer func() { s.noYield-- }()
	}
	f()
}

func (s *Sim) yield(site string, p float64) {
	if s.noYield > 0 {
		return
	}
	s.steps++
	s.since++
	if s.steps > s.cfg.MaxSteps {
		if s.viol == nil {
			s.Fail(`no-progress`, fmt.Sprintf(`the run did not end within %d steps; task %s is at %s`, s.cfg.MaxSteps, s.cur.Name, site))
		}
		runtime.Goexit()
	}
	t := s.cur
	if t.killed {
		runtime.Goexit()
	}
	pre := s.since > maxRun
	if !pre {
		pre = s.choose(2, site, func() int {
			switch s.cfg.Policy.Kind {
			case `walk`:
				if p > 0 && s.rng.P(p) {
					return 1
				}
			case `pct`:
				if s.change[s.steps] {
					s.minPrio--
					t.prio = s.minPrio
					return 1
				}
			}
			return 0
		}) == 1
	}
	if pre {
		if s.cfg.Trace {
			s.tracef(`-- preempt %s at %s`, t.Name, site)
		}
		s.park(t, `cpu`)
	}
}

// Steps returns the number of scheduling points passed so far.
func (s *Sim) Steps() int { return s.steps }

// park makes the task wait until the scheduler grants it the right to run.
func (s *Sim) park(t *Task, why string) {
	s.mu.Lock()
	t.waiting = why
	s.ready = append(s.ready, t)
	if s.cur == t {
		s.cur = nil
	}
	s.mu.Unlock()
	select {
	case s.kick <- struct{}{}:
	default:
	}
	select {
	case <-t.gate:
	case <-t.kill:
		s.unready(t)
		runtime.Goexit()
	}
}

func (s *Sim) unready(t *Task) {
	s.mu.Lock()
	for i, r := range s.ready {
		if r == t {
			s.ready = append(s.ready[:i], s.ready[i+1:]...)
			break
		}
	}
	s.mu.Unlock()
}

// Waiter is a one-shot wake-up.
type Waiter struct {
	t  *Task
	ch chan struct{}
}

// WaitQ is a queue of tasks waiting for a condition. Wake-ups may be spurious; users re-check.
type WaitQ struct{ ws []*Waiter }

// Len is the number of waiting tasks.
func (q *WaitQ) Len() int { return len(q.ws) }

// Wait blocks the current task until woken.
func (q *WaitQ) Wait(why string) { q.WaitOn(why, nil, 0) }

// WaitOn blocks the current task until woken, cancelled, or (if d > 0) timed out. It returns false unless woken.
func (q *WaitQ) WaitOn(why string, cancel <-chan struct{}, d time.Duration) bool {
	s := active
	if s == nil {
		panic(`simrt: blocking on ` + why + ` outside of a simulation`)
	}
	if s.aborting {
		runtime.Goexit()
	}
	t := s.cur
	if t == nil {
		panic(`simrt: ` + why + `: no current task`)
	}
	w := &Waiter{t, make(chan struct{}, 1)}
	q.ws = append(q.ws, w)
	t.waiting = why
	s.cur = nil
	var tc <-chan time.Time
	if d > 0 {
		tm := time.NewTimer(d)
		defer tm.Stop()
		tc = tm.C
	}
	woken := false
	select {
	case <-w.ch:
		woken = true
	case <-cancel:
	case <-tc:
	case <-t.kill:
		q.drop(w)
		runtime.Goexit()
	}
	if !woken {
		q.drop(w)
	}
	s.park(t, why)
	return woken
}

func (q *WaitQ) drop(w *Waiter) {
	for i, x := range q.ws {
		if x == w {
			q.ws = append(q.ws[:i], q.ws[i+1:]...)
			return
		}
	}
}

// WakeAll wakes every waiter.
func (q *WaitQ) WakeAll() {
	ws := q.ws
	q.ws = nil
	for _, w := range ws {
		w.ch <- struct{}{}
	}
}

// WakeOne wakes one waiter, chosen by the scheduler.
func (q *WaitQ) WakeOne() {
	if len(q.ws) == 0 {
		return
	}
	i := Choose(len(q.ws), `wake`)
	w := q.ws[i]
	q.ws = append(q.ws[:i:i], q.ws[i+1:]...)
	w.ch <- struct{}{}
}

// leave and park bracket a real blocking operation (a channel operation on a real channel): the task gives up
// the right to run, and asks for it again afterwards.
func leave(why string) (*Sim, *Task) {
	s := active
	if s == nil {
		return nil, nil
	}
	if s.aborting {
		runtime.Goexit()
	}
	t := s.cur
	if t == nil {
		return nil, nil
	}
	t.waiting = why
	s.cur = nil
	return s, t
}

// Go starts a task. A goroutine started by the code under test belongs to the system; one started by an
// environment task belongs to the environment.
func Go(name string, f func()) {
	s := active
	if s == nil {
		go f()
		return
	}
	if s.aborting {
		return
	}
	env := false
	if s.cur != nil && s.cur != s.main {
		env = s.cur.Env
	}
	s.spawn(name, env, f)
}

// GoEnv starts a task that belongs to the environment.
func GoEnv(name string, f func()) *Task { return active.spawn(name, true, f) }

// GoSys starts a task that belongs to the system under test, from the harness.
func GoSys(name string, f func()) *Task { return active.spawn(name, false, f) }

func (s *Sim) spawn(name string, env bool, f func()) *Task {
	t := &Task{ID: s.nextID, Name: fmt.Sprintf(`%s#%d`, name, s.nextID), Env: env, gate: make(chan struct{}, 1), kill: make(chan struct{})}
	s.nextID++
	t.prio = 1 + s.rng.Intn(1000)
	s.mu.Lock()
	s.tasks = append(s.tasks, t)
	s.ready = append(s.ready, t)
	t.waiting = `start`
	s.mu.Unlock()
	select {
	case s.kick <- struct{}{}:
	default:
	}
	go func() {
		normal := false
		defer func() {
			if !normal {
				if r := recover(); r != nil {
					st := string(debug.Stack())
					if s.OnPanic != nil && !s.aborting {
						s.OnPanic(t, r, st)
					} else if !s.aborting && s.viol == nil {
						s.harness = fmt.Sprintf("panic in %s: %v\n%s", t.Name, r, st)
						s.stop = true
					}
				}
			}
			for i := len(t.onExit) - 1; i >= 0; i-- {
				t.onExit[i]()
			}
			t.done = true
			if s.cur == t {
				s.cur = nil
			}
			s.unready(t)
		}()
		select {
		case <-t.gate:
		case <-t.kill:
			s.unready(t)
			normal = true
			return
		}
		f()
		normal = true
	}()
	return t
}

// Adopt runs f as a task from a goroutine that the simulator did not start (a timer callback).
func Adopt(name string, f func()) {
	s := active
	if s == nil {
		f()
		return
	}
	if s.aborting {
		return
	}
	s.spawn(name, false, f)
}

// AdoptEnv runs f as a task of the environment from a goroutine that the simulator did not start.
func AdoptEnv(name string, f func()) {
	s := active
	if s == nil {
		f()
		return
	}
	if s.aborting {
		return
	}
	s.spawn(name, true, f)
}

// OnExit registers a function to call when the task ends.
func (t *Task) OnExit(f func()) { t.onExit = append(t.onExit, f) }

// Kill ends a task at its next scheduling point, running its deferred functions.
func (t *Task) Kill() {
	if !t.killed && !t.done {
		t.killed = true
		close(t.kill)
	}
}

// Fail records a violation and stops the run. Only the first one counts.
func (s *Sim) Fail(kind, msg string) {
	if s.viol == nil && !s.aborting {
		s.viol = &Violation{kind, msg}
		s.Eventf(`VIOLATION %s: %s`, kind, msg)
	}
	s.stop = true
}

// Aborting tells that the run is over and its tasks are being torn down.
func Aborting() bool { return active != nil && active.aborting }

// Failed tells if a violation was recorded.
func (s *Sim) Failed() bool { return s.viol != nil }

// Harness records trouble of the harness itself.
func (s *Sim) Harness(msg string) {
	if s.harness == `` {
		s.harness = msg
	}
	s.stop = true
}

// CheckStop ends the calling task when the run has been stopped.
func CheckStop() {
	if s := active; s != nil && s.stop {
		runtime.Goexit()
	}
}

func (s *Sim) tracef(f string, a ...interface{}) {
	s.trace = append(s.trace, fmt.Sprintf(`%12s %6d `, time.Since(s.start), s.steps)+fmt.Sprintf(f, a...))
}

// Eventf records an event of the run's history. It never draws and never reads a real clock.
func (s *Sim) Eventf(f string, a ...interface{}) int {
	s.seq++
	if s.cfg.Trace {
		who := `-`
		if s.cur != nil {
			who = s.cur.Name
		}
		s.tracef(`[%s] %s`, who, fmt.Sprintf(f, a...))
	}
	for i := 0; i < len(f); i++ {
		s.hash = (s.hash ^ uint64(f[i])) * 1099511628211
	}
	return s.seq
}

// Seq returns a fresh, strictly increasing event number.
func (s *Sim) Seq() int { s.seq++; return s.seq }

// Now is the simulated time since the start of the run.
func (s *Sim) Now() time.Duration { return time.Since(s.start) }

// Live lists the tasks of the system under test that have not ended.
func (s *Sim) Live() []string {
	var ls []string
	for _, t := range s.tasks {
		if !t.done && !t.Env {
			ls = append(ls, t.Name+` (waits for `+t.waiting+`)`)
		}
	}
	return ls
}

// LiveTasks is the number of the system's tasks that have not ended.
func (s *Sim) LiveTasks() (n int) {
	for _, t := range s.tasks {
		if !t.done && !t.Env {
			n++
		}
	}
	return
}

// KillSystem ends all tasks of the system under test, as the end of its process does.
func (s *Sim) KillSystem() {
	for _, t := range s.tasks {
		if !t.done && !t.Env {
			t.Kill()
		}
	}
}

func (s *Sim) teardown() {
	s.aborting = true
	s.cur = nil
	for i := len(s.tasks) - 1; i >= 0; i-- {
		t := s.tasks[i]
		if !t.done {
			t.Kill()
			synctest.Wait()
			if !t.done && s.harness == `` && s.viol == nil {
				s.harness = `task does not end at teardown: ` + t.Name + ` waits for ` + t.waiting
			}
		}
	}
}
