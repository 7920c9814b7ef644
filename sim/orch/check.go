package orch

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type budget struct {
	n    int           // evaluations
	wall time.Duration // at most
}

// quick sizes are set so that a check takes about half a minute on 8 cores; see DESIGN.md.
var quickN = map[string]int{
	`C02`: 40000, `C03`: 60000, `C04`: 60000, `C09`: 30000, `C11`: 60000, `C13`: 40000, `C14`: 60000, `C18`: 40000, `C25`: 100000,
}

func (o *Orch) budget(prop, tier string) budget {
	if tier == `thorough` {
		return budget{1 << 40, 10 * time.Minute}
	}
	n := quickN[prop]
	if n == 0 {
		n = 20000
	}
	return budget{n, 150 * time.Second}
}

const batch = 250

type total struct {
	mu       sync.Mutex
	evals    int
	sims     int
	steps    int64
	choices  int64
	switches int64
	virtual  int64
	nontriv  int
	hashes   map[string]struct{}
	all      map[string]struct{}
	stats    map[string]int
	runsWith map[string]int
	first    map[int]string
}

func (t *total) add(i int, a *Answer) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.evals++
	t.sims += a.Sims
	t.steps += int64(a.Steps)
	t.choices += int64(a.Choices)
	t.switches += int64(a.Switches)
	t.virtual += a.VirtualMs
	t.all[a.Hash] = struct{}{}
	if a.Nontriv {
		t.nontriv++
		t.hashes[a.Hash] = struct{}{}
	}
	for k, n := range a.Stats {
		t.stats[k] += n
		if strings.HasPrefix(k, `fault:`) || strings.HasPrefix(k, `probe:`) {
			t.runsWith[k]++
		}
	}
	if i < recheck {
		t.first[i] = sig(a)
	}
}

const recheck = 40

type failure struct {
	i      int
	job    *Job
	prefix []uint64
	a      *Answer
}

// Check decides a property.
func (o *Orch) Check(prop, tier string) int {
	if tier != `quick` && tier != `thorough` {
		fmt.Fprintln(os.Stderr, `unknown tier `+tier)
		return 2
	}
	known, err := o.findings(prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	b := o.budget(prop, tier)
	fmt.Printf("property %s, tier %s, VERIF_SEED %d, worker built in %.1fs\n", prop, tier, o.Seed, o.buildTime.Seconds())
	t := &total{hashes: map[string]struct{}{}, all: map[string]struct{}{}, stats: map[string]int{}, runsWith: map[string]int{}, first: map[int]string{}}
	start := time.Now()
	var mu sync.Mutex
	next := 0
	var fails []*failure
	var errs []*failure
	seen := map[*Finding]int{}
	stop := false
	grab := func() (int, int, bool) {
		mu.Lock()
		defer mu.Unlock()
		if stop || next >= b.n || time.Since(start) > b.wall {
			return 0, 0, false
		}
		from := next
		to := from + batch
		if to > b.n {
			to = b.n
		}
		next = to
		return from, to, true
	}
	var wg sync.WaitGroup
	for k := 0; k < o.Workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				from, to, ok := grab()
				if !ok {
					return
				}
				var w *worker
				for i := from; i < to; i++ {
					if w == nil || w.dead {
						var err error
						if w, err = startWorker(o.Bin, o.Scratch); err != nil {
							mu.Lock()
							errs = append(errs, &failure{a: &Answer{Err: err.Error()}, i: i})
							stop = true
							mu.Unlock()
							return
						}
					}
					j := &Job{Op: `run`, Prop: prop, Seed: mix(o.Seed, uint64(i)), Tier: tier}
					a := w.do(j)
					t.add(i, a)
					if a.Violation != nil || a.Err != `` {
						f := &failure{i: i, job: j, prefix: append([]uint64{}, w.done[:len(w.done)-1]...), a: a}
						w.close()
						mu.Lock()
						kf := false
						if a.Violation != nil {
							for _, x := range known {
								if x.is(a.Violation) {
									seen[x]++
									kf = true
								}
							}
						}
						switch {
						case kf:
						case a.Violation != nil:
							fails = append(fails, f)
							stop = true
						default:
							errs = append(errs, f)
							if len(errs) > 20 {
								stop = true
							}
						}
						mu.Unlock()
					}
					if stop || time.Since(start) > b.wall {
						break
					}
				}
				if w != nil {
					w.close()
				}
			}
		}()
	}
	wg.Wait()
	searched := time.Since(start)
	sort.Slice(fails, func(i, j int) bool { return fails[i].i < fails[j].i })
	code := 0
	violations := 0
	unconfirmed := 0
	for _, f := range fails {
		r := o.confirm(prop, tier, f)
		if r == nil {
			unconfirmed++
			fmt.Fprintf(os.Stderr, "seed %d: %s: %s\n  does not occur again\n", f.job.Seed, f.a.kind(), f.a.Violation.Msg)
			continue
		}
		if r.Violation.Kind != `hang` {
			o.minimise(r, tier)
		}
		kf := false
		for _, x := range known {
			if x.is(r.Violation) {
				seen[x]++
				kf = true
			}
		}
		if kf {
			continue
		}
		path, err := o.save(r)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s: %s\nseed %d (VERIF_SEED %d), %d scheduling decisions remain\n", r.Violation.Kind, r.Violation.Msg, r.Found, o.Seed, len(r.Devs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		violations++
		code = 1
		break
	}
	if code == 0 && unconfirmed > 0 {
		fmt.Fprintln(os.Stderr, `a failure could not be reproduced: the simulation is not deterministic`)
		code = 2
	}
	for _, x := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, x.What)
	}
	if code == 0 && len(errs) > 0 {
		bad := 0
		for _, f := range errs {
			a := f.a
			if f.job != nil {
				a = o.fresh(f.job)
			}
			if a.Violation != nil {
				// alone it is an ordinary failure
				if r := o.confirm(prop, tier, &failure{i: f.i, job: f.job, a: a}); r != nil {
					if r.Violation.Kind != `hang` {
						o.minimise(r, tier)
					}
					if path, err := o.save(r); err == nil {
						fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", r.Violation.Kind, r.Violation.Msg, prop, path)
						violations++
						code = 1
						break
					}
				}
			}
			bad++
			if bad < 3 {
				fmt.Fprintf(os.Stderr, "trouble with evaluation %d (again: %v): %s\n", f.i, a.Err != ``, f.a.Err)
			}
			if bad > 3 {
				break
			}
		}
		if code == 0 {
			code = 2
		}
	}
	mism := 0
	checked := 0
	if code == 0 {
		checked, mism = o.recheck(prop, tier, t)
		if mism > 0 {
			fmt.Fprintf(os.Stderr, "%d of %d executions differ when repeated\n", mism, checked)
			if mism*2 > checked {
				code = 2
			}
		}
	}
	if err := o.evidence(prop, tier, t, searched, violations, checked, mism, seen); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%d evaluations, %d simulations, %d distinct executions, %d non-trivial, %.1fs\n", t.evals, t.sims, len(t.all), t.nontriv, searched.Seconds())
	return code
}

// recheck repeats the first evaluations one by one, each in a process of its own.
func (o *Orch) recheck(prop, tier string, t *total) (n, bad int) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, o.Workers)
	for i, s := range t.first {
		i, s := i, s
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			a := o.fresh(&Job{Op: `run`, Prop: prop, Seed: mix(o.Seed, uint64(i)), Tier: tier})
			mu.Lock()
			n++
			if sig(a) != s {
				bad++
			}
			mu.Unlock()
			<-sem
		}()
	}
	wg.Wait()
	return
}

// confirm finds the smallest context in which a failure occurs again.
func (o *Orch) confirm(prop, tier string, f *failure) *Replayable {
	r := &Replayable{Property: prop, Seed: f.job.Seed, Found: f.job.Seed, VerifSeed: o.Seed, Tier: tier}
	try := func(prefix []uint64) *Answer {
		r.Prefix = prefix
		a := o.fresh(r.jobs(false)...)
		if a.kind() != `` && a.Seed == r.Seed {
			return a
		}
		return nil
	}
	a := try(nil)
	if a == nil && len(f.prefix) > 0 {
		if a = try(f.prefix); a == nil {
			return nil
		}
		p := f.prefix
		for len(p) > 1 {
			if x := try(p[len(p)/2:]); x != nil {
				p, a = p[len(p)/2:], x
			} else if x := try(p[:len(p)/2]); x != nil {
				p, a = p[:len(p)/2], x
			} else {
				break
			}
		}
		for i := 0; i < len(p) && len(p) < 40; {
			q := append(append([]uint64{}, p[:i]...), p[i+1:]...)
			if x := try(q); x != nil {
				p, a = q, x
			} else {
				i++
			}
		}
		r.Prefix = p
	}
	if a == nil {
		return nil
	}
	o.take(r, a)
	return r
}

func (o *Orch) take(r *Replayable, a *Answer) {
	r.Violation, r.Hash, r.Steps = a.Violation, a.Hash, a.Steps
	if len(a.Spec) > 0 {
		r.Spec = a.Spec
	}
	if a.Devs != nil || a.Violation.Kind != `fatal` {
		r.Devs = a.Devs
	}
}

// minimise shrinks the spec, then the schedule.
func (o *Orch) minimise(r *Replayable, tier string) {
	limit := 25 * time.Second
	if tier == `thorough` {
		limit = 90 * time.Second
	}
	end := time.Now().Add(limit)
	if r.Spec == nil {
		a := o.fresh(&Job{Op: `gen`, Prop: r.Property, Seed: r.Seed, Tier: r.Tier})
		r.Spec = a.Spec
	}
	kind := r.Violation.Kind
	type cand struct {
		job *Job
		a   *Answer
	}
	// all tries run in processes of their own, several at a time, but the first success in order counts
	race := func(cs []*cand) *cand {
		for at := 0; at < len(cs) && time.Now().Before(end); at += o.Workers {
			to := at + o.Workers
			if to > len(cs) {
				to = len(cs)
			}
			var wg sync.WaitGroup
			for _, c := range cs[at:to] {
				c := c
				wg.Add(1)
				go func() {
					defer wg.Done()
					if r.Prefix != nil {
						q := *r
						q.Seed, q.Spec, q.Replay, q.Devs = c.job.Seed, c.job.Spec, c.job.Replay, c.job.Devs
						c.a = o.fresh(q.jobs(false)...)
					} else {
						c.a = o.fresh(c.job)
					}
				}()
			}
			wg.Wait()
			for _, c := range cs[at:to] {
				if c.a.kind() == kind {
					return c
				}
			}
		}
		return nil
	}
	for progress := true; progress && time.Now().Before(end); {
		progress = false
		sh := o.fresh(&Job{Op: `shrink`, Prop: r.Property, Spec: r.Spec})
		var cs []*cand
		for _, s := range sh.Specs {
			for k := 0; k < 6; k++ {
				seed := r.Seed
				if k > 0 {
					seed = mix(r.Seed, uint64(k))
				}
				cs = append(cs, &cand{job: &Job{Op: `run`, Prop: r.Property, Seed: seed, Spec: s}})
			}
		}
		if c := race(cs); c != nil {
			r.Seed, r.Spec = c.job.Seed, c.job.Spec
			o.take(r, c.a)
			r.Spec = c.job.Spec
			progress = true
		}
	}
	// from here on the schedule is explicit
	if kind == `fatal` {
		return
	}
	c := race([]*cand{{job: &Job{Op: `run`, Prop: r.Property, Seed: r.Seed, Spec: r.Spec, Replay: true, Devs: r.Devs}}})
	if c == nil {
		return
	}
	r.Replay = true
	o.take(r, c.a)
	if len(r.Devs) == 0 {
		return
	}
	end = time.Now().Add(limit)
	for n := 2; time.Now().Before(end); {
		size := (len(r.Devs) + n - 1) / n
		var cs []*cand
		if n == 2 {
			cs = append(cs, &cand{job: &Job{Op: `run`, Prop: r.Property, Seed: r.Seed, Spec: r.Spec, Replay: true}})
		}
		for at := 0; at < len(r.Devs); at += size {
			to := at + size
			if to > len(r.Devs) {
				to = len(r.Devs)
			}
			ds := append(append([]Dev{}, r.Devs[:at]...), r.Devs[to:]...)
			cs = append(cs, &cand{job: &Job{Op: `run`, Prop: r.Property, Seed: r.Seed, Spec: r.Spec, Replay: true, Devs: ds}})
		}
		if c := race(cs); c != nil && len(c.a.Devs) < len(r.Devs) {
			o.take(r, c.a)
			if len(r.Devs) == 0 {
				break
			}
			if n > 2 {
				n--
			}
			continue
		}
		if size == 1 {
			break
		}
		n *= 2
		if n > len(r.Devs) {
			n = len(r.Devs)
		}
	}
}

// save writes the replay file after checking that it reproduces the failure exactly.
func (o *Orch) save(r *Replayable) (string, error) {
	a := o.fresh(r.jobs(true)...)
	if a.kind() != r.Violation.Kind {
		return ``, fmt.Errorf(`the minimised failure of %s does not replay: %s instead of %s (seed %d: %s)`, r.Property, a.kind(), r.Violation.Kind, r.Seed, r.Violation.Msg)
	}
	o.take(r, a)
	r.Trace = a.Trace
	if len(r.Trace) > 2000 {
		r.Trace = r.Trace[:2000]
	}
	dir := filepath.Join(o.Verif, `replays`)
	if err := os.MkdirAll(dir, 0755); err != nil {
		return ``, err
	}
	bs, err := json.MarshalIndent(r, ``, ` `)
	if err != nil {
		return ``, err
	}
	p := filepath.Join(dir, fmt.Sprintf(`%s-%d.json`, r.Property, r.Found))
	return p, os.WriteFile(p, append(bs, '\n'), 0644)
}

func (o *Orch) evidence(prop, tier string, t *total, searched time.Duration, violations, checked, mism int, seen map[*Finding]int) error {
	info := o.fresh(&Job{Op: `info`, Prop: prop})
	var samples []interface{}
	for i := 0; i < 3; i++ {
		g := o.fresh(&Job{Op: `gen`, Prop: prop, Seed: mix(o.Seed, uint64(i)), Tier: tier})
		samples = append(samples, g.Spec)
	}
	hours := searched.Hours()
	if hours == 0 {
		hours = 1e-9
	}
	faults, probes, ops := map[string]int{}, map[string]int{}, map[string]int{}
	for k, n := range t.stats {
		switch {
		case strings.HasPrefix(k, `fault:`):
			faults[k[6:]] = n
		case strings.HasPrefix(k, `probe:`):
			probes[k[6:]] = n
		default:
			ops[k] = n
		}
	}
	kf := map[string]int{}
	for f, n := range seen {
		kf[f.What] = n
	}
	ev := map[string]interface{}{
		`property`: prop, `tier`: tier, `seed`: o.Seed, `level`: `exploration`,
		`coverage`: map[string]interface{}{
			`evaluations`:             t.evals,
			`distinct_nontrivial`:     len(t.hashes),
			`rule`:                    info.Rule + ` Distinct: by a hash of the sequence of task switches, scheduling decisions and history events of the searched simulation.`,
			`samples`:                 samples,
			`simulated_runs`:          t.sims,
			`simulated_runs_per_hour`: int(float64(t.sims) / hours),
			`seeds_per_hour`:          int(float64(t.evals) / hours),
			`simulated_seconds`:       t.virtual / 1000,
			`scheduling_points`:       t.steps,
			`task_switches`:           t.switches,
			`distinct_executions`:     len(t.all),
			`faults_injected`:         faults,
			`runs_with`:               t.runsWith,
			`probes`:                  probes,
			`operations`:              ops,
			`real_code`:               info.Real,
			`stubs`:                   info.Stub,
			`known_findings_seen`:     kf,
			`determinism_recheck`:     map[string]int{`repeated_in_own_process`: checked, `different`: mism},
			`build_seconds`:           o.buildTime.Seconds(),
			`workers`:                 o.Workers,
		},
		`assumptions`: []string{
			`The simulated operating system, process table, HTTP transport and clock behave as the real ones do where the code depends on them.`,
			`Preemption happens between statements of hiera and of the instrumented parts of dgo, and at operations on shared objects and simulated system calls; not inside a statement.`,
			`Sampling: a clean batch is evidence, not proof.`,
		},
		`wall_s`:     time.Since(o.began).Seconds(),
		`violations`: violations,
	}
	if err := os.MkdirAll(filepath.Join(o.Verif, `evidence`), 0755); err != nil {
		return err
	}
	bs, err := json.MarshalIndent(ev, ``, ` `)
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(o.Verif, `evidence`, prop+`.json`), append(bs, '\n'), 0644)
}
