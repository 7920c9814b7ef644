// Package orch drives the worker processes: it runs seeds, verifies and minimises failures, and writes evidence.
package orch

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"simkit/build"
)

// Orch is one invocation.
type Orch struct {
	Repo, Verif, Scratch, Bin string
	Seed                      uint64
	Workers                   int
	began                     time.Time
	buildTime                 time.Duration
}

// New builds the worker from the working tree of the repository.
func New() (*Orch, error) {
	o := &Orch{Repo: `/repo`, Verif: `/verif`, Workers: runtime.NumCPU(), began: time.Now(), Seed: 1}
	if s := os.Getenv(`SIM_REPO`); s != `` {
		o.Repo = s
	}
	if s := os.Getenv(`SIM_VERIF`); s != `` {
		o.Verif = s
	}
	if s := os.Getenv(`SIM_WORKERS`); s != `` {
		o.Workers, _ = strconv.Atoi(s)
	}
	if o.Workers < 2 {
		o.Workers = 2
	}
	if s := os.Getenv(`VERIF_SEED`); s != `` {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			return nil, err
		}
		o.Seed = n
	}
	var err error
	if o.Scratch, err = os.MkdirTemp(``, `hierasim`); err != nil {
		return nil, err
	}
	o.Bin = filepath.Join(o.Scratch, `worker`)
	if err = os.Mkdir(filepath.Join(o.Scratch, `src`), 0755); err != nil {
		return nil, err
	}
	if err = build.Worker(build.Options{Repo: o.Repo, Verif: o.Verif, Scratch: filepath.Join(o.Scratch, `src`), Out: o.Bin, Log: os.Stderr}); err != nil {
		o.Close()
		return nil, fmt.Errorf("building the simulation worker failed: %s", err)
	}
	o.buildTime = time.Since(o.began)
	return o, nil
}

// Close removes the scratch directory.
func (o *Orch) Close() {
	if os.Getenv(`SIM_KEEP`) == `` {
		_ = os.RemoveAll(o.Scratch)
	} else {
		fmt.Fprintln(os.Stderr, `kept`, o.Scratch)
	}
}

func mix(a, b uint64) uint64 {
	z := a*0x9E3779B97F4A7C15 + b*0xD1B54A32D192ED03 + 0x8CB92BA72F3D8DD7
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return (z ^ (z >> 31)) >> 12 // fits a JSON number
}

func (o *Orch) fresh(jobs ...*Job) *Answer {
	w, err := startWorker(o.Bin, o.Scratch)
	if err != nil {
		return &Answer{Err: err.Error()}
	}
	defer w.close()
	var a *Answer
	for _, j := range jobs {
		a = w.do(j)
		if w.dead {
			break
		}
	}
	return a
}

// One runs one seed and prints what happened.
func (o *Orch) One(prop string, seed uint64, trace bool) int {
	a := o.fresh(&Job{Op: `run`, Prop: prop, Seed: seed, Trace: trace})
	for _, l := range a.Trace {
		fmt.Println(l)
	}
	a.Trace = nil
	if len(a.Devs) > 50 {
		a.Devs = a.Devs[:50]
	}
	var b bytes.Buffer
	if len(a.Spec) > 0 {
		_ = json.Indent(&b, a.Spec, ``, ` `)
	}
	a.Spec = nil
	bs, _ := json.Marshal(a)
	fmt.Println(b.String())
	fmt.Println(string(bs))
	if a.Violation != nil {
		fmt.Println(a.Violation.Kind + `: ` + a.Violation.Msg)
		return 1
	}
	return 0
}

// Determinism runs seeds several times in different processes, orders and company, and compares.
func (o *Orch) Determinism(prop string, n int) int {
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = mix(o.Seed, uint64(i))
	}
	runs := 4
	res := make([][]string, runs)
	var wg sync.WaitGroup
	for k := 0; k < runs; k++ {
		res[k] = make([]string, n)
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			batch := []int{n, 7, 50, 1}[k]
			var w *worker
			for c := 0; c < n; c++ {
				i := c
				if k == 1 {
					i = n - 1 - c
				}
				if c%batch == 0 {
					if w != nil {
						w.close()
					}
					w, _ = startWorker(o.Bin, o.Scratch)
				}
				a := w.do(&Job{Op: `run`, Prop: prop, Seed: seeds[i]})
				res[k][i] = sig(a)
				if w.dead || a.Violation != nil || a.Err != `` {
					w.close()
					w, _ = startWorker(o.Bin, o.Scratch)
				}
			}
			w.close()
		}()
	}
	wg.Wait()
	bad := 0
	for i := range seeds {
		for k := 1; k < runs; k++ {
			if res[k][i] != res[0][i] {
				bad++
				if bad < 5 {
					fmt.Printf("seed %d differs:\n  %s\n  %s\n", seeds[i], res[0][i], res[k][i])
				}
				break
			}
		}
	}
	fmt.Printf("%s: %d seeds, %d executions each, %d differ\n", prop, n, runs, bad)
	if bad > 0 {
		return 2
	}
	return 0
}

func sig(a *Answer) string {
	st := []string{}
	for k, v := range a.Stats {
		st = append(st, fmt.Sprintf(`%s=%d`, k, v))
	}
	sort.Strings(st)
	v := ``
	if a.Violation != nil {
		v = a.Violation.Kind + `: ` + first(a.Violation.Msg, 300)
	}
	return fmt.Sprintf(`%s steps=%d choices=%d ms=%d devs=%d %s %s %s`, a.Hash, a.Steps, a.Choices, a.VirtualMs, len(a.Devs), strings.Join(st, ` `), a.Err, v)
}

// Replayable is the content of a replay file.
type Replayable struct {
	Property  string          `json:"property"`
	Violation *Violation      `json:"violation"`
	Seed      uint64          `json:"seed"`
	Found     uint64          `json:"found_by_seed"`
	VerifSeed uint64          `json:"verif_seed"`
	Prefix    []uint64        `json:"prefix_seeds,omitempty"` // evaluations that precede in the same process
	Replay    bool            `json:"replay"`                 // false: the seed draws the schedule
	Spec      json.RawMessage `json:"spec,omitempty"`
	Devs      []Dev           `json:"schedule"`
	Hash      string          `json:"hash"`
	Steps     int             `json:"steps"`
	Tier      string          `json:"tier"`
	Trace     []string        `json:"trace,omitempty"`
}

func (r *Replayable) jobs(trace bool) []*Job {
	var js []*Job
	for _, p := range r.Prefix {
		js = append(js, &Job{Op: `run`, Prop: r.Property, Seed: p, Tier: r.Tier})
	}
	return append(js, &Job{Op: `run`, Prop: r.Property, Seed: r.Seed, Spec: r.Spec, Replay: r.Replay, Devs: r.Devs, Tier: r.Tier, Trace: trace})
}

// Replay runs a replay file.
func (o *Orch) Replay(path string) int {
	bs, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := &Replayable{}
	if err = json.Unmarshal(bs, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	a := o.fresh(r.jobs(true)...)
	for _, l := range a.Trace {
		fmt.Println(l)
	}
	if a.Err != `` {
		fmt.Fprintln(os.Stderr, a.Err)
		return 2
	}
	if a.Violation == nil {
		fmt.Println(`the violation does not occur`)
		return 0
	}
	same := a.Hash == r.Hash && a.Steps == r.Steps
	fmt.Printf("%s: %s\nidentical to the recorded execution: %v\n", a.Violation.Kind, a.Violation.Msg, same)
	return 1
}

// Finding is an entry of the known findings.
type Finding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func (o *Orch) findings(prop string) (fs []*Finding, err error) {
	bs, err := os.ReadFile(filepath.Join(o.Verif, `known-findings.json`))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var all []*Finding
	if err = json.Unmarshal(bs, &all); err != nil {
		return nil, err
	}
	for _, f := range all {
		if f.Property == prop && f.Fixed == `` {
			fs = append(fs, f)
		}
	}
	return
}

func (f *Finding) is(v *Violation) bool {
	ok, err := regexp.MatchString(f.Match, v.Msg)
	return f.Kind == v.Kind && err == nil && ok
}
