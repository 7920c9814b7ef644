//go:build go1.22

package zzsim

import (
	"regexp"
	"sort"
	"strings"

	"simkit/world"
)

func init() {
	scenarios[`C03`] = &Scenario{Gen: genC03, Run: runC03,
		Rule: `a case is a session whose configuration file has 1-5 successive states (valid, broken, missing, unreadable for a while, slow to read), each naming data of its own, with 1-4 concurrent clients that look up while the states change, and late lookups after all faults have ended; non-trivial when at least two lookups overlapped a change of state or a fault fired`}
}

// ended collects operations and judges failures of the environment's making.
type ended struct {
	x  *Exec
	ds []*Done
}

// excused tells which failed operations have a cause: one that cause finds between two sequence numbers, or that of
// another failed operation that was going on at the same time (it may have waited for that one).
func (e *ended) excused(cause func(d *Done) bool) map[*Done]bool {
	ok := map[*Done]bool{}
	for more := true; more; {
		more = false
		for _, d := range e.ds {
			if d.Out.Status != `error` || ok[d] {
				continue
			}
			good := cause(d)
			for _, o := range e.ds {
				if !good && o != d && ok[o] && o.From < d.To && d.From < o.To {
					good = true
				}
			}
			if good {
				ok[d] = true
				more = true
			}
		}
	}
	return ok
}

// fired tells if a fault made something fail in the given time.
func (x *Exec) fired(from, to int) bool {
	for _, f := range x.W.Fired {
		if f.Seq > from && f.Seq < to {
			return true
		}
	}
	return false
}

const cfgDefault = `cfg~0`

// genC03 draws a configuration that changes and cannot be read at times.
func genC03(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`rest`, `lib`, `lib`, `lib`), Policy: g.Policy(), MaxSteps: 6000000, N: map[string]int{}, S: map[string]string{}}
	if s.Kind == `lib` {
		s.Top = g.Pick(``, `mux`)
	}
	s.U = &Universe{Files: map[string]*DataFile{`/hiera/data.yaml`: {Data: map[string]interface{}{`v`: cfgDefault, `w`: `all`}}}}
	if g.P(0.2) {
		// the configuration of a module
		s.Kind, s.Top = `lib`, g.Pick(`module`, `mux-module`)
		s.S[`modulepath`] = `/mods`
		s.S[`cfg`] = `/mods/alpha/hiera.yaml`
		s.U.Entries = []*Entry{{Name: `e`, Path: `none.yaml`}}
		s.U.Modules = map[string]*Module{`/mods/alpha`: {Dir: `/mods/alpha`, NoCfg: true, Files: map[string]*DataFile{}}}
	}
	mod := s.S[`cfg`] != ``
	key := `v`
	if mod {
		key = `alpha::v`
	}
	version := func(k int) string {
		f := `c` + itoa(k) + `.yaml`
		d := &DataFile{Data: map[string]interface{}{key: `cfg~` + itoa(k), `w`: `all`}}
		if mod {
			s.U.Modules[`/mods/alpha`].Files[f] = d
		} else {
			s.U.Files[f] = d
		}
		t := configText([]*Entry{{Name: `one`, Path: f}})
		for i := g.Intn(3) * 40; i > 0; i-- {
			t += `# padding that makes it longer` + "\n"
		}
		return t
	}
	state := func(k int) string {
		switch g.Intn(8) {
		case 0:
			return g.Pick("version: 5\nhierarchy: nope\n", "version: 4\n", "{", "- a\n", "", "", "\n", "# nothing yet\n", "null\n", "hierarchy: [\n", "version: 5\nhierarchy:\n- name: a\n  path: x\n  paths: [y]\n")
		}
		return version(k)
	}
	path := s.S[`cfg`]
	if path == `` {
		path = s.U.config()
	}
	switch {
	case !mod && g.P(0.2):
		s.U.NoConfig = true
	case mod:
		s.U.Modules[`/mods/alpha`].NoCfg = false
		s.U.Modules[`/mods/alpha`].Raw = version(1)
	default:
		s.U.Raw = state(1)
		s.U.NoConfig = s.U.Raw == ``
	}
	at := 0
	for k := 2; g.P(0.7) && k < 6; k++ {
		at += g.Intn(12)
		if !mod && g.P(0.15) {
			s.Events = append(s.Events, &Event{AtMs: at, Do: `remove`, Path: path})
		} else {
			t := state(k)
			s.Events = append(s.Events, &Event{AtMs: at, Do: `put`, Path: path, Data: t})
		}
	}
	for _, e := range s.Events {
		if g.P(0.4) {
			e.On = g.Pick(`open `, `open-done `, `read `, `read-done `) + path
			e.Nth = 1 + g.Intn(3)
		}
	}
	for n := g.Intn(3); n > 0; n-- {
		f := &world.Fault{Op: g.Pick(`open`, `read`, `read`), Path: path, Kind: g.Pick(`EIO`, `EACCES`, `EMFILE`), Nth: []int{0, 1, 2, 3, -2}[g.Intn(5)]}
		if f.Op == `read` {
			f.Kind = g.Pick(`EIO`, `ESTALE`, `slow`, `short`)
			f.Off = g.Intn(3) * 20
			f.Ms = 1 + g.Intn(10)
		}
		s.Faults = append(s.Faults, f)
	}
	end := at + 5 + g.Intn(20)
	s.N[`end`] = end
	s.Events = append(s.Events, &Event{AtMs: end, Do: `clear-faults`}, &Event{AtMs: end + 1, Do: `put`, Path: path, Data: version(9)})
	for n := 1 + g.Intn(4); n > 0; n-- {
		var ops []*Op
		t := 0
		for k := 1 + g.Intn(3); k > 0; k-- {
			d := 0
			if g.P(0.6) {
				d = g.Intn(end/2 + 2)
			}
			t += d
			ops = append(ops, &Op{Do: `lookup`, Key: key, DelayMs: d})
		}
		// after the end of all trouble
		ops = append(ops, &Op{Do: `lookup`, Key: key, DelayMs: end + 50})
		s.Clients = append(s.Clients, ops)
	}
	return s
}

var cfgTag = regexp.MustCompile(`c([0-9])\.yaml`)

// cfgVersion tells which value the given state of the configuration leads to. Broken: none.
func cfgVersion(n *world.Node) (string, bool) {
	if n.Gen < 0 {
		return cfgDefault, true
	}
	t := string(n.Data)
	m := cfgTag.FindStringSubmatch(t)
	if m == nil {
		return ``, false
	}
	return `cfg~` + m[1], true
}

func runC03(r *Run) {
	r.Main(func(x *Exec) {
		x.Install(true)
		path := r.Spec.S[`cfg`]
		if path == `` {
			path = r.Spec.U.config()
		}
		e := &ended{x: x}
		start := x.S.Seq()
		ok := x.Drive(func(d *Done) { e.ds = append(e.ds, d) })
		if !ok {
			x.Fail(`stall`, `lookups do not end: %s`, x.S.Blocked())
			return
		}
		first := -1
		firstVal := ``
		sort.SliceStable(e.ds, func(a, b int) bool { return e.ds[a].To < e.ds[b].To })
		overlaps := 0
		for _, d := range e.ds {
			switch d.Out.Status {
			case `found`:
				if first < 0 {
					first, firstVal = d.To, d.Out.Val
				}
				if d.Out.Val != firstVal {
					x.Fail(`config`, `one lookup of the session gives %s, another one %s: they use different configurations`, firstVal, d.Out.Val)
					return
				}
			case `error`:
			default:
				x.Fail(`config`, `a lookup gives %s, but each configuration leads to a value`, d.Out)
				return
			}
			if len(x.W.FS.Versions(path, d.From, d.To)) > 1 {
				overlaps++
			}
		}
		cause := func(d *Done) bool {
			if x.fired(d.From, d.To) {
				return true
			}
			for _, n := range x.W.FS.Versions(path, d.From, d.To) {
				if _, ok := cfgVersion(n); !ok {
					return true
				}
			}
			return false
		}
		exc := e.excused(cause)
		for _, d := range e.ds {
			if d.Out.Status != `error` {
				continue
			}
			if !exc[d] {
				x.Fail(`wedged`, `the lookup of client %d, number %d, gives %s although the configuration can be loaded`, d.Client, d.N, d.Out)
				return
			}
			if first >= 0 && d.From > first {
				x.Fail(`reload`, `a lookup gives %s after the configuration was loaded`, d.Out)
				return
			}
			if d.Out.Err == `` {
				x.Fail(`cause`, `a lookup fails without a cause`)
			}
			x.namesCause(d, e)
		}
		if first < 0 {
			x.Fail(`wedged`, `no lookup succeeds although the configuration can be loaded in the end`)
			return
		}
		was := false
		for _, n := range x.W.FS.Versions(path, start, first) {
			if v, ok := cfgVersion(n); ok && canon(v) == firstVal {
				was = true
			}
		}
		if !was {
			x.Fail(`config`, `the lookups give %s, but that configuration did not exist when it was loaded`, firstVal)
		}
		full := 0
		for _, rd := range x.W.Full {
			if rd.Path != path {
				continue
			}
			for _, n := range x.W.FS.Versions(path, 0, x.S.Seq()) {
				if _, ok := cfgVersion(n); ok && n.Gen == rd.Gen {
					full++
				}
			}
			if rd.Seq > first {
				x.Fail(`reload`, `the configuration is read again after it was loaded`)
			}
		}
		if full > 1 {
			x.Fail(`reload`, `the valid configuration is loaded %d times`, full)
		}
		r.A.Nontriv = overlaps > 1 || len(x.W.Fired) > 0
	})
}

var errnoText = map[string]string{`EIO`: `input/output error`, `EACCES`: `permission denied`, `EMFILE`: `too many open files`, `ESTALE`: `stale`}

// namesCause checks that a failure is told by its cause, when there can be only one.
func (x *Exec) namesCause(d *Done, e *ended) {
	for _, o := range e.ds {
		if o != d && o.From < d.To && d.From < o.To {
			return
		}
	}
	text := ``
	n := 0
	for _, f := range x.W.Fired {
		if f.Seq > d.From && f.Seq < d.To {
			text = errnoText[f.Kind]
			n++
		}
	}
	if n == 1 && text != `` && !strings.Contains(d.Out.Err, text) {
		for _, v := range x.W.FS.Versions(x.Spec.U.config(), d.From, d.To) {
			if _, ok := cfgVersion(v); !ok {
				return
			}
		}
		x.Fail(`cause`, `a lookup fails with %q, but the cause is %q`, d.Out.Err, text)
	}
}
