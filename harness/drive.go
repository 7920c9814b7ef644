//go:build go1.22

package zzsim

import (
	"errors"
	"strings"
	"time"

	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/cli"
	"simkit/simrt"
	"simkit/simsync"
)

// Done is an operation that was carried out.
type Done struct {
	Op      *Op
	Client  int
	N       int
	Out     Outcome
	From    int // sequence numbers
	To      int
	Started time.Duration
	Ended   time.Duration
	Text    string // rendering of the explanation
	Task    *simrt.Task
	Resp    *Resp
}

// Drive performs the operations of the spec: through the server, the library or the command line. It returns false if
// they do not come to an end.
func (x *Exec) Drive(done func(d *Done)) bool {
	switch x.Spec.Kind {
	case `rest`:
		return x.driveREST(done)
	case `cli`:
		t := simrt.GoSys(`cli`, func() {
			for i, ops := range x.Spec.Clients {
				for n, o := range ops {
					d := &Done{Op: o, Client: i, N: n}
					x.perform(d, o, func() Outcome { out, text := x.CLI(o); d.Text = text; return out })
					done(d)
				}
			}
		})
		return x.WaitFor(10*time.Minute, t)
	}
	ok := true
	t := x.Session(nil, func(s api.Session) { ok = x.driveLib(s, done) })
	return x.WaitFor(12*time.Minute, t) && ok
}

func (x *Exec) perform(d *Done, o *Op, f func() Outcome) {
	if o.DelayMs > 0 {
		simrt.Sleep(ms(o.DelayMs))
	}
	d.From, d.Started = x.S.Seq(), x.S.Now()
	d.Task = simrt.Cur()
	d.Out = f()
	d.To, d.Ended = x.S.Seq(), x.S.Now()
	x.S.Eventf(`client %d op %d %s: %s`, d.Client, d.N, o.Key, d.Out)
}

func (x *Exec) driveREST(done func(d *Done)) bool {
	srv := x.StartServer(srvArgs(x.Spec))
	x.srv = srv
	var ts []*simrt.Task
	for i, ops := range x.Spec.Clients {
		i, ops := i, ops
		ts = append(ts, simrt.GoEnv(`client`+itoa(i), func() {
			for n, o := range ops {
				if !srv.Up() {
					return
				}
				d := &Done{Op: o, Client: i, N: n}
				x.perform(d, o, func() Outcome {
					r := srv.Get(o.Target())
					d.Task, d.Resp = r.Task, r
					return r.Outcome()
				})
				done(d)
			}
		}))
	}
	if !x.WaitFor(10*time.Minute, ts...) {
		return false
	}
	if !srv.Up() {
		x.Fail(`crash`, `the server is down`)
	}
	if x.Settled != nil {
		x.Settled()
	}
	if x.Spec.N[`stop`] > 0 {
		srv.h.Stop(errors.New(`accept: stopped by the simulator`))
		return x.WaitFor(2*time.Minute, srv.task)
	}
	return true
}

func (x *Exec) driveLib(s api.Session, done func(d *Done)) bool {
	var ts []*simrt.Task
	for i, ops := range x.Spec.Clients {
		i, ops := i, ops
		ts = append(ts, simrt.GoSys(`client`+itoa(i), func() { x.libClient(s, i, ops, done) }))
	}
	if !x.WaitFor(10*time.Minute, ts...) {
		return false
	}
	if x.Settled != nil {
		x.Settled()
	}
	return true
}

// libClient performs operations one after the other. Those with the same positive number share an invocation.
func (x *Exec) libClient(s api.Session, i int, ops []*Op, done func(d *Done)) {
	ivs := map[int]api.Invocation{}
	exs := map[int]api.Explainer{}
	for n, o := range ops {
		d := &Done{Op: o, Client: i, N: n}
		x.perform(d, o, func() (out Outcome) {
			ic := ivs[o.Inv]
			ex := exs[o.Inv]
			if ic == nil {
				if msg, failed := Caught(func() { ic, ex = Invoke2(s, o) }); failed {
					return Outcome{Status: `error`, Err: msg}
				}
				if o.Inv > 0 {
					ivs[o.Inv], exs[o.Inv] = ic, ex
				}
			}
			if o.Do == `all` {
				out = LibAll(s, ic, o)
			} else {
				out = Lib(s, ic, o)
			}
			if ex != nil {
				simrt.Atomically(func() { d.Text = ex.String() })
			}
			return
		})
		done(d)
	}
}

// CLI performs a lookup through the command line. The text is the output.
func (x *Exec) CLI(o *Op) (out Outcome, text string) {
	args := x.Spec.configArgs()
	explain := o.Explain != ``
	if !explain {
		args = append(args, `--render-as`, `json`)
	}
	switch o.Explain {
	case `data`:
		args = append(args, `--explain`)
	case `options`:
		args = append(args, `--explain-options`)
	case `both`:
		args = append(args, `--explain`, `--explain-options`)
	}
	if o.Merge != `` {
		args = append(args, `--merge`, o.Merge)
	}
	if o.Default != nil {
		args = append(args, `--default`, *o.Default)
	}
	if o.Type != `` {
		args = append(args, `--type`, o.Type)
	}
	args = append(args, x.Spec.Args...)
	for _, v := range o.Vars {
		args = append(args, `--var`, v)
	}
	switch o.Do {
	case `all`:
		args = append(append(args, `--all`), o.Keys...)
	case `first`:
		args = append(args, o.Keys...)
	default:
		args = append(args, o.Key)
	}
	var bs []byte
	var err error
	msg, failed := Caught(func() { bs, err = cli.ExecuteLookup(args...) })
	text = string(bs)
	switch {
	case failed:
		return Outcome{Status: `crash`, Err: msg}, text
	case err != nil:
		return Outcome{Status: `error`, Err: err.Error()}, text
	case explain:
		return Outcome{Status: `explained`}, text
	case strings.TrimSpace(text) == ``:
		return Outcome{Status: `notfound`}, text
	}
	c, ok := canonJSON(text)
	if !ok {
		return Outcome{Status: `garbled`, Val: c}, text
	}
	return Outcome{Status: `found`, Val: c}, text
}

var _ = simsync.IsFatal
