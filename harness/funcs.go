//go:build go1.22

package zzsim

import (
	"errors"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hierasdk/hiera"
	"simkit/simrt"
	"simkit/world"
)

// The functions that sessions of the library bring along. Each answers from the option 'data' of its hierarchy entry,
// and fails for the keys in the option 'fail'.
var sessionFunctions map[string]interface{}

func init() {
	sessionFunctions = map[string]interface{}{
		`fkey`: func(pc hiera.ProviderContext, key string) dgo.Value {
			enter(`fkey`)
			return fnValue(`lookup_key`, pc, key)
		},
		`fhash`: func(pc hiera.ProviderContext) dgo.Value {
			enter(`fhash`)
			return fnValue(`data_hash`, pc, ``)
		},
		// fref answers with the value of another key
		`fref`: func(pc hiera.ProviderContext, key string) dgo.Value {
			enter(`fref`)
			refs, _ := plain(pc.Option(`refs`)).(map[string]interface{})
			if k, ok := refs[key].(string); ok {
				return pc.(api.ServerContext).Invocation().Lookup(api.NewKey(k), nil)
			}
			return nil
		},
		`fdig`: func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
			enter(`fdig`)
			return fnValue(`data_dig`, pc, key.Get(0).String())
		},
	}
}

// enter is the beginning of a function of the session. It fails when a fault says so.
func enter(name string) {
	simrt.YieldIO(name)
	if f := world.W.Hit(`fn`, name); f != nil {
		switch f.Kind {
		case `string`:
			panic(name + ` is down`)
		case `value`:
			panic(fnPanic{name})
		}
		panic(errors.New(name + ` is down`))
	}
}

type fnPanic struct{ name string }

func (f fnPanic) String() string { return f.name + ` is down` }

func fnValue(kind string, pc hiera.ProviderContext, key string) dgo.Value {
	opts := map[string]interface{}{}
	for _, n := range []string{`data`, `fail`} {
		if o := pc.Option(n); o != nil {
			opts[n] = plain(o)
		}
	}
	path := ``
	if p := pc.Option(`path`); p != nil {
		path = p.String()
	}
	if kind == `data_hash` {
		for _, f := range list(opts[`fail`]) {
			switch f {
			case `nothash`:
				return vf.String(`not a hash`)
			case `notarray`:
				return vf.Values(`a`, `b`)
			case `notint`:
				return vf.Integer(0)
			case `nil`:
				return vf.Nil
			default:
				panic(errors.New(`fhash fails`))
			}
		}
		m := map[string]interface{}{}
		d, _ := opts[`data`].(map[string]interface{})
		for k := range d {
			v, _, _ := fnAnswer(kind, opts, path, k)
			m[k] = v
		}
		return toDgo(m)
	}
	v, ok, failed := fnAnswer(kind, opts, path, key)
	switch {
	case failed:
		panic(errors.New(kind + ` function fails for ` + key))
	case !ok:
		return nil
	}
	return toDgo(v)
}

func list(v interface{}) []interface{} {
	a, _ := v.([]interface{})
	return a
}

// fnAnswer is what a function of the session gives for a key.
func fnAnswer(kind string, opts map[string]interface{}, path, key string) (v interface{}, ok, failed bool) {
	fail := list(opts[`fail`])
	if kind == `data_hash` && len(fail) > 0 {
		return nil, false, true
	}
	for _, f := range fail {
		if f == key {
			return nil, false, true
		}
	}
	d, _ := opts[`data`].(map[string]interface{})
	v, ok = d[key]
	if s, isStr := v.(string); isStr && path != `` && key != `lookup_options` {
		v = s + `@` + strings.Replace(path, `%{`, `%[`, -1) // it would be interpolated after all
	}
	return
}

// plain turns a dgo value into plain Go data.
func plain(v dgo.Value) interface{} {
	switch v := v.(type) {
	case dgo.Map:
		m := map[string]interface{}{}
		v.EachEntry(func(e dgo.MapEntry) { m[e.Key().String()] = plain(e.Value()) })
		return m
	case dgo.Array:
		a := []interface{}{}
		v.Each(func(e dgo.Value) { a = append(a, plain(e)) })
		return a
	case dgo.Integer:
		return v.GoInt()
	case dgo.Boolean:
		return v.GoBool()
	case dgo.String:
		return v.GoString()
	case dgo.Float:
		return v.GoFloat()
	case dgo.Nil:
		return nil
	}
	return v.String()
}
