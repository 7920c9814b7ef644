//go:build go1.22

package zzsim

import (
	"fmt"
	"path"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Outcome of a lookup.
type Outcome struct {
	Status string `json:"status"` // found, notfound, error, unknown
	Val    string `json:"val,omitempty"`
	Err    string `json:"err,omitempty"`
	text   string // how an explanation shows the value, if it came from the library
}

func (o Outcome) String() string {
	switch o.Status {
	case `found`:
		return `found ` + o.Val
	case `error`:
		return `error ` + strconv.Quote(o.Err)
	}
	return o.Status
}

// Same tells if two outcomes agree, without regard to the wording of errors.
func (o Outcome) Same(p Outcome) bool { return o.Status == p.Status && o.Val == p.Val }

func found(v interface{}) Outcome { return Outcome{Status: `found`, Val: canon(v)} }

// model is the reference: an independent, sequential evaluation of a lookup over a universe that never changes.
type model struct {
	u     *Universe
	files map[string]*DataFile
	scope map[string]interface{}
	env   map[string]string
	cfgs  map[string]*mcfg
	strat string
	nest  int
	deps  map[string]bool // data files consulted
	top   string          // mux (REST, CLI), mux-module, module, or the configuration itself
	mpath string          // module path
	ypath string          // of the file of a session without a configuration
	keys  []string        // lookups in progress
	svars []string        // scope variables being interpolated
	steps int
	tag   string // of the session, see ftag
	cyc   bool   // recursion is an error; without this it is unknown
}

type mcfg struct {
	entries []*mentry
	opts    map[string]interface{}
	module  string
}

type mentry struct {
	e    *Entry
	locs []mloc
	none bool // no locations at all
	fn   bool // a function of the session or of a plugin
}

type mloc struct {
	path   string
	exists bool
}

type mErr string
type mUnknown string

func newModel(u *Universe, top string) *model {
	return &model{u: u, files: u.files(), scope: map[string]interface{}{}, env: map[string]string{}, top: top, cfgs: map[string]*mcfg{}, deps: map[string]bool{}}
}

// modelOf makes a model for a spec.
func modelOf(s *Spec) *model {
	top := s.Top
	if s.Kind != `lib` {
		top = `mux`
	}
	m := newModel(s.U, top)
	m.env = s.Env
	m.mpath = s.S[`modulepath`]
	m.ypath = s.S[`yamlpath`]
	if s.Kind == `lib` {
		for k, v := range s.Scope {
			m.scope[k] = normalize(v)
		}
	}
	m.cyc = s.N[`cyc`] > 0
	return m
}

// op evaluates an operation of a spec.
func (m *model) op(s *Spec, o *Op) Outcome {
	if s.Kind == `lib` {
		return m.lib(o)
	}
	var vs []string
	if s.Kind == `rest` {
		vs = srvVars(s)
	}
	return m.request(o, vs)
}

// lib evaluates a lookup made through the library.
func (m *model) lib(o *Op) Outcome {
	return m.run(func() (interface{}, bool) {
		for k, v := range scopeOf(o) {
			m.scope[k] = v
		}
		if o.Do == `all` {
			return m.all(o, o.Merge), true
		}
		v, ok := m.first(o, o.Merge)
		if !ok && o.Default != nil {
			v, ok = *o.Default, true
		}
		if ok {
			v = m.typed(o.Type, v)
		}
		return v, ok
	})
}

func (m *model) fail(f string, a ...interface{}) { panic(mErr(fmt.Sprintf(f, a...))) }
func (m *model) unknown(f string)                { panic(mUnknown(f)) }

// run evaluates f.
func (m *model) run(f func() (interface{}, bool)) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case mErr:
				o = Outcome{Status: `error`, Err: string(r)}
			case mUnknown:
				o = Outcome{Status: `unknown`, Err: string(r)}
			default:
				panic(r)
			}
		}
	}()
	v, ok := f()
	if !ok {
		return Outcome{Status: `notfound`}
	}
	return found(v)
}

// all is a lookup of all of several keys.
func (m *model) all(o *Op, merge string) map[string]interface{} {
	all := map[string]interface{}{}
	for _, k := range o.Keys {
		if v, ok := m.one(o, []string{k}, merge); ok {
			all[k] = v
		}
	}
	return all
}

// first is a lookup of the first of one or several keys that is found.
func (m *model) first(o *Op, merge string) (interface{}, bool) {
	if o.Do == `first` {
		return m.one(o, o.Keys, merge)
	}
	return m.one(o, []string{o.Key}, merge)
}

func (m *model) one(o *Op, keys []string, merge string) (interface{}, bool) {
	for _, k := range keys {
		if v, ok := o.Over[k]; ok {
			return v, true
		}
	}
	for _, k := range keys {
		if v, ok := m.lookup(k, merge); ok {
			return v, true
		}
	}
	for _, k := range keys {
		if v, ok := o.Dflts[k]; ok {
			return v, true
		}
	}
	return nil, false
}

// request evaluates a lookup made through REST or the command line.
func (m *model) request(o *Op, srvVars []string) Outcome {
	return m.run(func() (interface{}, bool) {
		if o.Path != `` {
			m.unknown(`raw request`)
		}
		switch o.Type {
		case ``, `any`, `string`, `int`:
		default:
			m.unknown(`type`)
		}
		for _, e := range append(append([]string{}, srvVars...), o.Vars...) {
			g := regexp.MustCompile(`\A(.*?[^:=])[:=]([^:=].*)\z`).FindStringSubmatch(e)
			if g == nil {
				m.fail(`bad variable`)
			}
			v := strings.TrimSpace(g[2])
			if strings.IndexAny(v, `{["'`) == 0 || strings.Contains(v, `%{`) && !m.cyc {
				m.unknown(`variable`)
			}
			m.scope[strings.TrimSpace(g[1])] = v
		}
		merge := o.Merge
		if merge == `first` {
			merge = ``
		}
		if o.Do == `all` {
			if o.Type != `` {
				m.unknown(`type`)
			}
			return m.all(o, merge), true
		}
		v, ok := m.first(o, merge)
		if !ok && o.Default != nil {
			v, ok = strings.TrimSpace(*o.Default), true
			if strings.IndexAny(v.(string), `{["'`) == 0 {
				m.unknown(`default`)
			}
		}
		if ok {
			v = m.typed(o.Type, v)
			if strings.Contains(canon(v), infinite) {
				m.fail(`it has no JSON`)
			}
		}
		return v, ok
	})
}

// sens is a sensitive value.
type sens struct{ v interface{} }

func (s sens) MarshalJSON() ([]byte, error) {
	return []byte(`{"__type":"sensitive","__value":` + canon(s.v) + `}`), nil
}

func (m *model) typed(t string, v interface{}) interface{} {
	if t != `` && t != `any` && v == infinite {
		m.unknown(`conversion`)
	}
	s, is := v.(sens)
	switch t {
	case `sensitive`, `Sensitive`, `sensitive[any]`, `Sensitive[Any]`:
		if is {
			return s
		}
		return sens{v}
	case `sensitive[string]`, `Sensitive[String]`:
		if _, ok := v.(string); ok {
			return sens{v}
		}
	case ``, `any`:
		return v
	}
	if is || strings.Contains(t, `ensitive`) {
		m.unknown(`conversion`)
	}
	switch t {
	case `string`, `String`:
		switch v := v.(type) {
		case string:
			return v
		case int64:
			return strconv.FormatInt(v, 10)
		}
		m.unknown(`conversion`)
	case `int`:
		switch v := v.(type) {
		case int64:
			return v
		case string:
			if regexp.MustCompile(`^[1-9][0-9]*$`).MatchString(v) {
				n, _ := strconv.ParseInt(v, 10, 64)
				return n
			}
			if regexp.MustCompile(`^[a-z][a-z]`).MatchString(v) {
				m.fail(`cannot convert`)
			}
		}
		m.unknown(`conversion`)
	}
	return v
}

// typedWith is a conversion with an argument: the radix that a string is parsed in, or the format of a number.
func (m *model) typedWith(t string, v, arg interface{}) interface{} {
	switch t {
	case `int`, `Integer`:
		radix, _ := arg.(int64)
		if radix != 2 && radix != 8 && radix != 10 && radix != 16 {
			m.fail(`no such radix`)
		}
		switch v := v.(type) {
		case int64:
			return v
		case string:
			n, err := strconv.ParseInt(v, int(radix), 64)
			if err != nil {
				m.fail(`cannot convert`)
			}
			return n
		}
	case `string`, `String`:
		if f, ok := arg.(string); ok {
			// newString of dgo accepts formats that are nothing but the format
			if !regexp.MustCompile(`^%[0-9]*[a-zA-Z]$`).MatchString(f) {
				m.fail(`not a format`)
			}
			if n, ok := v.(int64); ok {
				return fmt.Sprintf(f, n)
			}
		}
	}
	m.unknown(`conversion`)
	return nil
}

func (m *model) str(v interface{}) string {
	switch v := v.(type) {
	case string:
		return v
	case int64:
		return strconv.FormatInt(v, 10)
	case bool:
		return strconv.FormatBool(v)
	case sens:
		return `sensitive [value redacted]`
	}
	m.unknown(`string of a collection`)
	return ``
}

var mIpl = regexp.MustCompile(`%{[^}]*}`)
var mMeth = regexp.MustCompile(`^(\w+)\((?:["]([^"]+)["]|[']([^']+)['])\)$`)

func (m *model) interpolate(v interface{}, methods bool) interface{} {
	switch v := v.(type) {
	case string:
		return m.istring(v, methods)
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = m.interpolate(e, methods)
		}
		return r
	case map[string]interface{}:
		r := map[string]interface{}{}
		// the order only matters for which of several errors comes first
		for _, k := range sortedKeys(v) {
			nk, ok := m.interpolate(k, methods).(string)
			if !ok {
				m.unknown(`key`)
			}
			r[nk] = m.interpolate(v[k], methods)
		}
		return r
	}
	return v
}

func (m *model) istring(s string, methods bool) interface{} {
	if !strings.Contains(s, `%{`) {
		return s
	}
	m.nest++
	defer func() { m.nest-- }()
	if m.steps++; m.nest > 60 && !m.cyc || m.nest > 1000 || m.steps > 20000 {
		m.unknown(`depth`)
	}
	var alias interface{}
	out := mIpl.ReplaceAllStringFunc(s, func(match string) string {
		expr := strings.TrimSpace(match[2 : len(match)-1])
		switch expr {
		case ``, `::`, `''`, `""`, `'::'`, `"::"`:
			return ``
		}
		g := mMeth.FindStringSubmatch(expr)
		if g == nil {
			if strings.ContainsAny(expr, `'"():`) {
				m.unknown(`expression`)
			}
			return m.inScope(expr, methods)
		}
		if !methods {
			m.fail(`no methods here`)
		}
		arg := g[2] + g[3]
		switch g[1] {
		case `literal`:
			return arg
		case `scope`:
			return m.inScope(arg, methods)
		case `lookup`, `hiera`:
			v, ok := m.lookup(arg, ``)
			if !ok {
				return ``
			}
			return m.str(v)
		case `alias`, `strict_alias`:
			if match != s {
				m.fail(`alias must be the entire string`)
			}
			if v, ok := m.lookup(arg, ``); ok {
				if v == nil {
					m.unknown(`alias of null`)
				}
				alias = v
			} else if g[1] == `strict_alias` {
				m.unknown(`strict_alias`)
			}
			return ``
		}
		m.fail(`unknown method`)
		return ``
	})
	if alias != nil {
		return alias
	}
	return out
}

func (m *model) inScope(expr string, methods bool) string {
	parts := mkey(m, expr)
	name := parts[0].(string)
	v, ok := m.scope[name]
	if !ok {
		return ``
	}
	for _, n := range m.svars {
		if n == name {
			m.recursion()
		}
	}
	m.svars = append(m.svars, name)
	v = m.interpolate(v, methods)
	m.svars = m.svars[:len(m.svars)-1]
	if v, ok = dig(v, parts); !ok {
		return ``
	}
	return m.str(v)
}

func mkey(m *model, k string) (parts []interface{}) {
	if strings.ContainsAny(k, `'"`) {
		// tidy quotes only: of entire segments
		if segs := tidySegments(k); segs != nil {
			for i, s := range segs {
				if s[0] == '\'' || s[0] == '"' {
					parts = append(parts, s[1:len(s)-1])
				} else if parts = append(parts, mkey(m, `x.`+s)[1]); i == 0 {
					if _, isName := parts[0].(string); !isName {
						m.fail(`key starts with an index`)
					}
				}
			}
			return parts
		}
		if strings.Count(k, `'`)+strings.Count(k, `"`) == 1 {
			m.fail(`unterminated quote`)
		}
		m.unknown(`quoted key`)
	}
	for i, p := range strings.Split(k, `.`) {
		if n, err := strconv.ParseInt(p, 10, 32); err == nil {
			if i == 0 {
				m.fail(`key starts with an index`)
			}
			parts = append(parts, n)
		} else if p == `` {
			m.fail(`empty segment`)
		} else {
			parts = append(parts, p)
		}
	}
	return
}

var quotedSegment = `(?:'[^']+'|"[^"]+"|[^'".]+)`
var quotedKey = regexp.MustCompile(`^` + quotedSegment + `(?:\.` + quotedSegment + `)*$`)

func tidySegments(k string) []string {
	if !quotedKey.MatchString(k) {
		return nil
	}
	return regexp.MustCompile(quotedSegment).FindAllString(k, -1)
}

func dig(v interface{}, parts []interface{}) (interface{}, bool) {
	for _, p := range parts[1:] {
		switch c := v.(type) {
		case []interface{}:
			n, ok := p.(int64)
			if !ok || n < 0 || int(n) >= len(c) {
				return nil, false
			}
			v = c[n]
		case map[string]interface{}:
			s, ok := p.(string)
			if !ok {
				return nil, false
			}
			if v, ok = c[s]; !ok {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return v, true
}

// lookup is a complete lookup of a dotted key.
func (m *model) lookup(key, merge string) (interface{}, bool) {
	parts := mkey(m, key)
	root := parts[0].(string)
	if root == `lookup_options` {
		return nil, false
	}
	for _, k := range m.keys {
		if k == key {
			m.recursion()
		}
	}
	m.keys = append(m.keys, key)
	var v interface{}
	var ok bool
	switch m.top {
	case `mux`, `mux-module`:
		v, ok = m.muxTop(root, merge)
	case `module`:
		v, ok = m.moduleTop(root, merge)
	case `yaml`:
		v, ok = m.data(m.ypath)[root]
	case `mux-yaml`:
		v, ok = m.muxYaml(root, merge)
	default:
		v, ok = m.configTop(root, merge)
	}
	if ok {
		v, ok = dig(m.interpolate(v, true), parts)
	}
	m.keys = m.keys[:len(m.keys)-1]
	return v, ok
}

func (m *model) recursion() {
	if !m.cyc {
		m.unknown(`recursion`)
	}
	m.fail(`recursive lookup detected`)
}

type pull func() (interface{}, bool)

func (m *model) setStrategy(merge string, opts map[string]interface{}) {
	if merge == `` && opts != nil {
		switch s := opts[`merge`].(type) {
		case string:
			merge = s
		case map[string]interface{}:
			merge, _ = s[`strategy`].(string)
		}
	}
	switch merge {
	case ``:
		merge = `first`
	case `first`, `unique`, `hash`, `deep`:
	default:
		m.fail(`unknown merge strategy`)
	}
	m.strat = merge
}

func (m *model) convert(opts map[string]interface{}, v interface{}, ok bool) (interface{}, bool) {
	if ok && opts != nil && opts[`convert_to`] != nil {
		switch ct := opts[`convert_to`].(type) {
		case string:
			v = m.typed(ct, v)
		case []interface{}:
			if len(ct) == 2 {
				return m.typedWith(ct[0].(string), v, ct[1]), ok
			}
			if len(ct) != 1 {
				m.unknown(`conversion`)
			}
			v = m.typed(ct[0].(string), v)
		}
	}
	return v, ok
}

// muxTop is the lookup of the server and of the command line: configuration first, then the environment; or that of a
// session with modules. Every nested lookup is a lookup of its own.
func (m *model) muxTop(root, merge string) (interface{}, bool) {
	cfg := m.config(m.u.config(), ``)
	var second pull
	opts, _ := cfg.opts[root].(map[string]interface{})
	if m.top == `mux-module` {
		var mod *mcfg
		if mod = m.module(root); mod != nil {
			if mo, ok := mod.opts[root].(map[string]interface{}); ok {
				if opts == nil {
					opts = mo
				} else {
					opts = mdeep(opts, mo).(map[string]interface{})
				}
			}
		}
		second = func() (interface{}, bool) {
			if mod == nil {
				return nil, false
			}
			return m.hierarchy(mod, root, m.strat)
		}
	} else {
		second = func() (interface{}, bool) { return m.environment(root) }
	}
	saved := m.strat
	defer func() { m.strat = saved }()
	m.setStrategy(merge, opts)
	st := m.strat
	v, ok := m.merge(st, []pull{
		func() (interface{}, bool) { m.strat = st; return m.hierarchy(cfg, root, st) },
		func() (interface{}, bool) { m.strat = st; return second() }})
	return m.convert(opts, v, ok)
}

// muxYaml is the lookup of a session without a configuration: one file, then the scope, then the environment.
func (m *model) muxYaml(root, merge string) (interface{}, bool) {
	saved := m.strat
	defer func() { m.strat = saved }()
	m.setStrategy(merge, nil)
	return m.merge(m.strat, []pull{
		func() (interface{}, bool) { v, ok := m.data(m.ypath)[root]; return v, ok },
		func() (interface{}, bool) { v, ok := m.scope[root]; return v, ok },
		func() (interface{}, bool) { return m.environment(root) }})
}

func (m *model) environment(root string) (interface{}, bool) {
	if strings.HasPrefix(root, `env::`) {
		v, ok := m.env[root[5:]]
		return v, ok
	}
	if root == `env` {
		all := map[string]interface{}{`TMPDIR`: `/tmp`}
		for k, v := range m.env {
			all[k] = v
		}
		return all, true
	}
	return nil, false
}

// configTop is the lookup of a session whose top provider is the configuration: nested lookups use the strategy of the
// lookup that they are part of.
func (m *model) configTop(root, merge string) (interface{}, bool) {
	return m.single(m.config(m.u.config(), ``), root, merge)
}

// moduleTop is the lookup of a session that has nothing but modules.
func (m *model) moduleTop(root, merge string) (interface{}, bool) {
	mod := m.module(root)
	if mod == nil {
		return nil, false
	}
	return m.single(mod, root, merge)
}

func (m *model) single(cfg *mcfg, root, merge string) (interface{}, bool) {
	if len(m.keys) > 1 {
		return m.hierarchy(cfg, root, m.strat)
	}
	opts, _ := cfg.opts[root].(map[string]interface{})
	m.setStrategy(merge, opts)
	v, ok := m.hierarchy(cfg, root, m.strat)
	return m.convert(opts, v, ok)
}

// module finds the module that a key belongs to.
func (m *model) module(root string) *mcfg {
	i := strings.Index(root, `::`)
	if i <= 0 {
		return nil
	}
	name := strings.ToLower(root[:i])
	if m.mpath == `` {
		return nil
	}
	for _, dir := range strings.Split(m.mpath, `:`) {
		var cand []*Module
		for _, id := range sortedKeys(m.u.Modules) {
			mod := m.u.Modules[id]
			if path.Dir(mod.Dir) == dir && strings.EqualFold(path.Base(mod.Dir), name) {
				cand = append(cand, mod)
			}
		}
		sort.Slice(cand, func(a, b int) bool { return cand[a].Dir < cand[b].Dir })
		for _, mod := range cand {
			if mod.File || mod.NoCfg {
				continue
			}
			return m.config(mod.Dir+`/hiera.yaml`, name)
		}
	}
	return nil
}

func (m *model) hierarchy(cfg *mcfg, root, strat string) (interface{}, bool) {
	var ps []pull
	for _, e := range cfg.entries {
		e := e
		ps = append(ps, func() (interface{}, bool) { return m.locations(e, root, strat) })
	}
	return m.merge(strat, ps)
}

func (m *model) locations(e *mentry, root, strat string) (interface{}, bool) {
	var ps []pull
	if e.none {
		return m.function(e.e, ``, root)
	}
	for _, l := range e.locs {
		l := l
		ps = append(ps, func() (interface{}, bool) {
			if !l.exists {
				return nil, false
			}
			if e.fn {
				return m.function(e.e, l.path, root)
			}
			v, ok := m.data(l.path)[root]
			if !ok {
				return nil, false
			}
			return m.interpolate(normalize(v), true), true
		})
	}
	if len(ps) == 1 {
		return ps[0]()
	}
	return m.merge(strat, ps)
}

// function is a function of the session, see sessionFunctions.
func (m *model) function(e *Entry, path, root string) (interface{}, bool) {
	if e.PluginFile != `` || e.Plug {
		return m.pluginAnswer(e, path, root)
	}
	switch e.Fn {
	case `environment`:
		return m.environment(root)
	case `scope`:
		v, ok := m.scope[root]
		return v, ok
	}
	if e.Fn == `ftag` {
		switch root {
		case `tag`, `memo`:
			return root + ` of ` + m.tag, true
		}
		return nil, false
	}
	if e.Fn == `fref` {
		refs, _ := e.Options[`refs`].(map[string]interface{})
		k, ok := refs[root].(string)
		if !ok {
			return nil, false
		}
		return m.lookup(k, ``)
	}
	v, ok, failed := fnAnswer(e.Kind, e.Options, path, root)
	if failed {
		m.fail(`provider failed`)
	}
	if ok && e.Kind == `data_hash` {
		v = m.interpolate(normalize(v), true)
	}
	return normalize(v), ok
}

// plugin is the path of the plugin that an entry needs.
func (m *model) plugin(root string, e *Entry) string {
	f := e.PluginFile
	if f == `` {
		if !e.Plug {
			return ``
		}
		f = e.Fn
	}
	p := path.Clean(abs(abs(root, e.PluginDir), f))
	if m.u.Plugins[p] == nil {
		m.unknown(`plugin`)
	}
	return p
}

// pluginAnswer is what a correct plugin answers, see echo.
func (m *model) pluginAnswer(e *Entry, path, root string) (interface{}, bool) {
	p := m.plugin(strings.TrimSuffix(m.u.config(), `/hiera.yaml`), e)
	has, other := false, false
	for kind, names := range m.u.Plugins[p].Funcs {
		for _, n := range names {
			has = has || n == e.Fn && kind == e.Kind
			other = other || n == e.Fn && kind != e.Kind
		}
	}
	if !has {
		if other {
			m.unknown(`function of another kind`)
		}
		m.fail(`no such function`) // of a plugin that has been started for it
	}
	opts := map[string]interface{}{}
	for k, v := range e.Options {
		opts[k] = v
	}
	if path != `` {
		opts[`path`] = path
	}
	os := ``
	if len(opts) > 0 {
		os = canon(opts)
	}
	key := root
	switch e.Kind {
	case `data_hash`:
		key = ``
	case `data_dig`:
		key = canon([]interface{}{root})
	}
	code, body := echo(p, e.Kind, e.Fn, key, os)
	if code != 200 {
		return nil, false
	}
	var v interface{}
	jsonInto(body, &v)
	v = normalize(v)
	if e.Kind == `data_hash` {
		h, isMap := v.(map[string]interface{})
		if v != nil && !isMap {
			m.fail(`not a hash`)
		}
		r, ok := h[root]
		if !ok {
			return nil, false
		}
		return m.interpolate(r, true), true
	}
	return v, true
}

func (m *model) data(p string) map[string]interface{} {
	m.deps[p] = true
	f := m.files[p]
	if f == nil {
		return nil
	}
	if f.Raw != `` || f.Dir || f.Blank {
		m.fail(`broken source %s`, p)
	}
	return f.Data
}

func (m *model) config(p, module string) *mcfg {
	if c := m.cfgs[p]; c != nil {
		return c
	}
	c := &mcfg{module: module}
	var es []*Entry
	raw, none, d := m.u.Raw, m.u.NoConfig, m.u.Defaults
	if none {
		d = nil
	}
	es = m.u.Entries
	for _, mod := range m.u.Modules {
		if module != `` && mod.Dir == path.Dir(p) {
			raw, none, es, d = mod.Raw, false, mod.Entries, mod.Defaults
		}
	}
	if raw != `` {
		m.fail(`broken configuration`)
	}
	if none {
		es = []*Entry{{Name: `Root`, Path: `data.yaml`, DataDir: `.`}, {Name: `Common`, Path: `common.yaml`}}
	}
	for _, e := range es {
		c.entries = append(c.entries, m.resolve(path.Dir(p), m.defaulted(e, d)))
	}
	v, ok := m.hierarchy(c, `lookup_options`, `deep`)
	if ok {
		lo, _ := v.(map[string]interface{})
		c.opts = map[string]interface{}{}
		for k, o := range lo {
			if module == `` || strings.HasPrefix(k, module+`::`) {
				c.opts[k] = o
			}
		}
	}
	m.cfgs[p] = c
	return c
}

// defaulted is the entry with what the defaults, the environment and the system define for it.
func (m *model) defaulted(e, d *Entry) *Entry {
	if d == nil {
		d = &Entry{}
	}
	c := *e
	if c.Kind == `` {
		c.Kind, c.Fn = d.Kind, d.Fn
	}
	if c.Kind == `` {
		c.Kind, c.Fn = `data_hash`, `yaml_data`
	}
	if c.DataDir == `` {
		c.DataDir = d.DataDir
	}
	if c.DataDir == `` {
		c.DataDir = m.env[`HIERA_DATADIR`]
	}
	if c.DataDir == `` {
		c.DataDir = `data`
	}
	c.DataDir = m.str(m.istring(c.DataDir, false))
	for _, p := range []string{d.PluginDir, m.env[`HIERA_PLUGINDIR`], `plugin`} {
		if c.PluginDir == `` {
			c.PluginDir = p
		}
	}
	c.PluginDir = m.str(m.istring(c.PluginDir, false))
	if c.NoOpts {
		c.Options = map[string]interface{}{}
	}
	if c.Options == nil {
		c.Options = d.Options
	}
	if c.Options != nil {
		c.Options = m.interpolate(normalize(c.Options), false).(map[string]interface{})
	}
	return &c
}

func (m *model) resolve(root string, e *Entry) *mentry {
	me := &mentry{e: e, fn: e.Fn == `fkey` || e.Fn == `fhash` || e.Fn == `fdig` || e.Fn == `fref` || e.Fn == `ftag` || e.Fn == `environment` || e.Fn == `scope` || m.plugin(root, e) != ``}
	switch {
	case me.fn, e.Kind == `data_hash` && (e.Fn == `yaml_data` || e.Fn == `json_data`):
	default:
		m.unknown(`function`)
	}
	dir := abs(root, e.DataDir)
	add := func(t string) {
		p := path.Join(dir, m.str(m.istring(t, false)))
		me.locs = append(me.locs, mloc{p, m.exists(p)})
	}
	switch {
	case e.Path != ``:
		add(e.Path)
	case e.Paths != nil:
		for _, p := range e.Paths {
			add(p)
		}
	case e.URI != ``:
		me.locs = append(me.locs, mloc{m.str(m.istring(e.URI, false)), true})
	case e.URIs != nil:
		for _, p := range e.URIs {
			me.locs = append(me.locs, mloc{m.str(m.istring(p, false)), true})
		}
	case e.Glob != ``, e.Globs != nil:
		gs := e.Globs
		if e.Glob != `` {
			gs = []string{e.Glob}
		}
		for _, g := range gs {
			pat := path.Join(dir, m.str(m.istring(g, false)))
			for _, p := range sortedKeys(m.files) {
				if globs(pat, p) {
					me.locs = append(me.locs, mloc{p, true})
				}
			}
		}
	case e.Mapped != nil:
		var vs []interface{}
		src := mkey(m, e.Mapped[0])
		sv, ok := m.scope[src[0].(string)]
		if ok {
			if sv, ok = dig(m.interpolate(normalize(sv), false), src); !ok {
				sv = nil
			}
		}
		switch v := sv.(type) {
		case string:
			vs = []interface{}{v}
		case []interface{}:
			vs = v
		}
		old, had := m.scope[e.Mapped[1]]
		for _, v := range vs {
			m.scope[e.Mapped[1]] = v
			add(e.Mapped[2])
		}
		if delete(m.scope, e.Mapped[1]); had {
			m.scope[e.Mapped[1]] = old
		}
	default:
		me.none = true
		if !me.fn {
			m.unknown(`no location`)
		}
	}
	return me
}

func (m *model) exists(p string) bool {
	if m.files[p] != nil {
		return true
	}
	for q := range m.files {
		if strings.HasPrefix(q, p+`/`) {
			return true
		}
	}
	return false
}

func (m *model) merge(strat string, ps []pull) (interface{}, bool) {
	switch len(ps) {
	case 0:
		return nil, false
	case 1:
		v, ok := ps[0]()
		if ok && strat == `unique` {
			if a, isa := v.([]interface{}); isa {
				v = uniq(flat(a))
			}
		}
		return v, ok
	}
	var memo interface{}
	have := false
	for _, p := range ps {
		v, ok := p()
		if !ok {
			continue
		}
		if strat == `first` {
			return v, true
		}
		if !have {
			have = true
			memo = v
			if strat == `unique` {
				memo = flat(arr(v))
			}
			continue
		}
		switch strat {
		case `unique`:
			memo = uniq(append(append([]interface{}{}, flat(arr(memo))...), flat(arr(v))...))
		case `hash`:
			a, ok1 := memo.(map[string]interface{})
			b, ok2 := v.(map[string]interface{})
			if ok1 && ok2 {
				r := map[string]interface{}{}
				for k, e := range b {
					r[k] = e
				}
				for k, e := range a {
					r[k] = e
				}
				memo = r
			}
		case `deep`:
			memo = mdeep(memo, v)
		}
	}
	return memo, have
}

func arr(v interface{}) []interface{} {
	if a, ok := v.([]interface{}); ok {
		return a
	}
	return []interface{}{v}
}

func flat(a []interface{}) []interface{} {
	r := []interface{}{}
	for _, e := range a {
		if s, ok := e.([]interface{}); ok {
			r = append(r, flat(s)...)
		} else {
			r = append(r, e)
		}
	}
	return r
}

func uniq(a []interface{}) []interface{} {
	r := []interface{}{}
next:
	for _, e := range a {
		for _, o := range r {
			if reflect.DeepEqual(o, e) {
				continue next
			}
		}
		r = append(r, e)
	}
	return r
}

func mdeep(a, b interface{}) interface{} {
	switch a := a.(type) {
	case map[string]interface{}:
		if hb, ok := b.(map[string]interface{}); ok {
			r := map[string]interface{}{}
			for k, v := range a {
				if bv, ok := hb[k]; ok {
					v = mdeep(v, bv)
				}
				r[k] = v
			}
			for k, v := range hb {
				if _, ok := a[k]; !ok {
					r[k] = v
				}
			}
			return r
		}
	case []interface{}:
		if ab, ok := b.([]interface{}); ok && len(ab) > 0 {
			if len(a) == 0 {
				return ab
			}
			return uniq(append(append([]interface{}{}, a...), ab...))
		}
	}
	return a
}

func keysOf(m map[string]bool) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
