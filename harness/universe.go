//go:build go1.22

package zzsim

import (
	"bytes"
	"encoding/json"
	"path"
	"strings"
)

// Universe is the configuration and the data of a session.
type Universe struct {
	ConfigPath string               `json:"config_path,omitempty"`
	Raw        string               `json:"raw,omitempty"` // literal text of the configuration
	NoConfig   bool                 `json:"no_config,omitempty"`
	Entries    []*Entry             `json:"entries,omitempty"`
	Files      map[string]*DataFile `json:"files,omitempty"` // relative to the data directory, or absolute
	Modules    map[string]*Module   `json:"modules,omitempty"`
	Plugins    map[string]*Plugin   `json:"plugins,omitempty"`
	DD         string               `json:"dd,omitempty"` // data directory if it isn't data, see dataDir
	Defaults   *Entry               `json:"defaults,omitempty"`
	DefHier    []*Entry             `json:"defhier,omitempty"` // the default hierarchy. No lookup uses it
}

// Entry of a hierarchy.
type Entry struct {
	Name       string                 `json:"name"`
	Kind       string                 `json:"kind,omitempty"` // data_hash lookup_key data_dig
	Fn         string                 `json:"fn,omitempty"`
	Path       string                 `json:"path,omitempty"`
	Paths      []string               `json:"paths,omitempty"`
	Glob       string                 `json:"glob,omitempty"`
	Globs      []string               `json:"globs,omitempty"`
	URI        string                 `json:"uri,omitempty"`
	URIs       []string               `json:"uris,omitempty"`
	Mapped     []string               `json:"mapped,omitempty"`
	Options    map[string]interface{} `json:"options,omitempty"`
	PluginFile string                 `json:"pluginfile,omitempty"`
	PluginDir  string                 `json:"plugindir,omitempty"`
	Plug       bool                   `json:"plug,omitempty"` // in a plugin named as the function
	DataDir    string                 `json:"datadir,omitempty"`
	NoOpts     bool                   `json:"no_opts,omitempty"` // the options are there, but empty
	FnIpl      bool                   `json:"fn_ipl,omitempty"`  // the name of the function is interpolated
}

// DataFile is a data source.
type DataFile struct {
	Data map[string]interface{} `json:"data,omitempty"`
	Raw  string                 `json:"raw,omitempty"` // literal text: a broken source
	Dir  bool                   `json:"dir,omitempty"` // a directory where a file is expected
	// Blank is an empty file
	Blank bool `json:"blank,omitempty"`
}

// Module is a module below the module path.
type Module struct {
	Dir      string               `json:"dir"` // absolute
	NoCfg    bool                 `json:"no_cfg,omitempty"`
	File     bool                 `json:"file,omitempty"`    // a file where a directory is expected
	CfgDir   bool                 `json:"cfg_dir,omitempty"` // a directory where the configuration is expected, with NoCfg
	Raw      string               `json:"raw,omitempty"`
	Entries  []*Entry             `json:"entries,omitempty"`
	Defaults *Entry               `json:"defaults,omitempty"`
	Files    map[string]*DataFile `json:"files,omitempty"`
}

func (u *Universe) config() string {
	if u.ConfigPath != `` {
		return u.ConfigPath
	}
	return `/hiera/hiera.yaml`
}

func (u *Universe) dataDir() string {
	if u.DD != `` {
		return abs(path.Dir(u.config()), u.DD)
	}
	return path.Join(path.Dir(u.config()), `data`)
}

func abs(dir, p string) string {
	if strings.HasPrefix(p, `/`) {
		return p
	}
	return path.Join(dir, p)
}

// files lists all data files by absolute path.
func (u *Universe) files() map[string]*DataFile {
	m := map[string]*DataFile{}
	for p, f := range u.Files {
		m[abs(u.dataDir(), p)] = f
	}
	for _, mod := range u.Modules {
		for p, f := range mod.Files {
			m[abs(mod.Dir+`/data`, p)] = f
		}
	}
	return m
}

// size is the length of a data file.
func (u *Universe) size(p string) int {
	if f := u.files()[p]; f != nil {
		return len(f.Text())
	}
	return 1
}

func jsonText(v interface{}) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent(``, ` `)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return b.String()
}

// Text is the content of the file.
func (f *DataFile) Text() string {
	if f.Raw != `` || f.Blank {
		return f.Raw
	}
	if f.Data == nil {
		return `{}`
	}
	return strings.Replace(jsonText(f.Data), `"`+infinite+`"`, `.inf`, -1)
}

// infinite stands for a number that has no JSON. Only YAML files may hold it.
const infinite = `=infinite=`

func (e *Entry) toMap() map[string]interface{} {
	m := map[string]interface{}{`name`: e.Name}
	set := func(k string, v interface{}, ok bool) {
		if ok {
			m[k] = v
		}
	}
	fn := e.Fn
	if e.FnIpl {
		fn = fn[:2] + `%{none}` + fn[2:]
	}
	set(e.Kind, fn, e.Kind != ``)
	set(`path`, e.Path, e.Path != ``)
	set(`paths`, e.Paths, e.Paths != nil)
	set(`glob`, e.Glob, e.Glob != ``)
	set(`globs`, e.Globs, e.Globs != nil)
	set(`uri`, e.URI, e.URI != ``)
	set(`uris`, e.URIs, e.URIs != nil)
	set(`mapped_paths`, e.Mapped, e.Mapped != nil)
	set(`options`, e.Options, e.Options != nil)
	set(`options`, map[string]interface{}{}, e.NoOpts)
	set(`pluginfile`, e.PluginFile, e.PluginFile != ``)
	set(`plugindir`, e.PluginDir, e.PluginDir != ``)
	set(`datadir`, e.DataDir, e.DataDir != ``)
	return m
}

func (m *Module) configText() string { return configTextAll(m.Entries, m.Defaults, nil) }

func configText(es []*Entry) string { return configTextAll(es, nil, nil) }

func configTextAll(es []*Entry, d *Entry, dh []*Entry) string {
	h := []interface{}{}
	for _, e := range es {
		h = append(h, e.toMap())
	}
	m := map[string]interface{}{`version`: 5, `hierarchy`: h}
	if d != nil {
		dm := d.toMap()
		delete(dm, `name`)
		m[`defaults`] = dm
	}
	if dh != nil {
		h = []interface{}{}
		for _, e := range dh {
			h = append(h, e.toMap())
		}
		m[`default_hierarchy`] = h
	}
	return jsonText(m)
}

// ConfigText is the text of the configuration.
func (u *Universe) ConfigText() string {
	if u.Raw != `` {
		return u.Raw
	}
	return configTextAll(u.Entries, u.Defaults, u.DefHier)
}

// Install puts the universe into the world.
func (u *Universe) Install(x *Exec) {
	fs := x.W.FS
	if !u.NoConfig {
		fs.Put(u.config(), u.ConfigText())
	}
	all := u.files()
	for _, p := range sortedKeys(all) {
		if f := all[p]; f.Dir {
			fs.Mkdir(p)
		} else {
			fs.Put(p, f.Text())
		}
	}
	for _, n := range sortedKeys(u.Modules) {
		m := u.Modules[n]
		if m.File {
			fs.Put(m.Dir, `file`)
			continue
		}
		fs.Mkdir(m.Dir)
		switch {
		case m.CfgDir:
			fs.Mkdir(m.Dir + `/hiera.yaml`)
		case m.NoCfg:
		case m.Raw != ``:
			fs.Put(m.Dir+`/hiera.yaml`, m.Raw)
		default:
			fs.Put(m.Dir+`/hiera.yaml`, m.configText())
		}
	}
	for _, p := range sortedKeys(u.Plugins) {
		u.Plugins[p].install(x, p)
	}
}

// expand replaces %{name} by every known value of the variable.
func expand(p string) []string {
	i := strings.Index(p, `%{`)
	if i < 0 {
		return []string{p}
	}
	j := strings.IndexByte(p, '}')
	vals := scopeVars[p[i+2:j]]
	if p[i+2:j] == `r` {
		vals = scopeVars[`role`]
	}
	var out []string
	for _, v := range append([]string{``}, vals...) {
		out = append(out, expand(p[:i]+v+p[j+1:])...)
	}
	return out
}

// candidates lists the data files that an entry may use, for the generator.
func (e *Entry) candidates() (ls []string) {
	ps := e.Paths
	if e.Path != `` {
		ps = []string{e.Path}
	}
	if e.Mapped != nil {
		ps = []string{e.Mapped[2]}
	}
	if e.Glob != `` {
		d := e.Glob[:strings.Index(e.Glob, `/`)+1]
		for _, p := range expand(e.Glob) {
			for _, f := range []string{`m.yaml`, `a1.yaml`, `s/x.yaml`, `s/k.yaml`, `r/x.yaml`, `s/t/m.yaml`, `m/x.yaml`,
				`dev.yaml`, `prod2.yaml`, `web/x.yaml`, `db/s/x.yaml`, `s/x1.yaml`, `m/x2.yaml`} {
				if globs(p, d+f) {
					ls = append(ls, d+f)
				}
			}
		}
		return
	}
	for i, g := range e.Globs {
		ls = append(ls, strings.Replace(g, `*`, string(rune('m'+i)), 1))
	}
	if e.DataDir != `` {
		for _, d := range expand(e.DataDir) {
			for _, p := range ps {
				for _, q := range expand(p) {
					ls = append(ls, abs(`/hiera`, path.Join(d, q)))
				}
			}
		}
		return
	}
	for _, p := range ps {
		ls = append(ls, expand(p)...)
	}
	return
}

// globs tells if a pattern of path components, which knows `**` and alternatives, matches a path.
func globs(pat, p string) bool {
	if i := strings.Index(pat, `{`); i >= 0 {
		j := strings.Index(pat, `}`)
		for _, a := range strings.Split(pat[i+1:j], `,`) {
			if globs(pat[:i]+a+pat[j+1:], p) {
				return true
			}
		}
		return false
	}
	return globComps(strings.Split(pat, `/`), strings.Split(p, `/`))
}

func globComps(pat, p []string) bool {
	if len(pat) == 0 || len(p) == 0 {
		return len(pat) == len(p)
	}
	if pat[0] == `**` && len(pat) > 1 {
		return globComps(pat[1:], p) || globComps(pat, p[1:])
	}
	ok, _ := path.Match(pat[0], p[0])
	return ok && globComps(pat[1:], p[1:])
}
