// Package build turns the working tree of the repository into a simulation worker.
package build

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/importer"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"simkit/instr"
)

type pkg struct {
	Dir        string
	ImportPath string
	Export     string
	GoFiles    []string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct {
		Path, Dir string
		Main      bool
		GoVersion string
	}
	Error *struct{ Err string }
}

var facades = map[string]string{
	`os`: `simkit/facade/simos`, `os/exec`: `simkit/facade/simexec`, `io/ioutil`: `simkit/facade/simioutil`,
	`path/filepath`: `simkit/facade/simfilepath`, `net`: `simkit/facade/simnet`, `net/http`: `simkit/facade/simhttp`,
	`time`: `simkit/facade/simtime`, `syscall`: `simkit/facade/simsyscall`, `context`: `simkit/facade/simcontext`,
	`os/signal`: `simkit/facade/simsignal`, `fmt`: `simkit/facade/simfmt`, `sync`: `simkit/simsync`,
	`log`: `simkit/facade/simlog`,
}

var mainClause = regexp.MustCompile(`(?m)^package main\b`)

// Options of a build.
type Options struct {
	Repo    string
	Verif   string
	Scratch string
	Out     string
	Log     io.Writer
}

const (
	dgoPath  = `github.com/lyraproj/dgo`
	starPath = `github.com/bmatcuk/doublestar`
	cmdPath  = `github.com/spf13/cobra`
)

func env() []string {
	e := os.Environ()
	return append(e, `GOTOOLCHAIN=local`, `GOFLAGS=-mod=mod -buildvcs=false`, `GOPROXY=off`, `GOWORK=off`, `GONOSUMDB=*`, `GONOSUMCHECK=1`)
}

func run(dir string, args ...string) ([]byte, error) {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = env()
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("%s: %s\n%s", strings.Join(args, ` `), err, errb.String())
	}
	return out.Bytes(), nil
}

// Worker builds the worker binary.
func Worker(o Options) error {
	// The module files are copied first, so that nothing can touch the repository's own.
	mod, err := os.ReadFile(filepath.Join(o.Repo, `go.mod`))
	if err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(o.Repo, `go.sum`))
	if err != nil {
		return err
	}
	modfile := filepath.Join(o.Scratch, `list.mod`)
	if err = os.WriteFile(modfile, mod, 0644); err != nil {
		return err
	}
	if err = os.WriteFile(filepath.Join(o.Scratch, `list.sum`), sum, 0644); err != nil {
		return err
	}
	lst, err := run(o.Repo, `go`, `list`, `-modfile=`+modfile, `-deps`, `-export`, `-json=Dir,ImportPath,Export,GoFiles,Standard,ImportMap,Module,Error`, `./hieraserver/rest`, `./cli`, `./lookup`, `./yaml2json`)
	if err != nil {
		return err
	}
	var pkgs []*pkg
	byPath := map[string]*pkg{}
	dc := json.NewDecoder(bytes.NewReader(lst))
	for dc.More() {
		p := &pkg{}
		if err := dc.Decode(p); err != nil {
			return err
		}
		if p.Error != nil {
			return fmt.Errorf(`%s: %s`, p.ImportPath, p.Error.Err)
		}
		pkgs = append(pkgs, p)
		byPath[p.ImportPath] = p
	}
	overlay := map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var errs []string
	dirs := map[string]string{}
	for _, p := range pkgs {
		if p.Standard || p.Module == nil {
			continue
		}
		var m instr.Mode
		var dst string
		switch {
		case p.Module.Main:
			m = instr.Mode{Imports: facades, Yield: `Yield`, Chan: true, Maps: true, Label: filepath.Base(p.Dir) + `/`}
			rel, _ := filepath.Rel(p.Module.Dir, p.Dir)
			dst = filepath.Join(o.Scratch, `repo`, rel)
		case p.Module.Path == dgoPath:
			m = instr.Mode{Imports: map[string]string{`sync`: `simkit/simsync`}, Maps: true, Chan: true, Label: `dgo/` + filepath.Base(p.Dir) + `/`}
			switch strings.TrimPrefix(p.ImportPath, dgoPath) {
			case `/loader`:
				m.Yield = `Yield`
			case `/internal`:
				m.Low = map[string]bool{`map.go`: true, `alias.go`: true}
				m.MapType = `hashMap`
				m.Writes = map[string]bool{`Put`: true, `PutAll`: true, `Remove`: true, `RemoveAll`: true}
			}
			rel, _ := filepath.Rel(p.Module.Dir, p.Dir)
			dst = filepath.Join(o.Scratch, `dgo`, rel)
			dirs[p.Module.Path] = p.Module.Dir
		case p.Module.Path == starPath:
			m = instr.Mode{Imports: facades, Label: `doublestar/`}
			dst = filepath.Join(o.Scratch, `doublestar`)
			dirs[p.Module.Path] = p.Module.Dir
		case p.ImportPath == cmdPath:
			m = instr.Mode{Imports: map[string]string{`os`: facades[`os`]}, Label: `cobra/`}
			dst = filepath.Join(o.Scratch, `cobra`)
			dirs[p.Module.Path] = p.Module.Dir
		default:
			continue
		}
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := one(p, m, dst, byPath, &mu, overlay)
			if err != nil {
				mu.Lock()
				errs = append(errs, err.Error())
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if len(errs) > 0 {
		return fmt.Errorf(`%s`, strings.Join(errs, "\n"))
	}
	for path, dir := range dirs {
		bs, err := os.ReadFile(filepath.Join(dir, `go.mod`))
		if os.IsNotExist(err) {
			bs = []byte("module " + path + "\n\ngo 1.12\n")
		} else if err != nil {
			return err
		}
		bs = append(bs, "\nrequire simkit v0.0.0\n"...)
		if err = os.WriteFile(filepath.Join(o.Scratch, filepath.Base(path), `go.mod`), bs, 0644); err != nil {
			return err
		}
	}
	// so do the main packages of the command line programs, as ordinary packages
	for _, prog := range []string{`lookup`, `yaml2json`} {
		dir, zz := filepath.Join(o.Repo, prog), `zz`+prog
		files := map[string]string{}
		for from, to := range overlay {
			if filepath.Dir(from) == dir {
				files[from] = to
			}
		}
		for from, to := range files {
			bs, err := os.ReadFile(to)
			if err != nil {
				return err
			}
			n := filepath.Join(o.Scratch, zz+`_`+filepath.Base(from))
			if err = os.WriteFile(n, mainClause.ReplaceAll(bs, []byte("package "+zz)), 0644); err != nil {
				return err
			}
			overlay[filepath.Join(o.Repo, zz, filepath.Base(from))] = n
		}
		export := filepath.Join(o.Scratch, zz+`_export.go`)
		if err := os.WriteFile(export, []byte("package "+zz+"\n\n// Main runs the program.\nfunc Main() { main() }\n"), 0644); err != nil {
			return err
		}
		overlay[filepath.Join(o.Repo, zz, `zz_export.go`)] = export
	}
	// harness files become part of the repository's module
	hs, err := filepath.Glob(filepath.Join(o.Verif, `harness`, `*.go`))
	if err != nil {
		return err
	}
	for _, h := range hs {
		overlay[filepath.Join(o.Repo, `zzsim`, filepath.Base(h))] = h
	}
	ts, _ := filepath.Glob(filepath.Join(o.Repo, `hieraserver`, `rest`, `*_test.go`))
	for _, t := range ts {
		overlay[t] = ``
	}
	overlay[filepath.Join(o.Repo, `hieraserver`, `rest`, `zz_sim_test.go`)] = filepath.Join(o.Verif, `harness`, `main`, `zz_sim_test.go`)
	bs, _ := json.Marshal(map[string]interface{}{`Replace`: overlay})
	ov := filepath.Join(o.Scratch, `overlay.json`)
	if err = os.WriteFile(ov, bs, 0644); err != nil {
		return err
	}
	mod = append(mod, fmt.Sprintf("\nrequire simkit v0.0.0\n\nreplace simkit => %s\n\nreplace %s => %s\n\nreplace %s => %s\n\nreplace %s => %s\n",
		filepath.Join(o.Verif, `sim`), dgoPath, filepath.Join(o.Scratch, `dgo`), starPath, filepath.Join(o.Scratch, `doublestar`), cmdPath, filepath.Join(o.Scratch, `cobra`))...)
	if err = os.WriteFile(filepath.Join(o.Scratch, `sim.mod`), mod, 0644); err != nil {
		return err
	}
	if err = os.WriteFile(filepath.Join(o.Scratch, `sim.sum`), sum, 0644); err != nil {
		return err
	}
	_, err = run(o.Repo, `go`, `test`, `-c`, `-vet=off`, `-modfile=`+filepath.Join(o.Scratch, `sim.mod`), `-overlay=`+ov, `-o`, o.Out, `./hieraserver/rest`)
	return err
}

func one(p *pkg, m instr.Mode, dst string, byPath map[string]*pkg, mu *sync.Mutex, overlay map[string]string) error {
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, `gc`, func(path string) (io.ReadCloser, error) {
		if q, ok := p.ImportMap[path]; ok {
			path = q
		}
		q := byPath[path]
		if q == nil || q.Export == `` {
			return nil, fmt.Errorf(`no export data for %s`, path)
		}
		return os.Open(q.Export)
	})
	names := make([]string, len(p.GoFiles))
	for i, n := range p.GoFiles {
		names[i] = filepath.Join(p.Dir, n)
	}
	gv := ``
	if p.Module.GoVersion != `` {
		gv = `go` + p.Module.GoVersion
	}
	files, info, err := instr.Check(p.ImportPath, fset, names, imp, gv)
	if err != nil {
		return err
	}
	out, err := instr.Package(m, fset, files, names, info)
	if err != nil {
		return err
	}
	if err = os.MkdirAll(dst, 0755); err != nil {
		return err
	}
	for n, bs := range out {
		to := filepath.Join(dst, filepath.Base(n))
		if err = os.WriteFile(to, bs, 0644); err != nil {
			return err
		}
		if p.Module.Main {
			mu.Lock()
			overlay[n] = to
			mu.Unlock()
		}
	}
	return nil
}
