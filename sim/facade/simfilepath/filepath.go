// Package simfilepath stands in for package path/filepath.
package simfilepath

import (
	"io/fs"
	std "path/filepath"

	"simkit/facade/simos"
)

func Abs(p string) (string, error) {
	if std.IsAbs(p) {
		return std.Clean(p), nil
	}
	wd, err := simos.Getwd()
	if err != nil {
		return ``, err
	}
	return std.Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := simos.Lstat(p); err != nil {
		return ``, err
	}
	return std.Clean(p), nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == std.SkipDir || err == std.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == std.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := simos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == std.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(std.Join(p, e.Name()), e, fn); err != nil {
			if err == std.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn std.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var i fs.FileInfo
		if d != nil {
			i, _ = d.Info()
		}
		return fn(p, i, err)
	})
}

// Glob matches each path segment with Match, in name order.
func Glob(pattern string) ([]string, error) {
	if _, err := std.Match(pattern, ``); err != nil {
		return nil, err
	}
	dir, file := std.Split(pattern)
	dir = std.Clean(dir)
	if dir == std.Clean(pattern) {
		return nil, nil
	}
	dirs := []string{dir}
	if hasMeta(dir) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var r []string
	for _, d := range dirs {
		if !hasMeta(file) {
			p := std.Join(d, file)
			if _, err := simos.Lstat(p); err == nil {
				r = append(r, p)
			}
			continue
		}
		es, err := simos.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, _ := std.Match(file, e.Name()); ok {
				r = append(r, std.Join(d, e.Name()))
			}
		}
	}
	return r, nil
}

func hasMeta(p string) bool {
	for _, c := range p {
		switch c {
		case '*', '?', '[', '\\':
			return true
		}
	}
	return false
}
