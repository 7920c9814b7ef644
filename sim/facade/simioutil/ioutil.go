// Package simioutil stands in for package io/ioutil.
package simioutil

import (
	"io/fs"

	"simkit/facade/simos"
)

func ReadFile(name string) ([]byte, error)                    { return simos.ReadFile(name) }
func WriteFile(name string, data []byte, p fs.FileMode) error { return simos.WriteFile(name, data, p) }
func TempDir(dir, pattern string) (string, error)             { return simos.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*simos.File, error)       { return simos.CreateTemp(dir, pattern) }

func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := simos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	r := make([]fs.FileInfo, 0, len(es))
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		r = append(r, i)
	}
	return r, nil
}
