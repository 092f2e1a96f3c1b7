//go:build go1.25

// Package ioutil is io/ioutil on the simulated disk.
package ioutil

import (
	"io"
	iofs "io/fs"

	"powsim/shim/os"
)

var Discard = io.Discard

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm iofs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }
func ReadAll(r io.Reader) ([]byte, error)            { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser            { return io.NopCloser(r) }
func ReadDir(name string) ([]iofs.FileInfo, error) {
	l, err := os.ReadDir(name)
	var out []iofs.FileInfo
	for _, e := range l {
		if i, err := e.Info(); err == nil {
			out = append(out, i)
		}
	}
	return out, err
}
