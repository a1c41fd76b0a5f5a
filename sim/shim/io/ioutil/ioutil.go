// Package ioutil is io/ioutil over the simulated file system.
package ioutil

import (
	"io"
	"io/fs"

	"alda.sim/shim/os"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func ReadFile(n string) ([]byte, error)                 { return os.ReadFile(n) }
func WriteFile(n string, d []byte, m fs.FileMode) error { return os.WriteFile(n, d, m) }
func TempDir(dir, pattern string) (string, error)       { return os.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*os.File, error)    { return os.CreateTemp(dir, pattern) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func ReadDir(n string) ([]fs.FileInfo, error) {
	ents, err := os.ReadDir(n)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range ents {
		if fi, err := e.Info(); err == nil {
			out = append(out, fi)
		}
	}
	return out, nil
}
