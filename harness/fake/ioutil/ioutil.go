// Package ioutil stands in for the real one.
package ioutil

import (
	"io"

	"github.com/zeldovich/go-rpcgen/zz_verif/f/os"
)

var Discard = io.Discard

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }

func WriteFile(name string, data []byte, perm os.FileMode) error {
	return os.WriteFile(name, data, perm)
}

func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func ReadAll(r io.Reader) ([]byte, error)            { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser            { return io.NopCloser(r) }
