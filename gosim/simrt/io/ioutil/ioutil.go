package ioutil

import (
	"io"
	"io/fs"

	os "github.com/grayscale-lang/grayscale/simrt/os"
)

var Discard = io.Discard

func ReadFile(n string) ([]byte, error)                 { return os.ReadFile(n) }
func WriteFile(n string, b []byte, m fs.FileMode) error { return os.WriteFile(n, b, m) }
func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func TempFile(d, p string) (*os.File, error)            { return os.CreateTemp(d, p) }
func TempDir(d, p string) (string, error)               { return os.MkdirTemp(d, p) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
