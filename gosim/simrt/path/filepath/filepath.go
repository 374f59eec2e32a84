// Package filepath: the lexical functions of the standard package, the others over the simulated disk.
package filepath

import (
	"io/fs"
	rp "path/filepath"
	"sort"
	"strings"

	os "github.com/grayscale-lang/grayscale/simrt/os"
)

const (
	Separator     = rp.Separator
	ListSeparator = rp.ListSeparator
)

var (
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
	ErrBadPattern = rp.ErrBadPattern
)

type WalkFunc = func(path string, info fs.FileInfo, err error) error

func Join(e ...string) string         { return rp.Join(e...) }
func Clean(p string) string           { return rp.Clean(p) }
func Base(p string) string            { return rp.Base(p) }
func Dir(p string) string             { return rp.Dir(p) }
func Ext(p string) string             { return rp.Ext(p) }
func IsAbs(p string) bool             { return rp.IsAbs(p) }
func IsLocal(p string) bool           { return rp.IsLocal(p) }
func Split(p string) (string, string) { return rp.Split(p) }
func SplitList(p string) []string     { return rp.SplitList(p) }
func ToSlash(p string) string         { return p }
func FromSlash(p string) string       { return p }
func VolumeName(p string) string      { return "" }
func Rel(a, b string) (string, error) { return rp.Rel(a, b) }
func Match(p, n string) (bool, error) { return rp.Match(p, n) }
func HasPrefix(a, b string) bool      { return strings.HasPrefix(a, b) }
func Abs(p string) (string, error) {
	if rp.IsAbs(p) {
		return rp.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return rp.Join(wd, p), nil
}
func EvalSymlinks(p string) (string, error) {
	cur := p
	if cur == "" {
		return ".", nil // as the real one
	}
	for n := 0; n < 255; n++ {
		parts := strings.Split(cur, "/")
		built := ""
		if strings.HasPrefix(cur, "/") {
			built = "/"
		}
		again := false
		for i, x := range parts {
			if x == "" || x == "." {
				continue
			}
			if x == ".." {
				built = rp.Join(built, "..")
				continue
			}
			q := rp.Join(built, x)
			st, err := os.Lstat(q)
			if err != nil {
				return "", err
			}
			if st.Mode()&fs.ModeSymlink != 0 {
				t, err := os.Readlink(q)
				if err != nil {
					return "", err
				}
				if !strings.HasPrefix(t, "/") {
					t = built + "/" + t
				}
				cur = strings.Join(append([]string{t}, parts[i+1:]...), "/")
				again = true
				break
			}
			built = q
		}
		if !again {
			return rp.Clean(built), nil
		}
	}
	return "", &fs.PathError{Op: "EvalSymlinks", Path: p, Err: fs.ErrInvalid}
}
func Walk(root string, fn WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}
func walk(p string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	names, err := readNames(p)
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, n := range names {
		f := rp.Join(p, n)
		i, err := os.Lstat(f)
		if err != nil {
			if err := fn(f, i, err); err != nil && err != SkipDir {
				return err
			}
		} else {
			err = walk(f, i, fn)
			if err != nil {
				if !i.IsDir() || err != SkipDir {
					return err
				}
			}
		}
	}
	return nil
}
func readNames(d string) ([]string, error) {
	f, err := os.Open(d)
	if err != nil {
		return nil, err
	}
	l, err := f.Readdirnames(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	sort.Strings(l)
	return l, nil
}
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}
func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := os.ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range dirs {
		if err := walkDir(rp.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
func Glob(pattern string) ([]string, error) {
	if _, err := rp.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := rp.Split(pattern)
	d := strings.TrimSuffix(dir, "/")
	if d == "" {
		d = "."
		if dir == "/" {
			d = "/"
		}
	}
	if strings.ContainsAny(d, "*?[") {
		ds, err := Glob(d)
		if err != nil {
			return nil, err
		}
		var out []string
		for _, x := range ds {
			l, err := Glob(x + "/" + file)
			if err != nil {
				return nil, err
			}
			out = append(out, l...)
		}
		return out, nil
	}
	ents, _ := os.ReadDir(d)
	var out []string
	for _, e := range ents {
		if ok, _ := rp.Match(file, e.Name()); ok {
			out = append(out, rp.Join(dir, e.Name()))
		}
	}
	return out, nil
}
