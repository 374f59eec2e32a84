// Package os is the simulated os.
package os

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	ros "os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

const (
	O_RDONLY          = ros.O_RDONLY
	O_WRONLY          = ros.O_WRONLY
	O_RDWR            = ros.O_RDWR
	O_APPEND          = ros.O_APPEND
	O_CREATE          = ros.O_CREATE
	O_EXCL            = ros.O_EXCL
	O_SYNC            = ros.O_SYNC
	O_TRUNC           = ros.O_TRUNC
	SEEK_SET          = 0
	SEEK_CUR          = 1
	SEEK_END          = 2
	PathSeparator     = ros.PathSeparator
	PathListSeparator = ros.PathListSeparator
	DevNull           = ros.DevNull
	ModeDir           = fs.ModeDir
	ModeAppend        = fs.ModeAppend
	ModeExclusive     = fs.ModeExclusive
	ModeTemporary     = fs.ModeTemporary
	ModeSymlink       = fs.ModeSymlink
	ModeDevice        = fs.ModeDevice
	ModeNamedPipe     = fs.ModeNamedPipe
	ModeSocket        = fs.ModeSocket
	ModeSetuid        = fs.ModeSetuid
	ModeSetgid        = fs.ModeSetgid
	ModeCharDevice    = fs.ModeCharDevice
	ModeSticky        = fs.ModeSticky
	ModeIrregular     = fs.ModeIrregular
	ModeType          = fs.ModeType
	ModePerm          = fs.ModePerm
)

type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = ros.LinkError
	SyscallError = ros.SyscallError
	Signal       = ros.Signal
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = ros.ErrNoDeadline
	ErrDeadlineExceeded = ros.ErrDeadlineExceeded
	ErrProcessDone      = ros.ErrProcessDone
	Interrupt           = ros.Interrupt
	Kill                = ros.Kill
	Stdin               = &File{std: 1, name: "/dev/stdin"}
	Stdout              = &File{std: 2, name: "/dev/stdout"}
	Stderr              = &File{std: 3, name: "/dev/stderr"}
)

// Args: set for each process before it starts.
var Args []string

func IsNotExist(err error) bool   { return ros.IsNotExist(err) }
func IsExist(err error) bool      { return ros.IsExist(err) }
func IsPermission(err error) bool { return ros.IsPermission(err) }
func IsTimeout(err error) bool    { return ros.IsTimeout(err) }
func IsPathSeparator(c uint8) bool {
	return c == '/'
}
func NewSyscallError(s string, err error) error { return ros.NewSyscallError(s, err) }
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(core.Info)
	y, ok2 := b.(core.Info)
	return ok1 && ok2 && x.Inode() == y.Inode()
}

// File
type File struct {
	h    *core.Handle
	name string
	std  int
}

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}
func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.std > 0 {
		return uintptr(f.std - 1)
	}
	return 9
}
func (f *File) bad(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.h == nil || f.h.Closed() {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}
func (f *File) Read(b []byte) (int, error) {
	if f != nil && f.std == 1 {
		if len(b) == 0 {
			return 0, nil
		}
		n, err := core.StdRead(b)
		if err != nil {
			return n, perr("read", f.name, err)
		}
		if n == 0 {
			return 0, io.EOF
		}
		return n, nil
	}
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, err := f.h.Read(b)
	if err != nil {
		return n, perr("read", f.name, err)
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	old := f.h.Pos
	defer func() { f.h.Pos = old }()
	f.h.Pos = off
	t := 0
	for t < len(b) {
		n, err := f.h.Read(b[t:])
		if err != nil {
			return t, perr("read", f.name, err)
		}
		if n == 0 {
			return t, io.EOF
		}
		t += n
	}
	return t, nil
}
func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.std > 1 {
		n, err := core.StdWrite(f.std-1, b)
		return n, perr("write", f.name, err)
	}
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	n, err := f.h.Write(b)
	return n, perr("write", f.name, err)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	old := f.h.Pos
	defer func() { f.h.Pos = old }()
	f.h.Pos = off
	n, err := f.h.Write(b)
	return n, perr("write", f.name, err)
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}
func (f *File) Seek(off int64, wh int) (int64, error) {
	if err := f.bad("seek"); err != nil {
		return 0, err
	}
	n, err := f.h.Seek(off, wh)
	return n, perr("seek", f.name, err)
}
func (f *File) Close() error {
	if f != nil && f.std > 0 {
		return nil
	}
	if err := f.bad("close"); err != nil {
		return err
	}
	return perr("close", f.name, f.h.Close())
}
func (f *File) Sync() error {
	if f != nil && f.std > 0 {
		return perr("sync", f.name, syscall.EINVAL)
	}
	if err := f.bad("sync"); err != nil {
		return err
	}
	return perr("sync", f.name, f.h.Sync())
}
func (f *File) Truncate(n int64) error {
	if err := f.bad("truncate"); err != nil {
		return err
	}
	return perr("truncate", f.name, f.h.Truncate(n))
}
func (f *File) Chmod(m FileMode) error {
	if err := f.bad("chmod"); err != nil {
		return err
	}
	return perr("chmod", f.name, f.h.Chmod(uint32(m.Perm())))
}
func (f *File) Chown(int, int) error             { return nil }
func (f *File) SetDeadline(time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return ErrNoDeadline }

type stdInfo struct {
	name string
	mode FileMode
}

func (i stdInfo) Name() string       { return i.name }
func (i stdInfo) Size() int64        { return 0 }
func (i stdInfo) Mode() FileMode     { return i.mode }
func (i stdInfo) ModTime() time.Time { return time.Unix(0, 0) }
func (i stdInfo) IsDir() bool        { return false }
func (i stdInfo) Sys() any           { return nil }

func (f *File) Stat() (FileInfo, error) {
	if f != nil && f.std > 0 {
		core.SysPoint("fstat")
		m := FileMode(0o600) | fs.ModeNamedPipe
		if f.std == 1 && core.CurProc().StdinTTY {
			m = 0o620 | fs.ModeDevice | fs.ModeCharDevice
		}
		return stdInfo{f.name, m}, nil
	}
	if err := f.bad("stat"); err != nil {
		return nil, err
	}
	i, err := f.h.Stat()
	if err != nil {
		return nil, perr("stat", f.name, err)
	}
	return i, nil
}

type dirEntry struct {
	core.Info
	path string
}

func (d dirEntry) Type() FileMode { return d.Info.Mode().Type() }

type entry struct{ d dirEntry }

func (e entry) Name() string   { return e.d.Name() }
func (e entry) IsDir() bool    { return e.d.IsDir() }
func (e entry) Type() FileMode { return e.d.Type() }
func (e entry) String() string { return fs.FormatDirEntry(e) }
func (e entry) Info() (FileInfo, error) {
	return Lstat(e.d.path)
}
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.bad("readdir"); err != nil {
		return nil, err
	}
	l, err := f.h.DirNames(n)
	var out []DirEntry
	for _, x := range l {
		if i, ok := f.h.Child(x); ok {
			out = append(out, entry{dirEntry{i, f.name + "/" + x}})
		}
	}
	if err != nil {
		return out, perr("readdirent", f.name, err)
	}
	if n > 0 && len(l) == 0 {
		return nil, io.EOF
	}
	return out, nil
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := f.ReadDir(n)
	var out []FileInfo
	for _, x := range l {
		if i, e := x.Info(); e == nil {
			out = append(out, i)
		}
	}
	return out, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var out []string
	for _, x := range l {
		out = append(out, x.Name())
	}
	return out, err
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := core.OpenFile(name, flag, uint32(perm.Perm()))
	if err != nil {
		return nil, perr("open", name, err)
	}
	return &File{h: h, name: name}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666)
}
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var b []byte
	buf := make([]byte, 4096)
	for {
		n, err := f.Read(buf)
		b = append(b, buf[:n]...)
		if err == io.EOF {
			if b == nil {
				b = []byte{}
			}
			return b, nil
		}
		if err != nil {
			return b, err
		}
	}
}
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}
func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}
func Stat(name string) (FileInfo, error) {
	i, err := core.StatPath(name, true)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return i, nil
}
func Lstat(name string) (FileInfo, error) {
	i, err := core.StatPath(name, false)
	if err != nil {
		return nil, perr("lstat", name, err)
	}
	return i, nil
}
func Chmod(name string, m FileMode) error {
	return perr("chmod", name, core.Chmod(name, uint32(m.Perm())))
}
func Chown(string, int, int) error               { return nil }
func Lchown(string, int, int) error              { return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
func Truncate(name string, n int64) error        { return perr("truncate", name, core.Truncate(name, n)) }
func Mkdir(name string, m FileMode) error {
	return perr("mkdir", name, core.Mkdir(name, uint32(m.Perm())))
}
func Chdir(name string) error { return perr("chdir", name, core.Chdir(name)) }
func MkdirAll(path string, perm FileMode) error {
	if d, err := Stat(path); err == nil {
		if d.IsDir() {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	i := len(path)
	for i > 0 && path[i-1] == '/' {
		i--
	}
	j := i
	for j > 0 && path[j-1] != '/' {
		j--
	}
	if j > 1 {
		if err := MkdirAll(path[:j-1], perm); err != nil {
			return err
		}
	}
	err := Mkdir(path, perm)
	if err != nil {
		if d, e := Lstat(path); e == nil && d.IsDir() {
			return nil
		}
		return err
	}
	return nil
}
func Remove(name string) error {
	e := core.Unlink(name, false)
	if e == nil {
		return nil
	}
	e1 := core.Unlink(name, true)
	if e1 == nil {
		return nil
	}
	if e1 != syscall.ENOTDIR {
		e = e1
	}
	return perr("remove", name, e)
}
func RemoveAll(path string) error {
	if path == "" {
		return nil
	}
	if strings.HasSuffix(path, "/.") || path == "." {
		return perr("RemoveAll", path, syscall.EINVAL)
	}
	err := core.Unlink(path, false)
	if err == nil || err == syscall.ENOENT {
		return nil
	}
	i, serr := core.StatPath(path, false)
	if serr != nil {
		if serr == syscall.ENOENT || serr == syscall.ENOTDIR {
			return nil
		}
		return perr("unlinkat", path, err)
	}
	if !i.IsDir() {
		return perr("unlinkat", path, err)
	}
	var first error
	h, oerr := core.OpenFile(path, O_RDONLY, 0)
	if oerr != nil {
		if oerr == syscall.ENOENT {
			return nil
		}
		first = perr("openfdat", path, oerr)
	} else {
		names, rerr := h.DirNames(-1)
		h.Close()
		if rerr != nil {
			first = perr("readdirnames", path, rerr)
		}
		sort.Strings(names)
		for _, n := range names {
			if e := RemoveAll(path + "/" + n); e != nil && first == nil {
				first = e
			}
		}
	}
	e := core.Unlink(path, true)
	if e == nil || e == syscall.ENOENT {
		return nil
	}
	if first == nil {
		first = perr("unlinkat", path, e)
	}
	return first
}
func lerr(op, a, b string, err error) error {
	if err == nil {
		return nil
	}
	return &ros.LinkError{Op: op, Old: a, New: b, Err: err}
}
func Rename(a, b string) error  { return lerr("rename", a, b, core.Rename(a, b)) }
func Link(a, b string) error    { return lerr("link", a, b, core.Link(a, b)) }
func Symlink(a, b string) error { return lerr("symlink", a, b, core.SymlinkAt(a, b)) }
func Readlink(p string) (string, error) {
	s, err := core.Readlink(p)
	return s, perr("readlink", p, err)
}

var tmpSeq uint64

func random() string { return strconv.FormatUint(core.S.Bits(core.StOp)%10000000000, 10) }
func split(pattern string) (string, string, error) {
	if strings.ContainsRune(pattern, '/') {
		return "", "", errors.New("pattern contains path separator")
	}
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return pattern[:i], pattern[i+1:], nil
	}
	return pattern, "", nil
}
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	a, z, err := split(pattern)
	if err != nil {
		return nil, perr("createtemp", pattern, err)
	}
	for try := 0; ; try++ {
		name := strings.TrimRight(dir, "/") + "/" + a + random() + z
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0o600)
		if IsExist(err) && try < 10000 {
			continue
		}
		return f, err
	}
}
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	a, z, err := split(pattern)
	if err != nil {
		return "", perr("mkdirtemp", pattern, err)
	}
	for try := 0; ; try++ {
		name := strings.TrimRight(dir, "/") + "/" + a + random() + z
		err := Mkdir(name, 0o700)
		if err == nil {
			return name, nil
		}
		if IsExist(err) && try < 10000 {
			continue
		}
		return "", err
	}
}
func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

// process
func Getenv(k string) string { return core.CurProc().Env[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := core.CurProc().Env[k]
	return v, ok
}
func Setenv(k, v string) error { core.CurProc().Env[k] = v; return nil }
func Unsetenv(k string) error  { delete(core.CurProc().Env, k); return nil }
func Clearenv()                { core.CurProc().Env = map[string]string{} }
func Environ() []string {
	var l []string
	for k, v := range core.CurProc().Env {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return l
}
func ExpandEnv(s string) string                     { return ros.Expand(s, Getenv) }
func Expand(s string, f func(string) string) string { return ros.Expand(s, f) }
func Exit(code int)                                 { core.Exit(code) }
func Getpid() int                                   { return core.CurProc().Pid }
func Getppid() int                                  { return 1 }
func Getuid() int                                   { return core.CurProc().Uid }
func Geteuid() int                                  { return core.CurProc().Uid }
func Getgid() int                                   { return core.CurProc().Uid }
func Getegid() int                                  { return core.CurProc().Uid }
func Getpagesize() int                              { return 4096 }
func Hostname() (string, error)                     { return "simhost", nil }
func Getwd() (string, error)                        { core.SysPoint("getcwd"); return core.CurProc().Cwd, nil }
func Executable() (string, error) {
	core.SysPoint("readlink")
	if core.S.Fault("exe") {
		return "", perr("readlink", "/proc/self/exe", syscall.EACCES)
	}
	return core.CurProc().Exe, nil
}
func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}
func UserCacheDir() (string, error) {
	if d := Getenv("XDG_CACHE_HOME"); d != "" {
		return d, nil
	}
	h, err := UserHomeDir()
	if err != nil {
		return "", errors.New("neither $XDG_CACHE_HOME nor $HOME are defined")
	}
	return h + "/.cache", nil
}
func UserConfigDir() (string, error) {
	if d := Getenv("XDG_CONFIG_HOME"); d != "" {
		return d, nil
	}
	h, err := UserHomeDir()
	if err != nil {
		return "", errors.New("neither $XDG_CONFIG_HOME nor $HOME are defined")
	}
	return h + "/.config", nil
}

// Process and ProcessState are filled in by os/exec.
type Process struct {
	Pid int
	P   *core.Proc
}

func (p *Process) Kill() error { return p.Signal(Kill) }
func (p *Process) Signal(s Signal) error {
	if p.P == nil || p.P.Exited {
		return ErrProcessDone
	}
	core.SysPoint("kill")
	n := 15
	if x, ok := s.(syscall.Signal); ok {
		n = int(x)
	}
	if n != 0 {
		p.P.Kill(n)
	}
	return nil
}
func (p *Process) Release() error { return nil }
func (p *Process) Wait() (*ProcessState, error) {
	p.P.Wait()
	return &ProcessState{p.P}, nil
}
func FindProcess(pid int) (*Process, error) {
	for _, p := range core.S.Procs {
		if p.Pid == pid {
			return &Process{pid, p}, nil
		}
	}
	return &Process{pid, nil}, nil
}

type ProcessState struct{ P *core.Proc }

func (s *ProcessState) ExitCode() int {
	if s == nil || s.P.Signal != 0 {
		return -1
	}
	return s.P.Code
}
func (s *ProcessState) Exited() bool  { return s.P.Signal == 0 }
func (s *ProcessState) Success() bool { return s.P.Signal == 0 && s.P.Code == 0 }
func (s *ProcessState) Pid() int      { return s.P.Pid }
func (s *ProcessState) Sys() any {
	if s.P.Signal != 0 {
		return syscall.WaitStatus(s.P.Signal)
	}
	return syscall.WaitStatus(s.P.Code << 8)
}
func (s *ProcessState) SystemTime() time.Duration { return 0 }
func (s *ProcessState) UserTime() time.Duration   { return 0 }
func (s *ProcessState) String() string {
	if s == nil {
		return "<nil>"
	}
	if s.P.Signal != 0 {
		return "signal: " + syscall.Signal(s.P.Signal).String()
	}
	return fmt.Sprintf("exit status %d", s.P.Code)
}
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &PathError{Op: "open", Path: name, Err: ErrInvalid}
	}
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}

var _ = runtime.GOOS
