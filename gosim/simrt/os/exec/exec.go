// Package exec is the simulated os/exec.
package exec

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"strings"
	"syscall"
	"time"

	"github.com/grayscale-lang/grayscale/simrt/context"
	core "github.com/grayscale-lang/grayscale/simrt/core"
	os "github.com/grayscale-lang/grayscale/simrt/os"
)

var (
	ErrNotFound  = errors.New("executable file not found in $PATH")
	ErrDot       = errors.New("cannot run executable found relative to current directory")
	ErrWaitDelay = errors.New("exec: WaitDelay expired before I/O complete")
)

type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return "exec: \"" + e.Name + "\": " + e.Err.Error() }
func (e *Error) Unwrap() error { return e.Err }

type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration
	ctx          context.Context
	ctxDone      bool
	werr         error
	waited       bool
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if !strings.Contains(name, "/") {
		p, err := LookPath(name)
		if p != "" {
			c.Path = p
		}
		c.Err = err
	}
	return c
}
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}
func LookPath(file string) (string, error) {
	try := func(p string) error {
		i, err := os.Stat(p)
		if err != nil {
			return err
		}
		if i.IsDir() {
			return syscall.EISDIR
		}
		if i.Mode()&0o111 == 0 {
			return fs.ErrPermission
		}
		return nil
	}
	if strings.Contains(file, "/") {
		if err := try(file); err != nil {
			return "", &Error{file, err}
		}
		return file, nil
	}
	for _, d := range strings.Split(os.Getenv("PATH"), ":") {
		if d == "" {
			d = "."
		}
		p := d + "/" + file
		if try(p) == nil {
			if !strings.HasPrefix(p, "/") {
				return p, &Error{file, ErrDot}
			}
			return p, nil
		}
	}
	return "", &Error{file, ErrNotFound}
}
func (c *Cmd) String() string    { return strings.Join(append([]string{c.Path}, c.Args[1:]...), " ") }
func (c *Cmd) Environ() []string { return c.env() }
func (c *Cmd) env() []string {
	if c.Env != nil {
		return c.Env
	}
	return os.Environ()
}
func (c *Cmd) Start() error {
	if c.Err != nil {
		return c.Err
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	par := core.CurProc()
	if core.S.Fault("fork") {
		return &fs.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.EAGAIN}
	}
	n, abs, err := core.LookExec(c.Path)
	if err != nil {
		return &fs.PathError{Op: "fork/exec", Path: c.Path, Err: err}
	}
	p := core.NewProc(c.Args[0], append([]string(nil), c.Args...))
	for _, e := range c.env() {
		if k, v, ok := strings.Cut(e, "="); ok {
			p.Env[k] = v
		}
	}
	p.Cwd, p.Uid, p.Exe, p.Parent = par.Cwd, par.Uid, abs, par
	if c.Dir != "" {
		p.Cwd = core.S.FS.Resolve(abspath(par.Cwd, c.Dir))
	}
	switch r := c.Stdin.(type) {
	case nil:
	case *os.File:
		if r == os.Stdin {
			p.Stdin, p.StdinTTY = par.Stdin[par.StdinPos:], par.StdinTTY
		} else {
			p.Stdin, _ = io.ReadAll(r)
		}
	default:
		p.Stdin, _ = io.ReadAll(r)
	}
	p.SetOut(c.sink(c.Stdout, par), c.sink(c.Stderr, par))
	body := core.S.Child(p, n.Data)
	if body == nil {
		p.Abandon()
		return &fs.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.ENOEXEC}
	}
	c.Process = &os.Process{Pid: p.Pid, P: p}
	p.Start(func() { core.Exit(body()) })
	if c.ctx != nil {
		d := c.ctx.Done()
		if d != nil {
			core.Go(func() {
				if d.Recv2(); !p.Exited {
					c.ctxDone = true
					if c.Cancel != nil {
						c.Cancel()
					} else {
						c.Process.Kill()
					}
				}
			})
		}
	}
	return nil
}
func abspath(cwd, p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	return cwd + "/" + p
}

// sink: what the child writes goes to the writer; the parent's standard streams receive it directly.
func (c *Cmd) sink(w io.Writer, par *core.Proc) func([]byte) error {
	switch x := w.(type) {
	case nil:
		return nil
	case *os.File:
		if x == os.Stdout {
			return func(b []byte) error { par.Emit(1, b); return nil }
		}
		if x == os.Stderr {
			return func(b []byte) error { par.Emit(2, b); return nil }
		}
		return func(b []byte) error {
			var e error
			core.Free(func() { _, e = x.Write(b) })
			return e
		}
	}
	return func(b []byte) error {
		_, err := w.Write(b)
		if err != nil && c.werr == nil {
			c.werr = err
		}
		return err
	}
}
func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	c.Process.P.Wait()
	core.SysPoint("wait4")
	c.ProcessState = &os.ProcessState{P: c.Process.P}
	if c.ctxDone && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	if !c.ProcessState.Success() {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return c.werr
}
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}
func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out, eb bytes.Buffer
	c.Stdout = &out
	cap := c.Stderr == nil
	if cap {
		c.Stderr = &eb
	}
	err := c.Run()
	if x, ok := err.(*ExitError); ok && cap {
		x.Stderr = eb.Bytes()
	}
	return out.Bytes(), err
}
func (c *Cmd) CombinedOutput() ([]byte, error) {
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := c.Run()
	return out.Bytes(), err
}

type pipe struct {
	buf    []byte
	closed bool
	c      core.Cond
}

func (p *pipe) Write(b []byte) (int, error) {
	p.buf = append(p.buf, b...)
	p.c.Wake()
	return len(b), nil
}
func (p *pipe) Read(b []byte) (int, error) {
	for len(p.buf) == 0 {
		if p.closed {
			return 0, io.EOF
		}
		p.c.Wait("pipe")
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}
func (p *pipe) Close() error { p.closed = true; p.c.Wake(); return nil }
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	p := &pipe{}
	c.Stdout = p
	c.onExit(p)
	return p, nil
}
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	p := &pipe{}
	c.Stderr = p
	c.onExit(p)
	return p, nil
}
func (c *Cmd) onExit(p *pipe) {
	core.Go(func() {
		for c.Process == nil {
			core.Sleep(1e6)
		}
		c.Process.P.Wait()
		p.Close()
	})
}
func (c *Cmd) StdinPipe() (io.WriteCloser, error) { return nil, errors.New("StdinPipe: not simulated") }
