package simcore

import (
	"fmt"
	"io"
	"runtime"
	"sort"
	"syscall"
)

// Proc is a simulated process.
type Proc struct {
	Pid            int
	Name           string
	Args           []string
	Env            map[string]string
	Cwd            string
	Uid            int
	Exe            string
	Slot           int
	Stdin          []byte
	StdinPos       int
	StdinTTY       bool
	Stdout, Stderr []byte
	Panic          string
	Version        string
	Embed          map[string][]byte
	KillAt         int
	Exited         bool
	Code           int
	Signal         int
	Started, Ended int64
	FDs            int
	Umask          uint32
	WaitStatus     func(*Proc)
	done           Cond
	tasks          []*Task
	nsys           int
	dead           bool
	harness        bool
	Parent         *Proc
	out, err       func([]byte) error
	sigs           []func(int) bool
	User           any
	OutClosed      bool
}

func (p *Proc) pid() int {
	if p == nil {
		return 0
	}
	return p.Pid
}
func (p *Proc) Nsys() int { return p.nsys }

// NewProc prepares a process; Start runs it.
func NewProc(name string, args []string) *Proc {
	s := S
	s.npid++
	p := &Proc{Pid: 100 + s.npid, Name: name, Args: args, Env: map[string]string{}, Cwd: "/", Slot: -1, Umask: 022}
	s.Procs = append(s.Procs, p)
	return p
}
func (p *Proc) Start(f func()) {
	p.Started = S.now
	S.event(fmt.Sprintf("start pid %d %q", p.Pid, p.Args))
	S.spawn(p, func() { f(); p.finish(0) })
}

// Harness starts a task of the simulation itself (a client, a user, the world).
func Harness(name string, f func()) *Proc {
	p := NewProc(name, []string{name})
	p.harness = true
	p.Uid = 0
	S.spawn(p, f)
	return p
}

// Slots: copies of the program images.
func TakeSlot() int {
	for i, b := range S.slots {
		if !b {
			S.slots[i] = true
			return i
		}
	}
	return -1
}
func (p *Proc) finish(code int) {
	if p.dead {
		runtime.Goexit()
	}
	p.end(code&0xff, 0)
	runtime.Goexit()
}
func (p *Proc) end(code, sig int) {
	s := S
	p.dead = true
	for _, t := range append([]*Task(nil), p.tasks...) {
		if t == s.phys {
			t.dead = true
			for i, x := range s.run {
				if x == t {
					s.run = append(s.run[:i:i], s.run[i+1:]...)
					t.queued = false
					break
				}
			}
		} else {
			s.unwindTask(t)
		}
	}
	p.Exited, p.Code, p.Signal, p.Ended = true, code, sig, s.now
	if p.Slot >= 0 {
		s.slots[p.Slot] = false
	}
	s.event(fmt.Sprintf("exit pid %d code %d signal %d", p.Pid, code, sig))
	for _, w := range s.watchers {
		if w.p == p {
			w.closed = true
		}
	}
	if p.WaitStatus != nil {
		p.WaitStatus(p)
	}
	p.done.Wake()
}

// Kill ends the process at once (SIGKILL and the like); in a task of that process it does not return.
func (p *Proc) Kill(sig int) {
	if p.dead {
		return
	}
	self := S.phys != nil && S.phys.proc == p
	p.end(128+sig, sig)
	if self && S.nocheck == 0 {
		runtime.Goexit()
	}
}

// Wait blocks the calling task until the process has ended.
func (p *Proc) Wait() {
	for !p.Exited {
		p.done.Wait("wait " + p.Name)
	}
}
func (p *Proc) WaitFor(d int64) bool {
	for !p.Exited {
		if !p.done.WaitTimeout("wait "+p.Name, d) {
			return p.Exited
		}
	}
	return true
}
func Exit(code int) {
	p := sysPoint("exit")
	p.finish(code)
}
func CurProc() *Proc {
	t := curTask()
	if t == nil {
		return nil
	}
	return t.proc
}

// Free: run f as an observer, without faults, preemption or effect on the schedule.
func Free(f func()) {
	S.nocheck++
	defer func() { S.nocheck-- }()
	f()
}
func CurArgs() []string {
	p := CurProc()
	if p == nil || len(p.Args) == 0 {
		return nil
	}
	return p.Args[1:]
}
func CurVersion() string {
	if p := CurProc(); p != nil {
		return p.Version
	}
	return ""
}

// standard streams
type stdw struct{ fd int }

func (w stdw) Write(b []byte) (int, error) { return StdWrite(w.fd, b) }

func StdoutWriter() io.Writer { return stdw{1} }
func StderrWriter() io.Writer { return stdw{2} }

type stdr struct{}

func (stdr) Read(b []byte) (int, error) {
	n, err := StdRead(b)
	if n == 0 && err == nil && len(b) > 0 {
		err = io.EOF
	}
	return n, err
}
func StdinReader() io.Reader { return stdr{} }

func StdWrite(fd int, b []byte) (int, error) {
	p := sysPoint("write")
	if fd == 1 && S.Fault("stdout") {
		return 0, syscall.EPIPE
	}
	p.emit(fd, b)
	return len(b), nil
}
func (p *Proc) emit(fd int, b []byte) {
	S.event(fmt.Sprintf("fd%d %q", fd, b))
	if fd == 1 {
		p.Stdout = append(p.Stdout, b...)
		if p.out != nil {
			p.out(b)
		}
	} else {
		p.Stderr = append(p.Stderr, b...)
		if p.err != nil {
			p.err(b)
		}
	}
}
func (p *Proc) Emit(fd int, b []byte) { p.emit(fd, b) }

// StdRead returns io.EOF-less results: n==0 with nil error means end of file.
func StdRead(b []byte) (int, error) {
	p := sysPoint("read")
	if S.Fault("stdin") {
		return 0, syscall.EIO
	}
	n := len(p.Stdin) - p.StdinPos
	if n > len(b) {
		n = len(b)
	}
	if n > 1 && Cfg(3) == 1 {
		n = 1 + Cfg(n)
	}
	copy(b, p.Stdin[p.StdinPos:p.StdinPos+n])
	p.StdinPos += n
	return n, nil
}
func EmbedBytes(path string) []byte {
	if p := CurProc(); p != nil {
		return p.Embed[path]
	}
	return nil
}
func EmbedNames() []string {
	p := CurProc()
	if p == nil {
		return nil
	}
	var l []string
	for k := range p.Embed {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// NewHandleFDs: accounting of open descriptors.
func (p *Proc) fd(d int) {
	if p != nil {
		p.FDs += d
	}
}

// Spawn starts a goroutine of the process from outside of it (a timer).
func (p *Proc) Spawn(f func()) {
	if !p.dead && !S.ended {
		S.spawn(p, f)
	}
}
func (p *Proc) SetOut(o, e func([]byte) error) { p.out, p.err = o, e }

// Abandon: the process never came into being.
func (p *Proc) Abandon() {
	p.dead, p.Exited = true, true
	for i, x := range S.Procs {
		if x == p {
			S.Procs = append(S.Procs[:i:i], S.Procs[i+1:]...)
			break
		}
	}
}
func (p *Proc) Dead() bool { return p.dead }

// Prep readies a command tree of the real command-line library to run in the calling process.
func Prep[T interface {
	SetOut(io.Writer)
	SetErr(io.Writer)
	SetIn(io.Reader)
	SetArgs([]string)
}](c T) T {
	c.SetOut(StdoutWriter())
	c.SetErr(StderrWriter())
	c.SetIn(StdinReader())
	c.SetArgs(append([]string{}, CurArgs()...))
	return c
}
func OSArgs() []string {
	if p := CurProc(); p != nil {
		return p.Args
	}
	return []string{"gray"}
}
