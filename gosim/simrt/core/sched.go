// Package simcore is the simulator the rewritten packages run on: one task at a time, a simulated clock, simulated
// processes and disks, and every choice drawn from seeded streams.
package simcore

import (
	"container/heap"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"
)

// ---- choices ------------------------------------------------------------------------------------------------------
const (
	StSched = iota
	StOp
	StCfg
	StFault
	StNet
	nStreams
)

var StreamNames = []string{"sched", "op", "cfg", "fault", "net"}

type rng struct{ s [2]uint64 }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}
func (r *rng) seed(a uint64) { r.s[0], r.s[1] = mix(a), mix(a+0x1234567) }
func (r *rng) next() uint64 {
	a, b := r.s[0], r.s[1]
	r.s[0] = b
	a ^= a << 23
	r.s[1] = a ^ b ^ (a >> 17) ^ (b >> 26)
	return r.s[1] + b
}

type Choice struct {
	Stream, Idx int
	Val         uint64
}
type stream struct {
	r      rng
	idx    int
	replay map[int]uint64
}

type Violation struct{ Class, Msg string }
type FaultStat struct{ Fired, Opp uint64 }

type Sim struct {
	Seed      uint64
	Replaying bool
	streams   [nStreams]stream
	Trace     []Choice
	now       int64          // ns since boot
	Epoch     int64          // wall clock at boot, ns
	Zone      *time.Location // nil: UTC
	cur       *Task
	phys      *Task   // the task whose goroutine is executing
	run       []*Task // runnable, FIFO
	live      int
	ntask     int
	timers    timerHeap
	nseq      uint64
	main      chan struct{}
	ended     bool
	Viol      *Violation
	Steps     uint64
	Points    uint64
	Switches  uint64
	Sys       uint64
	MaxSteps  uint64
	MaxTime   int64
	hash      uint64
	schash    uint64
	Events    uint64
	Probes    map[string]uint64
	Faults    map[string]*FaultStat
	Rate      map[string]uint64 // probability of the fault kind, in 1/65536
	Nth       map[string]uint64 // fire exactly at this opportunity (1-based)
	Log       bool
	Lines     []string
	preempt   uint64 // 1/65536 per statement
	sysPre    uint64 // 1/65536 per system call
	Slow      uint64 // 1/65536 per system call: a stall
	FS        *FS
	Procs     []*Proc
	slots     []bool
	npid      int
	nocheck   int
	Net       func(*NetReq) *NetResp
	Child     func(*Proc, []byte) func() int
	NetLog    []NetRec
	OnEnd     func()
	watchers  []*Inotify
	truncated bool
	Sample    []string
	daemons   int
}

var S *Sim

func New(seed uint64, replay []Choice) *Sim {
	s := &Sim{Seed: seed, Probes: map[string]uint64{}, Faults: map[string]*FaultStat{}, Rate: map[string]uint64{}, Nth: map[string]uint64{}, MaxSteps: 3000000, MaxTime: 40 * 24 * 3600e9, hash: 14695981039346656037, schash: 14695981039346656037}
	for i := range s.streams {
		s.streams[i].r.seed(mix(seed*8+uint64(i)) ^ seed)
		if replay != nil {
			s.streams[i].replay = map[int]uint64{}
		}
	}
	for _, c := range replay {
		s.streams[c.Stream].replay[c.Idx] = c.Val
	}
	s.Replaying = replay != nil
	s.Epoch = 1_760_000_000e9
	s.slots = make([]bool, 4)
	s.FS = newFS(s)
	return s
}
func (s *Sim) mixIn(h *uint64, v uint64) { *h = (*h ^ v) * 1099511628211 }
func (s *Sim) raw(st int, gen func(r *rng) uint64) uint64 {
	x := &s.streams[st]
	i := x.idx
	x.idx++
	var v uint64
	if x.replay != nil {
		v = x.replay[i]
	} else {
		v = gen(&x.r)
	}
	if v != 0 {
		s.Trace = append(s.Trace, Choice{st, i, v})
	}
	return v
}

// Choose draws a number in [0,n) from a stream; 0 is the simplest choice.
func (s *Sim) Choose(st int, n int) int {
	if n <= 1 {
		return 0
	}
	v := s.raw(st, func(r *rng) uint64 { return r.next() % uint64(n) })
	if v >= uint64(n) {
		v %= uint64(n)
	}
	s.mixIn(&s.hash, uint64(st)<<56^v)
	return int(v)
}
func (s *Sim) Bits(st int) uint64 { v := s.raw(st, func(r *rng) uint64 { return r.next() }); return v }

// Chance: true with probability p/65536 (false is the simplest choice).
func (s *Sim) Chance(st int, p uint64) bool {
	if p == 0 {
		return false
	}
	return s.raw(st, func(r *rng) uint64 {
		if r.next()&0xffff < p {
			return 1
		}
		return 0
	}) != 0
}
func Cfg(n int) int  { return S.Choose(StCfg, n) }
func Op(n int) int   { return S.Choose(StOp, n) }
func NetC(n int) int { return S.Choose(StNet, n) }

// Fault: does this opportunity for a fault of the kind fail?
func (s *Sim) Fault(kind string) bool {
	if s.nocheck > 0 {
		return false
	}
	f := s.Faults[kind]
	if f == nil {
		f = &FaultStat{}
		s.Faults[kind] = f
	}
	f.Opp++
	hit := false
	if n := s.Nth[kind]; n != 0 {
		hit = f.Opp == n
	}
	if !hit && s.Rate[kind] != 0 {
		hit = s.Chance(StFault, s.Rate[kind])
	}
	if hit {
		f.Fired++
		s.event("fault " + kind)
	}
	return hit
}

// Hit records a fault that the harness itself caused.
func Hit(kind string) { S.fault(kind) }
func Fired(kind string) uint64 {
	if f := S.Faults[kind]; f != nil {
		return f.Fired
	}
	return 0
}
func (s *Sim) AnyFault() bool {
	for _, f := range s.Faults {
		if f.Fired > 0 {
			return true
		}
	}
	return false
}
func Probe(n string) { S.Probes[n]++ }

// ---- events and verdicts ------------------------------------------------------------------------------------------
func (s *Sim) event(m string) {
	s.Events++
	for i := 0; i < len(m); i++ {
		s.mixIn(&s.hash, uint64(m[i]))
	}
	if s.Log {
		who := "-"
		if s.cur != nil {
			who = fmt.Sprintf("%d/t%d", s.cur.proc.pid(), s.cur.id)
		}
		s.Lines = append(s.Lines, fmt.Sprintf("%12.6f %-8s %s", float64(s.now)/1e9, who, m))
	}
}
func Event(f string, a ...any) { S.event(fmt.Sprintf(f, a...)) }
func Sampled(m string) {
	if len(S.Sample) < 2 {
		S.Sample = append(S.Sample, m)
	}
}

// Fail records the violation and ends the run.
func Fail(class, f string, a ...any) {
	s := S
	if s.Viol == nil {
		s.Viol = &Violation{class, fmt.Sprintf(f, a...)}
		s.event("VIOLATION " + class + ": " + s.Viol.Msg)
	}
	if s.cur != nil && !s.ended {
		s.finish()
	}
}

// ---- tasks --------------------------------------------------------------------------------------------------------
type Task struct {
	id     int
	proc   *Proc
	wake   chan struct{}
	token  uint64 // identifies the current wait
	wait   string
	dead   bool
	done   bool
	fn     func()
	daemon bool
	queued bool
	unwind chan struct{}
}

type timer struct {
	when int64
	seq  uint64
	f    func()
	idx  int
}
type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	return h[i].when < h[j].when || h[i].when == h[j].when && h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// At runs f (in no task) when the simulated clock reaches now+d.
func At(d int64, f func()) *timer {
	s := S
	if d < 0 {
		d = 0
	}
	s.nseq++
	t := &timer{when: s.now + d, seq: s.nseq, f: f}
	heap.Push(&s.timers, t)
	return t
}
func (t *timer) Stop() bool {
	if t == nil || t.idx < 0 {
		return false
	}
	heap.Remove(&S.timers, t.idx)
	return true
}
func Now() int64 { return S.now }
func (s *Sim) fire() {
	for len(s.timers) > 0 && s.timers[0].when <= s.now && !s.ended {
		t := heap.Pop(&s.timers).(*timer)
		c := s.cur
		s.nocheck++ // actions of the world, not of the process
		t.f()
		s.nocheck--
		s.cur = c
	}
}

// spawn creates a task of a process; it becomes runnable at once.
func (s *Sim) spawn(p *Proc, f func()) *Task {
	s.ntask++
	t := &Task{id: s.ntask, proc: p, wake: make(chan struct{}), fn: f}
	if p != nil {
		p.tasks = append(p.tasks, t)
	}
	s.live++
	s.ready(t)
	go func() {
		<-t.wake
		s.phys = t
		defer s.taskEnd(t)
		if t.dead {
			return
		}
		t.run()
	}()
	return t
}
func (t *Task) run() {
	defer func() {
		if r := recover(); r != nil {
			if S.ended || t.dead {
				return
			}
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			if t.proc == nil || t.proc.harness {
				S.Viol = &Violation{"harness-panic", fmt.Sprint(r) + "\n" + string(buf[:n])}
				S.ended = true
				return
			}
			t.proc.Stderr = append(t.proc.Stderr, []byte(fmt.Sprintf("panic: %v\n\ngoroutine 1 [running]:\n", r))...)
			t.proc.Panic = fmt.Sprint(r)
			S.event("panic " + fmt.Sprint(r))
			t.proc.finish(2)
		}
	}()
	t.fn()
}
func (s *Sim) ready(t *Task) {
	if t.done || t.queued {
		return
	}
	t.queued = true
	s.run = append(s.run, t)
}
func (s *Sim) taskEnd(t *Task) {
	t.done = true
	s.live--
	if p := t.proc; p != nil {
		for i, x := range p.tasks {
			if x == t {
				p.tasks = append(p.tasks[:i:i], p.tasks[i+1:]...)
				break
			}
		}
	}
	if t.unwind != nil {
		close(t.unwind)
		return
	}
	if s.ended {
		close(s.main)
		return
	}
	s.dispatch(nil)
}

// take removes and returns the runnable task to go on with.
func (s *Sim) take() *Task {
	for {
		s.fire()
		if s.ended {
			return nil
		}
		if len(s.run) > 0 {
			break
		}
		if len(s.timers) == 0 {
			return nil
		}
		if s.timers[0].when > s.now {
			s.now = s.timers[0].when
		}
		if s.now > s.MaxTime {
			s.truncated = true
			return nil
		}
	}
	k := 0
	if len(s.run) > 1 {
		k = s.Choose(StSched, len(s.run))
	}
	t := s.run[k]
	s.run = append(s.run[:k:k], s.run[k+1:]...)
	t.queued = false
	return t
}

// dispatch hands the baton on; from is the task giving it up (nil: it has ended).
func (s *Sim) dispatch(from *Task) {
	t := s.take()
	if from != nil && from.dead { // killed by a timer while giving up the baton
		if t != nil {
			t.queued = true
			s.run = append([]*Task{t}, s.run...)
		}
		s.cur = from
		runtime.Goexit()
	}
	if t == nil {
		s.ended = true
		s.cur = nil
		if from != nil { // park for ever: unwound by Run
			s.parkEnd(from)
			return
		}
		close(s.main)
		return
	}
	if t == from {
		s.cur = t
		return
	}
	s.Switches++
	s.mixIn(&s.schash, uint64(t.id)<<32^s.Points)
	s.mixIn(&s.hash, uint64(t.id)<<32^s.Points)
	s.cur = t
	t.wake <- struct{}{}
	if from != nil {
		<-from.wake
		s.phys = from
		if from.dead {
			runtime.Goexit()
		}
	}
}
func (s *Sim) parkEnd(t *Task) {
	close(s.main)
	<-t.wake
	s.phys = t
	runtime.Goexit()
}

// finish ends the run from inside a task or a timer.
func (s *Sim) finish() {
	if s.ended {
		return
	}
	s.ended = true
	t := s.cur
	if s.nocheck > 0 && t == nil {
		return
	}
	if t != nil && s.nocheck == 0 {
		s.cur = nil
		s.parkEnd(t)
	}
}
func End() { S.finish() }

// Run executes the simulation until nothing can happen any more or the run is ended.
func (s *Sim) Run() {
	s.main = make(chan struct{})
	t := s.take()
	if t != nil {
		s.cur = t
		t.wake <- struct{}{}
		<-s.main
	}
	s.cur = nil
	s.ended = true
	// unwind what is left
	for _, p := range append([]*Proc(nil), s.Procs...) {
		p.dead = true
		for _, t := range append([]*Task(nil), p.tasks...) {
			s.unwindTask(t)
		}
	}
}
func (s *Sim) unwindTask(t *Task) {
	if t.done {
		return
	}
	t.dead = true
	t.unwind = make(chan struct{})
	c, ph := s.cur, s.phys
	s.cur = t
	t.wake <- struct{}{}
	<-t.unwind
	s.cur, s.phys = c, ph
	for i, x := range s.run {
		if x == t {
			s.run = append(s.run[:i:i], s.run[i+1:]...)
			break
		}
	}
}

// leave: the calling task's process is gone; nothing it does has an effect any more.
func (s *Sim) check() *Task {
	t := s.cur
	if t == nil || t.dead || s.ended {
		runtime.Goexit()
	}
	return t
}
func curTask() *Task {
	s := S
	if s == nil {
		return nil
	}
	return s.check()
}

// Point: a scheduling point before a statement.
func Point() {
	s := S
	if s == nil {
		return
	}
	if s.ended {
		runtime.Goexit()
	}
	t := s.cur
	if t == nil {
		return
	}
	if t.dead {
		runtime.Goexit()
	}
	s.Points++
	if s.Points > s.MaxSteps {
		s.overrun()
	}
	if s.nocheck > 0 {
		return
	}
	if len(s.timers) > 0 && s.timers[0].when <= s.now {
		s.fire()
		if s.ended || t.dead {
			runtime.Goexit()
		}
	}
	if s.preempt != 0 && len(s.run) > 0 && s.Chance(StSched, s.preempt) {
		s.yield(t)
	}
}
func (s *Sim) overrun() {
	s.truncated = true
	s.event("step limit")
	if s.cur != nil && s.nocheck == 0 {
		s.finish()
	}
	runtime.Goexit()
}
func (s *Sim) yield(t *Task) {
	s.ready(t)
	s.dispatch(t)
	if t.dead || s.ended {
		runtime.Goexit()
	}
}

// Block parks the calling task until wakeup(token) is called; the returned function must be called to obtain the token
// before parking.
func (s *Sim) block(why string) {
	t := s.cur
	t.wait = why
	s.dispatch(t)
	t.wait = ""
	if t.dead || s.ended {
		runtime.Goexit()
	}
}

// Go starts a goroutine of the calling process.
func Go(f func()) {
	t := curTask()
	if t == nil {
		go f()
		return
	}
	S.spawn(t.proc, f)
	Point()
}

// sysPoint is entered by every simulated system call.
func sysPoint(name string) *Proc {
	s := S
	t := s.check()
	s.Steps++
	s.Sys++
	p := t.proc
	if s.nocheck > 0 {
		return p
	}
	s.now += 1000
	if p != nil && !p.harness {
		p.nsys++
		if p.KillAt != 0 && p.nsys == p.KillAt {
			s.fault("kill")
			p.Kill(9)
			s.check()
		}
		if s.Slow != 0 && s.Chance(StFault, s.Slow) {
			s.fault("stall")
			Sleep(int64(1+s.Choose(StFault, 2000)) * 1e6)
		}
	}
	if len(s.timers) > 0 && s.timers[0].when <= s.now {
		s.fire()
		s.check()
	}
	if s.sysPre != 0 && len(s.run) > 0 && s.Chance(StSched, s.sysPre) {
		s.yield(t)
	}
	return p
}
func (s *Sim) fault(kind string) {
	f := s.Faults[kind]
	if f == nil {
		f = &FaultStat{}
		s.Faults[kind] = f
	}
	f.Opp++
	f.Fired++
	s.event("fault " + kind)
}
func NoteFault(kind string) { S.fault(kind) }

// Sleep blocks the calling task for d nanoseconds of simulated time.
func Sleep(d int64) {
	s := S
	t := s.check()
	if d <= 0 {
		s.yield(t)
		return
	}
	fired := false
	At(d, func() { fired = true; s.ready(t) })
	for !fired {
		s.block("sleep")
	}
}

// WaitFor blocks a harness task until cond holds, re-examined whenever woken by Poke.
type Cond struct{ w []*Task }

func (c *Cond) Wait(why string) {
	s := S
	t := s.check()
	c.w = append(c.w, t)
	s.block(why)
}
func (c *Cond) Wake() {
	for _, t := range c.w {
		if !t.dead {
			S.ready(t)
		}
	}
	c.w = nil
}

// WaitTimeout waits for Wake or the time-out (d<0: none); true if woken.
func (c *Cond) WaitTimeout(why string, d int64) bool {
	s := S
	t := s.check()
	c.w = append(c.w, t)
	if d < 0 {
		s.block(why)
		return true
	}
	out := false
	tm := At(d, func() {
		out = true
		for i, x := range c.w {
			if x == t {
				c.w = append(c.w[:i:i], c.w[i+1:]...)
				break
			}
		}
		s.ready(t)
	})
	s.block(why)
	tm.Stop()
	return !out
}

// ChooseSched sets this run's scheduling regime.
func ChooseSched() {
	s := S
	switch Cfg(5) {
	case 0:
		s.preempt, s.sysPre = 0, 0
	case 1:
		s.preempt, s.sysPre = 0, 0x4000
	case 2:
		s.preempt, s.sysPre = 0x400, 0x2000
	case 3:
		s.preempt, s.sysPre = 0x4000, 0x8000
	case 4:
		s.preempt, s.sysPre = 0x80, 0x400
	}
}
func (s *Sim) Hash() uint64      { return s.hash }
func (s *Sim) SchedHash() uint64 { return s.schash }
func (s *Sim) Truncated() bool   { return s.truncated }
func (s *Sim) Blocked() string {
	var l []string
	for _, p := range s.Procs {
		for _, t := range p.tasks {
			l = append(l, fmt.Sprintf("%d/t%d:%s", p.Pid, t.id, t.wait))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// MapRange iterates over a map in an order chosen by the simulator.
func MapRange[M ~map[K]V, K comparable, V any](m M) func(func(K, V) bool) {
	return func(yield func(K, V) bool) {
		type kv struct {
			k K
			s string
		}
		ks := make([]kv, 0, len(m))
		for k := range m {
			ks = append(ks, kv{k, fmt.Sprintf("%#v", k)})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
		if S != nil && S.cur != nil && len(ks) > 1 {
			if r := Cfg(8); r > 0 { // rotate: a different, reproducible order
				n := r * len(ks) / 8
				ks = append(append([]kv(nil), ks[n:]...), ks[:n]...)
			}
		}
		for _, k := range ks {
			v, ok := m[k.k]
			if !ok {
				continue
			}
			if !yield(k.k, v) {
				return
			}
		}
	}
}
func Zero[T any](T) (z T) { return }
