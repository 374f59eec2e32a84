// Package sync is the simulated sync.
package sync

import core "github.com/grayscale-lang/grayscale/simrt/core"

type Locker interface {
	Lock()
	Unlock()
}
type Mutex struct {
	held bool
	c    core.Cond
}

func (m *Mutex) Lock() {
	core.Point()
	for m.held {
		m.c.Wait("mutex")
	}
	m.held = true
}
func (m *Mutex) TryLock() bool {
	core.Point()
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.c.Wake()
	core.Point()
}

type RWMutex struct {
	w bool
	r int
	p int // writers waiting
	c core.Cond
}

func (m *RWMutex) Lock() {
	core.Point()
	m.p++
	for m.w || m.r > 0 {
		m.c.Wait("rwmutex")
	}
	m.p--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() { m.w = false; m.c.Wake(); core.Point() }
func (m *RWMutex) RLock() {
	core.Point()
	for m.w || m.p > 0 {
		m.c.Wait("rwmutex")
	}
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock()        { m.r--; m.c.Wake(); core.Point() }
func (m *RWMutex) RLocker() Locker { return rl{m} }

type rl struct{ m *RWMutex }

func (r rl) Lock()   { r.m.RLock() }
func (r rl) Unlock() { r.m.RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	core.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	n int
	c core.Cond
}

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.c.Wake()
	}
	core.Point()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	core.Point()
	for w.n > 0 {
		w.c.Wait("waitgroup")
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	core.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L Locker
	q []*core.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	x := &core.Cond{}
	c.q = append(c.q, x)
	woken := false
	_ = woken
	core.Free(func() { c.L.Unlock() })
	x.Wait("cond")
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.q) > 0 {
		x := c.q[0]
		c.q = c.q[1:]
		x.Wake()
	}
	core.Point()
}
func (c *Cond) Broadcast() {
	for _, x := range c.q {
		x.Wake()
	}
	c.q = nil
	core.Point()
}

type Map struct{ m map[any]any }

func (m *Map) Load(k any) (any, bool) { core.Point(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	core.Point()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	core.Point()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) Delete(k any) { core.Point(); delete(m.m, k) }
func (m *Map) LoadAndDelete(k any) (any, bool) {
	core.Point()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Range(f func(k, v any) bool) { core.MapRange(m.m)(f) }

type Pool struct {
	New func() any
	l   []any
}

func (p *Pool) Get() any {
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) { p.l = append(p.l, x) }
