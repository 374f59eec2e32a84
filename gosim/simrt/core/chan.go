package simcore

// Chan is the simulated channel.
type Chan[T any] struct {
	buf    []T
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}
type waiter struct {
	sel  *Sel
	idx  int
	t    *Task
	done *bool // shared by all cases of one select
	val  any
	ok   bool
}

// Sel is the state of one select statement (or a single operation).
type Sel struct {
	idx  int
	val  any
	ok   bool
	t    *Task
	done bool
}
type Case struct {
	ready   func() bool
	do      func(*Sel)
	enqueue func(*Sel, int)
	dequeue func(*Sel)
}

func MakeChan[T any](n int) *Chan[T] { return &Chan[T]{cap: n} }
func first(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.sel.done || w.t.dead {
			*q = (*q)[1:]
			continue
		}
		return w
	}
	return nil
}
func drop(q *[]*waiter, s *Sel) {
	o := (*q)[:0:0]
	for _, w := range *q {
		if w.sel != s {
			o = append(o, w)
		}
	}
	*q = o
}
func complete(w *waiter, v any, ok bool) {
	w.sel.done = true
	w.sel.idx = w.idx
	w.sel.val, w.sel.ok = v, ok
	S.ready(w.t)
}

// trySend from anywhere (also from timers); false if it would block.
func (c *Chan[T]) TrySend(v T) bool {
	if c == nil {
		return false
	}
	if c.closed {
		panic("send on closed channel")
	}
	if w := first(&c.recvq); w != nil {
		c.recvq = c.recvq[1:]
		complete(w, v, true)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}
func (c *Chan[T]) tryRecv() (v T, ok bool, got bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]T(nil), c.buf[1:]...)
		if w := first(&c.sendq); w != nil {
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, w.val.(wrap[T]).v)
			complete(w, nil, true)
		}
		return v, true, true
	}
	if w := first(&c.sendq); w != nil {
		c.sendq = c.sendq[1:]
		complete(w, nil, true)
		return w.val.(wrap[T]).v, true, true
	}
	if c.closed {
		return v, false, true
	}
	return v, false, false
}

type wrap[T any] struct{ v T }

func (c *Chan[T]) RecvCase() Case {
	return Case{
		ready: func() bool { return c != nil && (len(c.buf) > 0 || first(&c.sendq) != nil || c.closed) },
		do:    func(s *Sel) { v, ok, _ := c.tryRecv(); s.val, s.ok = v, ok },
		enqueue: func(s *Sel, i int) {
			if c != nil {
				c.recvq = append(c.recvq, &waiter{sel: s, idx: i, t: s.t})
			}
		},
		dequeue: func(s *Sel) {
			if c != nil {
				drop(&c.recvq, s)
			}
		},
	}
}
func (c *Chan[T]) SendCase(v T) Case {
	return Case{
		ready: func() bool { return c != nil && (c.closed || len(c.buf) < c.cap || first(&c.recvq) != nil) },
		do:    func(s *Sel) { c.TrySend(v) },
		enqueue: func(s *Sel, i int) {
			if c != nil {
				c.sendq = append(c.sendq, &waiter{sel: s, idx: i, t: s.t, val: wrap[T]{v}})
			}
		},
		dequeue: func(s *Sel) {
			if c != nil {
				drop(&c.sendq, s)
			}
		},
	}
}

// Select returns the index of the chosen case, or -1 for the default.
func Select(sel *Sel, hasDefault bool, cases ...Case) int {
	s := S
	t := s.check()
	Point()
	sel.t = t
	var rd []int
	for i, c := range cases {
		if c.ready() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		i := rd[0]
		if len(rd) > 1 {
			i = rd[s.Choose(StSched, len(rd))]
		}
		sel.idx = i
		cases[i].do(sel)
		return i
	}
	if hasDefault {
		return -1
	}
	for i, c := range cases {
		c.enqueue(sel, i)
	}
	for !sel.done {
		s.block("select")
	}
	for _, c := range cases {
		c.dequeue(sel)
	}
	return sel.idx
}
func (c *Chan[T]) Got(s *Sel) T {
	v, _ := s.val.(T)
	return v
}
func (c *Chan[T]) Got2(s *Sel) (T, bool) { v, _ := s.val.(T); return v, s.ok }
func (c *Chan[T]) Send(v T) {
	sel := new(Sel)
	if Select(sel, false, c.SendCase(v)); !sel.ok && c.closed && sel.done {
		panic("send on closed channel")
	}
}
func (c *Chan[T]) Recv() T { v, _ := c.Recv2(); return v }
func (c *Chan[T]) Recv2() (T, bool) {
	sel := new(Sel)
	Select(sel, false, c.RecvCase())
	v, _ := sel.val.(T)
	return v, sel.ok
}
func (c *Chan[T]) Close() {
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		w := first(&c.recvq)
		if w == nil {
			break
		}
		c.recvq = c.recvq[1:]
		complete(w, nil, false)
	}
	for {
		w := first(&c.sendq)
		if w == nil {
			break
		}
		c.sendq = c.sendq[1:]
		complete(w, nil, false)
	}
}
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}
func (c *Chan[T]) Iter() func(func(T) bool) {
	return func(y func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || !y(v) {
				return
			}
		}
	}
}

// Drain throws buffered values away.
func (c *Chan[T]) Drain() { c.buf = nil }
