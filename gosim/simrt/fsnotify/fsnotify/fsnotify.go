// Package fsnotify follows the inotify back end of the real package over the simulated kernel.
package fsnotify

import (
	"errors"
	"fmt"
	"path/filepath"
	"strings"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

var (
	ErrNonExistentWatch = errors.New("fsnotify: can't remove non-existent watch")
	ErrClosed           = errors.New("fsnotify: watcher already closed")
	ErrEventOverflow    = errors.New("fsnotify: queue or buffer overflow")
)

type Op uint32

const (
	Create Op = 1 << iota
	Write
	Remove
	Rename
	Chmod
)

func (o Op) Has(h Op) bool { return o&h != 0 }
func (o Op) String() string {
	var l []string
	for i, n := range []string{"CREATE", "WRITE", "REMOVE", "RENAME", "CHMOD"} {
		if o&(1<<i) != 0 {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		return "[no events]"
	}
	return strings.Join(l, "|")
}

type Event struct {
	Name string
	Op   Op
}

func (e Event) Has(o Op) bool  { return e.Op.Has(o) }
func (e Event) String() string { return fmt.Sprintf("%-13s %q", e.Op.String(), e.Name) }

type watch struct {
	wd   int
	path string
}
type Watcher struct {
	Events *core.Chan[Event]
	Errors *core.Chan[error]
	k      *core.Inotify
	wd     map[int]*watch
	path   map[string]int
	closed bool
	quit   *core.Chan[struct{}]
	gone   *core.Chan[struct{}]
}

func NewWatcher() (*Watcher, error) { return NewBufferedWatcher(0) }
func NewBufferedWatcher(n uint) (*Watcher, error) {
	k, err := core.NewInotify()
	if err != nil {
		return nil, fmt.Errorf("couldn't initialize inotify: %w", err)
	}
	w := &Watcher{Events: core.MakeChan[Event](int(n)), Errors: core.MakeChan[error](0), k: k, wd: map[int]*watch{}, path: map[string]int{}, quit: core.MakeChan[struct{}](0), gone: core.MakeChan[struct{}](0)}
	core.Go(w.readEvents)
	return w, nil
}
func (w *Watcher) Close() error {
	if w.closed {
		return nil
	}
	w.closed = true
	w.quit.Close()
	w.k.Close()
	w.gone.Recv2()
	return nil
}

type addOpt func()

func WithBufferSize(int) addOpt { return func() {} }
func WithOps(Op) addOpt         { return func() {} }

func (w *Watcher) AddWith(p string, o ...addOpt) error { return w.Add(p) }
func (w *Watcher) Add(p string) error {
	if w.closed {
		return ErrClosed
	}
	p = filepath.Clean(p)
	old, known := w.path[p]
	ex := w.wd[old]
	if !known {
		ex = nil
	}
	wd, err := w.k.AddWatch(p)
	if err != nil {
		return err
	}
	var upd *watch
	if e, ok := w.wd[wd]; ok {
		upd = e
	} else if ex == nil {
		upd = &watch{wd, p}
	} else {
		ex.wd = wd
		upd = ex
	}
	w.wd[upd.wd] = upd
	w.path[upd.path] = upd.wd
	if upd.wd != old {
		delete(w.wd, old)
	}
	return nil
}
func (w *Watcher) Remove(p string) error {
	if w.closed {
		return nil
	}
	return w.remove(filepath.Clean(p))
}
func (w *Watcher) remove(p string) error {
	wd, ok := w.path[p]
	if !ok {
		return fmt.Errorf("%w: %s", ErrNonExistentWatch, p)
	}
	delete(w.path, p)
	delete(w.wd, wd)
	return w.k.RmWatch(wd)
}
func (w *Watcher) WatchList() []string {
	var l []string
	for p := range core.MapRange(w.path) {
		l = append(l, p)
	}
	return l
}
func (w *Watcher) sendEvent(e Event) bool {
	if e.Op == 0 {
		return true
	}
	sel := new(core.Sel)
	return core.Select(sel, false, w.quit.RecvCase(), w.Events.SendCase(e)) == 1
}
func (w *Watcher) sendError(err error) bool {
	if err == nil {
		return true
	}
	sel := new(core.Sel)
	return core.Select(sel, false, w.quit.RecvCase(), w.Errors.SendCase(err)) == 1
}
func (w *Watcher) readEvents() {
	defer func() {
		w.gone.Close()
		w.Errors.Close()
		w.Events.Close()
	}()
	for {
		if core.S.Fault("watch_read") {
			if !w.sendError(errors.New("read: input/output error")) {
				return
			}
		}
		l, ok := w.k.Read()
		if !ok {
			return
		}
		for _, e := range l {
			if e.Mask&core.IN_OVERFLOW != 0 {
				if !w.sendError(ErrEventOverflow) {
					return
				}
			}
			ev, ok := w.handle(e)
			if !ok || !w.sendEvent(ev) {
				return
			}
		}
	}
}
func (w *Watcher) handle(e core.IEvent) (Event, bool) {
	x := w.wd[e.Wd]
	if x == nil {
		return Event{}, true
	}
	name := x.path
	if e.Name != "" {
		name += "/" + e.Name
	}
	if e.Mask&core.IN_IGNORED != 0 {
		delete(w.path, x.path)
		delete(w.wd, x.wd)
		return Event{}, true
	}
	if e.Mask&core.IN_DELETE_SELF != 0 {
		delete(w.path, x.path)
		delete(w.wd, x.wd)
	}
	if e.Mask&core.IN_MOVE_SELF != 0 {
		if err := w.remove(x.path); err != nil && !errors.Is(err, ErrNonExistentWatch) {
			if !w.sendError(err) {
				return Event{}, false
			}
		}
	}
	if e.Mask&core.IN_DELETE_SELF != 0 {
		if _, ok := w.path[filepath.Dir(x.path)]; ok {
			return Event{}, true
		}
	}
	ev := Event{Name: name}
	if e.Mask&(core.IN_CREATE|core.IN_MOVED_TO) != 0 {
		ev.Op |= Create
	}
	if e.Mask&(core.IN_DELETE|core.IN_DELETE_SELF) != 0 {
		ev.Op |= Remove
	}
	if e.Mask&core.IN_MODIFY != 0 {
		ev.Op |= Write
	}
	if e.Mask&(core.IN_MOVE_SELF|core.IN_MOVED_FROM) != 0 {
		ev.Op |= Rename
	}
	if e.Mask&core.IN_ATTRIB != 0 {
		ev.Op |= Chmod
	}
	return ev, true
}
