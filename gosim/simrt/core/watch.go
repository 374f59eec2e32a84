package simcore

import (
	"path"
	"strings"
	"syscall"
)

// inotify, as far as a watcher needs it: watches belong to inodes, names are those given when the watch was added.
const (
	IN_MODIFY = 1 << iota
	IN_ATTRIB
	IN_CLOSE_WRITE
	IN_MOVED_FROM
	IN_MOVED_TO
	IN_CREATE
	IN_DELETE
	IN_DELETE_SELF
	IN_MOVE_SELF
	IN_IGNORED
	IN_ISDIR
	IN_OVERFLOW
)

const in_all = IN_MODIFY | IN_ATTRIB | IN_MOVED_FROM | IN_MOVED_TO | IN_CREATE | IN_DELETE | IN_DELETE_SELF | IN_MOVE_SELF

type IEvent struct {
	Wd   int
	Name string // child, for a directory watch
	Mask int
}
type iwatch struct {
	n  *Inode
	wd int
}
type Inotify struct {
	p      *Proc
	w      []*iwatch
	q      []IEvent
	closed bool
	cond   Cond
	nwd    int
	Limit  int
	over   bool
	Overs  int
}

func NewInotify() (*Inotify, error) {
	p := sysPoint("inotify_init")
	if S.Fault("watch_init") {
		return nil, syscall.EMFILE
	}
	i := &Inotify{p: p, Limit: 16384}
	if WatchLimit > 0 {
		i.Limit = WatchLimit
	}
	S.watchers = append(S.watchers, i)
	return i, nil
}

// WatchLimit bounds the kernel's event queue in this run (0: the usual limit).
var WatchLimit int

func Watchers() []*Inotify     { return S.watchers }
func (i *Inotify) Proc() *Proc { return i.p }
func (i *Inotify) AddWatch(p string) (int, error) {
	pr := sysPoint("inotify_add_watch")
	if S.Fault("watch_add") {
		return -1, syscall.ENOSPC
	}
	l, err := S.FS.look(pr.Cwd, p, pr.Uid, true)
	if err != nil {
		return -1, err
	}
	if l.n == nil {
		return -1, syscall.ENOENT
	}
	if !may(l.n, pr.Uid, 4) {
		return -1, syscall.EACCES
	}
	for _, w := range i.w {
		if w.n == l.n {
			return w.wd, nil
		}
	}
	i.nwd++
	i.w = append(i.w, &iwatch{l.n, i.nwd})
	S.event("watch " + p)
	return i.nwd, nil
}
func (i *Inotify) RmWatch(wd int) error {
	sysPoint("inotify_rm_watch")
	for k, w := range i.w {
		if w.wd == wd {
			i.w = append(i.w[:k:k], i.w[k+1:]...)
			i.push(IEvent{wd, "", IN_IGNORED})
			return nil
		}
	}
	return syscall.EINVAL
}

// Watches: is the inode (or its directory) being watched?
func (i *Inotify) Watches(n *Inode) bool {
	for _, w := range i.w {
		if w.n == n {
			return true
		}
	}
	return false
}
func (i *Inotify) push(e IEvent) {
	if i.closed || e.Mask&(in_all|IN_IGNORED) == 0 {
		return
	}
	if len(i.q) > 0 && i.q[len(i.q)-1] == e { // the kernel merges identical neighbours
		return
	}
	if len(i.q) >= i.Limit {
		if !i.over {
			i.over = true
			i.Overs++
			i.q = append(i.q, IEvent{-1, "", IN_OVERFLOW})
			S.fault("watch_overflow")
		}
		return
	}
	i.q = append(i.q, e)
	i.cond.Wake()
}

// Read blocks until there are events and returns all of them; false once closed.
func (i *Inotify) Read() ([]IEvent, bool) {
	for {
		sysPoint("read")
		if i.closed {
			return nil, false
		}
		if len(i.q) > 0 {
			e := i.q
			i.q, i.over = nil, false
			return e, true
		}
		i.cond.Wait("inotify")
	}
}
func (i *Inotify) Close() {
	i.closed = true
	i.cond.Wake()
}

// note: something happened to the entry name of directory d (inode n).
func (f *FS) note(d *Inode, name string, mask int, n *Inode) {
	for _, i := range f.s.watchers {
		for _, w := range append([]*iwatch(nil), i.w...) {
			if w.n == d {
				i.push(IEvent{w.wd, name, mask})
			}
			if n != nil && w.n == n && mask&(IN_MODIFY|IN_ATTRIB|IN_CLOSE_WRITE) != 0 {
				i.push(IEvent{w.wd, "", mask})
			}
		}
	}
}

// noteInode: something happened to an inode whatever its names.
func (f *FS) noteInode(n *Inode, mask int) {
	if len(f.s.watchers) == 0 {
		return
	}
	var w func(d *Inode)
	seen := false
	w = func(d *Inode) {
		for _, k := range d.names() {
			c := d.Ent[k]
			if c == n && !seen {
				seen = true
				f.note(d, k, mask, n)
			} else if c.Kind == KDir {
				w(c)
			}
		}
	}
	w(f.Root)
	if !seen {
		f.note(nil, "", mask, n)
	}
}
func (f *FS) gone(n *Inode) { // the last name of a watched inode went away
	if n.Nlink > 0 {
		return
	}
	for _, i := range f.s.watchers {
		for _, w := range append([]*iwatch(nil), i.w...) {
			if w.n == n {
				i.push(IEvent{w.wd, "", IN_ATTRIB})
				i.push(IEvent{w.wd, "", IN_DELETE_SELF})
				for k, x := range i.w {
					if x == w {
						i.w = append(i.w[:k:k], i.w[k+1:]...)
						break
					}
				}
				i.push(IEvent{w.wd, "", IN_IGNORED})
			}
		}
	}
}
func (f *FS) noteDelete(l loc) {
	m := IN_DELETE
	if l.n.Kind == KDir {
		m |= IN_ISDIR
	}
	f.note(l.dir, l.name, m, nil)
	f.gone(l.n)
}
func (f *FS) noteMove(x, y loc, old *Inode) {
	m := 0
	if x.n.Kind == KDir {
		m = IN_ISDIR
	}
	f.note(x.dir, x.name, IN_MOVED_FROM|m, nil)
	f.note(y.dir, y.name, IN_MOVED_TO|m, nil)
	for _, i := range f.s.watchers {
		for _, w := range append([]*iwatch(nil), i.w...) {
			if w.n == x.n {
				i.push(IEvent{w.wd, "", IN_MOVE_SELF})
			}
		}
	}
	if old != nil {
		f.gone(old)
	}
}

// ---- the world edits files ----------------------------------------------------------------------------------------
func (f *FS) world(g func()) {
	f.s.nocheck++
	g()
	f.s.nocheck--
}

// Edit operations of a user, seen by watchers. All are complete file contents except WTrunc/WAppend.
func WTrunc(p string) {
	f := S.FS
	f.world(func() {
		l, _ := f.look("/", p, 0, true)
		if l.n != nil {
			f.note(l.dir, l.name, IN_MODIFY, l.n)
			l.n.Data = nil
			l.n.dirty = true
			f.mutated("edit-trunc", p, true)
		}
	})
}
func WAppend(p string, b []byte) {
	f := S.FS
	f.world(func() {
		l, err := f.look("/", p, 0, true)
		if err != nil || l.dir == nil {
			return
		}
		if l.n == nil {
			n := f.inode(KFile, 0o644, 1000)
			n.Dev = l.dir.Dev
			l.dir.Ent[l.name] = n
			l.n = n
			f.note(l.dir, l.name, IN_CREATE, n)
		}
		l.n.Data = append(append([]byte(nil), l.n.Data...), b...)
		l.n.Mtime = S.now
		f.note(l.dir, l.name, IN_MODIFY, l.n)
		f.note(l.dir, l.name, IN_CLOSE_WRITE, l.n)
		f.mutated("edit-write", p, true)
	})
}
func WRename(a, b string) {
	f := S.FS
	f.world(func() {
		x, e1 := f.look("/", a, 0, false)
		y, e2 := f.look("/", b, 0, false)
		if e1 != nil || e2 != nil || x.n == nil || x.dir == nil || y.dir == nil {
			return
		}
		old := y.n
		delete(x.dir.Ent, x.name)
		y.dir.Ent[y.name] = x.n
		if old != nil {
			old.Nlink--
		}
		f.noteMove(x, y, old)
		f.mutated("edit-rename "+a, b, true)
	})
}
func WDelete(p string) {
	f := S.FS
	f.world(func() {
		l, err := f.look("/", p, 0, false)
		if err != nil || l.n == nil || l.dir == nil {
			return
		}
		delete(l.dir.Ent, l.name)
		l.n.Nlink--
		f.noteDelete(l)
		f.mutated("edit-delete", p, true)
	})
}
func WChmod(p string) {
	f := S.FS
	f.world(func() {
		l, err := f.look("/", p, 0, true)
		if err == nil && l.n != nil {
			f.note(l.dir, l.name, IN_ATTRIB, l.n)
		}
	})
}
func WMkdir(p string) {
	f := S.FS
	f.world(func() {
		l, err := f.look("/", p, 0, false)
		if err != nil || l.n != nil || l.dir == nil {
			return
		}
		n := f.inode(KDir, 0o755, 1000)
		n.Dev = l.dir.Dev
		l.dir.Ent[l.name] = n
		f.note(l.dir, l.name, IN_CREATE|IN_ISDIR, n)
		f.mutated("edit-mkdir", p, true)
	})
}
func under(p, d string) bool { return strings.HasPrefix(path.Clean(p)+"/", path.Clean(d)+"/") }
