package simcore

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

type Kind int

const (
	KFile Kind = iota
	KDir
	KLink
	KDev
)

// Inode of the simulated disk. Data is the current content, synced what is known to survive a power loss.
type Inode struct {
	Ino    int
	Kind   Kind
	Mode   uint32
	Uid    int
	Data   []byte
	Target string
	Ent    map[string]*Inode
	Dev    int
	Mtime  int64
	Nlink  int
	synced []byte
	hasSyn bool
	dirty  bool
}
type FS struct {
	s      *Sim
	Root   *Inode
	nino   int
	Free   map[int]int64 // bytes left per device (absent: unlimited)
	Power  bool          // keep the history needed for a power loss
	hist   []*Inode      // trees, oldest first: the persisted one, then one per metadata change since
	Mutate func(what, path string)
	Muts   int
	inMut  bool
}

func newFS(s *Sim) *FS {
	f := &FS{s: s, Free: map[int]int64{}}
	f.Root = f.inode(KDir, 0o755, 0)
	return f
}
func (f *FS) inode(k Kind, mode uint32, uid int) *Inode {
	f.nino++
	n := &Inode{Ino: f.nino, Kind: k, Mode: mode, Uid: uid, Nlink: 1, Mtime: f.s.now}
	if k == KDir {
		n.Ent = map[string]*Inode{}
	}
	return n
}
func (n *Inode) names() []string {
	l := make([]string, 0, len(n.Ent))
	for k := range n.Ent {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// tree copies the directory structure; file inodes are shared, with their attributes kept apart.
type Tree = Inode

func cloneTree(n *Inode) *Inode {
	c := *n
	if n.Kind == KDir {
		c.Ent = make(map[string]*Inode, len(n.Ent))
		for k, v := range n.Ent {
			if v.Kind == KDir {
				c.Ent[k] = cloneTree(v)
			} else {
				w := *v // attributes at this moment; Target carries them
				w.Ent = map[string]*Inode{"": v}
				c.Ent[k] = &w
			}
		}
	}
	return &c
}
func (f *FS) StartPower() {
	f.Power = true
	f.walkAll(f.Root, func(n *Inode) { n.synced, n.hasSyn, n.dirty = append([]byte(nil), n.Data...), true, false })
	f.hist = []*Inode{cloneTree(f.Root)}
}
func (f *FS) walkAll(n *Inode, g func(*Inode)) {
	g(n)
	if n.Kind == KDir {
		for _, k := range n.names() {
			f.walkAll(n.Ent[k], g)
		}
	}
}
func (f *FS) commit() {
	if f.Power {
		f.hist = []*Inode{cloneTree(f.Root)}
	}
}

// PowerLoss: everything running stops and only what the disk kept survives. Metadata changes survive in order up to a
// chosen one; data never synced survives wholly, in part, as zeros, or not at all.
func (f *FS) PowerLoss() {
	s := f.s
	s.fault("power")
	k := len(f.hist) - 1
	if k > 0 {
		k -= s.Choose(StFault, len(f.hist))
		if k < 0 {
			k = 0
		}
	}
	content := map[*Inode][]byte{}
	var rebuild func(n *Inode) *Inode
	made := map[*Inode]*Inode{}
	rebuild = func(n *Inode) *Inode {
		if n.Kind == KDir {
			c := *n
			c.Ent = map[string]*Inode{}
			for _, name := range n.names() {
				c.Ent[name] = rebuild(n.Ent[name])
			}
			return &c
		}
		v := n.Ent[""]
		if m := made[v]; m != nil {
			return m
		}
		c := *n
		c.Ent = nil
		d, ok := content[v]
		if !ok {
			d = append([]byte(nil), v.Data...)
			if v.dirty && v.Kind == KFile {
				switch s.Choose(StFault, 5) {
				case 1:
					d = nil
				case 2:
					d = d[:s.Choose(StFault, len(d)+1)]
				case 3:
					z := s.Choose(StFault, len(d)+1)
					d = append(d[:z:z], make([]byte, len(d)-z)...)
				case 4:
					if v.hasSyn {
						d = append([]byte(nil), v.synced...)
					} else {
						d = nil
					}
				}
			}
			content[v] = d
		}
		c.Data = d
		c.synced, c.hasSyn, c.dirty = append([]byte(nil), d...), true, false
		made[v] = &c
		return &c
	}
	f.Root = rebuild(f.hist[k])
	if f.Power {
		f.hist = []*Inode{cloneTree(f.Root)}
	}
	s.event(fmt.Sprintf("power loss, metadata %d of %d", k, len(f.hist)-1))
}

// mutated is called after every change of the disk.
func (f *FS) mutated(what, p string, meta bool) {
	f.Muts++
	f.s.event("fs " + what + " " + p)
	if f.Power && meta {
		f.hist = append(f.hist, cloneTree(f.Root))
	}
	if f.Mutate != nil && !f.inMut {
		f.inMut = true
		f.s.nocheck++
		f.Mutate(what, p)
		f.s.nocheck--
		f.inMut = false
	}
	if f.s.ended && f.s.nocheck == 0 {
		f.s.check()
	}
}

// ---- path walk ----------------------------------------------------------------------------------------------------
func may(n *Inode, uid int, bit uint32) bool {
	if uid == 0 {
		return bit != 1 || n.Kind == KDir || n.Mode&0o111 != 0
	}
	if n.Uid == uid {
		return n.Mode>>6&bit == bit
	}
	return n.Mode&bit == bit
}

type loc struct {
	dir  *Inode
	name string
	n    *Inode
	abs  string
}

func abspath(cwd, p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	return p
}
func (f *FS) look(cwd, p string, uid int, follow bool) (loc, error) {
	return f.look1(cwd, p, uid, follow, 0)
}
func (f *FS) look1(cwd, p string, uid int, follow bool, depth int) (loc, error) {
	if p == "" {
		return loc{}, syscall.ENOENT
	}
	if strings.Contains(p, "\x00") {
		return loc{}, syscall.EINVAL
	}
	if depth > 40 {
		return loc{}, syscall.ELOOP
	}
	full := abspath(cwd, p)
	slash := strings.HasSuffix(full, "/")
	var parts []string
	for _, x := range strings.Split(full, "/") {
		if x != "" && x != "." {
			parts = append(parts, x)
		}
	}
	type lv struct {
		n    *Inode
		name string
	}
	st := []lv{{f.Root, ""}}
	abs := func() string {
		var l []string
		for _, x := range st[1:] {
			l = append(l, x.name)
		}
		return "/" + strings.Join(l, "/")
	}
	for i, x := range parts {
		last := i == len(parts)-1
		d := st[len(st)-1].n
		if d.Kind != KDir {
			return loc{}, syscall.ENOTDIR
		}
		if !may(d, uid, 1) {
			return loc{}, syscall.EACCES
		}
		if len(x) > 255 {
			return loc{}, syscall.ENAMETOOLONG
		}
		if x == ".." {
			if len(st) > 1 {
				st = st[:len(st)-1]
			}
			continue
		}
		n := d.Ent[x]
		if n == nil {
			if last {
				a := abs()
				if a != "/" {
					a += "/"
				}
				return loc{d, x, nil, a + x}, nil
			}
			return loc{}, syscall.ENOENT
		}
		if n.Kind == KLink && (!last || follow || slash) {
			t := n.Target
			if !strings.HasPrefix(t, "/") {
				t = abs() + "/" + t
			}
			rest := strings.Join(parts[i+1:], "/")
			if rest != "" {
				t += "/" + rest
			}
			if slash {
				t += "/"
			}
			return f.look1("/", t, uid, follow, depth+1)
		}
		st = append(st, lv{n, x})
	}
	top := st[len(st)-1]
	if slash && top.n.Kind != KDir {
		return loc{}, syscall.ENOTDIR
	}
	var dir *Inode
	if len(st) > 1 {
		dir = st[len(st)-2].n
	}
	return loc{dir, top.name, top.n, abs()}, nil
}

// ---- operations of the world (no faults, no permission checks) ------------------------------------------------------
func (f *FS) MkdirAll(p string, mode uint32, uid int) *Inode {
	n, here := f.Root, ""
	for _, x := range strings.Split(p, "/") {
		if x == "" {
			continue
		}
		c := n.Ent[x]
		if c == nil {
			c = f.inode(KDir, mode, uid)
			c.Dev = n.Dev
			n.Ent[x] = c
		}
		at := here + "/" + x
		if c.Kind == KLink {
			if l, err := f.look("/", at, 0, true); err == nil && l.n != nil {
				c, at = l.n, l.abs
			}
		}
		n, here = c, at
	}
	return n
}
func (f *FS) Put(p string, data []byte, mode uint32, uid int) *Inode {
	d := f.MkdirAll(path.Dir(p), 0o755, uid)
	n := f.inode(KFile, mode, uid)
	n.Data = append([]byte(nil), data...)
	n.Dev = d.Dev
	d.Ent[path.Base(p)] = n
	return n
}
func (f *FS) Symlink(target, p string) {
	d := f.MkdirAll(path.Dir(p), 0o755, 0)
	n := f.inode(KLink, 0o777, 0)
	n.Target = target
	d.Ent[path.Base(p)] = n
}
func (f *FS) Mount(p string, dev int) {
	n := f.MkdirAll(p, 0o755, 0)
	n.Dev = dev
}
func (f *FS) Get(p string) *Inode {
	l, err := f.look("/", p, 0, true)
	if err != nil {
		return nil
	}
	return l.n
}
func (f *FS) LGet(p string) *Inode {
	l, err := f.look("/", p, 0, false)
	if err != nil {
		return nil
	}
	return l.n
}
func (f *FS) Read(p string) ([]byte, bool) {
	n := f.Get(p)
	if n == nil || n.Kind != KFile {
		return nil, false
	}
	return n.Data, true
}

// List: all paths below p, sorted.
func (f *FS) List(p string) []string {
	var out []string
	var w func(n *Inode, q string)
	w = func(n *Inode, q string) {
		out = append(out, q)
		if n.Kind == KDir {
			for _, k := range n.names() {
				w(n.Ent[k], strings.TrimSuffix(q, "/")+"/"+k)
			}
		}
	}
	if n := f.LGet(p); n != nil {
		w(n, p)
	}
	return out
}

// ---- system calls -------------------------------------------------------------------------------------------------
// Each returns a syscall.Errno as error.
type Handle struct {
	f      *FS
	p      *Proc
	N      *Inode
	Path   string
	Flags  int
	Pos    int64
	closed bool
	list   []string
	lpos   int
}

func fsys(name string) (*FS, *Proc) { p := sysPoint(name); return S.FS, p }
func OpenFile(name string, flags int, mode uint32) (*Handle, error) {
	f, p := fsys("open")
	acc := flags & syscall.O_ACCMODE
	creat := flags&syscall.O_CREAT != 0
	if S.Fault("open") {
		return nil, [...]error{syscall.EIO, syscall.EMFILE, syscall.ENOSPC, syscall.EACCES}[pick(creat, 4)]
	}
	l, err := f.look(p.Cwd, name, p.Uid, !(creat && flags&syscall.O_EXCL != 0) && flags&syscall.O_NOFOLLOW == 0)
	if err != nil {
		return nil, err
	}
	if l.n == nil {
		if !creat {
			return nil, syscall.ENOENT
		}
		if strings.HasSuffix(name, "/") {
			return nil, syscall.EISDIR
		}
		if !may(l.dir, p.Uid, 2) {
			return nil, syscall.EACCES
		}
		if f.full(l.dir.Dev) {
			return nil, syscall.ENOSPC
		}
		n := f.inode(KFile, mode&0o777&^p.Umask, p.Uid)
		n.Dev = l.dir.Dev
		n.dirty = true
		l.dir.Ent[l.name] = n
		l.n = n
		f.note(l.dir, l.name, IN_CREATE, n)
		f.mutated("create", l.abs, true)
	} else {
		if creat && flags&syscall.O_EXCL != 0 {
			return nil, syscall.EEXIST
		}
		if l.n.Kind == KLink {
			return nil, syscall.ELOOP
		}
		if l.n.Kind == KDir && (acc != syscall.O_RDONLY || creat) {
			return nil, syscall.EISDIR
		}
		if acc != syscall.O_WRONLY && !may(l.n, p.Uid, 4) || acc != syscall.O_RDONLY && !may(l.n, p.Uid, 2) {
			return nil, syscall.EACCES
		}
		if acc != syscall.O_RDONLY && f.busy(l.n) {
			return nil, syscall.ETXTBSY
		}
		if flags&syscall.O_TRUNC != 0 && l.n.Kind == KFile {
			if len(l.n.Data) > 0 {
				f.give(l.n.Dev, int64(len(l.n.Data)))
				l.n.Data = nil
				l.n.dirty = true
				l.n.Mtime = S.now
				f.note(l.dir, l.name, IN_MODIFY, l.n)
				f.mutated("truncate", l.abs, true)
			} else {
				f.note(l.dir, l.name, IN_MODIFY, l.n)
			}
		}
	}
	p.fd(1)
	return &Handle{f: f, p: p, N: l.n, Path: l.abs, Flags: flags}, nil
}
func pick(creat bool, n int) int {
	k := S.Choose(StFault, n)
	if k == 2 && !creat {
		k = 0
	}
	return k
}
func (f *FS) full(dev int) bool {
	v, ok := f.Free[dev]
	return ok && v <= 0
}
func (f *FS) give(dev int, n int64) {
	if v, ok := f.Free[dev]; ok {
		f.Free[dev] = v + n
	}
}

// busy: a running image may not be opened for writing.
func (f *FS) busy(n *Inode) bool {
	for _, p := range f.s.Procs {
		if !p.Exited && !p.harness && p.Exe != "" {
			if l, err := f.look("/", p.Exe, 0, true); err == nil && l.n == n {
				return true
			}
		}
	}
	return false
}
func (h *Handle) Read(b []byte) (int, error) {
	f, _ := fsys("read")
	if h.closed {
		return 0, syscall.EBADF
	}
	if S.Fault("read") {
		return 0, syscall.EIO
	}
	if h.Flags&syscall.O_ACCMODE == syscall.O_WRONLY {
		return 0, syscall.EBADF
	}
	if h.N.Kind == KDir {
		return 0, syscall.EISDIR
	}
	_ = f
	n := int64(len(h.N.Data)) - h.Pos
	if n <= 0 {
		return 0, nil
	}
	if n > int64(len(b)) {
		n = int64(len(b))
	}
	if n > 1 && S.Fault("short_read") {
		n = 1 + int64(S.Choose(StFault, int(n-1)))
	}
	copy(b, h.N.Data[h.Pos:h.Pos+n])
	h.Pos += n
	return int(n), nil
}

// Write writes all of b or returns an error; the disk may be seen between its parts.
func (h *Handle) Write(b []byte) (int, error) {
	done := 0
	for {
		k := len(b) - done
		if k > 4096 {
			k = 4096
		}
		n, err := h.write1(b[done : done+k])
		done += n
		if err != nil {
			return done, err
		}
		if done >= len(b) {
			return done, nil
		}
	}
}
func (h *Handle) write1(b []byte) (int, error) {
	f, _ := fsys("write")
	if h.closed || h.Flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return 0, syscall.EBADF
	}
	if len(b) == 0 {
		return 0, nil
	}
	if S.Fault("write") {
		return 0, [...]error{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}[S.Choose(StFault, 3)]
	}
	n := len(b)
	if n > 1 && S.Fault("short_write") {
		n = 1 + S.Choose(StFault, n-1)
	}
	if h.Flags&syscall.O_APPEND != 0 {
		h.Pos = int64(len(h.N.Data))
	}
	if v, ok := f.Free[h.N.Dev]; ok {
		grow := h.Pos + int64(n) - int64(len(h.N.Data))
		if grow > v {
			n -= int(grow - v)
			if n <= 0 {
				f.s.fault("enospc")
				return 0, syscall.ENOSPC
			}
			grow = v
		}
		if grow > 0 {
			f.Free[h.N.Dev] = v - grow
		}
	}
	for int64(len(h.N.Data)) < h.Pos {
		h.N.Data = append(h.N.Data, 0)
	}
	d := append(append([]byte(nil), h.N.Data[:h.Pos]...), b[:n]...)
	if h.Pos+int64(n) < int64(len(h.N.Data)) {
		d = append(d, h.N.Data[h.Pos+int64(n):]...)
	}
	h.N.Data = d
	h.Pos += int64(n)
	h.N.dirty = true
	h.N.Mtime = S.now
	f.noteInode(h.N, IN_MODIFY)
	f.mutated(fmt.Sprintf("write(%d)", n), h.Path, false)
	return n, nil
}
func (h *Handle) Sync() error {
	f, _ := fsys("fsync")
	if h.closed {
		return syscall.EBADF
	}
	if S.Fault("sync") {
		return syscall.EIO
	}
	h.N.synced, h.N.hasSyn, h.N.dirty = append([]byte(nil), h.N.Data...), true, false
	f.commit()
	f.s.event("fsync " + h.Path)
	return nil
}
func (h *Handle) Close() error {
	f, p := fsys("close")
	if h.closed {
		return syscall.EBADF
	}
	h.closed = true
	p.fd(-1)
	_ = f
	if h.Flags&syscall.O_ACCMODE != syscall.O_RDONLY {
		f.noteInode(h.N, IN_CLOSE_WRITE)
		if S.Fault("close") { // e.g. NFS or quota: written data may not have made it
			if n := len(h.N.Data); n > 0 && S.Choose(StFault, 2) == 1 {
				h.N.Data = h.N.Data[:S.Choose(StFault, n)]
				f.mutated("lost-write", h.Path, false)
			}
			return syscall.EIO
		}
	}
	return nil
}
func (h *Handle) Seek(off int64, whence int) (int64, error) {
	fsys("lseek")
	switch whence {
	case 1:
		off += h.Pos
	case 2:
		off += int64(len(h.N.Data))
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	h.Pos = off
	return off, nil
}
func (h *Handle) Truncate(n int64) error {
	f, _ := fsys("ftruncate")
	if S.Fault("write") {
		return syscall.EIO
	}
	if h.closed || h.Flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return syscall.EINVAL
	}
	f.trunc(h.N, n, h.Path)
	return nil
}
func (f *FS) trunc(n *Inode, sz int64, p string) {
	if int64(len(n.Data)) > sz {
		n.Data = append([]byte(nil), n.Data[:sz]...)
	}
	for int64(len(n.Data)) < sz {
		n.Data = append(n.Data, 0)
	}
	n.dirty = true
	f.noteInode(n, IN_MODIFY)
	f.mutated("truncate", p, true)
}
func Truncate(p string, n int64) error {
	f, pr := fsys("truncate")
	if S.Fault("write") {
		return syscall.EIO
	}
	l, err := f.look(pr.Cwd, p, pr.Uid, true)
	if err != nil {
		return err
	}
	if l.n == nil {
		return syscall.ENOENT
	}
	if !may(l.n, pr.Uid, 2) {
		return syscall.EACCES
	}
	f.trunc(l.n, n, l.abs)
	return nil
}
func (h *Handle) Closed() bool { return h.closed }
func Rename(a, b string) error {
	f, p := fsys("rename")
	if S.Fault("rename") {
		return [...]error{syscall.EIO, syscall.EACCES, syscall.ENOSPC}[S.Choose(StFault, 3)]
	}
	x, err := f.look(p.Cwd, a, p.Uid, false)
	if err != nil {
		return err
	}
	if x.n == nil {
		return syscall.ENOENT
	}
	y, err := f.look(p.Cwd, b, p.Uid, false)
	if err != nil {
		return err
	}
	if x.dir == nil || y.dir == nil {
		return syscall.EBUSY
	}
	if x.dir.Dev != y.dir.Dev {
		f.s.fault("exdev")
		return syscall.EXDEV
	}
	if !may(x.dir, p.Uid, 2) || !may(y.dir, p.Uid, 2) {
		return syscall.EACCES
	}
	if x.dir.Mode&0o1000 != 0 && p.Uid != 0 && x.n.Uid != p.Uid || y.dir.Mode&0o1000 != 0 && y.n != nil && p.Uid != 0 && y.n.Uid != p.Uid {
		return syscall.EPERM
	}
	if y.n == x.n {
		return nil
	}
	if y.n != nil {
		if y.n.Kind == KDir && x.n.Kind != KDir {
			return syscall.EISDIR
		}
		if y.n.Kind != KDir && x.n.Kind == KDir {
			return syscall.ENOTDIR
		}
		if y.n.Kind == KDir && len(y.n.Ent) > 0 {
			return syscall.ENOTEMPTY
		}
	}
	if x.n.Kind == KDir && strings.HasPrefix(y.abs, x.abs+"/") {
		return syscall.EINVAL
	}
	old := y.n
	delete(x.dir.Ent, x.name)
	y.dir.Ent[y.name] = x.n
	if old != nil {
		old.Nlink--
		f.give(old.Dev, int64(len(old.Data)))
	}
	f.noteMove(x, y, old)
	f.mutated("rename "+x.abs, y.abs, true)
	return nil
}
func Unlink(p string, dir bool) error { // dir: rmdir
	f, pr := fsys("unlink")
	if S.Fault("unlink") {
		return [...]error{syscall.EIO, syscall.EACCES, syscall.EBUSY}[S.Choose(StFault, 3)]
	}
	l, err := f.look(pr.Cwd, p, pr.Uid, false)
	if err != nil {
		return err
	}
	if l.n == nil {
		return syscall.ENOENT
	}
	if l.dir == nil {
		return syscall.EBUSY
	}
	if dir != (l.n.Kind == KDir) {
		if dir {
			return syscall.ENOTDIR
		}
		return syscall.EISDIR
	}
	if !may(l.dir, pr.Uid, 2) {
		return syscall.EACCES
	}
	if l.dir.Mode&0o1000 != 0 && pr.Uid != 0 && l.n.Uid != pr.Uid {
		return syscall.EPERM
	}
	if dir && len(l.n.Ent) > 0 {
		return syscall.ENOTEMPTY
	}
	delete(l.dir.Ent, l.name)
	l.n.Nlink--
	if l.n.Nlink == 0 {
		f.give(l.n.Dev, int64(len(l.n.Data)))
	}
	f.noteDelete(l)
	f.mutated("unlink", l.abs, true)
	return nil
}
func Mkdir(p string, mode uint32) error {
	f, pr := fsys("mkdir")
	if S.Fault("mkdir") {
		return [...]error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[S.Choose(StFault, 3)]
	}
	l, err := f.look(pr.Cwd, strings.TrimRight(p, "/"), pr.Uid, false)
	if err != nil {
		return err
	}
	if l.n != nil {
		return syscall.EEXIST
	}
	if !may(l.dir, pr.Uid, 2) {
		return syscall.EACCES
	}
	if f.full(l.dir.Dev) {
		return syscall.ENOSPC
	}
	n := f.inode(KDir, mode&0o7777&^pr.Umask, pr.Uid)
	n.Dev = l.dir.Dev
	l.dir.Ent[l.name] = n
	f.note(l.dir, l.name, IN_CREATE|IN_ISDIR, n)
	f.mutated("mkdir", l.abs, true)
	return nil
}
func SymlinkAt(target, p string) error {
	f, pr := fsys("symlink")
	l, err := f.look(pr.Cwd, p, pr.Uid, false)
	if err != nil {
		return err
	}
	if l.n != nil {
		return syscall.EEXIST
	}
	if !may(l.dir, pr.Uid, 2) {
		return syscall.EACCES
	}
	n := f.inode(KLink, 0o777, pr.Uid)
	n.Target = target
	l.dir.Ent[l.name] = n
	f.note(l.dir, l.name, IN_CREATE, n)
	f.mutated("symlink", l.abs, true)
	return nil
}
func Link(a, b string) error {
	f, pr := fsys("link")
	if S.Fault("rename") {
		return syscall.EIO
	}
	x, err := f.look(pr.Cwd, a, pr.Uid, false)
	if err != nil {
		return err
	}
	if x.n == nil {
		return syscall.ENOENT
	}
	y, err := f.look(pr.Cwd, b, pr.Uid, false)
	if err != nil {
		return err
	}
	if y.n != nil {
		return syscall.EEXIST
	}
	if x.n.Kind == KDir {
		return syscall.EPERM
	}
	if x.n.Dev != y.dir.Dev {
		return syscall.EXDEV
	}
	if !may(y.dir, pr.Uid, 2) {
		return syscall.EACCES
	}
	x.n.Nlink++
	y.dir.Ent[y.name] = x.n
	f.note(y.dir, y.name, IN_CREATE, x.n)
	f.mutated("link", y.abs, true)
	return nil
}
func Readlink(p string) (string, error) {
	f, pr := fsys("readlink")
	l, err := f.look(pr.Cwd, p, pr.Uid, false)
	if err != nil {
		return "", err
	}
	if l.n == nil {
		return "", syscall.ENOENT
	}
	if l.n.Kind != KLink {
		return "", syscall.EINVAL
	}
	return l.n.Target, nil
}
func Chmod(p string, mode uint32) error {
	f, pr := fsys("chmod")
	if S.Fault("chmod") {
		return [...]error{syscall.EPERM, syscall.EIO}[S.Choose(StFault, 2)]
	}
	l, err := f.look(pr.Cwd, p, pr.Uid, true)
	if err != nil {
		return err
	}
	if l.n == nil {
		return syscall.ENOENT
	}
	if pr.Uid != 0 && pr.Uid != l.n.Uid {
		return syscall.EPERM
	}
	l.n.Mode = mode & 0o7777
	f.noteInode(l.n, IN_ATTRIB)
	f.mutated("chmod", l.abs, true)
	return nil
}
func (h *Handle) Chmod(mode uint32) error {
	f, pr := fsys("fchmod")
	if S.Fault("chmod") {
		return syscall.EPERM
	}
	if pr.Uid != 0 && pr.Uid != h.N.Uid {
		return syscall.EPERM
	}
	h.N.Mode = mode & 0o7777
	f.noteInode(h.N, IN_ATTRIB)
	f.mutated("chmod", h.Path, true)
	return nil
}

// Info implements fs.FileInfo.
type Info struct {
	name string
	n    *Inode
	size int64
	mode fs.FileMode
	mt   int64
}

func (i Info) Name() string { return i.name }
func (i Info) Size() int64  { return i.size }
func (i Info) Mode() fs.FileMode {
	return i.mode
}
func (i Info) ModTime() time.Time { return time.Unix(0, S.Epoch+i.mt).UTC() }
func (i Info) IsDir() bool        { return i.mode.IsDir() }
func (i Info) Sys() any           { return nil }
func (i Info) Inode() *Inode      { return i.n }

func (n *Inode) FileMode() fs.FileMode {
	m := fs.FileMode(n.Mode & 0o777)
	switch n.Kind {
	case KDir:
		m |= fs.ModeDir
	case KLink:
		m |= fs.ModeSymlink
	case KDev:
		m |= fs.ModeDevice | fs.ModeCharDevice
	}
	if n.Mode&0o1000 != 0 {
		m |= fs.ModeSticky
	}
	return m
}
func info(name string, n *Inode) Info {
	sz := int64(len(n.Data))
	if n.Kind == KDir {
		sz = 4096
	} else if n.Kind == KLink {
		sz = int64(len(n.Target))
	}
	return Info{name, n, sz, n.FileMode(), n.Mtime}
}
func base(p string) string {
	p = strings.TrimRight(p, "/")
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		p = p[i+1:]
	}
	if p == "" {
		return "/"
	}
	return p
}
func StatPath(p string, follow bool) (Info, error) {
	f, pr := fsys("stat")
	if S.Fault("stat") {
		return Info{}, [...]error{syscall.EIO, syscall.EACCES}[S.Choose(StFault, 2)]
	}
	l, err := f.look(pr.Cwd, p, pr.Uid, follow)
	if err != nil {
		return Info{}, err
	}
	if l.n == nil {
		return Info{}, syscall.ENOENT
	}
	return info(base(p), l.n), nil
}
func (h *Handle) Stat() (Info, error) {
	fsys("fstat")
	if S.Fault("stat") {
		return Info{}, syscall.EIO
	}
	if h.closed {
		return Info{}, syscall.EBADF
	}
	return info(base(h.Path), h.N), nil
}

// DirNames returns up to max further names (max<=0: all).
func (h *Handle) DirNames(max int) ([]string, error) {
	fsys("getdents")
	if h.N.Kind != KDir {
		return nil, syscall.ENOTDIR
	}
	if h.list == nil {
		h.list = append([]string{}, h.N.names()...)
		if r := Cfg(4); r > 0 && len(h.list) > 1 { // directory order is arbitrary
			k := r * len(h.list) / 4
			h.list = append(append([]string{}, h.list[k:]...), h.list[:k]...)
		}
	}
	if S.Fault("readdir") {
		k := h.lpos + S.Choose(StFault, len(h.list)-h.lpos+1)
		r := h.list[h.lpos:k]
		h.lpos = k
		return r, syscall.EIO
	}
	r := h.list[h.lpos:]
	if max > 0 && len(r) > max {
		r = r[:max]
	}
	h.lpos += len(r)
	return r, nil
}
func (h *Handle) Child(name string) (Info, bool) {
	n := h.N.Ent[name]
	if n == nil {
		return Info{}, false
	}
	return info(name, n), true
}
func Chdir(p string) error {
	f, pr := fsys("chdir")
	l, err := f.look(pr.Cwd, p, pr.Uid, true)
	if err != nil {
		return err
	}
	if l.n == nil {
		return syscall.ENOENT
	}
	if l.n.Kind != KDir {
		return syscall.ENOTDIR
	}
	pr.Cwd = l.abs
	return nil
}

// Resolve: absolute path without links (for the harness).
func (f *FS) Resolve(p string) string {
	l, err := f.look("/", p, 0, true)
	if err != nil {
		return ""
	}
	return l.abs
}

// LookExec resolves what exec would run for the process.
func LookExec(p string) (*Inode, string, error) {
	f, pr := fsys("execve")
	if S.Fault("exec") {
		return nil, "", [...]error{syscall.EAGAIN, syscall.ENOMEM, syscall.EACCES}[S.Choose(StFault, 3)]
	}
	l, err := f.look(pr.Cwd, p, pr.Uid, true)
	if err != nil {
		return nil, "", err
	}
	if l.n == nil {
		return nil, "", syscall.ENOENT
	}
	if l.n.Kind != KFile || !may(l.n, pr.Uid, 1) || l.n.Mode&0o111 == 0 {
		return nil, "", syscall.EACCES
	}
	return l.n, l.abs, nil
}
