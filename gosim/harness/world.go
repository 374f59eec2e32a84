package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"fmt"
	"strings"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

// world: a machine with a user, a temporary directory and an (optional) separate disk for it.
type world struct {
	bin   string // path the user runs
	exe   string // the file it resolves to
	home  string
	uid   int
	oldV  string
	old   []byte
	embed map[string][]byte
	procs []*core.Proc
	kids  func(p *core.Proc, content []byte) func() int
}

func pattern(seed, n int) []byte {
	b := make([]byte, n)
	x := uint64(seed)*2654435761 + 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 24)
	}
	return b
}

// binary: the content of a gray executable of a version.
func binary(v string, n int) []byte {
	return append([]byte("GRAYBIN "+v+"\n"), pattern(len(v)+n, n)...)
}
func binVersion(b []byte) (string, bool) {
	if !bytes.HasPrefix(b, []byte("GRAYBIN ")) {
		return "", false
	}
	v, _, ok := strings.Cut(string(b[8:min(len(b), 200)]), "\n")
	return v, ok
}
func newWorld() *world {
	w := &world{home: "/home/u", uid: 1000}
	f := core.S.FS
	f.MkdirAll("/usr/bin", 0o755, 0)
	f.MkdirAll("/root", 0o700, 0)
	f.MkdirAll(w.home, 0o755, 1000)
	f.Get(w.home).Uid = 1000
	f.MkdirAll("/tmp", 0o1777, 0).Mode = 0o1777
	f.MkdirAll("/work", 0o755, 1000)
	f.Get("/work").Uid = 1000
	f.Put("/usr/bin/sudo", []byte("SUDO"), 0o755, 0)
	core.S.Child = w.child
	return w
}
func (w *world) child(p *core.Proc, content []byte) func() int {
	if w.kids != nil {
		if f := w.kids(p, content); f != nil {
			return f
		}
	}
	if string(content) == "SUDO" {
		return func() int { return w.sudo(p) }
	}
	if v, ok := binVersion(content); ok {
		return w.image(p, v)
	}
	return nil
}

// image: the program run by a process of the command-line tool.
func (w *world) image(p *core.Proc, v string) func() int {
	p.Version, p.Embed = v, w.embed
	return func() int {
		p.Slot = core.TakeSlot()
		if p.Slot < 0 {
			core.Fail("runaway-processes", "the command started itself again and again (%d copies): %q", len(slotRun), p.Args)
			return 1
		}
		slotRun[p.Slot]()
		return 0
	}
}
func (w *world) sudo(p *core.Proc) int {
	if core.S.Fault("sudo_denied") {
		p.Emit(2, []byte("sudo: a password is required\n"))
		return 1
	}
	if len(p.Args) < 2 {
		return 1
	}
	name := p.Args[1]
	if !strings.Contains(name, "/") {
		for _, d := range strings.Split(p.Env["PATH"], ":") {
			if core.S.FS.Get(d+"/"+name) != nil {
				name = d + "/" + name
				break
			}
		}
	}
	p.Uid = 0
	n, abs, err := core.LookExec(name)
	if err != nil {
		p.Emit(2, []byte("sudo: "+name+": command not found\n"))
		return 1
	}
	c := core.NewProc("gray", append([]string(nil), p.Args[1:]...))
	for k, v := range p.Env {
		c.Env[k] = v
	}
	c.Cwd, c.Uid, c.Exe, c.Parent = p.Cwd, 0, abs, p
	c.Stdin, c.StdinTTY = p.Stdin[p.StdinPos:], p.StdinTTY
	c.SetOut(func(b []byte) error { p.Emit(1, b); return nil }, func(b []byte) error { p.Emit(2, b); return nil })
	body := core.S.Child(c, n.Data)
	if body == nil {
		c.Abandon()
		return 126
	}
	w.procs = append(w.procs, c)
	c.Start(func() { core.Exit(body()) })
	c.Wait()
	return c.Code
}

// gray starts the command-line tool as the user would.
func (w *world) gray(args ...string) *core.Proc {
	n := core.S.FS.Get(w.bin)
	v, ok := "", false
	if n != nil {
		v, ok = binVersion(n.Data)
	}
	if !ok {
		panic("the installed command does not run: " + w.bin)
	}
	p := core.NewProc("gray", append([]string{w.bin}, args...))
	p.Env["HOME"], p.Env["PATH"] = w.home, "/usr/local/bin:/usr/bin"
	p.Cwd, p.Uid, p.Exe = "/work", w.uid, core.S.FS.Resolve(w.bin)
	w.procs = append(w.procs, p)
	body := w.image(p, v)
	p.Start(func() { core.Exit(body()) })
	return p
}
func (w *world) killAll() {
	for _, p := range w.procs {
		p.Kill(9)
	}
	for _, p := range append([]*core.Proc(nil), core.S.Procs...) {
		if p.Parent != nil {
			p.Kill(9)
		}
	}
}

type ent struct {
	name string
	data []byte
	typ  byte
	link string
}

func tgz(es ...ent) []byte {
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	t := tar.NewWriter(z)
	for _, e := range es {
		h := &tar.Header{Name: e.name, Mode: 0o644, Size: int64(len(e.data)), Typeflag: tar.TypeReg}
		if e.typ != 0 {
			h.Typeflag, h.Linkname, h.Size = e.typ, e.link, 0
		}
		if err := t.WriteHeader(h); err != nil {
			panic(err)
		}
		t.Write(e.data)
	}
	t.Close()
	z.Close()
	return b.Bytes()
}
func quote(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%q... (%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%q", b)
}
func ok200(body []byte) *core.NetResp {
	return &core.NetResp{Status: 200, Body: body, Length: int64(len(body)), CutAt: -1, StallAt: -1, Delay: int64(1+core.NetC(200)) * ms}
}

// disturb makes a well-behaved reply misbehave.
func disturb(r *core.NetResp) string {
	switch core.NetC(12) {
	case 1:
		r.DialErr = "connection refused"
		return "refused"
	case 2:
		r.DialErr = "no such host"
		return "dns"
	case 3:
		r.Delay = -1
		return "silent"
	case 4:
		r.Delay = int64(core.NetC(20000)) * ms
		return "slow headers"
	case 5:
		r.Status = []int{404, 403, 429, 500, 502, 503, 301, 204}[core.NetC(8)]
		return "status"
	case 6:
		r.CutAt = core.NetC(len(r.Body) + 1)
		return "cut"
	case 7:
		r.CutAt, r.Clean, r.Length = core.NetC(len(r.Body)+1), true, -1
		return "clean cut"
	case 8:
		r.StallAt = core.NetC(len(r.Body) + 1)
		return "stall"
	case 9:
		r.Length = -1
		r.Chunk, r.ChunkDelay = 1+core.NetC(4096), int64(core.NetC(300))*ms
		return "trickle"
	case 10:
		r.Body = []byte([]string{"", "<html>captive portal</html>", "{", "[]", "null", "{}", "[{}]", "[null]", "{\"tag_name\":5}", "[{\"tag_name\":\"v9.9.9\",\"assets\":null}]"}[core.NetC(10)])
		r.Length = int64(len(r.Body))
		return "other body"
	case 11:
		r.Chunk, r.ChunkDelay = 1+core.NetC(16384), int64(core.NetC(20))*ms
		return "chunks"
	}
	return ""
}
func rates(kinds ...string) {
	s := core.S
	for _, k := range kinds {
		switch core.Cfg(6) {
		case 1:
			s.Rate[k] = 0x400
		case 2:
			s.Rate[k] = 0x2000
		case 3:
			s.Nth[k] = uint64(1 + core.Cfg(12))
		}
	}
}

// oneFault arms exactly one fault kind, at one point or at a rate.
func oneFault(kinds ...string) {
	s := core.S
	k := kinds[core.Cfg(len(kinds))]
	switch core.Cfg(3) {
	case 0:
		s.Nth[k] = uint64(1 + core.Cfg(8))
	case 1:
		s.Nth[k] = uint64(1 + core.Cfg(60))
	case 2:
		s.Rate[k] = 0x1000
	}
}
