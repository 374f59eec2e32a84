package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"runtime"
	"strings"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

type release struct {
	tag    string
	pre    bool
	bin    []byte // what installing it must put in place
	arch   []byte
	url    string
	assets bool
}

func (r *release) json() map[string]any {
	m := map[string]any{"tag_name": r.tag, "body": "### Features\n* thing ([abc](https://x))\n", "prerelease": r.pre}
	if r.assets {
		m["assets"] = []any{map[string]any{"name": "gray-" + runtime.GOOS + "-" + runtime.GOARCH + ".tar.gz", "browser_download_url": r.url}}
	}
	return m
}

const api = "https://api.github.com/repos/grayscale-lang/grayscale/releases"
const dl = "https://github.com/grayscale-lang/grayscale/releases/download/"

func mkRelease(tag string, pre bool, size int) *release {
	r := &release{tag: tag, pre: pre, assets: true}
	r.bin = binary(tag, size)
	name := "gray"
	es := []ent{}
	switch core.Cfg(5) {
	case 1:
		es = append(es, ent{name: "README.md", data: []byte("hello")}, ent{name: "grayc", data: pattern(3, 500)})
	case 2:
		name = "gray-linux-amd64/gray"
		es = append(es, ent{name: "gray-linux-amd64/", typ: '5'}, ent{name: "../../etc/passwd", data: []byte("x")})
	case 3:
		name = "./gray"
		es = append(es, ent{name: "gray", data: []byte("decoy, replaced by the later entry")})
	case 4:
		es = append(es, ent{name: "libgrayrt.a", data: pattern(9, 3000)})
	}
	es = append(es, ent{name: name, data: r.bin})
	if core.Cfg(3) == 1 {
		es = append(es, ent{name: "LICENSE", data: pattern(1, 700)})
	}
	r.arch = tgz(es...)
	r.url = dl + tag + "/gray-" + runtime.GOOS + "-" + runtime.GOARCH + ".tar.gz"
	return r
}

// serve answers like GitHub: the API, and downloads by way of a redirect to the storage host.
func serve(rels []*release, bad func(url string) bool) func(*core.NetReq) *core.NetResp {
	redirect := core.Cfg(2) == 1
	return func(q *core.NetReq) *core.NetResp {
		var r *core.NetResp
		switch {
		case q.URL == api || strings.HasPrefix(q.URL, api+"?"):
			l := []any{}
			for _, x := range rels {
				l = append(l, x.json())
			}
			b, _ := json.Marshal(l)
			r = ok200(b)
		case q.URL == api+"/latest":
			for _, x := range rels {
				if !x.pre {
					b, _ := json.Marshal(x.json())
					r = ok200(b)
					break
				}
			}
		default:
			for _, x := range rels {
				if q.URL == x.url {
					if redirect {
						r = &core.NetResp{Status: 302, Header: map[string]string{"Location": "https://objects.githubusercontent.com/" + x.tag}, CutAt: -1, StallAt: -1, Delay: 20 * ms}
					} else {
						r = ok200(x.arch)
					}
				} else if q.URL == "https://objects.githubusercontent.com/"+x.tag {
					r = ok200(x.arch)
				}
			}
		}
		if r == nil {
			r = ok200([]byte("Not Found"))
			r.Status = 404
			return r
		}
		if bad != nil && bad(q.URL) {
			if d := disturb(r); d != "" {
				core.NoteFault("net " + d)
			}
		}
		return r
	}
}

// install: a placed executable, possibly behind links, owned by root or by the user.
func (w *world) place(v string, size int) {
	f := core.S.FS
	w.oldV, w.old = v, binary(v, size)
	dir, uid := "/usr/local/bin", 0
	switch core.Cfg(4) {
	case 1:
		dir, uid = w.home+"/bin", w.uid
	case 2:
		dir = "/opt/gray-" + v
	case 3:
		dir, uid = w.home+"/.local/share/gray", w.uid
	}
	f.MkdirAll(dir, 0o755, uid)
	f.Get(dir).Uid = uid
	w.exe = dir + "/gray"
	f.Put(w.exe, w.old, 0o755, uid)
	w.bin = w.exe
	if core.Cfg(3) == 1 {
		w.bin = "/usr/local/bin/gray"
		if w.exe != w.bin {
			f.MkdirAll("/usr/local/bin", 0o755, 0)
			if core.Cfg(2) == 1 {
				f.Symlink(w.exe, "/usr/local/bin/gray-current")
				f.Symlink("gray-current", w.bin)
			} else {
				f.Symlink(w.exe, w.bin)
			}
		}
	}
	if core.Cfg(3) == 1 {
		w.uid = 0
		w.home = "/root"
	}
}

func init() {
	scen("C27", "install", 3, func() func() { return c27(1) })
	scen("C27", "two-installs", 1, func() func() { return c27(2) })
}

func c27(n int) func() {
	s := core.S
	w := newWorld()
	core.ChooseSched()
	w.place("v1.2.3", 2000+core.Cfg(9000))
	if core.Cfg(2) == 1 {
		s.FS.Mount("/tmp", 7)
	}
	rels := []*release{mkRelease("v2.0.0", false, 3000+core.Cfg(40000)), mkRelease("v1.9.0", false, 1000+core.Cfg(9000)), mkRelease("v3.0.0-beta.1", true, 1000+core.Cfg(9000)), mkRelease("v1.0.0", false, 1000+core.Cfg(9000))}
	netFaults, diskFaults, kill, power := false, false, false, false
	switch core.Cfg(7) {
	case 1:
		netFaults = true
	case 2:
		diskFaults = true
		oneFault("open", "read", "short_read", "write", "short_write", "close", "sync", "rename", "unlink", "mkdir", "stat", "chmod", "readdir", "exec")
	case 3:
		kill = true
	case 4:
		power = true
		s.FS.StartPower()
	case 5:
		diskFaults = true
		dev := 0
		if core.Cfg(2) == 1 {
			dev = 7
		}
		s.FS.Free[dev] = int64(core.Cfg(90000))
	case 6:
		netFaults, diskFaults = core.Cfg(2) == 1, true
		rates("open", "write", "short_write", "rename", "unlink", "chmod", "read", "close", "stat", "short_read", "sudo_denied")
		power = core.Cfg(2) == 1
		if power {
			s.FS.StartPower()
		}
	}
	s.Net = serve(rels, func(string) bool { return netFaults && core.NetC(3) != 0 })
	valid := map[string]string{string(w.old): "old"}
	type job struct {
		p    *core.Proc
		want *release
		args []string
	}
	var jobs []*job
	lost := false
	look := func(when string) string {
		d, ok := s.FS.Read(w.bin)
		if !ok {
			core.Fail("command-missing", "%s: %s is missing (link target gone or file removed)", when, w.bin)
			return ""
		}
		v, ok := valid[string(d)]
		if !ok {
			core.Fail("command-torn", "%s: %s holds %d bytes that are neither the old executable (%d) nor a complete new one", when, w.bin, len(d), len(w.old))
			return ""
		}
		if s.FS.Get(w.bin).Mode&0o111 != 0o111 {
			core.Fail("command-not-executable", "%s: %s has mode %o", when, w.bin, s.FS.Get(w.bin).Mode)
		}
		return v
	}
	at := 0
	if power {
		at = 1 + core.Cfg(60)
	}
	s.FS.Mutate = func(what, p string) {
		look("after " + what + " " + p)
		if power && s.FS.Muts >= at && !lost {
			lost = true
			core.At(0, func() {
				w.killAll()
				s.FS.PowerLoss()
				look("after power loss")
			})
		}
	}
	start := func(i int) *job {
		j := &job{}
		switch core.Op(5) {
		case 0:
			j.want, j.args = rels[0], []string{"update"}
		case 1:
			j.want = rels[core.Op(4)]
			j.args = []string{"install", strings.TrimPrefix(j.want.tag, "v")}
		case 2:
			j.want = rels[core.Op(4)]
			j.args = []string{"update", "--confirm", j.want.url}
		case 3:
			j.want, j.args = rels[2], []string{"update", "--pre"}
		case 4:
			j.want = rels[core.Op(4)]
			j.args = []string{"install", j.want.tag}
		}
		valid[string(j.want.bin)] = j.want.tag
		return j
	}
	for i := 0; i < n; i++ {
		jobs = append(jobs, start(i))
	}
	core.Harness("user", func() {
		for i, j := range jobs {
			if i > 0 {
				core.Sleep(int64(core.Op(600)) * ms)
			}
			j.p = w.gray(j.args...)
			j.p.Stdin = []byte("y\n")
			if core.Op(3) == 1 {
				j.p.Stdin, j.p.StdinTTY = []byte("y\nn\n"), true
			}
			if kill {
				j.p.KillAt = 1 + core.Cfg(260)
			}
		}
		for _, j := range jobs {
			j.p.Wait()
		}
		// children of a killed wrapper go on
		for _, p := range append([]*core.Proc(nil), w.procs...) {
			p.Wait()
		}
		if lost {
			core.End()
		}
		v := look("at the end")
		for _, j := range jobs {
			out := string(j.p.Stdout)
			core.Sampled(fmt.Sprintf("%q -> exit %d, installed %s", j.args, j.p.Code, v))
			if j.p.Panic != "" {
				core.Fail("panic", "%q: %s", j.args, j.p.Panic)
			}
			if j.p.Signal != 0 {
				continue
			}
			succ := strings.Contains(out, "Successfully")
			if succ && j.p.Code == 0 {
				core.Probe("installed")
			}
			if n == 1 {
				if j.p.Code == 0 && succ && v != j.want.tag {
					core.Fail("false-success", "%q reported success but %s holds %s", j.args, w.bin, v)
				}
				// whatever it printed: the release list was genuine and the user agreed
				if j.p.Code == 0 && !netFaults && v != j.want.tag {
					core.Fail("false-success", "%q ended with exit 0 but %s holds %s: %q", j.args, w.bin, v, out)
				}
				if j.p.Code != 0 && !succ && v != "old" && !killed(w) {
					core.Fail("failed-but-replaced", "%q failed (exit %d, %q) but %s holds %s", j.args, j.p.Code, tail(j.p.Stderr), w.bin, v)
				}
				if j.p.Code == 0 && !succ && v != "old" {
					core.Fail("silent-install", "%q did not report an installation but %s holds %s: %q", j.args, w.bin, v, out)
				}
				if !netFaults && !diskFaults && !kill && !power && !succ {
					core.Fail("update-fails", "without any fault %q ended with exit %d: %q %q", j.args, j.p.Code, out, j.p.Stderr)
				}
			} else if j.p.Code == 0 && succ && v == "old" {
				core.Fail("false-success", "%q reported success but the old executable is in place", j.args)
			}
		}
		core.End()
	})
	return nil
}
func killed(w *world) bool {
	for _, p := range w.procs {
		if p.Signal != 0 {
			return true
		}
	}
	return false
}
func tail(b []byte) []byte {
	if len(b) > 300 {
		b = b[len(b)-300:]
	}
	return bytes.TrimSpace(b)
}
