package main

import (
	"bytes"
	"fmt"
	"path"
	"strings"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

// bundle: the compiler, library and sources inside a version of the command.
func bundle(ver string, kind int) map[string][]byte {
	seed := 1
	if ver != "v1.0.0" {
		seed = 2
	}
	b := map[string][]byte{}
	base := 1
	switch kind {
	case 0: // everything differs, the sizes too
		base = seed
	case 1: // everything differs, same sizes
		base = seed
	case 2: // only the sources differ
	}
	add := 0
	if kind == 0 {
		add = 100 * seed
	}
	b["runtime/grayc"] = append([]byte("GRAYC\n"), pattern(base, 6000+add)...)
	b["runtime/libgrayrt.a"] = pattern(base+10, 9000+add)
	for i, n := range []string{"runtime/runtime.h", "runtime/runtime.c", "stdlib/fmt.h", "stdlib/io.h"} {
		b["runtime/src/"+n] = append([]byte("/* "+n+" */\n"), pattern(seed*100+i, 700+300*i+add)...)
	}
	b["runtime/src/stdlib/empty.h"] = []byte{}
	return b
}

func init() {
	scen("C29", "extract", 3, func() func() { return c29(0) })
	scen("C29", "power", 1, func() func() { return c29(1) })
}

func c29(mode int) func() {
	s := core.S
	f := s.FS
	w := newWorld()
	core.ChooseSched()
	w.place("v1.0.0", 800)
	kind := core.Cfg(3)
	sets := map[string]map[string][]byte{"v1.0.0": bundle("v1.0.0", kind), "v2.0.0": bundle("v2.0.0", kind)}
	// a compiler of unknown origin lies around
	stray := core.Cfg(3) == 1
	if stray {
		d := []string{"/usr/local/bin/grayc", "/usr/bin/grayc", path.Dir(w.exe) + "/grayc"}[core.Cfg(3)]
		f.Put(d, []byte("GRAYC\nstray"), 0o755, 0)
	}
	f.Put("/work/x.gray", []byte("do main() {}\n"), 0o644, w.uid)
	ran := 0
	w.kids = func(p *core.Proc, content []byte) func() int {
		if !bytes.HasPrefix(content, []byte("GRAYC")) {
			return nil
		}
		return func() int {
			set := sets[p.Parent.Version]
			look := func(when string) {
				if !bytes.Equal(content, set["runtime/grayc"]) {
					core.Fail("other-compiler", "gray %s runs a compiler that is not the bundled one (%s, %d bytes, bundled %d)", p.Parent.Version, p.Exe, len(content), len(set["runtime/grayc"]))
				}
				dir := path.Dir(p.Exe)
				for n, want := range set {
					if n == "runtime/grayc" {
						continue
					}
					fn := dir + "/" + strings.TrimPrefix(n, "runtime/")
					got, ok := f.Read(fn)
					if !ok {
						core.Fail("missing", "%s: %s is missing while the compiler runs", when, fn)
					} else if !bytes.Equal(got, want) {
						core.Fail("not-the-bundled", "%s: %s (%d bytes) is not the bundled file (%d bytes) while the compiler runs", when, fn, len(got), len(want))
					}
				}
			}
			look("at the start")
			for i := 0; i < 3; i++ {
				core.Sleep(int64(1+core.Op(200)) * ms)
				look("during the run")
			}
			ran++
			p.Emit(1, []byte("ran\n"))
			return 5
		}
	}
	faults, kill := false, false
	switch core.Cfg(6) {
	case 1:
		faults = true
		oneFault("open", "read", "short_read", "write", "short_write", "close", "sync", "rename", "unlink", "mkdir", "stat", "chmod", "readdir", "exec")
	case 2:
		faults = true
		f.Free[0] = int64(core.Cfg(40000))
	case 3, 4:
		kill = true
	case 5:
		faults = true
		rates("open", "write", "short_write", "rename", "mkdir", "chmod", "read", "close", "stat")
	}
	power := mode == 1
	at := 1 + core.Cfg(90)
	lost := false
	muts := 0
	if power {
		f.StartPower()
		f.Mutate = func(string, string) {
			muts++
			if muts == at && !lost {
				lost = true
				core.At(0, func() {
					w.killAll()
					f.PowerLoss()
				})
			}
		}
	}
	start := func() *core.Proc {
		v := "v1.0.0"
		if core.Op(3) == 1 {
			v = "v2.0.0"
		}
		w.embed = sets[v]
		p := w.grayAs(v, [][]string{{"x.gray"}, {"check", "x.gray"}, {"build", "x.gray"}}[core.Op(3)]...)
		if kill {
			p.KillAt = 1 + core.Cfg(150)
		}
		return p
	}
	check := func(p *core.Proc, clean bool) {
		if p.Signal != 0 {
			return
		}
		if p.Panic != "" {
			core.Fail("panic", "%s", p.Panic)
		}
		core.Sampled(fmt.Sprintf("%s %q: exit %d", p.Version, p.Args[1:], p.Code))
		if p.Code == 0 {
			core.Fail("false-success", "%q succeeded though the compiler did not", p.Args)
		}
		if p.Code == 5 {
			core.Probe("compiler ran")
		}
		if p.Code != 5 && clean {
			core.Fail("does-not-run", "%q ended with exit %d without a fault: %q", p.Args, p.Code, p.Stderr)
		}
		if p.Code != 5 && len(p.Stderr) == 0 {
			core.Fail("silent", "%q ended with exit %d and no message", p.Args, p.Code)
		}
	}
	core.Harness("user", func() {
		f.MkdirAll(w.home+"/.gray", 0o755, w.uid)
		f.Put(w.home+"/.gray/update_check", []byte(`{"last_check":"`+nowDate()+`","latest_version":"v0.0.1"}`), 0o644, w.uid)
		n := 1 + core.Op(4)
		var ps []*core.Proc
		for i := 0; i < n; i++ {
			if i > 0 && core.Op(2) == 1 {
				core.Sleep(int64(core.Op(300)) * ms / 10)
			}
			if lost {
				break
			}
			ps = append(ps, start())
		}
		for _, p := range ps {
			p.Wait()
		}
		if !lost {
			for _, p := range ps {
				check(p, !faults && !kill && !power)
			}
		}
		for _, p := range append([]*core.Proc(nil), w.procs...) {
			p.Wait()
		}
		// the trouble is over: from here on everything works
		f.Free = map[int]int64{}
		for k := range s.Rate {
			s.Rate[k] = 0
		}
		for k := range s.Nth {
			s.Nth[k] = 0
		}
		kill = false
		if power && !lost {
			core.End()
		}
		for i := 0; i < 1+core.Op(2); i++ {
			if !power && core.Cfg(3) == 2 {
				damage(w)
			}
			p := start()
			p.Wait()
			check(p, true)
		}
		core.End()
	})
	return nil
}

// damage: the disk, or somebody, changed an extracted file while no command was running.
func damage(w *world) {
	f := core.S.FS
	var files []string
	for _, fn := range f.List(w.home + "/.gray/runtime") {
		if n := f.Get(fn); n != nil && n.Kind == core.KFile {
			files = append(files, fn)
		}
	}
	if len(files) == 0 {
		return
	}
	fn := files[core.Op(len(files))]
	b, ok := f.Read(fn)
	if !ok || len(b) == 0 {
		return
	}
	b = append([]byte(nil), b...)
	mode := f.Get(fn).Mode
	switch core.Op(4) {
	case 0, 1:
		b[core.Op(len(b))] ^= 1 << core.Op(8)
	case 2:
		b = b[:core.Op(len(b))]
	case 3:
		mode &^= 0o111
	}
	f.Put(fn, b, mode, w.uid)
	f.Get(fn).Mode = mode
	core.Hit("damaged")
}

func nowDate() string { return today() }
