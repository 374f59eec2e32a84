package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

func init() {
	scen("C30", "file", 3, func() func() { return c30(false) })
	scen("C30", "directory", 2, func() func() { return c30(true) })
}

type wrun struct{ start, end int64 }

func c30(dirMode bool) func() {
	s := core.S
	f := s.FS
	w := newWorld()
	core.ChooseSched()
	w.place("dev", 800)
	w.uid, w.home = 1000, "/home/u"
	f.Put("/opt/grayc", []byte("GRAYC"), 0o755, 0)
	root := "/work/p"
	// The directories of the program may be links. The system, and with it the compiler, follows a link before "..".
	rootReal, modReal := root, root+"/mod"
	layout := core.Cfg(6)
	if layout == 1 || layout == 3 {
		rootReal, modReal = "/work/deep/p", "/work/deep/p/mod"
	}
	if !dirMode && (layout == 2 || layout == 3) {
		modReal = "/work/store/mod"
	}
	up := path.Dir(rootReal) + "/up.gray"      // main.gray imports "../up.gray"
	side := path.Dir(modReal) + "/side/s.gray" // mod/b.gray imports "../side/s.gray"
	for _, d := range []string{rootReal, rootReal + "/lib", rootReal + "/empty", rootReal + "/side", modReal, path.Dir(side), "/work/real", "/work/side"} {
		f.MkdirAll(d, 0o755, 1000)
		f.Get(d).Uid = 1000
	}
	if rootReal != root {
		f.Symlink([]string{"deep/p", rootReal}[core.Op(2)], root)
	}
	if modReal != rootReal+"/mod" {
		f.Symlink(modReal, rootReal+"/mod")
	}
	real := "/work/real/main.gray"
	mainText := func(i int, more string) []byte {
		return []byte(fmt.Sprintf("// %d\nimport @std, @math\nimport \"./util.gray\"\nimport h \"./lib/help\", \"./mod\", \"../up\"\n%sdo main() {\n}\n", i, more))
	}
	main := root + "/main.gray"
	link := core.Cfg(5) == 1
	if link {
		f.Put(real, mainText(0, ""), 0o644, 1000)
		f.Symlink(real, main)
	} else {
		f.Put(main, mainText(0, ""), 0o644, 1000)
	}
	// watched: from the start; others: not part of the program
	watched := []string{main, root + "/util.gray", root + "/lib/help.gray", root + "/mod/a.gray", root + "/mod/b.gray"}
	for _, n := range watched[1:] {
		f.Put(n, []byte("do f() {}\n"), 0o644, 1000)
	}
	modB := "import \"../side/s\"\ndo f() {}\n"
	f.Put(root+"/mod/b.gray", []byte(modB), 0o644, 1000)
	f.Put(side, []byte("do s() {}\n"), 0o644, 1000)
	f.Put(up, []byte("do u() {}\n"), 0o644, 1000)
	f.Put(root+"/lib/help.gray", []byte("import \"./lib/deep.gray\"\ndo f() {}\n"), 0o644, 1000)
	f.Put(root+"/lib/deep.gray", []byte("do g() {}\n"), 0o644, 1000)
	f.Put(root+"/late.gray", []byte("do l() {}\n"), 0o644, 1000)
	watched = append(watched, root+"/lib/deep.gray")
	elsewhere := []string{"/work/up.gray", root + "/side/s.gray"} // what a wrong idea of ".." names
	if rootReal != root {
		elsewhere = append(elsewhere, "/work/side/s.gray")
	}
	others := []string{root + "/notes.txt", root + "/lib/.deep.gray.swp", root + "/main.gray~", root + "/x.c"}
	if dirMode {
		watched = append(watched, root+"/late.gray", root+"/side/s.gray")
		f.Put(root+"/side/s.gray", []byte("do s() {}\n"), 0o644, 1000)
	} else {
		watched = append(watched, up, side)
		for _, n := range elsewhere {
			if a := f.Resolve(n); a == "" || a != up && a != side {
				others = append(others, n)
			}
		}
		others = append(others, root+"/late.gray", root+"/other.gray", root+"/lib/unused.gray")
	}
	if link {
		others[2] = root + "/notes3.txt" // main.gray~ may be the link itself, moved aside
		watched[0] = main
		if core.Cfg(2) == 1 {
			watched[0] = real
		}
	}
	var runs []*wrun
	cur := 0
	slow := core.Cfg(4)
	w.kids = func(p *core.Proc, content []byte) func() int {
		if string(content) != "GRAYC" {
			return nil
		}
		return func() int {
			r := &wrun{core.Now(), -1}
			runs = append(runs, r)
			cur++
			if cur > 1 {
				core.Fail("overlap", "a run started at %.3f s while another was going on", sc(r.start))
			}
			if len(p.Args) < 3 || !strings.HasSuffix(p.Args[2], "main.gray") {
				core.Fail("runs-other", "runs %q", p.Args)
			}
			switch slow {
			case 0:
				core.Sleep(int64(core.Op(40)) * ms)
			case 1:
				core.Sleep(int64(core.Op(700)) * ms)
			case 2:
				core.Sleep(int64(core.Op(5000)) * ms)
			case 3:
				core.Sleep(int64(core.Op(3)*2000) * ms)
			}
			p.Emit(1, []byte("hello\n"))
			cur--
			r.end = core.Now()
			return core.Op(3)
		}
	}
	judge, mayRun := true, false // mayRun: runs without a change are possible (events were lost)
	core.WatchLimit = 0
	switch core.Cfg(8) {
	case 1:
		core.WatchLimit = 2 + core.Cfg(20)
		mayRun = true
	case 2:
		s.Rate["watch_read"] = 0x2000
	case 3:
		s.Nth["watch_add"] = uint64(1 + core.Cfg(8))
		judge = false
	case 4:
		s.Nth["exec"] = uint64(1 + core.Cfg(4))
	case 5:
		s.Nth["fork"] = uint64(1 + core.Cfg(4))
	case 6:
		s.Nth["watch_init"] = 1
	}
	type edit struct {
		t   int64
		rel bool
	}
	var edits []edit
	seq := 0
	content := func(n string) []byte {
		seq++
		if strings.HasSuffix(n, "main.gray") {
			return mainText(seq, "")
		}
		if n == root+"/lib/help.gray" {
			return []byte(fmt.Sprintf("// %d\nimport \"./lib/deep.gray\"\n", seq))
		}
		if n == root+"/mod/b.gray" {
			return []byte(fmt.Sprintf("// %d\n%s", seq, modB))
		}
		return []byte(fmt.Sprintf("// %d\n", seq))
	}
	note := func(rel bool) { edits = append(edits, edit{core.Now(), rel}) }
	// change: one way an editor saves a file
	var trace []string
	change := func(n string, rel bool) {
		how := core.Op(6)
		trace = append(trace, fmt.Sprintf("%.3f %s %d", sc(core.Now()), strings.TrimPrefix(n, root+"/"), how))
		c := content(n)
		gap := func() {
			if core.Op(3) == 1 {
				core.Sleep(int64(core.Op(60)) * ms)
			}
		}
		switch how {
		case 0, 1: // in place
			core.WTrunc(n)
			note(rel)
			gap()
			core.WAppend(n, c)
		case 2: // another file renamed over it
			core.WAppend(n+".new", c)
			gap()
			core.WRename(n+".new", n)
		case 3: // the old one moved aside
			core.WRename(n, n+"~")
			gap()
			core.WAppend(n, c)
		case 4: // removed and written again
			core.WDelete(n)
			gap()
			core.WAppend(n, c)
		case 5: // in pieces
			core.WTrunc(n)
			note(rel)
			for len(c) > 0 {
				k := 1 + core.Op(len(c))
				core.WAppend(n, c[:k])
				note(rel)
				c = c[k:]
				gap()
			}
			return
		}
		note(rel)
	}
	// a directory of the program is replaced by another one
	replaced := 0
	replace := func() {
		d := root + []string{"/lib", "/mod"}[core.Op(2)]
		replaced++
		trace = append(trace, fmt.Sprintf("%.3f replace %s", sc(core.Now()), d))
		gap := func() {
			if core.Op(3) == 1 {
				core.Sleep(int64(core.Op(300)) * ms)
			}
		}
		var in []string
		for _, n := range watched {
			if strings.HasPrefix(n, d+"/") {
				in = append(in, n)
			}
		}
		fill := func(to string, rel bool) {
			for _, n := range in {
				gap()
				core.WAppend(to+strings.TrimPrefix(n, d), content(n))
				if rel {
					note(true)
				}
			}
		}
		switch core.Op(3) {
		case 0: // another one moved in
			core.WMkdir("/work/new")
			fill("/work/new", false)
			gap()
			core.WRename(d, fmt.Sprintf("/work/old%d", replaced))
			gap()
			core.WRename("/work/new", d)
			note(true)
			return
		case 1: // moved aside and made again
			core.WRename(d, fmt.Sprintf("/work/old%d", replaced))
		case 2: // removed and made again
			for _, n := range in {
				core.WDelete(n)
			}
			core.WDelete(d)
		}
		gap()
		core.WMkdir(d)
		fill(d, true)
	}
	core.Harness("user", func() {
		target := main
		if dirMode {
			target = root
			if core.Op(2) == 1 {
				target = root + "/"
			}
		}
		// a program as the user names it
		if !dirMode {
			target = []string{main, "p/main.gray", "./real/../p/main.gray"}[core.Op(3)]
		}
		p := w.grayAs("dev", "watch", target)
		p.Env["GRAY_COMPILER_PATH"] = "/opt/grayc"
		core.Sleep(int64(5+core.Op(400)) * ms)
		grown, added := false, false
		for i, n := 0, core.Op(12); i < n && !p.Exited; i++ {
			switch core.Op(12) {
			case 10:
				if modReal == rootReal+"/mod" && replaced < 2 && judge {
					replace()
				}
			case 11:
				if dirMode { // files in directories that held none
					d := root + "/empty"
					if core.Op(2) == 1 {
						d = fmt.Sprintf("%s/new%d", root, seq)
						core.WMkdir(d)
						if core.Op(2) == 1 {
							d += "/sub"
							core.WMkdir(d)
						}
					}
					core.Sleep(int64(core.Op(3)*core.Op(300)) * ms)
					core.WAppend(d+fmt.Sprintf("/n%d.gray", seq), content(""))
					note(true)
				}
			case 0, 1, 2, 3, 4, 5:
				change(watched[core.Op(len(watched))], true)
			case 6:
				change(others[core.Op(len(others))], false)
			case 7:
				core.WChmod(watched[core.Op(len(watched))])
			case 8: // a burst
				k := 2 + core.Op(20)
				for j := 0; j < k; j++ {
					change(watched[core.Op(len(watched))], true)
					core.Sleep(int64(core.Op(30)) * ms)
				}
			case 9:
				if !grown && !dirMode { // the program grows
					grown = true
					m := watched[0]
					core.WTrunc(m)
					core.WAppend(m, mainText(1000, "import \"./late\"\n"))
					note(true)
					core.Sleep(int64(500+core.Op(1000)) * ms)
					for cur > 0 {
						core.Sleep(100 * ms)
					}
					core.Sleep(500 * ms)
					if k := core.Op(2); k == 1 {
						change(root+"/late.gray", true)
					}
					// from here on main may lose the import again; its changes count only at once
					core.Sleep(1500 * ms)
					for k := range others {
						if others[k] == root+"/late.gray" {
							others[k] = root + "/notes2.txt"
						}
					}
				} else if !added {
					added = true
					core.WAppend(root+"/mod/c.gray", []byte("do n() {}\n"))
					note(true)
				}
			}
			switch core.Op(5) {
			case 0:
			case 1:
				core.Sleep(int64(core.Op(100)) * ms)
			case 2:
				core.Sleep(int64(5+core.Op(400)) * ms)
			case 3:
				core.Sleep(int64(core.Op(3000)) * ms)
			case 4:
				core.Sleep(int64(core.Op(12)) * sec)
			}
		}
		core.Sleep(20 * sec) // every run has ended by then
		core.Sampled(fmt.Sprintf("%v; %d runs", trace, len(runs)))
		if p.Panic != "" {
			core.Fail("panic", "%s", p.Panic)
		}
		if core.Fired("watch_init") > 0 || core.Fired("fork") > 0 && len(runs) == 0 && p.Exited {
			if !p.Exited || p.Code == 0 || len(p.Stderr) == 0 {
				core.Fail("silent", "the watch could not start: exited %v code %d stderr %q", p.Exited, p.Code, p.Stderr)
			}
			core.End()
		}
		if p.Exited {
			core.Fail("watch-ended", "the watch ended by itself: exit %d, %q %q", p.Code, tail(p.Stdout), p.Stderr)
			core.End()
		}
		started := append([]*wrun(nil), runs...)
		attempts := strings.Count(string(p.Stdout), "Running ")
		sort.Slice(started, func(i, j int) bool { return started[i].start < started[j].start })
		if judge && core.Fired("exec") == 0 && core.Fired("fork") == 0 {
			if len(started) == 0 {
				core.Fail("no-first-run", "nothing ran: %q %q", p.Stdout, p.Stderr)
				core.End()
			}
			core.Probe("judged")
			last := int64(-1)
			for _, e := range edits {
				if e.rel {
					last = e.t
				}
			}
			if last >= 0 {
				bound := last
				for _, r := range started {
					if r.start < last && r.end > bound {
						bound = r.end
					}
				}
				bound += 1 * sec
				ok := false
				for _, r := range started {
					if r.start >= last {
						ok = r.start <= bound
						break
					}
				}
				if !ok {
					core.Fail("latest-not-run", "the last change was at %.3f s, no run started from then to %.3f s (runs at %s; %v)", sc(last), sc(bound), starts(started), trace)
				}
			}
			for i := 1; i < len(started) && !mayRun; i++ {
				ok := false
				for _, e := range edits {
					if e.rel && e.t > started[i-1].start-150*ms && e.t <= started[i].start {
						ok = true
					}
				}
				if !ok {
					core.Fail("needless-run", "run at %.3f s though nothing changed since the run at %.3f s (%v)", sc(started[i].start), sc(started[i-1].start), trace)
				}
			}
			// bursts: changes less than 50 ms apart
			for i := 0; i < len(edits) && !mayRun; {
				j := i
				for j+1 < len(edits) && edits[j+1].t-edits[j].t < 50*ms {
					j++
				}
				n := 0
				for _, r := range started {
					if r.start > edits[i].t && r.start <= edits[j].t {
						n++
					}
				}
				if n > 2 {
					core.Fail("not-coalesced", "%d runs started during one burst of changes (%.3f-%.3f s)", n, sc(edits[i].t), sc(edits[j].t))
				}
				if j > i+5 {
					core.Probe("burst")
				}
				i = j + 1
			}
		}
		if attempts == 0 {
			core.Fail("no-first-run", "nothing was run: %q", p.Stdout)
		}
		core.End()
	})
	return nil
}
func sc(t int64) float64 { return float64(t) / 1e9 }
func starts(l []*wrun) string {
	var b []string
	for _, r := range l {
		b = append(b, fmt.Sprintf("%.3f-%.3f", sc(r.start), sc(r.end)))
	}
	return strings.Join(b, " ")
}
