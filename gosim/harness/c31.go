package main

import (
	"bytes"
	"fmt"
	"path"
	"sort"
	"strings"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

func init() {
	scen("C31", "fmt", 4, c31fmt)
	scen("C31", "fmt-check", 3, c31check)
	scen("C31", "doc", 4, c31doc)
	scen("C31", "new", 4, c31new)
	scen("C31", "verify", 2, c31verify)
	scen("C31", "run", 2, c31run)
}

var diskFaults = []string{"open", "read", "short_read", "write", "short_write", "close", "sync", "rename", "unlink", "mkdir", "stat", "readdir", "chmod", "exec", "fork"}

// snapshot of every file, directory and link below the named places
func snap(roots ...string) map[string]string {
	m := map[string]string{}
	var walk func(p string, n *core.Inode)
	walk = func(p string, n *core.Inode) {
		switch n.Kind {
		case core.KDir:
			m[p+"/"] = ""
			for k, c := range n.Ent {
				walk(p+"/"+k, c)
			}
		case core.KLink:
			m[p] = "-> " + n.Target
		default:
			m[p] = string(n.Data)
		}
	}
	for _, r := range roots {
		if n := core.S.FS.Get(r); n != nil {
			walk(strings.TrimSuffix(r, "/"), n)
		}
	}
	return m
}

// diffs: the paths whose content differs between two snapshots
func diffs(a, b map[string]string) []string {
	var l []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			l = append(l, k+" (gone)")
		} else if v != w {
			l = append(l, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, k+" (new)")
		}
	}
	sort.Strings(l)
	return l
}

// trouble draws what goes wrong in this run; nothing in every third one.
func trouble(free int64) bool {
	f := core.S.FS
	switch core.Cfg(6) {
	case 0, 1:
		return false
	case 2, 3:
		oneFault(diskFaults...)
	case 4:
		f.Free[0] = int64(core.Cfg(int(free)))
	case 5:
		rates(diskFaults...)
	}
	return true
}
func calm() {
	s := core.S
	for k := range s.Rate {
		delete(s.Rate, k)
	}
	for k := range s.Nth {
		delete(s.Nth, k)
	}
	delete(s.FS.Free, 0)
}
func quiet() bool { // nothing went wrong so far
	return !core.S.AnyFault()
}

// ended judges what holds for every command: it ends in an orderly way, and says something when it fails.
func c31ended(p *core.Proc) {
	if p.Panic != "" {
		core.Fail("panic", "%q: %s", p.Args, p.Panic)
	}
	if p.Signal != 0 {
		core.Fail("signal", "%q ended by signal %d", p.Args, p.Signal)
	}
	if p.Code != 0 && len(p.Stderr) == 0 && !strings.Contains(string(p.Stdout), "would format") {
		core.Fail("silent-failure", "%q: exit %d without a word on standard error (standard output %q)", p.Args, p.Code, tail(p.Stdout))
	}
	core.Sampled(fmt.Sprintf("%q exit %d %s %s", p.Args[1:], p.Code, quote(p.Stdout), quote(p.Stderr)))
}

// ---- gray fmt -------------------------------------------------------------------------------------------------------

// reform: what the (stand-in) formatter of the compiler makes of a source; nil when it cannot be formatted
func reform(b []byte) []byte {
	if bytes.Contains(b, []byte("SYNTAX")) {
		return nil
	}
	var o []string
	for _, l := range strings.Split(string(b), "\n") {
		o = append(o, strings.TrimRight(strings.ReplaceAll(l, "\t", "    "), " "))
	}
	return []byte(strings.TrimRight(strings.Join(o, "\n"), "\n") + "\n")
}

type fmtWorld struct {
	*world
	calls  int
	failed []string // files on which the formatter failed
	mode   int
}

func fmtSetup() *fmtWorld {
	core.ChooseSched()
	w := &fmtWorld{world: newWorld(), mode: core.Cfg(3)}
	f := core.S.FS
	w.place("dev", 800)
	w.uid, w.home = 1000, "/home/u"
	f.Put("/opt/grayc", []byte("GRAYC"), 0o755, 0)
	w.kids = func(p *core.Proc, content []byte) func() int {
		if string(content) != "GRAYC" {
			return nil
		}
		return func() int {
			w.calls++
			if len(p.Args) != 3 || p.Args[1] != "--fmt" {
				core.Fail("wrong-call", "the compiler is called with %q", p.Args)
				return 9
			}
			file := p.Args[2]
			bad := func(m string) int {
				w.failed = append(w.failed, file)
				if m != "" {
					p.Emit(2, []byte(m+"\n"))
				}
				return 1
			}
			core.Sleep(int64(1+core.Op(30)) * ms)
			b, ok := f.Read(file)
			n := f.Get(file)
			if !ok || n == nil || p.Uid != 0 && (n.Uid != p.Uid && n.Mode&4 == 0 || n.Uid == p.Uid && n.Mode&0o400 == 0) {
				return bad("cannot read " + file)
			}
			how := 0
			if w.mode == 1 {
				how = core.Op(12)
			}
			switch how {
			case 7:
				return bad("out of memory")
			case 8:
				return bad("") // the worst: exit 1 and nothing said
			case 9:
				w.failed = append(w.failed, file)
				p.Kill(11)
			}
			out := reform(b)
			if out == nil {
				return bad("syntax error in " + file)
			}
			if n.Uid != p.Uid && n.Mode&2 == 0 || n.Uid == p.Uid && n.Mode&0o200 == 0 {
				return bad("cannot write " + file)
			}
			if how == 10 { // cut off in the middle
				n.Data = append([]byte(nil), out[:core.Op(len(out)+1)]...)
				w.failed = append(w.failed, file)
				p.Kill(9)
			}
			n.Data = append([]byte(nil), out...)
			return 0
		}
	}
	return w
}

// sources draws a tree of source files and command arguments; want: the files the arguments name.
func (w *fmtWorld) sources(fresh func(i int) string) (args []string, want []string, unread bool) {
	f := core.S.FS
	root := "/work/p"
	for _, d := range []string{root, root + "/lib", root + "/lib/deep", root + "/empty"} {
		f.MkdirAll(d, 0o755, w.uid).Uid = w.uid
	}
	f.Get("/work").Uid = w.uid
	in := map[string][]string{}
	i := 0
	put := func(dir, name string) {
		c := fresh(i)
		i++
		f.Put(dir+"/"+name, []byte(c), 0o644, w.uid)
		in[dir] = append(in[dir], dir+"/"+name)
	}
	for k, n := 0, 1+core.Cfg(4); k < n; k++ {
		put(root, fmt.Sprintf("a%d.gray", k))
	}
	for k, n := 0, core.Cfg(3); k < n; k++ {
		put(root+"/lib", fmt.Sprintf("b%d.gray", k))
	}
	for k, n := 0, core.Cfg(3); k < n; k++ {
		put(root+"/lib/deep", fmt.Sprintf("c%d.gray", k))
	}
	f.Put(root+"/notes.txt", []byte("x \n"), 0o644, w.uid)
	f.Put(root+"/lib/x.gray.bak", []byte("x \n"), 0o644, w.uid)
	f.Put("/work/outside.gray", []byte("x  \n"), 0o644, w.uid)
	dirs := []string{root, root + "/lib", root + "/lib/deep"}
	seen := map[string]bool{}
	add := func(l ...string) {
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				want = append(want, x)
			}
		}
	}
	for k, n := 0, 1+core.Cfg(3); k < n; k++ {
		d := dirs[core.Cfg(3)]
		rel := strings.TrimPrefix(d, "/work/")
		if core.Cfg(3) == 1 {
			rel = d
		}
		switch core.Cfg(7) {
		case 0, 1:
			if l := in[d]; len(l) > 0 {
				x := l[core.Cfg(len(l))]
				args = append(args, rel+"/"+path.Base(x))
				add(x)
				continue
			}
			fallthrough
		case 2:
			args = append(args, rel)
			add(in[d]...)
		case 3, 4:
			args = append(args, rel+"/...")
			for _, e := range dirs {
				if e == d || strings.HasPrefix(e, d+"/") {
					add(in[e]...)
				}
			}
		case 5:
			args = append(args, rel+"/none.gray")
			unread = true
		case 6:
			args = append(args, "p/missing/...")
			unread = true
		}
	}
	// a file or directory that may not be read
	switch core.Cfg(6) {
	case 1:
		if len(want) > 0 {
			x := want[core.Cfg(len(want))]
			n := f.Get(x)
			n.Mode, n.Uid = 0o600, 0
			unread = true
		}
	case 2:
		if len(want) > 0 {
			x := path.Dir(want[core.Cfg(len(want))])
			n := f.Get(x)
			n.Mode, n.Uid = 0o700, 0
			unread = true
		}
	}
	return
}

var fmtTexts = []string{
	"do main() {\n    x = 1\n}\n",
	"do main() {\n\tx = 1  \n}\n",
	"do main() {}",
	"do main() {}\n\n\n",
	"SYNTAX {{{\n",
	"",
	"// fine\n",
}

func fmtText(i int) string {
	k := core.Cfg(len(fmtTexts) + 1)
	if k == len(fmtTexts) {
		return strings.Repeat("    // a long file\n", 200+core.Cfg(3000)) + []string{"", "\tx\n"}[core.Cfg(2)]
	}
	return fmtTexts[k]
}

func c31fmt() func() {
	f := core.S.FS
	w := fmtSetup()
	args, want, unread := w.sources(fmtText)
	ro := core.Cfg(8) == 1
	if ro && len(want) > 0 {
		n := f.Get(want[core.Cfg(len(want))])
		if n != nil {
			n.Mode &^= 0o222
		}
	}
	before := snap("/work", "/home", "/tmp")
	trouble(60000)
	core.Harness("user", func() {
		p := w.grayAs("dev", append([]string{"fmt"}, args...)...)
		p.Env["GRAY_COMPILER_PATH"] = "/opt/grayc"
		p.Wait()
		c31ended(p)
		after := snap("/work", "/home", "/tmp")
		set := map[string]bool{}
		for _, x := range want {
			set[x] = true
		}
		for _, d := range diffs(before, after) {
			if !set[d] {
				core.Fail("other-file", "gray fmt %q changed %s", args, d)
			}
		}
		out := string(p.Stdout)
		good, changed := true, 0
		for _, x := range want {
			o, okb := before[x]
			r := reform([]byte(o))
			if r == nil {
				good = false
			}
			isf := okb && r != nil && after[x] == string(r)
			if p.Code == 0 && !isf {
				core.Fail("not-formatted", "gray fmt %q succeeded, but %s is not formatted: %s (was %s)", args, x, quote([]byte(after[x])), quote([]byte(o)))
			}
			if strings.Contains(out, "formatted: "+x+"\n") {
				changed++
				if after[x] == o || !isf && !has(w.failed, x) {
					core.Fail("false-claim", "gray fmt claims to have formatted %s: %s", x, quote([]byte(after[x])))
				}
				if has(w.failed, x) {
					core.Fail("false-claim", "gray fmt claims to have formatted %s, on which the formatter failed", x)
				}
			}
		}
		if p.Code == 0 && (unread || len(w.failed) > 0) {
			core.Fail("failure-unreported", "gray fmt %q succeeded though something named could not be read or formatted (failed: %q): %q %q", args, w.failed, tail(p.Stdout), p.Stderr)
		}
		if strings.Contains(out, "already formatted") && (p.Code != 0 || changed > 0) {
			core.Fail("false-claim", "gray fmt: exit %d, %d changed, and says %q", p.Code, changed, out)
		}
		if quiet() && good && !unread && len(w.failed) == 0 && !ro && p.Code != 0 {
			core.Fail("needless-failure", "gray fmt %q fails on a healthy machine: %q", args, p.Stderr)
		}
		if p.Code == 0 && changed > 0 {
			core.Probe("formatted")
		}
		core.End()
	})
	return nil
}
func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func c31check() func() {
	w := fmtSetup()
	args, want, unread := w.sources(fmtText)
	before := snap("/work", "/home", "/tmp")
	full := trouble(60000)
	core.Harness("user", func() {
		p := w.grayAs("dev", append([]string{"fmt", "--check"}, args...)...)
		p.Env["GRAY_COMPILER_PATH"] = "/opt/grayc"
		p.Wait()
		c31ended(p)
		after := snap("/work", "/home", "/tmp")
		for _, d := range diffs(before, after) {
			if !(strings.HasPrefix(d, "/tmp/") && core.Fired("unlink") > 0) {
				core.Fail("other-file", "gray fmt --check %q changed %s", args, d)
			}
		}
		out := string(p.Stdout)
		expect := 0
		for _, x := range want {
			o := before[x]
			r := reform([]byte(o))
			says := strings.Contains(out, "would format: "+x+"\n")
			switch {
			case r == nil:
				expect = 1
				if says {
					core.Fail("false-claim", "gray fmt --check says %s would be formatted; it cannot be", x)
				}
			case o != string(r):
				expect = 1
			default:
				if says {
					core.Fail("false-claim", "gray fmt --check says %s would be formatted; it is", x)
				}
			}
			if p.Code == 0 && (r == nil || o != string(r)) {
				core.Fail("check-passed", "gray fmt --check %q passed, but %s is not formatted: %s", args, x, quote([]byte(o)))
			}
			if quiet() && !full && !unread && len(w.failed) == 0 && r != nil && says != (o != string(r)) {
				core.Fail("check-verdict", "gray fmt --check: %s: says it differs: %v; it is %s", x, says, quote([]byte(o)))
			}
		}
		if unread || len(w.failed) > 0 {
			expect = 1
			if p.Code == 0 {
				core.Fail("failure-unreported", "gray fmt --check %q passed though something named could not be read or formatted (failed: %q): %q %q", args, w.failed, tail(p.Stdout), p.Stderr)
			}
		}
		if quiet() && !full && p.Code != expect {
			core.Fail("needless-failure", "gray fmt --check %q: exit %d, expected %d: %q %q", args, p.Code, expect, out, p.Stderr)
		}
		if p.Code == 0 && len(want) > 0 {
			core.Probe("check-passed")
		}
		core.End()
	})
	return nil
}

// ---- gray doc -------------------------------------------------------------------------------------------------------
type docItem struct{ kind, name, sig, desc string }

// docSource draws a source file with documented items.
func docSource(i int, items *[]docItem) string {
	var b strings.Builder
	nl := "\n"
	if core.Cfg(5) == 1 {
		nl = "\r\n"
	}
	line := func(s string) { b.WriteString(s + nl) }
	line(fmt.Sprintf("// file %d", i))
	for k, n := 0, core.Cfg(5); k < n; k++ {
		nm := fmt.Sprintf("item_%d_%d", i, k)
		desc := fmt.Sprintf("does the thing %d of %d", k, i)
		switch core.Cfg(8) {
		case 1:
			desc = strings.Repeat("long ", 1+core.Cfg(400)) + fmt.Sprint(k)
		case 2: // beyond every line buffer
			desc = strings.Repeat("w", 70000+core.Cfg(1000)) + fmt.Sprint(k)
		}
		doc := func() { line("#doc(\"" + desc + "\")") }
		switch core.Cfg(6) {
		case 0, 1:
			doc()
			line("do " + nm + "(a int, b string) -> int {")
			line("    return a")
			line("}")
			*items = append(*items, docItem{"function", nm, "do " + nm + "(a int, b string) -> int", desc})
		case 2:
			doc()
			line("")
			line("private do " + nm + "() {")
			line("}")
			*items = append(*items, docItem{"function", nm, "private do " + nm + "()", desc})
		case 3:
			doc()
			body := []string{"const " + nm + " struct {", "    x int", "    m {", "    }", "}"}
			for _, l := range body {
				line(l)
			}
			*items = append(*items, docItem{"struct", nm, strings.Join(body, "\n"), desc})
		case 4:
			doc()
			body := []string{"const " + nm + " enum {", "    ONE", "    TWO", "}"}
			for _, l := range body {
				line(l)
			}
			*items = append(*items, docItem{"enum", nm, strings.Join(body, "\n"), desc})
		case 5: // undocumented
			line("do " + nm + "() {")
			line("}")
		}
		switch core.Cfg(6) {
		case 1:
			line("")
		case 2:
			line("// " + strings.Repeat("-", core.Cfg(200)))
		case 3:
			if core.Cfg(6) == 1 {
				line("// " + strings.Repeat("=", 66000))
			}
		}
	}
	s := b.String()
	if core.Cfg(4) == 1 {
		s = strings.TrimSuffix(s, nl)
	}
	return s
}

func c31doc() func() {
	f := core.S.FS
	w := &fmtWorld{world: newWorld()}
	core.ChooseSched()
	w.place("dev", 800)
	w.uid, w.home = 1000, "/home/u"
	of := map[string][]docItem{}
	var cur []docItem
	args, want, unread := w.sources(func(i int) string { cur = nil; s := docSource(i, &cur); of[s] = cur; return s })
	// documented items behind the named files
	before0 := snap("/work")
	var items []docItem
	for _, x := range want {
		items = append(items, of[before0[x]]...)
	}
	out := "/work/DOCS.md"
	cmd := append([]string{"doc"}, args...)
	switch core.Cfg(5) {
	case 1:
		out = "/work/docs/api/REF.md"
		cmd = append(cmd, "-o", "docs/api/REF.md")
	case 2:
		out = "/home/u/x/y.md"
		cmd = append(cmd, "--output", "/home/u/x/y.md")
	case 3:
		out = "/work/OUT.md"
		cmd = append(cmd, "-o", "OUT.md")
	}
	if core.Cfg(3) == 1 {
		f.Put(out, []byte(strings.Repeat("the old text\n", 20000)), 0o644, w.uid)
		f.Get(path.Dir(out)).Uid = w.uid
	}
	before := snap("/work", "/home", "/tmp")
	full := trouble(100000)
	core.Harness("user", func() {
		p := w.grayAs("dev", cmd...)
		p.Wait()
		c31ended(p)
		after := snap("/work", "/home", "/tmp")
		for _, d := range diffs(before, after) {
			k := strings.TrimSuffix(d, " (new)")
			if k == out || strings.HasSuffix(k, "/") && strings.HasPrefix(out, k) {
				continue
			}
			core.Fail("other-file", "gray %q changed %s", cmd, d)
		}
		text, exists := after[out]
		so := string(p.Stdout)
		if p.Code == 0 {
			if unread {
				core.Fail("failure-unreported", "gray %q succeeded though something named cannot be read: %q", cmd, so)
			}
			said := strings.Contains(so, "Generated ")
			if said != (len(items) > 0) {
				core.Fail("false-claim", "gray %q succeeded with %q; %d documented items are there", cmd, so, len(items))
			}
			if len(items) > 0 {
				if !exists {
					core.Fail("not-written", "gray %q succeeded, and %s does not exist", cmd, out)
				}
				if len(args) == 1 && !strings.Contains(so, fmt.Sprintf(" %d documented", len(items))) {
					core.Fail("items-missing", "gray %q says %q; %d documented items are there", cmd, so, len(items))
				}
				pos := 0
				for _, it := range items {
					h := "### " + it.name + "\n"
					at := strings.Index(text, h)
					if at < 0 {
						core.Fail("items-missing", "gray %q succeeded, and %s (%d bytes) does not mention %s", cmd, out, len(text), it.name)
						core.End()
					}
					rest := text[at+len(h):]
					end := strings.Index(rest, "\n##")
					if end < 0 {
						end = len(rest)
					}
					sec := rest[:end]
					if !strings.Contains(strings.ReplaceAll(sec, "\r", ""), it.sig+"\n") || !strings.Contains(sec, it.desc+"\n") {
						core.Fail("items-cut", "gray %q succeeded, and %s is incomplete in %s: %s", cmd, it.name, out, quote([]byte(sec)))
					}
					pos = max(pos, at)
				}
				if strings.Contains(text, "the old text") {
					core.Fail("old-text", "gray %q succeeded, and the old text is still in %s", cmd, out)
				}
				if !strings.HasSuffix(text, "\n") {
					core.Fail("items-cut", "gray %q succeeded, and %s ends in the middle of a line", cmd, out)
				}
				core.Probe("generated")
			} else if exists != (before[out] != "") {
				core.Fail("false-claim", "gray %q wrote %s without anything to say", cmd, out)
			}
		} else {
			if strings.Contains(so, "Generated ") {
				core.Fail("false-claim", "gray %q: exit %d and %q", cmd, p.Code, so)
			}
			if quiet() && !full && !unread {
				core.Fail("needless-failure", "gray %q fails on a healthy machine: %q", cmd, p.Stderr)
			}
		}
		core.End()
	})
	return nil
}

// ---- gray new -------------------------------------------------------------------------------------------------------
func c31new() func() {
	f := core.S.FS
	w := newWorld()
	core.ChooseSched()
	w.place("dev", 800)
	w.uid, w.home = 1000, "/home/u"
	tmpl := []string{"basic", "cli", "lib", "multi", "server", "client"}[core.Cfg(6)]
	sub := []string{"normal", "minimal"}[core.Cfg(2)]
	comments := core.Cfg(3) == 1
	dir := tmpl
	if tmpl == "server" || tmpl == "client" {
		dir += "_" + sub
	}
	name := "proj"
	bad := ""
	switch core.Cfg(10) {
	case 1:
		bad = []string{"../up", "..", "a/b", "/abs", "~x", ".", "a\\b", "x/../../y"}[core.Cfg(8)]
		name = bad
	}
	exists := core.Cfg(3) == 1 // an old project is there
	if exists {
		f.Put("/work/proj/old.gray", []byte("old\n"), 0o644, w.uid)
		f.Put("/work/proj/main.gray", []byte("old main\n"), 0o644, w.uid)
		f.Put("/work/proj/sub/deep/x.txt", []byte("x\n"), 0o644, w.uid)
		for _, d := range []string{"", "/sub", "/sub/deep"} {
			f.Get("/work/proj" + d).Uid = w.uid
		}
		if core.Cfg(4) == 1 { // what cannot be removed
			f.Get("/work/proj/sub/deep").Uid = 0
		}
	}
	f.Put("/work/up/keep.gray", []byte("keep\n"), 0o644, w.uid)
	f.Put("/up/keep.gray", []byte("keep\n"), 0o644, w.uid)
	f.Get("/work").Uid = w.uid
	force := core.Cfg(2) == 1
	yes := core.Cfg(3) != 0
	var args []string
	stdin := ""
	asked := core.Cfg(3) == 1 // answers instead of arguments
	if asked {
		args = []string{"new"}
		stdin = name + "\n" + tmpl + "\n"
		if tmpl == "server" || tmpl == "client" {
			stdin += sub + "\n"
		}
		stdin += []string{"n\n", "y\n"}[map[bool]int{false: 0, true: 1}[comments]]
	} else {
		args = []string{"new", name, "-t", tmpl}
		if sub != "normal" || core.Cfg(2) == 1 {
			args = append(args, "-s", sub)
		}
		if comments {
			args = append(args, "-c")
		}
	}
	if force {
		args = append(args, "--force")
	}
	if exists && force {
		stdin += []string{"n\n", "y\n"}[map[bool]int{false: 0, true: 1}[yes]]
	}
	expect := map[string]string{}
	known := false
	for k, v := range shipped {
		if r, ok := strings.CutPrefix(k, "templates/"+dir+"/"); ok {
			expect["/work/proj/"+r] = v
			known = true
		}
	}
	before := snap("/work", "/home", "/tmp", "/up")
	full := trouble(9000)
	core.Harness("user", func() {
		p := w.grayAs("dev", args...)
		p.Stdin = []byte(stdin)
		p.Wait()
		if core.Fired("stdin") == 0 {
			c31ended(p)
		}
		after := snap("/work", "/home", "/tmp", "/up")
		so := string(p.Stdout)
		done := p.Code == 0 && strings.Contains(so, "Done!")
		mayWrite := bad == "" && (!exists || force && yes)
		for _, d := range diffs(before, after) {
			if !strings.HasPrefix(d, "/work/proj/") || !mayWrite {
				core.Fail("other-file", "gray %q (answers %q) changed %s", args, stdin, d)
			}
		}
		if done && !mayWrite {
			core.Fail("false-claim", "gray %q (answers %q) claims success", args, stdin)
		}
		if p.Code == 0 && !done && !(exists && force && !yes && bad == "" && strings.Contains(so, "ancelled")) {
			core.Fail("failure-unreported", "gray %q (answers %q): exit 0 and %q", args, stdin, so)
		}
		if p.Code != 0 && strings.Contains(so, "Done!") {
			core.Fail("false-claim", "gray %q: exit %d and %q", args, p.Code, so)
		}
		if done && known {
			for k, v := range expect {
				g, ok := after[k]
				if comments && path.Base(k) == "main.gray" && path.Dir(k) == "/work/proj" {
					if !ok || !strings.HasSuffix(g, v) || !strings.HasPrefix(g, "//") || g == v {
						core.Fail("incomplete", "gray %q (answers %q) succeeded, and %s (%v) is not the template with comments: %s", args, stdin, k, ok, quote([]byte(g)))
					}
				} else if !ok || g != v {
					core.Fail("incomplete", "gray %q (answers %q) succeeded, and %s (%v, %d bytes) is not the template's (%d bytes)", args, stdin, k, ok, len(g), len(v))
				}
			}
			for k := range after {
				if _, ok := expect[k]; !ok && strings.HasPrefix(k, "/work/proj/") && !strings.HasSuffix(k, "/") {
					core.Fail("left-over", "gray %q (answers %q) succeeded, and %s is not of the template", args, stdin, k)
				}
			}
			core.Probe("created")
			if asked {
				core.Probe("answered")
			}
		}
		if quiet() && !full && mayWrite && !done && !(exists && f.Get("/work/proj/sub/deep") != nil) {
			core.Fail("needless-failure", "gray %q (answers %q): exit %d %q %q", args, stdin, p.Code, so, p.Stderr)
		}
		core.End()
	})
	return nil
}

// ---- gray verify ----------------------------------------------------------------------------------------------------
func c31verify() func() {
	f := core.S.FS
	w := newWorld()
	core.ChooseSched()
	w.place("dev", 800)
	w.uid, w.home = 1000, "/home/u"
	f.Put("/opt/grayc", []byte("GRAYC"), 0o755, 0)
	type res struct{ code, sig int }
	ran := map[*core.Proc]*res{}
	prog, okp := shipped["tests.gray"]
	w.kids = func(p *core.Proc, content []byte) func() int {
		if string(content) != "GRAYC" {
			return nil
		}
		return func() int {
			r := &res{code: []int{0, 0, 0, 1, 2, 139, 255}[core.Op(7)]}
			if ran[p.Parent] != nil {
				core.Fail("ran-twice", "gray verify ran the program twice")
			}
			ran[p.Parent] = r
			if len(p.Args) != 3 || p.Args[1] != "run" {
				core.Fail("wrong-call", "the compiler is called with %q", p.Args)
				return 9
			}
			look := func() {
				b, ok := f.Read(p.Args[2])
				if !ok || len(b) == 0 || okp && string(b) != prog {
					core.Fail("cut-program", "gray verify runs a program that is not the shipped one: %s, %d bytes, shipped %d", p.Args[2], len(b), len(prog))
				}
			}
			look()
			core.Sleep(int64(core.Op(100)) * ms)
			look()
			if core.Op(8) == 1 {
				r.sig = 9
				p.Kill(9)
			}
			p.Emit(1, []byte("all fine\n"))
			return r.code
		}
	}
	before := snap("/work", "/home", "/tmp")
	full := trouble(int64(2 * max(len(prog), 1000)))
	n := 1 + core.Cfg(3)
	core.Harness("user", func() {
		var ps []*core.Proc
		for i := 0; i < n; i++ {
			p := w.grayAs("dev", "verify")
			p.Env["GRAY_COMPILER_PATH"] = "/opt/grayc"
			ps = append(ps, p)
			core.Sleep(int64(core.Op(60)) * ms)
		}
		for _, p := range ps {
			p.Wait()
			c31ended(p)
			so := string(p.Stdout)
			r := ran[p]
			good := r != nil && r.code == 0 && r.sig == 0
			if (p.Code == 0) != good && (good || p.Code == 0) && !(good && core.S.AnyFault()) {
				core.Fail("verdict", "gray verify: exit %d %q; the program ran: %v %+v", p.Code, so, r != nil, r)
			}
			if strings.Contains(so, "passed") != (p.Code == 0) && core.Fired("stdout") == 0 {
				core.Fail("false-claim", "gray verify: exit %d and %q", p.Code, so)
			}
			if r == nil && quiet() && !full {
				core.Fail("needless-failure", "gray verify fails on a healthy machine: %q", p.Stderr)
			}
		}
		for _, d := range diffs(before, snap("/work", "/home", "/tmp")) {
			if !(strings.HasPrefix(d, "/tmp/") && core.Fired("unlink") > 0) {
				core.Fail("other-file", "gray verify left %s", d)
			}
		}
		core.Probe("verified")
		core.End()
	})
	return nil
}

// ---- gray FILE, gray build, gray check --------------------------------------------------------------------------------
func c31run() func() {
	f := core.S.FS
	w := newWorld()
	core.ChooseSched()
	w.place("dev", 800)
	w.uid, w.home = 1000, "/home/u"
	f.Put("/opt/grayc", []byte("GRAYC"), 0o755, 0)
	f.Put("/work/x.gray", []byte("do main() {}\n"), 0o644, w.uid)
	f.MkdirAll("/work/dir", 0o755, w.uid)
	input := string(pattern(core.Cfg(50), core.Cfg(3000)))
	var so, se, si []byte
	started, code, sig := 0, 0, 0
	var got []string
	w.kids = func(p *core.Proc, content []byte) func() int {
		if string(content) != "GRAYC" {
			return nil
		}
		return func() int {
			started++
			got = append([]string(nil), p.Args[1:]...)
			code = []int{0, 0, 1, 2, 3, 42, 127, 255}[core.Op(8)]
			emit := func(fd int, k int) {
				b := pattern(k+fd, core.Op(2000))
				p.Emit(fd, b)
				if fd == 1 {
					so = append(so, b...)
				} else {
					se = append(se, b...)
				}
			}
			for i, n := 0, core.Op(5); i < n; i++ {
				emit(1+core.Op(2), i)
				core.Sleep(int64(core.Op(50)) * ms)
			}
			b := make([]byte, 1+core.Op(4000))
			for {
				k, err := core.StdRead(b)
				si = append(si, b[:k]...)
				if k == 0 || err != nil {
					break
				}
			}
			if core.Op(6) == 1 {
				sig = []int{9, 11, 6}[core.Op(3)]
				p.Kill(sig)
			}
			return code
		}
	}
	type form struct {
		args, want []string
	}
	forms := []form{
		{[]string{"x.gray"}, []string{"run", "x.gray"}},
		{[]string{"x.gray", "--", "-a", "b c", "--quiet", ""}, []string{"run", "x.gray", "-a", "b c", "--quiet", ""}},
		{[]string{"x.gray", "one", "two"}, []string{"run", "x.gray", "one", "two"}},
		{[]string{"check", "x.gray"}, []string{"check", "x.gray"}},
		{[]string{"check", "dir"}, []string{"check", "dir"}},
		{[]string{"check", "-q", "all", "x.gray"}, []string{"check", "x.gray", "--quiet"}},
		{[]string{"build", "x.gray"}, []string{"build", "x.gray"}},
		{[]string{"build", "x.gray", "-o", "out"}, []string{"build", "x.gray", "-o", "out"}},
		{[]string{"build", "x.gray", "--emit-c", "-o", "o.c"}, nil},
		{[]string{"nonsense"}, nil},
		{[]string{"build", "x.txt"}, nil},
	}
	fm := forms[core.Cfg(len(forms))]
	oneOf := core.Cfg(3)
	if oneOf == 1 {
		oneFault("exec", "fork", "stat", "open")
	}
	missing := core.Cfg(6) == 1
	if missing {
		f.Get("/opt").Ent = map[string]*core.Inode{}
	}
	core.Harness("user", func() {
		p := w.grayAs("dev", fm.args...)
		p.Env["GRAY_COMPILER_PATH"] = "/opt/grayc"
		p.Stdin = []byte(input)
		p.Wait()
		if sig == 0 && code == 0 || started == 0 {
			c31ended(p)
		}
		switch {
		case started > 1:
			core.Fail("ran-twice", "gray %q started the compiler %d times", fm.args, started)
		case started == 0:
			if p.Code == 0 {
				core.Fail("failure-unreported", "gray %q: exit 0, and the compiler never ran: %q", fm.args, p.Stdout)
			}
			if quiet() && !missing && fm.want != nil {
				core.Fail("needless-failure", "gray %q fails on a healthy machine: %q", fm.args, p.Stderr)
			}
		case sig != 0:
			if p.Code == 0 {
				core.Fail("status", "gray %q: exit 0 though the program was ended by signal %d", fm.args, sig)
			}
		default:
			if p.Code != code {
				core.Fail("status", "gray %q: exit %d, the compiler's was %d", fm.args, p.Code, code)
			}
		}
		if started == 1 {
			core.Probe("ran")
			if fm.want != nil && fmt.Sprintf("%q", got) != fmt.Sprintf("%q", fm.want) {
				core.Fail("arguments", "gray %q calls the compiler with %q, not %q", fm.args, got, fm.want)
			}
			if !bytes.Equal(p.Stdout, so) {
				core.Fail("output", "gray %q: standard output is %s, the program wrote %s", fm.args, quote(p.Stdout), quote(so))
			}
			if !bytes.Equal(p.Stderr, se) {
				core.Fail("output", "gray %q: standard error is %s, the program wrote %s", fm.args, quote(p.Stderr), quote(se))
			}
			if string(si) != input && core.Fired("stdin") == 0 {
				core.Fail("input", "gray %q: the program read %d bytes of %d", fm.args, len(si), len(input))
			}
		}
		core.End()
	})
	return nil
}
