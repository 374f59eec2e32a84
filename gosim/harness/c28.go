package main

import (
	"fmt"
	"net/url"
	"path"
	"regexp"
	"runtime"
	"strings"
	"time"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

// an independent reading of SemVer 2.0
var semverRE = regexp.MustCompile(`^v?(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)(?:-([0-9A-Za-z-]+(?:\.[0-9A-Za-z-]+)*))?(?:\+[0-9A-Za-z.-]+)?$`)
var describeRE = regexp.MustCompile(`-\d+-g[0-9a-f]+(-dirty)?$|-dirty$`)

func numCmp(a, b string) int {
	if len(a) != len(b) {
		if len(a) < len(b) {
			return -1
		}
		return 1
	}
	return strings.Compare(a, b)
}
func isNum(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }
func semCmp(a, b string) int {
	x, y := semverRE.FindStringSubmatch(a), semverRE.FindStringSubmatch(b)
	for i := 1; i <= 3; i++ {
		if c := numCmp(x[i], y[i]); c != 0 {
			return c
		}
	}
	if x[4] == y[4] {
		return 0
	}
	if x[4] == "" {
		return 1
	}
	if y[4] == "" {
		return -1
	}
	p, q := strings.Split(x[4], "."), strings.Split(y[4], ".")
	for i := 0; i < len(p) && i < len(q); i++ {
		pn, qn := isNum(p[i]), isNum(q[i])
		c := 0
		switch {
		case pn && qn:
			c = numCmp(p[i], q[i])
		case pn:
			c = -1
		case qn:
			c = 1
		default:
			c = strings.Compare(p[i], q[i])
		}
		if c != 0 {
			return c
		}
	}
	if len(p) < len(q) {
		return -1
	}
	if len(p) > len(q) {
		return 1
	}
	return 0
}

// newer: is tag a version after the one that is running? (unknown: a name that is no version)
func newer(tag, own string) (is, known bool) {
	own = describeRE.ReplaceAllString(own, "")
	if !semverRE.MatchString(tag) || !semverRE.MatchString(own) {
		return false, false
	}
	return semCmp(tag, own) > 0, true
}

var tags = []string{"v1.2.3", "v1.2.4", "v1.10.0", "v1.9.9", "v2.0.0", "v2.0.0-rc.1", "v2.0.0-rc.2", "v2.0.0-alpha", "v2.0.0-alpha.1", "v2.0.0-alpha.beta",
	"v2.0.0-beta", "v2.0.0-beta.2", "v2.0.0-beta.11", "2.1.0", "v10.0.0", "v3.0.0-alpha.6", "v3.0.0", "v0.16.10", "v0.9.1", "v1.2.3+build.5", "v3.0.0-1", "v3.0.0-x-y.7"}
var ownTags = append([]string{"v3.0.0-beta.2", "v1.2.2"}, tags...)
var devTags = []string{"dev", "v2.0.0-beta.2-4-g0cbcb58", "v2.0.0-beta.2-4-g0cbcb58-dirty", "v1.2.3-4-g0cbcb58", "v1.2.3-dirty", "v1.2.3-11-gabcdef0-dirty"}

const ghPath = "/grayscale-lang/grayscale/releases/download/"

// trusted: may the tool contact this address at all? (download: the archive of a release)
func trusted(u string) bool {
	p, err := url.Parse(u)
	if err != nil || p.Scheme != "https" {
		return false
	}
	switch p.Host {
	case "api.github.com":
		return p.Path == "/repos/grayscale-lang/grayscale/releases" || p.Path == "/repos/grayscale-lang/grayscale/releases/latest"
	case "github.com":
		return strings.HasPrefix(p.Path, ghPath) && strings.HasPrefix(path.Clean(p.Path)+"/", ghPath) && !strings.Contains(p.Path, "\\")
	}
	return strings.HasSuffix(p.Host, ".githubusercontent.com")
}

var noteRE = regexp.MustCompile(`^Note: Grayscale (\S+) available \(you have (\S+)\)\. Run .gray update. to upgrade\.\n\n`)

func init() {
	scen("C28", "every-day", 3, c28days)
	scen("C28", "decide", 2, c28decide)
	scen("C28", "untrusted", 1, c28url)
}

// grayAs starts the tool as a given version.
func (w *world) grayAs(v string, args ...string) *core.Proc {
	p := core.NewProc("gray", append([]string{w.bin}, args...))
	p.Env["HOME"], p.Env["PATH"] = w.home, "/usr/local/bin:/usr/bin"
	p.Cwd, p.Uid, p.Exe = "/work", w.uid, core.S.FS.Resolve(w.bin)
	w.procs = append(w.procs, p)
	body := w.image(p, v)
	p.Start(func() { core.Exit(body()) })
	return p
}

// today: the date of the machine's time zone; span: that and the date of the world's.
func today() string {
	t := time.Unix(0, core.S.Epoch+core.Now()).UTC()
	if core.S.Zone != nil {
		t = t.In(core.S.Zone)
	}
	return t.Format("2006-01-02")
}
func span() string {
	return today() + "|" + time.Unix(0, core.S.Epoch+core.Now()).UTC().Format("2006-01-02")
}
func zone() {
	if o := []int{0, 0, 9 * 3600, -8 * 3600, 12*3600 + 2700, -11 * 3600}[core.Cfg(6)]; o != 0 {
		core.S.Zone = time.FixedZone("there", o)
	}
}

func c28days() func() {
	s := core.S
	w := newWorld()
	core.ChooseSched()
	zone()
	own := ownTags[core.Cfg(len(ownTags))]
	w.place(own, 1000)
	s.FS.Put("/opt/grayc", []byte("GRAYC"), 0o755, 0)
	s.FS.Put("/work/x.gray", []byte("do main() {}\n"), 0o644, w.uid)
	w.kids = func(p *core.Proc, content []byte) func() int {
		if string(content) != "GRAYC" {
			return nil
		}
		return func() int {
			core.Sleep(300 * ms)
			p.Emit(1, []byte(fmt.Sprintf("ran %q\n", p.Args[1:])))
			p.Emit(2, []byte("warning: w\n"))
			return 7
		}
	}
	cmds := [][]string{{"man", "println"}, {"x.gray", "a", "b"}, {"check", "x.gray"}, {"nosuch"}, {"man", "no-such-name"}, {"fmt", "--check", "none.gray"}}
	type want struct {
		out, err string
		code     int
		dur      int64
	}
	f := s.FS
	latest := func() string { return tags[core.NetC(len(tags))] }
	faulty := false
	seen := map[string]bool{}
	s.Net = func(q *core.NetReq) *core.NetResp {
		if !trusted(q.URL) {
			core.Fail("untrusted", "a command other than update asked %s", q.URL)
		}
		t := latest()
		seen[t] = true
		r := ok200([]byte(fmt.Sprintf(`{"tag_name":%q,"body":"### Features\n","prerelease":false,"assets":[]}`, t)))
		q.Header["t"] = []string{t}
		if faulty && core.NetC(4) != 0 {
			if d := disturb(r); d != "" {
				core.NoteFault("net " + d)
				q.Header["t"] = nil
				seen["v9.9.9"] = true
			}
		}
		lastReply = q.Header["t"]
		return r
	}
	writable := true
	cache := w.home + "/.gray/update_check"
	day := int64(24 * 3600 * sec)
	var diskFaults bool
	setup := func() {
		switch core.Cfg(16) {
		case 1:
			f.MkdirAll(w.home+"/.gray", 0o755, w.uid)
			f.Put(cache, []byte(fmt.Sprintf(`{"last_check":%q,"latest_version":%q}`, today(), tags[core.Cfg(len(tags))])), 0o644, w.uid)
		case 2:
			f.MkdirAll(w.home+"/.gray", 0o755, w.uid)
			f.Put(cache, []byte([]string{"", "{", "null", "[]", "5", `{"last_check":5}`, `{"last_check":"x","latest_version":"y"}`, "\x00\x00\x00", `{"last_check":"2026-01-01"`, `{"last_check":"9999-12-31","latest_version":"v1.0.0"}`, strings.Repeat("x", 5000)}[core.Cfg(11)]), 0o644, w.uid)
		case 3:
			f.Put(w.home+"/.gray", []byte("a file"), 0o644, w.uid)
			writable = false
		case 4:
			f.MkdirAll(cache, 0o755, w.uid)
			writable = false
		case 5:
			f.MkdirAll(w.home+"/.gray", 0o500, 0)
			f.Get(w.home + "/.gray").Uid = 0
			writable = w.uid == 0
		case 6:
			f.MkdirAll(w.home+"/.gray", 0o755, w.uid)
			f.Put(cache, []byte(fmt.Sprintf(`{"last_check":%q,"latest_version":"v99.0.0"}`, today())), 0, 0)
			writable = w.uid == 0
			seen["v99.0.0"] = true
		case 7:
			f.Free[0] = int64(core.Cfg(40))
			writable = false
		case 8:
			w.home = "/nonexistent/home"
			writable = w.uid == 0
		case 9:
			w.home = ""
			writable = false
		case 10:
			f.MkdirAll(w.home+"/.gray", 0o755, w.uid)
			f.Put(cache, []byte(fmt.Sprintf(`{"last_check":%q,"latest_version":%q}`, "2026-01-01", tags[core.Cfg(len(tags))])), 0o644, w.uid)
		case 11:
			f.MkdirAll(w.home+"/.gray", 0o755, w.uid)
			f.Put(cache, []byte(fmt.Sprintf(`{"last_check":%q,"latest_version":""}`, today())), 0o644, w.uid)
		}
		seen["v1.0.0"] = true
		for _, t := range tags {
			seen[t] = true
		}
	}
	core.Harness("user", func() {
		env := func(p *core.Proc) { p.Env["GRAY_COMPILER_PATH"] = "/opt/grayc" }
		run := func(v string, c []string) *core.Proc {
			p := w.grayAs(v, c...)
			env(p)
			return p
		}
		wants := map[string]want{}
		n := 2 + core.Op(8)
		plan := make([]int, n)
		for i := range plan {
			plan[i] = core.Op(len(cmds))
			c := cmds[plan[i]]
			k := strings.Join(c, " ")
			if _, ok := wants[k]; !ok {
				p := run("dev", c)
				p.Wait()
				wants[k] = want{string(p.Stdout), string(p.Stderr), p.Code, p.Ended - p.Started}
			}
		}
		if len(s.NetLog) != 0 {
			core.Fail("dev-asks", "a development build asked the network: %s", s.NetLog[0].URL)
		}
		setup()
		faulty = core.Cfg(3) != 0
		kills := core.Cfg(6) == 1
		if core.Cfg(4) == 1 {
			diskFaults = true
			oneFault("open", "read", "short_read", "write", "short_write", "close", "rename", "mkdir", "stat", "sync", "chmod", "unlink")
		}
		asked := map[string]int{} // by date
		for i := 0; i < n; i++ {
			c := cmds[plan[i]]
			k := strings.Join(c, " ")
			nlog, d0 := len(s.NetLog), span()
			lastReply = nil
			var cached []byte
			if x, ok := f.Read(cache); ok && (writable || w.uid == 0) {
				cached = x
			}
			p := run(own, c)
			killed := false
			if kills && core.Cfg(3) == 1 {
				p.KillAt = 1 + core.Cfg(40)
				killed = true
			}
			var p2 *core.Proc
			if core.Op(5) == 1 {
				core.Sleep(int64(core.Op(900)) * ms)
				p2 = run(own, []string{"man", "println"})
			}
			p.Wait()
			if p2 != nil {
				p2.Wait()
			}
			if p.Panic != "" {
				core.Fail("panic", "%q: %s", c, p.Panic)
			}
			reqs := len(s.NetLog) - nlog
			d1 := span()
			if reqs > 0 && !killed && p2 == nil && d0 == d1 && writable && !diskFaults {
				asked[d0] += reqs
				if asked[d0] > 1 {
					core.Fail("asks-again", "the network was asked %d times on %s (cache now %q)", asked[d0], d0, cached)
				}
			}
			if p.Signal == 0 {
				wt := wants[k]
				out := string(p.Stdout)
				m := noteRE.FindStringSubmatch(out)
				core.Sampled(fmt.Sprintf("%s as %s: %d requests, note %q", k, own, reqs, m))
				if m != nil {
					out = out[len(m[0]):]
					core.Probe("note")
					if m[2] != own {
						core.Fail("note-own", "the note gives %s for the running version %s", m[2], own)
					}
					if is, known := newer(m[1], own); known && !is {
						core.Fail("note-not-newer", "version %s recommends %s", own, m[1])
					}
					if !seen[m[1]] {
						core.Fail("note-invented", "version %s recommends %s, which nobody published", own, m[1])
					}
				}
				exOut := out != wt.out || string(p.Stderr) != wt.err || p.Code != wt.code
				if exOut && !(diskFaults && k != "man println" && k != "nosuch" && k != "man no-such-name") {
					core.Fail("command-changed", "%q as %s: exit %d stdout %q stderr %q; without the update check exit %d stdout %q stderr %q", c, own, p.Code, out, p.Stderr, wt.code, wt.out, wt.err)
				}
				if d := p.Ended - p.Started; d > wt.dur+2500*ms {
					core.Fail("delayed", "%q took %.2f s, %.2f s without the update check", c, float64(d)/1e9, float64(wt.dur)/1e9)
				}
				if reqs == 1 && p2 == nil && lastReply != nil {
					if is, known := newer(lastReply[0], own); known && is && m == nil {
						core.Fail("note-missing", "version %s was told of %s and did not say so", own, lastReply[0])
					}
				}
			}
			switch core.Op(4) {
			case 0:
				core.Sleep(int64(core.Op(3600)) * sec)
			case 1:
				core.Sleep(int64(core.Op(3)) * day)
			case 2:
				if core.Op(3) == 1 { // the clock is set
					s.Epoch += int64(core.Op(11)-5) * day / 2
					asked = map[string]int{} // only the last date is remembered
				}
			}
		}
		core.End()
	})
	return nil
}

var lastReply []string

func c28decide() func() {
	s := core.S
	w := newWorld()
	core.ChooseSched()
	own := ownTags[core.Cfg(len(ownTags))]
	if core.Cfg(3) == 1 {
		own = devTags[core.Cfg(len(devTags))]
	}
	w.place(own, 1000)
	w.uid, w.home = 0, "/root"
	var rels []*release
	have := map[string]*release{}
	for i, n := 0, core.Cfg(7); i < n; i++ {
		t := tags[core.Cfg(len(tags))]
		if have[t] != nil {
			continue
		}
		m := semverRE.FindStringSubmatch(t)
		r := mkRelease(t, m[4] != "", 500+core.Cfg(1000))
		have[t] = r
		rels = append(rels, r)
	}
	faulty := core.Cfg(3) == 1
	s.Net = func() func(*core.NetReq) *core.NetResp {
		g := serve(rels, func(string) bool { return faulty && core.NetC(2) == 1 })
		return func(q *core.NetReq) *core.NetResp {
			if !trusted(q.URL) {
				core.Fail("untrusted", "asked %s", q.URL)
			}
			return g(q)
		}
	}()
	core.Harness("user", func() {
		for i := 0; i < 1+core.Op(2); i++ {
			run := own
			if b, ok := s.FS.Read(w.bin); ok {
				run, _ = binVersion(b)
			}
			var args []string
			exact := ""
			switch core.Op(5) {
			case 0:
				args = []string{"update"}
			case 1:
				args = []string{"update", "--pre"}
			case 2, 3:
				exact = tags[core.Op(len(tags))]
				if core.Op(3) == 1 {
					exact = strings.TrimPrefix(exact, "v")
				}
				if core.Op(6) == 1 {
					exact = []string{"v2", "2.0", "latest", "v2.0.0.1", "2.x", "", "v2.0.0-", "*", "1.2", "vv1.2.3"}[core.Op(10)]
				}
				args = []string{"install", exact}
			case 4:
				args = []string{"version"}
			}
			p := w.grayAs(run, args...)
			yes := core.Op(4) != 1
			p.Stdin = []byte("y\n")
			if !yes {
				p.Stdin = []byte([]string{"n\n", "", "\n", "maybe\n"}[core.Op(4)])
			}
			p.Wait()
			if p.Panic != "" {
				core.Fail("panic", "%q: %s", args, p.Panic)
			}
			b, ok := s.FS.Read(w.bin)
			if !ok {
				core.Fail("gone", "the command is gone")
				core.End()
			}
			now, _ := binVersion(b)
			out := string(p.Stdout)
			core.Sampled(fmt.Sprintf("%s %q -> %s (exit %d)", run, args, now, p.Code))
			offers := []string{}
			if m := noteRE.FindStringSubmatch(out); m != nil {
				offers = append(offers, m[1])
			}
			for _, l := range strings.Split(out, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "Latest ") && (strings.Contains(l, "update available") || strings.Contains(l, "← run")) {
					offers = append(offers, strings.Fields(l[strings.Index(l, ":")+1:])[0])
				}
				if t, ok := strings.CutPrefix(l, "Upgrade to "); ok {
					offers = append(offers, t[:strings.Index(t, "?")])
				}
			}
			for _, o := range offers {
				if is, known := newer(o, run); known && !is {
					core.Fail("offers-not-newer", "%q at version %s offers %s: %q", args, run, o, out)
				}
			}
			if now == run {
				if !faulty && exact != "" && p.Code == 0 && have["v"+strings.TrimPrefix(exact, "v")] == nil && have[strings.TrimPrefix(exact, "v")] == nil {
					core.Fail("install-nothing", "%q succeeded but there is no such release", args)
				}
				if !faulty && exact == "" && args[0] == "update" && yes && strings.Contains(out, "Upgrade to") {
					core.Fail("not-installed", "%q at %s did not install: %q %q", args, run, out, p.Stderr)
				}
				continue
			}
			core.Probe("installed")
			r := have[now]
			switch {
			case args[0] == "version":
				core.Fail("version-installs", "gray version replaced the command")
			case exact != "":
				if strings.TrimPrefix(now, "v") != strings.TrimPrefix(exact, "v") {
					core.Fail("other-version", "%q installed %s", args, now)
				}
			default:
				if is, known := newer(now, run); known && !is {
					core.Fail("installs-not-newer", "%q at version %s installed %s", args, run, now)
				}
				if !yes {
					core.Fail("not-confirmed", "%q installed %s though the user answered %q", args, now, p.Stdin)
				}
				if r == nil || r.pre != (len(args) == 2) {
					core.Fail("other-channel", "%q installed %s", args, now)
				}
				best := ""
				for _, x := range rels {
					if x.pre == r.pre && (best == "" || semCmp(x.tag, best) > 0) {
						best = x.tag
					}
				}
				if semCmp(best, now) != 0 {
					core.Fail("not-latest", "%q installed %s, the latest is %s", args, now, best)
				}
			}
		}
		core.End()
	})
	return nil
}

func c28url() func() {
	s := core.S
	w := newWorld()
	core.ChooseSched()
	w.place("v1.2.3", 1000)
	w.uid, w.home = 0, "/root"
	asset := "gray-" + runtime.GOOS + "-" + runtime.GOARCH + ".tar.gz"
	bad := []string{
		"http://github.com" + ghPath + "v2.0.0/" + asset,
		"https://github.com.evil.example" + ghPath + "v2.0.0/" + asset,
		"https://evil.example" + ghPath + "v2.0.0/" + asset,
		"https://github.com" + ghPath + "../../../../evil/x/releases/download/v2.0.0/" + asset,
		"https://github.com" + ghPath + "%2e%2e/%2e%2e/%2e%2e/%2e%2e/evil/x/releases/download/v2.0.0/" + asset,
		"https://github.com" + ghPath + "v2.0.0/..%2f..%2f..%2f..%2f..%2fevil/x/" + asset,
		"https://github.com" + ghPath + "../../archive/" + asset,
		"https://github.com/evil/x/releases/download/v2.0.0/" + asset,
		"https://github.com/grayscale-lang/grayscale-evil/releases/download/v2.0.0/" + asset,
		"https://github.com/grayscale-lang/grayscale/releases/downloads/" + asset,
		"https://github.com/x" + ghPath + "v2.0.0/" + asset,
		"https://github.com@evil.example" + ghPath + "v2.0.0/" + asset,
		"https://evil.example/?https://github.com" + ghPath + "v2.0.0/" + asset,
		"https://evil.example#https://github.com" + ghPath + "v2.0.0/" + asset,
		"https://github.com:8443" + ghPath + "v2.0.0/" + asset,
		"https://raw.github.com" + ghPath + "v2.0.0/" + asset,
		"ftp://github.com" + ghPath + "v2.0.0/" + asset,
		"file://github.com" + ghPath + "v2.0.0/" + asset,
		"//github.com" + ghPath + "v2.0.0/" + asset,
		"github.com" + ghPath + "v2.0.0/" + asset,
		"https://github.com" + ghPath + "v2.0.0/..\\..\\..\\..\\evil",
		"", " ", "\x00", "https://", "-",
	}
	u := bad[core.Cfg(len(bad))]
	r := mkRelease("v2.0.0", false, 900)
	good := core.Cfg(4) == 1
	loc := ""
	if good { // a trusted address that leads on to another place
		u = r.url
		loc = []string{"http://objects.githubusercontent.com/v2.0.0", "http://evil.example/v2.0.0", "ftp://github.com/x", "https://objects.githubusercontent.com/v2.0.0"}[core.Cfg(4)]
	}
	r.url = u
	s.Net = func(q *core.NetReq) *core.NetResp {
		if strings.HasPrefix(q.URL, api) {
			return serve([]*release{r}, nil)(q)
		}
		if !trusted(q.URL) {
			core.Fail("untrusted", "asked %s", q.URL)
		}
		if q.URL == u && loc != "" {
			return &core.NetResp{Status: 302, Header: map[string]string{"Location": loc}, CutAt: -1, StallAt: -1}
		}
		return ok200(r.arch)
	}
	core.Harness("user", func() {
		args := [][]string{{"update"}, {"install", "2.0.0"}, {"update", "--confirm", u}, {"update", "--confirm", "--", u}}[core.Op(4)]
		p := w.gray(args...)
		p.Stdin = []byte("y\n")
		p.Wait()
		b, _ := s.FS.Read(w.bin)
		core.Sampled(fmt.Sprintf("%q from %q (redirect %q): exit %d", args, u, loc, p.Code))
		if p.Panic != "" {
			core.Fail("panic", "%q: %s", args, p.Panic)
		}
		if !good || !strings.HasPrefix(loc, "https") {
			if string(b) != string(w.old) {
				core.Fail("untrusted-install", "%q installed what %q (%s) gave", args, u, loc)
			}
			if p.Code == 0 {
				core.Fail("untrusted-success", "%q succeeded with the release at %q (%s): %q", args, u, loc, p.Stdout)
			}
		} else if p.Code != 0 || string(b) == string(w.old) {
			core.Fail("trusted-refused", "%q did not install from %s by way of %s: %q", args, u, loc, p.Stderr)
		}
		core.End()
	})
	return nil
}
