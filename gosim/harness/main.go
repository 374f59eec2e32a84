// simrun (command-line tool): many seeded runs in worker processes; minimisation; replay; statistics.
package main

import (
	"bufio"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

type Scenario struct {
	Name, Prop string
	Weight     int
	Setup      func() func() // prepares the world; the returned function checks the finished run
}

var scenarios []*Scenario

func scen(prop, name string, weight int, f func() func()) {
	scenarios = append(scenarios, &Scenario{name, prop, weight, f})
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

type Result struct {
	Verdict                 int // 0 fine, 1 violation, 2 error
	Class, Msg              string
	Hash, Sched             uint64
	Steps, Switches, Points uint64
	Events                  uint64
	SimNS                   int64
	Trace                   []core.Choice
	Faults                  map[string]core.FaultStat
	Probes                  map[string]uint64
	Sample                  string
	Lines                   []string
}

var verbose bool

func runOne(sc *Scenario, seed uint64, rep []core.Choice, replaying bool) *Result {
	if replaying && rep == nil {
		rep = []core.Choice{}
	}
	if !replaying {
		rep = nil
	}
	s := core.New(seed, rep)
	core.S = s
	s.Log = verbose
	r := &Result{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Verdict, r.Msg = 2, fmt.Sprintf("harness panic: %v\n%s", e, debug.Stack())
			}
		}()
		post := sc.Setup()
		s.Run()
		if s.Viol == nil && s.Truncated() {
			core.Fail("no-progress", "the run did not come to an end: %s", s.Blocked())
		}
		if s.Viol == nil && post != nil {
			post()
		}
	}()
	if s.Viol != nil {
		r.Verdict, r.Class, r.Msg = 1, s.Viol.Class, s.Viol.Msg
		if s.Viol.Class == "harness-panic" {
			r.Verdict = 2
		}
	}
	r.Hash, r.Sched, r.Steps, r.Switches, r.Points, r.Events, r.SimNS, r.Trace = s.Hash(), s.SchedHash(), s.Steps, s.Switches, s.Points, s.Events, core.Now(), s.Trace
	r.Faults = map[string]core.FaultStat{}
	for k, f := range s.Faults {
		r.Faults[k] = *f
	}
	r.Probes, r.Sample, r.Lines = s.Probes, strings.Join(s.Sample, " | "), s.Lines
	return r
}

type ScenStat struct{ Runs, OK, Known uint64 }
type FStat struct{ Fired, Runs, Opp uint64 }
type Stats struct {
	Runs, Nontrivial, Steps, Switches, Points, Events, MaxSteps uint64
	SimNS, MaxSim                                               int64
	HSched, HAll, HNT                                           []uint64
	Faults                                                      map[string]FStat
	Probes, PRuns                                               map[string]uint64
	Scen                                                        map[string]ScenStat
	Known                                                       []uint64
	Samples                                                     []string
	Det                                                         map[uint64]uint64
	Found                                                       *Result
	FoundSeed                                                   uint64
	FoundScen                                                   string
	Err                                                         string
}

type known struct{ prop, scen, cls, sub, text string }

var (
	prop, scenOnly, outFile, replayFile, knownFile string
	replayDir                                             = "."
	baseSeed                                       uint64 = 1
	maxRuns                                        uint64 = 1 << 60
	timeBudget                                            = 20.0
	workers                                               = 8
	detK                                           uint64 = 16
	minBudget                                             = 40.0
	doMin                                                 = true
	active                                         []*Scenario
	wsum                                           int
	knowns                                         []known
)

func seedOf(i uint64) uint64 { return mix(baseSeed*0x100000001+i) >> 1 }
func scenOf(seed uint64) *Scenario {
	h := int(mix(seed^0x5ce9a110) % uint64(wsum))
	for _, s := range active {
		if h < s.Weight {
			return s
		}
		h -= s.Weight
	}
	return active[0]
}
func matchKnown(sc *Scenario, r *Result) int {
	for i, k := range knowns {
		if k.prop == prop && (k.scen == "*" || k.scen == sc.Name) && k.cls == r.Class && (k.sub == "" || k.sub == "*" || strings.Contains(r.Msg, k.sub)) {
			return i
		}
	}
	return -1
}

func worker(w int) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	var stop atomic.Bool
	go func() {
		b := make([]byte, 1)
		os.Stdin.Read(b)
		stop.Store(true)
	}()
	var cur, since atomic.Uint64
	go func() {
		for {
			time.Sleep(time.Second)
			if t := since.Load(); t != 0 && uint64(time.Now().Unix())-t > 90 {
				fmt.Fprintf(os.Stderr, "worker: run with seed %d does not end (real time)\n", cur.Load())
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(4)
			}
		}
	}()
	end := time.Now().Add(time.Duration(timeBudget * 1e9))
	st := &Stats{Faults: map[string]FStat{}, Probes: map[string]uint64{}, PRuns: map[string]uint64{}, Scen: map[string]ScenStat{}, Known: make([]uint64, len(knowns)), Det: map[uint64]uint64{}}
	hs, ha, hn := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	for i := uint64(w); i < maxRuns; i += uint64(workers) {
		if stop.Load() || time.Now().After(end) {
			break
		}
		seed := seedOf(i)
		sc := scenOf(seed)
		cur.Store(seed)
		since.Store(uint64(time.Now().Unix()))
		r := runOne(sc, seed, nil, false)
		st.Runs++
		st.Steps += r.Steps
		st.Switches += r.Switches
		st.Points += r.Points
		st.Events += r.Events
		st.SimNS += r.SimNS
		st.MaxSteps = max(st.MaxSteps, r.Points)
		st.MaxSim = max(st.MaxSim, r.SimNS)
		any := false
		for k, f := range r.Faults {
			x := st.Faults[k]
			x.Fired += f.Fired
			x.Opp += f.Opp
			if f.Fired > 0 {
				x.Runs++
				any = true
			}
			st.Faults[k] = x
		}
		for k, n := range r.Probes {
			st.Probes[k] += n
			st.PRuns[k]++
		}
		hs[r.Sched], ha[r.Hash] = true, true
		if r.Switches > 1 || any {
			st.Nontrivial++
			hn[r.Hash] = true
			if r.Sample != "" && len(st.Samples) < 1 && i%7 == 0 {
				st.Samples = append(st.Samples, fmt.Sprintf("seed %d scenario %s: %.2800s", seed, sc.Name, r.Sample))
			}
		}
		if i < detK {
			st.Det[i] = r.Hash ^ uint64(r.Verdict)
		}
		x := st.Scen[sc.Name]
		x.Runs++
		if r.Verdict == 0 {
			x.OK++
		}
		if r.Verdict == 1 {
			if k := matchKnown(sc, r); k >= 0 {
				st.Known[k]++
				x.Known++
				st.Scen[sc.Name] = x
				continue
			}
		}
		st.Scen[sc.Name] = x
		if r.Verdict == 2 {
			st.Err = fmt.Sprintf("%s (seed %d scenario %s)", r.Msg, seed, sc.Name)
			break
		}
		if r.Verdict == 1 {
			st.Found, st.FoundSeed, st.FoundScen = r, seed, sc.Name
			break
		}
	}
	since.Store(0)
	for h := range hs {
		st.HSched = append(st.HSched, h)
	}
	for h := range ha {
		st.HAll = append(st.HAll, h)
	}
	for h := range hn {
		st.HNT = append(st.HNT, h)
	}
	bw := bufio.NewWriter(os.Stdout)
	gob.NewEncoder(bw).Encode(st)
	bw.Flush()
}

var replays int

func reproduces(sc *Scenario, seed uint64, cls string, t []core.Choice) *Result {
	replays++
	r := runOne(sc, seed, t, true)
	if r.Verdict == 1 && r.Class == cls {
		return r
	}
	return nil
}
func minimise(sc *Scenario, seed uint64, cls string, t []core.Choice) []core.Choice {
	end := time.Now().Add(time.Duration(minBudget * 1e9))
	n := 2
	for len(t) >= 1 && time.Now().Before(end) {
		chunk := (len(t) + n - 1) / n
		red := false
		for s := 0; s < len(t) && time.Now().Before(end); {
			e := min(len(t), s+chunk)
			c := append(append([]core.Choice{}, t[:s]...), t[e:]...)
			if reproduces(sc, seed, cls, c) != nil {
				t, red = c, true
				n = max(n-1, 2)
			} else {
				s = e
			}
		}
		if !red {
			if chunk <= 1 {
				break
			}
			n = min(n*2, len(t))
		} else if chunk > 1 {
			n = max(2, min(len(t), (len(t)+chunk-1)/chunk))
		}
	}
	for i := 0; i < len(t) && time.Now().Before(end); i++ {
		for _, v := range []uint64{1, t[i].Val / 2, t[i].Val - 1} {
			if v == 0 || v >= t[i].Val {
				continue
			}
			c := append([]core.Choice{}, t...)
			c[i].Val = v
			if reproduces(sc, seed, cls, c) != nil {
				t = c
				break
			}
		}
	}
	return t
}
func one(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\\", "\\\\"), "\n", "\\n")
}
func writeReplay(path string, sc *Scenario, seed uint64, traced bool, t []core.Choice, cls, msg string, orig int, sample string) {
	var b strings.Builder
	mode := "seed"
	if traced {
		mode = "trace"
	}
	fmt.Fprintf(&b, "simreplay 1\nproperty %s\nscenario %s\nseed %d\nclass %s\nmessage %s\nmode %s\noriginal_choices %d\n# %s\n# non-default decisions: <stream> <index in that stream> <value>; every other decision is the default 0\n", prop, sc.Name, seed, cls, one(msg), mode, orig, one(sample))
	if traced {
		for _, c := range t {
			fmt.Fprintf(&b, "c %s %d %d\n", core.StreamNames[c.Stream], c.Idx, c.Val)
		}
	}
	os.WriteFile(path, []byte(b.String()), 0o644)
}

func main() {
	os.Setenv("TZ", "UTC")
	time.Local = time.UTC
	var index uint64 = 1 << 62
	wk := -1
	list := false
	a := os.Args[1:]
	for i := 0; i < len(a); i++ {
		nx := func() string {
			i++
			if i >= len(a) {
				os.Exit(3)
			}
			return a[i]
		}
		nu := func() uint64 { v, _ := strconv.ParseUint(nx(), 10, 64); return v }
		nf := func() float64 { v, _ := strconv.ParseFloat(nx(), 64); return v }
		switch a[i] {
		case "--prop":
			prop = nx()
		case "--scen":
			scenOnly = nx()
		case "--dir":
			nx()
		case "--out":
			outFile = nx()
		case "--replays":
			replayDir = nx()
		case "--replay":
			replayFile = nx()
		case "--known":
			knownFile = nx()
		case "--seed":
			baseSeed = nu()
		case "--runs":
			maxRuns = nu()
		case "--time":
			timeBudget = nf()
		case "--workers":
			workers = int(nu())
		case "--det":
			detK = nu()
		case "--index":
			index = nu()
		case "--min-time":
			minBudget = nf()
		case "--no-min":
			doMin = false
		case "--worker":
			wk = int(nu())
		case "-v":
			verbose = true
		case "--list":
			list = true
		default:
			fmt.Fprintln(os.Stderr, "unknown argument", a[i])
			os.Exit(3)
		}
	}
	if list {
		for _, s := range scenarios {
			fmt.Println(s.Prop, s.Name)
		}
		return
	}
	var rseed uint64
	var rmode, rcls string
	var rtrace []core.Choice
	if replayFile != "" {
		b, err := os.ReadFile(replayFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) < 2 {
				continue
			}
			switch f[0] {
			case "property":
				prop = f[1]
			case "scenario":
				scenOnly = f[1]
			case "seed":
				rseed, _ = strconv.ParseUint(f[1], 10, 64)
			case "mode":
				rmode = f[1]
			case "class":
				rcls = f[1]
			case "c":
				c := core.Choice{}
				for k, n := range core.StreamNames {
					if n == f[1] {
						c.Stream = k
					}
				}
				c.Idx, _ = strconv.Atoi(f[2])
				c.Val, _ = strconv.ParseUint(f[3], 10, 64)
				rtrace = append(rtrace, c)
			}
		}
	}
	if knownFile != "" {
		b, _ := os.ReadFile(knownFile)
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Split(l, "\t"); len(f) >= 5 {
				knowns = append(knowns, known{f[0], f[1], f[2], f[3], f[4]})
			}
		}
	}
	for _, s := range scenarios {
		if s.Prop == prop && (scenOnly == "" || scenOnly == s.Name) {
			active = append(active, s)
			wsum += s.Weight
		}
	}
	if len(active) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for", prop, scenOnly)
		os.Exit(3)
	}
	if wk >= 0 {
		worker(wk)
		return
	}
	if replayFile != "" {
		r := runOne(active[0], rseed, rtrace, rmode == "trace")
		for _, l := range r.Lines {
			fmt.Println(l)
		}
		fmt.Printf("replay %s: verdict=%d class=%s hash=%016x steps=%d\n%s\n%s\n", replayFile, r.Verdict, r.Class, r.Hash, r.Points, r.Msg, r.Sample)
		if r.Verdict == 1 {
			if r.Class == rcls {
				fmt.Println("reproduced=yes")
			} else {
				fmt.Println("reproduced=different-class")
			}
		}
		os.Exit(r.Verdict)
	}
	if index != 1<<62 {
		seed := seedOf(index)
		sc := scenOf(seed)
		r := runOne(sc, seed, nil, false)
		for _, l := range r.Lines {
			fmt.Println(l)
		}
		fmt.Printf("index %d seed %d scenario %s verdict=%d class=%s hash=%016x steps=%d switches=%d simtime=%.6f trace=%d\n%s\n%s\n", index, seed, sc.Name, r.Verdict, r.Class, r.Hash, r.Points, r.Switches, float64(r.SimNS)/1e9, len(r.Trace), r.Msg, r.Sample)
		os.Exit(r.Verdict)
	}
	t0 := time.Now()
	all := make([]*Stats, workers)
	var wg sync.WaitGroup
	var ins []interface{ Close() error }
	var once sync.Once
	stopAll := func() {
		once.Do(func() {
			for _, c := range ins {
				c.Close()
			}
		})
	}
	var cmds []*exec.Cmd
	var outs []*bufio.Reader
	for w := 0; w < workers; w++ {
		args := append([]string{}, a...)
		args = append(args, "--worker", strconv.Itoa(w))
		c := exec.Command("/proc/self/exe", args...)
		c.Stderr = os.Stderr
		in, _ := c.StdinPipe()
		o, _ := c.StdoutPipe()
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		ins = append(ins, in)
		cmds = append(cmds, c)
		outs = append(outs, bufio.NewReader(o))
	}
	var bad atomic.Bool
	for w := range cmds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			st := &Stats{}
			if err := gob.NewDecoder(outs[w]).Decode(st); err != nil {
				bad.Store(true)
				stopAll()
			} else if st.Found != nil || st.Err != "" {
				stopAll()
			}
			if err := cmds[w].Wait(); err != nil {
				bad.Store(true)
			}
			all[w] = st
		}()
	}
	wg.Wait()
	wall := time.Since(t0).Seconds()
	if bad.Load() {
		fmt.Fprintln(os.Stderr, "a worker died")
		os.Exit(3)
	}
	T := &Stats{Faults: map[string]FStat{}, Probes: map[string]uint64{}, PRuns: map[string]uint64{}, Scen: map[string]ScenStat{}, Known: make([]uint64, len(knowns)), Det: map[uint64]uint64{}}
	hs, ha, hn := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	for _, st := range all {
		T.Runs += st.Runs
		T.Nontrivial += st.Nontrivial
		T.Steps += st.Steps
		T.Switches += st.Switches
		T.Points += st.Points
		T.Events += st.Events
		T.SimNS += st.SimNS
		T.MaxSteps = max(T.MaxSteps, st.MaxSteps)
		T.MaxSim = max(T.MaxSim, st.MaxSim)
		for _, h := range st.HSched {
			hs[h] = true
		}
		for _, h := range st.HAll {
			ha[h] = true
		}
		for _, h := range st.HNT {
			hn[h] = true
		}
		for k, f := range st.Faults {
			x := T.Faults[k]
			x.Fired += f.Fired
			x.Runs += f.Runs
			x.Opp += f.Opp
			T.Faults[k] = x
		}
		for k, n := range st.Probes {
			T.Probes[k] += n
		}
		for k, n := range st.PRuns {
			T.PRuns[k] += n
		}
		for k, n := range st.Scen {
			x := T.Scen[k]
			x.Runs += n.Runs
			x.OK += n.OK
			x.Known += n.Known
			T.Scen[k] = x
		}
		for k, n := range st.Known {
			T.Known[k] += n
		}
		T.Samples = append(T.Samples, st.Samples...)
		for k, h := range st.Det {
			T.Det[k] = h
		}
		if st.Err != "" && T.Err == "" {
			T.Err = st.Err
		}
		if st.Found != nil && (T.Found == nil || len(st.Found.Trace) < len(T.Found.Trace)) {
			T.Found, T.FoundSeed, T.FoundScen = st.Found, st.FoundSeed, st.FoundScen
		}
	}
	rc := 0
	if T.Err != "" && T.Found == nil {
		fmt.Fprintln(os.Stderr, "SIMULATION ERROR:", T.Err)
		rc = 2
	}
	var viol map[string]any
	var detChecked, detBad uint64
	if T.Found != nil {
		var sc *Scenario
		for _, s := range active {
			if s.Name == T.FoundScen {
				sc = s
			}
		}
		f := T.Found
		t := f.Trace
		traced := false
		msg, sample := f.Msg, f.Sample
		if reproduces(sc, T.FoundSeed, f.Class, t) != nil {
			traced = true
			if doMin {
				t = minimise(sc, T.FoundSeed, f.Class, t)
			}
			if r := reproduces(sc, T.FoundSeed, f.Class, t); r != nil {
				msg, sample = r.Msg, r.Sample
			} else {
				traced = false
			}
		}
		if !traced {
			if r := runOne(sc, T.FoundSeed, nil, false); r.Verdict != 1 || r.Class != f.Class {
				fmt.Fprintf(os.Stderr, "SIMULATION ERROR: violation of seed %d does not reproduce (%s: %s)\n", T.FoundSeed, f.Class, f.Msg)
				rc = 2
			}
		}
		rp := fmt.Sprintf("%s/%s-%s-%d.replay", replayDir, prop, sc.Name, T.FoundSeed)
		writeReplay(rp, sc, T.FoundSeed, traced, t, f.Class, msg, len(f.Trace), sample)
		if rc == 0 {
			rc = 1
			viol = map[string]any{"class": f.Class, "message": msg, "seed": T.FoundSeed, "replay": rp, "choices": len(t), "original_choices": len(f.Trace), "replays": replays}
		}
		fmt.Fprintf(os.Stderr, "class=%s seed=%d choices %d -> %d\n  %s\n  %s\n", f.Class, T.FoundSeed, len(f.Trace), len(t), msg, sample)
	} else if rc == 0 {
		var ks []uint64
		for k := range T.Det {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		d0 := time.Now()
		for _, k := range ks {
			seed := seedOf(k)
			r := runOne(scenOf(seed), seed, nil, false)
			detChecked++
			if r.Hash^uint64(r.Verdict) != T.Det[k] {
				detBad++
				fmt.Fprintf(os.Stderr, "SIMULATION ERROR: seed %d (index %d) did not repeat identically\n", seed, k)
				rc = 2
			}
			if time.Since(d0).Seconds() > 20 {
				break
			}
		}
	}
	if outFile != "" {
		faults, probes, sc := map[string]any{}, map[string]any{}, map[string]any{}
		for k, f := range T.Faults {
			faults[k] = map[string]uint64{"fired": f.Fired, "runs": f.Runs, "opportunities": f.Opp}
		}
		for k, n := range T.Probes {
			probes[k] = map[string]uint64{"hits": n, "runs": T.PRuns[k]}
		}
		for k, n := range T.Scen {
			sc[k] = map[string]uint64{"runs": n.Runs, "ok": n.OK, "known": n.Known}
		}
		kn := []any{}
		for i, k := range knowns {
			if k.prop == prop {
				kn = append(kn, map[string]any{"text": k.text, "hits": T.Known[i]})
			}
		}
		if T.Samples == nil {
			T.Samples = []string{}
		}
		m := map[string]any{"runs": T.Runs, "nontrivial": T.Nontrivial, "steps": T.Steps, "switches": T.Switches, "points": T.Points, "mem_points": 0, "sim_ns": T.SimNS, "events": T.Events, "distinct_schedules": len(hs), "distinct_executions": len(ha), "distinct_nontrivial": len(hn), "max_steps": T.MaxSteps, "max_sim_ns": T.MaxSim, "determinism_checked": detChecked, "determinism_mismatch": detBad, "base_seed": baseSeed, "wall_s": wall, "rc": rc, "faults": faults, "probes": probes, "scenarios": sc, "known": kn, "samples": T.Samples}
		if viol != nil {
			m["violation"] = viol
		}
		b, _ := json.Marshal(m)
		os.WriteFile(outFile, b, 0o644)
	}
	fmt.Fprintf(os.Stderr, "runs=%d in %.1fs (%.0f/s) steps=%d distinct=%d/%d sim=%.1fs rc=%d\n", T.Runs, wall, float64(T.Runs)/wall, T.Points, len(hs), len(ha), float64(T.SimNS)/1e9, rc)
	os.Exit(rc)
}
