// Driver: many seeded runs, one forked child each; minimisation; replay; statistics.
#include "sim.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <sstream>
#include <iostream>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <ucontext.h>
#include <unistd.h>
#include <time.h>

extern void heap_init(); extern void choices_init(u64); extern void choices_replay(const std::vector<TraceEnt> &); extern void fs_init(); extern void set_scenario(Scenario *);
[[noreturn]] extern void run_scheduler_from_main(); extern "C" const char *pc_name(void *, char *, size_t);
static std::string prop, scen_only, mods_dir = ".", out_file, replay_dir = ".", replay_file, known_file; static u64 base_seed = 1, max_runs = 1000000000ull, one_index = ~0ull; static double time_budget = 20; static int workers = 8; static u64 det_k = 16; static bool do_min = true; static int min_budget_s = 40;
static double rt() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

// ---------------------------------------------------------------- modules
static std::map<std::string, std::vector<void*>> mod_inst; static std::map<std::string, size_t> mod_next;
static void preload(const std::string &so, size_t n) {
  auto &v = mod_inst[so];
  while (v.size() < n) {
    std::string src = mods_dir + "/" + so, p = src;
    if (!v.empty()) { p = src + "." + std::to_string(v.size()) + ".inst"; std::ifstream i(src, std::ios::binary); std::ofstream o(p + std::to_string(getpid()), std::ios::binary); o << i.rdbuf(); o.close(); p += std::to_string(getpid()); }
    void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
    if (p != src) unlink(p.c_str());
    v.push_back(h);
  }
}
void *load_module(const std::string &so) { auto &v = mod_inst[so]; size_t k = mod_next[so]++; if (k >= v.size()) sim_error("module %s has only %zu instances", so.c_str(), v.size()); return v[k]; }

// ---------------------------------------------------------------- shared state
struct ScenStat { u64 runs, ok, viol, known; };
const int NSCEN = 128; const u64 HS = 1ull << 23;
struct Shared {
  std::atomic<int> stop; std::atomic<int> found; std::atomic<int> errored;
  std::atomic<u64> runs, nontrivial, steps, switches, points, simtime, events, mempts, distinct_sched, distinct_all, distinct_nt, maxsteps, maxsim;
  std::atomic<u64> faults[F_N], felig[F_N], fruns[F_N], probes[NPROBE], pruns[NPROBE]; ScenStat scen[NSCEN];
  u64 det_hash[4096]; int det_set[4096];
  u64 found_seed; int found_scen; char errmsg[1600]; u64 err_seed; int err_scen; std::atomic<int> nsamples; char samples[8][3000];
  std::atomic<u64> known_hits[64];
  std::atomic<u64> hset[3][HS];
};
static Shared *S; static RunResult *foundR;
static bool hs_insert(int w, u64 h) { if (!h) h = 1; u64 i = mix(h) & (HS - 1); for (int k = 0; k < 64; k++) { u64 e = S->hset[w][i].load(); if (e == h) return false; if (!e) { if (S->hset[w][i].compare_exchange_strong(e, h)) return true; if (e == h) return false; } i = (i + 1) & (HS - 1); } return true; }
struct Known { std::string prop, scen, cls, sub, text; }; static std::vector<Known> known;
static int match_known(const Scenario &sc, const RunResult *r) { for (size_t i = 0; i < known.size(); i++) { auto &k = known[i]; if (k.prop != prop) continue; if (k.scen != "*" && k.scen != sc.name) continue; if (k.cls != r->cls) continue; if (!k.sub.empty() && k.sub != "*" && !strstr(r->msg, k.sub.c_str())) continue; return (int)i; } return -1; }

// ---------------------------------------------------------------- one run
static void on_sig(int sig, siginfo_t *si, void *uc) {
  char pb[200]; void *pc = (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP]; u64 a = (u64)si->si_addr;
  const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGABRT"; const char *d = "";
  if (sig == SIGSEGV && cur && cur->stack && a >= (u64)cur->stack && a < (u64)cur->stack + 8192) d = " (stack overflow)"; else if (sig == SIGSEGV && a < 65536) d = " (NULL dereference)";
  violation("crash", "%s%s in thread %d %s, address %s pc=%s", n, d, cur ? cur->id : -1, cur ? cur->name.c_str() : "", a < 65536 ? "near 0" : "wild", pc_name(pc, pb, sizeof pb));
}
static std::vector<const Scenario *> active; static std::vector<int> active_idx; static u64 wsum = 0;
static int scen_of(u64 seed) { u64 h = mix(seed ^ 0x5ce9a110ull) % wsum; for (size_t i = 0; i < active.size(); i++) { if (h < active[i]->weight) return (int)i; h -= active[i]->weight; } return 0; }
void sample_add(const char *fmt, ...) { size_t n = strlen(R->sample); if (n + 2 >= sizeof R->sample) return; va_list ap; va_start(ap, fmt); vsnprintf(R->sample + n, sizeof R->sample - n, fmt, ap); va_end(ap); }
static void child_run(Scenario *sc, u64 seed, const std::vector<TraceEnt> *rep) {
  static char alt[262144]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 60; setitimer(ITIMER_REAL, &it, nullptr);
  choices_init(seed); if (rep) choices_replay(*rep);
  fs_init(); set_scenario(sc);
  sc->setup();
  run_scheduler_from_main();
}
static void clear_result() { size_t n = offsetof(RunResult, trace); memset(R, 0, n); }
static void run_one(Scenario *sc, u64 seed, const std::vector<TraceEnt> *rep) {
  clear_result(); fflush(nullptr);
  pid_t p = fork(); if (p < 0) { snprintf(R->msg, sizeof R->msg, "fork failed: %s", strerror(errno)); R->verdict = V_ERROR; return; }
  if (p == 0) { child_run(sc, seed, rep); _exit(99); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (R->verdict == V_NONE) { R->verdict = V_ERROR; snprintf(R->msg, sizeof R->msg, "run child ended without a verdict: status 0x%x%s", st, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? " (real-time watchdog)" : ""); }
}
static void account(const Scenario *sc, int si, u64 idx) {
  (void)sc; S->runs++; S->steps += R->steps; S->switches += R->switches; S->points += R->points; S->simtime += R->simtime; S->events += R->evcount; S->mempts += R->mempts;
  u64 m = S->maxsteps; while (R->steps > m && !S->maxsteps.compare_exchange_weak(m, R->steps)) {}
  m = S->maxsim; while (R->simtime > m && !S->maxsim.compare_exchange_weak(m, R->simtime)) {}
  bool anyf = false; for (int i = 0; i < F_N; i++) { if (R->faults[i]) { S->faults[i] += R->faults[i]; S->fruns[i]++; anyf = true; } S->felig[i] += R->fault_elig[i]; }
  for (int i = 0; i < NPROBE; i++) if (R->probes[i]) { S->probes[i] += R->probes[i]; S->pruns[i]++; }
  if (hs_insert(0, R->hash_sched)) S->distinct_sched++;
  if (hs_insert(1, R->hash_all)) S->distinct_all++;
  if (R->switches > 1 || anyf) { S->nontrivial++; if (hs_insert(2, R->hash_all)) S->distinct_nt++; }
  __atomic_add_fetch(&S->scen[si].runs, 1, __ATOMIC_RELAXED); if (R->verdict == V_OK) __atomic_add_fetch(&S->scen[si].ok, 1, __ATOMIC_RELAXED);
  if (R->sample[0] && (R->switches > 1 || anyf) && S->nsamples < 8 && (idx % 7 == 0)) { int k = S->nsamples++; if (k < 8) snprintf(S->samples[k], sizeof S->samples[k], "seed %llu scenario %s: %.2800s", (unsigned long long)run_seed, sc->name, R->sample); }
}
static u64 seed_of(u64 idx) { return mix(base_seed * 0x100000001ull + idx) >> 1; }
static void worker(int w, double t_end) {
  for (u64 i = w; i < max_runs; i += workers) {
    if (S->stop || rt() > t_end) break;
    u64 seed = seed_of(i); int ai = scen_of(seed); Scenario *sc = (Scenario *)active[ai]; int si = active_idx[ai];
    run_one(sc, seed, nullptr); run_seed = seed; account(sc, si, i);
    if (i < det_k) { S->det_hash[i] = R->hash_all ^ (u64)R->verdict; S->det_set[i] = 1; }
    if (R->verdict == V_ERROR) { int z = 0; if (S->errored.compare_exchange_strong(z, 1)) { snprintf(S->errmsg, sizeof S->errmsg, "%s", R->msg); S->err_seed = seed; S->err_scen = ai; S->stop = 1; } break; }
    if (R->verdict == V_VIOLATION) {
      int k = match_known(*sc, R); if (k >= 0) { if (k < 64) S->known_hits[k]++; __atomic_add_fetch(&S->scen[si].known, 1, __ATOMIC_RELAXED); continue; }
      __atomic_add_fetch(&S->scen[si].viol, 1, __ATOMIC_RELAXED);
      int z = 0; if (S->found.compare_exchange_strong(z, 1)) { S->found_seed = seed; S->found_scen = ai; memcpy(foundR, R, sizeof *R); S->stop = 1; } break;
    }
  }
  _exit(0);
}
// ---------------------------------------------------------------- minimisation and replay files
static int replays_done = 0; static std::string want_cls;
static bool reproduces(Scenario *sc, u64 seed, const std::vector<TraceEnt> &t) { replays_done++; run_one(sc, seed, &t); return R->verdict == V_VIOLATION && want_cls == R->cls; }
static std::vector<TraceEnt> minimise(Scenario *sc, u64 seed, std::vector<TraceEnt> t) {
  double end = rt() + min_budget_s; size_t n = 2;
  while (t.size() >= 1 && rt() < end) {
    size_t chunk = (t.size() + n - 1) / n; bool red = false;
    for (size_t s = 0; s < t.size() && rt() < end; ) {
      std::vector<TraceEnt> c(t.begin(), t.begin() + s); size_t e = std::min(t.size(), s + chunk); c.insert(c.end(), t.begin() + e, t.end());
      if (reproduces(sc, seed, c)) { t = c; red = true; n = std::max<size_t>(n - 1, 2); } else s = e;
    }
    if (!red) { if (chunk <= 1) break; n = std::min(n * 2, t.size()); } else if (chunk > 1) n = std::max<size_t>(2, std::min(t.size(), (t.size() + chunk - 1) / chunk));
    if (t.empty()) break;
  }
  for (size_t i = 0; i < t.size() && rt() < end; i++) { // smaller values
    for (u32 v : {1u, t[i].val / 2, t[i].val - 1}) { if (v == 0 || v >= t[i].val) continue; auto c = t; c[i].val = v; if (reproduces(sc, seed, c)) { t = c; break; } }
  }
  return t;
}
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void write_replay(const std::string &path, Scenario *sc, u64 seed, const std::vector<TraceEnt> *t, const char *cls, const char *msg, size_t orig, const char *sample) {
  std::ofstream o(path); o << "simreplay 1\nproperty " << prop << "\nscenario " << sc->name << "\nseed " << seed << "\nclass " << cls << "\nmessage " << jesc(msg) << "\nmode " << (t ? "trace" : "seed") << "\noriginal_choices " << orig << "\n";
  o << "# " << jesc(sample) << "\n# non-default decisions: <stream> <index in that stream> <value>; every other decision is the default 0\n";
  if (t) for (auto &e : *t) o << "c " << stream_names[e.stream] << " " << e.idx << " " << e.val << "\n";
}
static int stream_by(const std::string &n) { for (int i = 0; i < ST_N; i++) if (n == stream_names[i]) return i; return -1; }

int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (!(pers & ADDR_NO_RANDOMIZE)) { if (personality(pers | ADDR_NO_RANDOMIZE) >= 0 && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  unsetenv("SIM_REEXEC"); setenv("TZ", "UTC", 1); tzset();
  bool want_list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { if (i + 1 >= argc) exit(3); return argv[++i]; };
    if (a == "--prop") prop = nx(); else if (a == "--scen") scen_only = nx(); else if (a == "--mods") mods_dir = nx(); else if (a == "--out") out_file = nx(); else if (a == "--replays") replay_dir = nx(); else if (a == "--replay") replay_file = nx(); else if (a == "--known") known_file = nx();
    else if (a == "--seed") base_seed = strtoull(nx().c_str(), 0, 10); else if (a == "--runs") max_runs = strtoull(nx().c_str(), 0, 10); else if (a == "--time") time_budget = atof(nx().c_str()); else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--det") det_k = strtoull(nx().c_str(), 0, 10); else if (a == "--index") one_index = strtoull(nx().c_str(), 0, 10); else if (a == "-v") verbose = true; else if (a == "--no-min") do_min = false; else if (a == "--min-time") min_budget_s = atoi(nx().c_str()); else if (a == "--list") want_list = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  if (want_list) { for (auto &s : scenarios()) printf("%s %s %s\n", s.prop, s.name, s.guests.empty() ? "-" : s.guests[0]); return 0; }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  heap_init();
  R = (RunResult *)mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); foundR = (RunResult *)mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  u64 rseed = 0; std::string rmode; std::vector<TraceEnt> rtrace; std::string rcls;
  if (!replay_file.empty()) {
    std::ifstream f(replay_file); std::string l; if (!f) { fprintf(stderr, "cannot read %s\n", replay_file.c_str()); return 3; }
    while (std::getline(f, l)) { std::istringstream is(l); std::string k; is >> k; if (k == "property") is >> prop; else if (k == "scenario") is >> scen_only; else if (k == "seed") is >> rseed; else if (k == "mode") is >> rmode; else if (k == "class") is >> rcls; else if (k == "c") { std::string s; TraceEnt e; is >> s >> e.idx >> e.val; e.stream = stream_by(s); rtrace.push_back(e); } }
  }
  if (!known_file.empty()) { std::ifstream f(known_file); std::string l; while (std::getline(f, l)) { std::vector<std::string> p; std::string c; for (char ch : l) { if (ch == '\t') { p.push_back(c); c.clear(); } else c += ch; } p.push_back(c); if (p.size() >= 5) known.push_back({p[0], p[1], p[2], p[3], p[4]}); } }
  std::map<std::string, size_t> need; for (size_t i = 0; i < scenarios().size(); i++) { auto &s = scenarios()[i]; if (prop != s.prop) continue; if (!scen_only.empty() && scen_only != s.name) continue; active.push_back(&s); active_idx.push_back((int)i); wsum += s.weight; std::map<std::string, size_t> n; for (auto g : s.guests) n[g]++; for (auto &kv : n) need[kv.first] = std::max(need[kv.first], kv.second); }
  if (active.empty()) { fprintf(stderr, "no scenario for %s %s\n", prop.c_str(), scen_only.c_str()); return 3; }
  for (auto &kv : need) preload(kv.first, kv.second);
  { extern u64 mod_lo, mod_hi; mod_lo = ~0ull; std::ifstream f("/proc/self/maps"); std::string l; while (std::getline(f, l)) { if (l.find(".so") == std::string::npos || (l.find(mods_dir) == std::string::npos && l.find(".inst") == std::string::npos)) continue; u64 a, b; if (sscanf(l.c_str(), "%llx-%llx", (unsigned long long *)&a, (unsigned long long *)&b) == 2) { mod_lo = std::min(mod_lo, a); mod_hi = std::max(mod_hi, b); } } mod_hi += 1 << 20; }
  if (!replay_file.empty()) {
    Scenario *sc = (Scenario *)active[0]; std::vector<TraceEnt> *t = rmode == "trace" ? &rtrace : nullptr; run_one(sc, rseed, t);
    printf("replay %s: verdict=%d class=%s hash=%016llx steps=%llu\n%s\n%s\n", replay_file.c_str(), R->verdict, R->cls, (unsigned long long)R->hash_all, (unsigned long long)R->steps, R->msg, R->sample);
    if (R->verdict == V_VIOLATION) { printf("reproduced=%s\n", rcls == R->cls ? "yes" : "different-class"); return 1; } return R->verdict == V_OK ? 0 : 2;
  }
  if (one_index != ~0ull) {
    u64 seed = seed_of(one_index); Scenario *sc = (Scenario *)active[scen_of(seed)]; run_one(sc, seed, nullptr);
    printf("index %llu seed %llu scenario %s verdict=%d class=%s hash=%016llx steps=%llu switches=%llu simtime=%.6f trace=%u\n%s\n%s\n", (unsigned long long)one_index, (unsigned long long)seed, sc->name, R->verdict, R->cls, (unsigned long long)R->hash_all, (unsigned long long)R->steps, (unsigned long long)R->switches, R->simtime / 1e9, R->ntrace, R->msg, R->sample);
    for (int i = 0; i < F_N; i++) if (R->faults[i]) printf("fault %s %llu\n", fault_names[i], (unsigned long long)R->faults[i]);
    return R->verdict == V_OK ? 0 : 1;
  }
  if (det_k > 4096) det_k = 4096;
  double t0 = rt(), t_end = t0 + time_budget; std::vector<pid_t> ws;
  for (int w = 0; w < workers; w++) {
    fflush(nullptr); pid_t p = fork(); if (p == 0) { R = (RunResult *)mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); worker(w, t_end); } ws.push_back(p);
  }
  for (pid_t p : ws) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker died: status 0x%x\n", st); return 3; } }
  double t1 = rt(); int rc = 0; std::string rp, vmsg, vcls; u64 vseed = 0; size_t min_n = 0, orig_n = 0; std::string vsample;
  u64 det_checked = 0, det_bad = 0; u64 det_bad_seed = 0;
  if (S->errored && !S->found) { fprintf(stderr, "SIMULATION ERROR: %s (seed %llu scenario %s)\n", S->errmsg, (unsigned long long)S->err_seed, active[S->err_scen]->name); rc = 2; }
  if (S->found) {
    Scenario *sc = (Scenario *)active[S->found_scen]; u64 seed = S->found_seed; vseed = seed; want_cls = foundR->cls; vcls = foundR->cls; vmsg = foundR->msg;
    std::vector<TraceEnt> t(foundR->trace, foundR->trace + foundR->ntrace); orig_n = t.size(); vsample = foundR->sample; bool traced = false;
    if (!foundR->trace_lost && reproduces(sc, seed, t)) { traced = true; if (do_min) t = minimise(sc, seed, t); if (!reproduces(sc, seed, t)) traced = false; else { vmsg = R->msg; vsample = R->sample; } }
    min_n = t.size(); rp = replay_dir + "/" + prop + "-" + sc->name + "-" + std::to_string(seed) + ".replay";
    if (!traced) { run_one(sc, seed, nullptr); if (!(R->verdict == V_VIOLATION && want_cls == R->cls)) { fprintf(stderr, "SIMULATION ERROR: violation of seed %llu does not reproduce (%s: %s)\n", (unsigned long long)seed, foundR->cls, foundR->msg); rc = 2; } }
    write_replay(rp, sc, seed, traced ? &t : nullptr, want_cls.c_str(), vmsg.c_str(), orig_n, vsample.c_str());
    if (!rc) rc = 1;
  } else if (!rc) {
    for (u64 i = 0; i < det_k && i < max_runs; i++) if (S->det_set[i]) { u64 seed = seed_of(i); run_one((Scenario *)active[scen_of(seed)], seed, nullptr); det_checked++; if ((R->hash_all ^ (u64)R->verdict) != S->det_hash[i]) { det_bad++; det_bad_seed = seed; } if (rt() > t1 + 20) break; }
    if (det_bad) { fprintf(stderr, "SIMULATION ERROR: seed %llu did not repeat identically (%llu of %llu)\n", (unsigned long long)det_bad_seed, (unsigned long long)det_bad, (unsigned long long)det_checked); rc = 2; }
  }
  if (!out_file.empty()) {
    std::ofstream o(out_file); auto u = [&](const char *k, u64 v) { o << "\"" << k << "\":" << v << ","; };
    o << "{"; u("runs", S->runs); u("nontrivial", S->nontrivial); u("steps", S->steps); u("switches", S->switches); u("points", S->points); u("mem_points", S->mempts); u("sim_ns", S->simtime); u("events", S->events); u("distinct_schedules", S->distinct_sched); u("distinct_executions", S->distinct_all); u("distinct_nontrivial", S->distinct_nt); u("max_steps", S->maxsteps); u("max_sim_ns", S->maxsim); u("determinism_checked", det_checked); u("determinism_mismatch", det_bad); u("base_seed", base_seed);
    o << "\"wall_s\":" << (t1 - t0) << ",\"rc\":" << rc << ",";
    o << "\"faults\":{"; bool f = true; for (int i = 0; i < F_N; i++) if (S->felig[i] || S->faults[i]) { o << (f ? "" : ",") << "\"" << fault_names[i] << "\":{\"fired\":" << S->faults[i] << ",\"runs\":" << S->fruns[i] << ",\"opportunities\":" << S->felig[i] << "}"; f = false; }
    o << "},\"probes\":{"; f = true; // names are registered in children; ids are stable only per run, so publish via shared table
    extern std::map<std::string, int> probe_static(); auto pm = probe_static(); for (auto &kv : pm) { o << (f ? "" : ",") << "\"" << jesc(kv.first) << "\":{\"hits\":" << S->probes[kv.second] << ",\"runs\":" << S->pruns[kv.second] << "}"; f = false; }
    o << "},\"scenarios\":{"; f = true; for (size_t i = 0; i < active.size(); i++) { auto &s = S->scen[active_idx[i]]; o << (f ? "" : ",") << "\"" << active[i]->name << "\":{\"runs\":" << s.runs << ",\"ok\":" << s.ok << ",\"known\":" << s.known << "}"; f = false; }
    o << "},\"known\":["; f = true; for (size_t i = 0; i < known.size() && i < 64; i++) { if (known[i].prop != prop) continue; o << (f ? "" : ",") << "{\"text\":\"" << jesc(known[i].text) << "\",\"hits\":" << S->known_hits[i] << "}"; f = false; }
    o << "],\"samples\":["; for (int i = 0; i < S->nsamples && i < 8; i++) o << (i ? "," : "") << "\"" << jesc(S->samples[i]) << "\"";
    o << "]"; if (S->found) o << ",\"violation\":{\"class\":\"" << jesc(vcls) << "\",\"message\":\"" << jesc(vmsg) << "\",\"seed\":" << vseed << ",\"replay\":\"" << jesc(rp) << "\",\"choices\":" << min_n << ",\"original_choices\":" << orig_n << ",\"replays\":" << replays_done << "}";
    if (S->errored) o << ",\"error\":\"" << jesc(S->errmsg) << "\""; o << "}\n";
  }
  fprintf(stderr, "runs=%llu in %.1fs (%.0f/s) steps=%llu distinct=%llu/%llu sim=%.1fs rc=%d\n", (unsigned long long)S->runs, t1 - t0, S->runs / (t1 - t0), (unsigned long long)S->steps, (unsigned long long)S->distinct_sched, (unsigned long long)S->distinct_all, S->simtime / 1e9, rc);
  if (S->found) fprintf(stderr, "class=%s seed=%llu choices %zu -> %zu\n  %s\n  %s\n", vcls.c_str(), (unsigned long long)vseed, orig_n, min_n, vmsg.c_str(), vsample.c_str());
  return rc;
}
