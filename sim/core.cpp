// Scheduler, choice streams, shadow heap, instrumentation callbacks, pthreads.
#include "sim.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include <dlfcn.h>
#include <time.h>

const char *stream_names[ST_N] = {"cfg", "preempt", "pick", "fault", "op", "data", "time"};
const char *fault_names[F_N] = {
  "alloc_fail", "thread_create_fail", "spurious_wakeup", "open_fail", "read_eio", "short_read", "write_eio", "disk_full",
  "short_write", "close_error", "rename_fail", "unlink_fail", "mkdir_fail", "rmdir_fail", "stat_fail", "opendir_fail", "readdir_fail",
  "pipe_fail", "fork_fail", "exec_fail", "eintr_sleep", "eintr_select", "eintr_wait", "eintr_read", "eintr_socket",
  "entropy_fail", "entropy_short", "clock_step", "accept_fail", "socket_fail", "connect_fail", "short_send", "conn_reset",
  "resolve_fail", "kill", "stall", "link_swap", "cross_device", "slow_peer", "cc_fail"};

RunResult *R;
bool verbose = false;
u64 run_seed;
u64 now_ns = 1000000000ull; i64 wall_off = 1700000000ll * 1000000000ll;
u64 max_steps = 3000000;
std::function<void(const char *)> on_deadlock; std::function<void()> on_steplimit;
bool expect_clean_heap = false;
std::function<void()> step_hook; u64 step_hook_every = 0;
bool sched_frozen = false;
SchedCfg sched = {0, 0, 0, 0, 0};
bool tso_enabled = true;
std::vector<Ev> events; i64 params[64]; std::string sparams[64];
Fiber *cur; std::vector<Fiber*> fibers; std::vector<Proc*> procs;
std::vector<std::string> probe_names;
static std::vector<Scenario> *scen;
std::vector<Scenario> &scenarios() { if (!scen) scen = new std::vector<Scenario>; return *scen; }
#include <atomic>
struct ProbeTab { std::atomic<int> lock; int n; char name[NPROBE][48]; }; static ProbeTab *ptab;
int probe_id(const char *name) { // names live in shared memory, so the ids agree in every run child
  while (ptab->lock.exchange(1)) {}
  int r = -1; for (int i = 0; i < ptab->n; i++) if (!strncmp(ptab->name[i], name, 47)) r = i;
  if (r < 0) { if (ptab->n >= NPROBE) r = NPROBE - 1; else { r = ptab->n++; strncpy(ptab->name[r], name, 47); } }
  ptab->lock = 0; return r;
}
std::map<std::string, int> probe_static() { std::map<std::string, int> m; for (int i = 0; i < ptab->n; i++) m[ptab->name[i]] = i; return m; }
void probe(int i) { R->probes[i]++; }

// ---------------------------------------------------------------- random / choices
struct Rng { u64 s; u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } };
static Rng rng[ST_N];
u64 stidx[ST_N];
bool replaying = false;
static std::unordered_map<u64, u32> replay_map[ST_N];
static std::vector<u64> replay_pre; static size_t replay_pre_pos; // sorted indexes for fast preempt check
void choices_init(u64 seed) {
  run_seed = seed;
  for (int i = 0; i < ST_N; i++) { rng[i].s = seed * 0x9e3779b97f4a7c15ull + (u64)(i + 1) * 0xd1342543de82ef95ull; rng[i].next(); rng[i].next(); stidx[i] = 0; }
}
void choices_replay(const std::vector<TraceEnt> &t) {
  replaying = true;
  for (auto &e : t) { replay_map[e.stream][e.idx] = e.val; if (e.stream == ST_PREEMPT) replay_pre.push_back(e.idx); }
  std::sort(replay_pre.begin(), replay_pre.end());
}
static void record(Stream s, u64 idx, u32 v) {
  if (!v) return;
  if (R->ntrace < TRACE_MAX) { auto &e = R->trace[R->ntrace++]; e.stream = s; e.idx = idx; e.val = v; } else R->trace_lost = 1;
}
u32 pick(Stream s, u32 n) {
  u64 idx = stidx[s]++;
  if (n <= 1) return 0;
  u32 v;
  if (replaying) { auto it = replay_map[s].find(idx); v = it == replay_map[s].end() ? 0 : it->second % n; }
  else { v = (u32)(rng[s].next() % n); }
  record(s, idx, v);
  hash_mix(((u64)s << 40) ^ v);
  return v;
}
bool chance(Stream s, u32 num, u32 den) {
  u64 idx = stidx[s]++;
  if (!num) return false;
  bool v;
  if (replaying) v = replay_map[s].count(idx) > 0;
  else v = (rng[s].next() % den) < num;
  if (v) record(s, idx, 1);
  return v;
}
u32 fault_rate[F_N];
void fault_fired(Fault f) { R->faults[f]++; hash_mix(0xfa000000 + f); if (verbose) logline("fault %s", fault_names[f]); }
u64 fault_nth[F_N]; bool fault_sticky[F_N];
std::function<bool(Fault)> fault_filter;
bool fault(Fault f) {
  if (fault_filter && !fault_filter(f)) return false;
  R->fault_elig[f]++;
  if (fault_nth[f] && !(cur && cur->nosched)) { if (--fault_nth[f] == 0) { if (fault_sticky[f] && !(f >= F_EINTR_SLEEP && f <= F_EINTR_SOCK)) fault_nth[f] = 1; fault_fired(f); return true; } return false; }
  if (!fault_rate[f]) { return false; }
  if (cur && cur->nosched) return false;
  bool v = chance(ST_FAULT, fault_rate[f], 65536);
  if (v) fault_fired(f);
  return v;
}
void hash_mix(u64 v) { R->hash_all = (R->hash_all ^ v) * 0x100000001b3ull + (R->hash_all >> 29); }

void logline(const char *fmt, ...) {
  if (!verbose) return;
  va_list ap; va_start(ap, fmt);
  char b[2000]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  dprintf(2, "[%8.3fms st%llu f%d %s] %s\n", (now_ns - 1000000000ull) / 1e6, (unsigned long long)R->steps, cur ? cur->id : -1, cur ? cur->name.c_str() : "-", b);
}
std::string hexdump(const std::string &s, size_t max) {
  std::string r; for (size_t i = 0; i < s.size() && i < max; i++) { unsigned char c = s[i]; if (c >= 32 && c < 127 && c != '\\') r += (char)c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } }
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
}
static void finish(int verdict, const char *cls, const char *msg) __attribute__((noreturn));
static void finish(int verdict, const char *cls, const char *msg) {
  if (R->verdict == V_NONE) {
    snprintf(R->cls, sizeof R->cls, "%s", cls); snprintf(R->msg, sizeof R->msg, "%s", msg); R->verdict = verdict;
  }
  R->simtime = now_ns - 1000000000ull; R->evcount = events.size();
  for (int i = 0; i < ST_N; i++) hash_mix(stidx[i]);
  hash_mix(R->steps);
  _exit(0);
}
extern "C" const char *pc_name(void *pc, char *buf, size_t n);
void violation(const char *cls, const char *fmt, ...) {
  char b[1400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (verbose) logline("VIOLATION %s: %s", cls, b);
  finish(V_VIOLATION, cls, b);
}
void sim_error(const char *fmt, ...) {
  char b[1400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (verbose) logline("ERROR %s", b);
  finish(V_ERROR, "sim-error", b);
}
static Scenario *cur_scen;
void set_scenario(Scenario *s) { cur_scen = s; }
void known_or_violation(const char *cls, const char *fmt, ...) {
  char b[1400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  violation(cls, "%s", b);
}
static bool ending = false;
void end_run() {
  if (ending) finish(V_ERROR, "sim-error", "end_run re-entered");
  ending = true; sched_frozen = true;
  if (cur_scen && cur_scen->check) cur_scen->check();
  finish(V_OK, "", "");
}

Ev &add_event(i64 kind, i64 a, i64 b, i64 c, const std::string &s) {
  events.push_back({(u64)events.size(), cur ? cur->id : -1, kind, a, b, c, s, now_ns});
  hash_mix(kind * 31 + a * 17 + b * 7 + c); for (char ch : s) hash_mix((unsigned char)ch);
  if (verbose) logline("event kind=%lld a=%lld b=%lld c=%lld s=%s", (long long)kind, (long long)a, (long long)b, (long long)c, hexdump(s).c_str());
  return events.back();
}

// ---------------------------------------------------------------- fibers
extern "C" void sim_sw(void **from, void *to);
asm(".text\n.globl sim_sw\n.type sim_sw,@function\nsim_sw:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");
const size_t STACK = 8u << 20; const u64 SB_BASE = 0x300000000000ull, TLS_BASE = 0x2f0000000000ull; u64 mod_lo, mod_hi; static u64 tls_top;
static void fiber_main() {
  Fiber *f = cur;
  f->fn();
  extern void fiber_finish();
  fiber_finish();
  abort();
}
extern "C" void fiber_tramp(); asm(".text\nfiber_tramp:\nxorl %ebp,%ebp\nsubq $8,%rsp\ncall fiber_main_c\n"); extern "C" void fiber_main_c() { fiber_main(); }
static int next_fid = 0;
static std::multiset<u64> timers;
void add_timer(u64 at) { timers.insert(at); }
static Fiber *new_fiber(const std::string &name, Proc *p, std::function<void()> fn) {
  Fiber *f = new Fiber(); f->id = next_fid++; f->name = name; f->proc = p; f->fn = fn; f->st = Fiber::RUN; f->deadline = ~0ull;
  f->stack_sz = STACK; f->stack = (char *)mmap((void *)(SB_BASE + (u64)f->id * (16ull << 20)), STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (f->stack == MAP_FAILED) sim_error("fiber stack");
  mprotect(f->stack, 4096, PROT_NONE);
  void **sp = (void **)(f->stack + STACK + 4096 - 64); sp = (void **)((u64)sp & ~15ull);
  *--sp = nullptr; *--sp = (void *)fiber_tramp; for (int i = 0; i < 6; i++) *--sp = nullptr;
  f->sp = sp; f->prio = 0;
  if (sched.policy == 3) f->prio = 1000 + (i64)pick(ST_PICK, 1000);
  fibers.push_back(f); return f;
}
Fiber *spawn_actor(const std::string &name, std::function<void()> fn, Proc *p) { Fiber *f = new_fiber(name, p, fn); f->actor = true; return f; }
Fiber *spawn_fiber(const std::string &name, Proc *p, std::function<void()> fn) { Fiber *f = new_fiber(name, p, fn); return f; }

static bool is_runnable(Fiber *f) {
  if (f->st == Fiber::RUN) return true;
  if (f->st == Fiber::BLOCK) { if (f->deadline <= now_ns) return true; if (f->intr) return true; if (f->ready && f->ready()) return true; }
  return false;
}
static std::vector<Fiber*> rl;
static void runnable_list(bool include_cur) { // ordered cyclically after cur
  rl.clear(); size_t n = fibers.size(); size_t start = 0;
  if (cur) for (size_t i = 0; i < n; i++) if (fibers[i] == cur) { start = i + 1; break; }
  for (size_t k = 0; k < n; k++) { Fiber *f = fibers[(start + k) % n]; if (f == cur && !include_cur) continue; if (is_runnable(f)) rl.push_back(f); }
}
// Plain stores made while the store buffer is not empty go to memory at once, but their addresses are remembered: before
// another thread touches one of them the older buffered stores are written, so no thread ever sees the stores out of order.
struct LateW { u64 a; u32 n; }; static std::map<Fiber *, std::vector<LateW>> late;
static void sb_drain(Fiber *f, bool all) {
  if (!late.empty()) late.erase(f);
  while (!f->sb.empty()) { auto &e = f->sb.front(); memcpy(e.addr, &e.val, e.sz); f->sb.pop_front(); if (!all) break; }
}
static void resume_to(Fiber *f) {
  Fiber *old = cur;
  if (f->st == Fiber::BLOCK) {
    f->timed_out = !(f->ready && f->ready()); if (f->intr) f->timed_out = false;
    f->st = Fiber::RUN; f->ready = nullptr; f->deadline = ~0ull;
  }
  f->run_streak = 0;
  if (f == old) return;
  R->switches++; R->hash_sched = (R->hash_sched ^ (u64)(f->id + 1)) * 0x100000001b3ull + R->points; hash_mix(f->id + 0x5c0000);
  cur = f; sim_sw(&old->sp, f->sp);
  if (!cur->sb.empty() && (pick(ST_PREEMPT, 2) == 0)) sb_drain(cur, true);
}
static bool fire_time() {
  // no runnable fiber: jump the clock to the next deadline or timer
  u64 best = ~0ull;
  for (Fiber *f : fibers) if (f->st == Fiber::BLOCK && f->deadline < best) best = f->deadline;
  while (!timers.empty() && *timers.begin() <= now_ns) timers.erase(timers.begin());
  if (!timers.empty() && *timers.begin() < best) best = *timers.begin();
  if (best == ~0ull) return false;
  if (best > now_ns) now_ns = best;
  return true;
}
static void check_limits() {
  if (R->steps > max_steps) {
    if (on_steplimit) on_steplimit();
    std::string why; for (Fiber *f : fibers) if (f->st == Fiber::BLOCK && f->proc && !f->actor) why += " [" + f->name + " in " + (f->why ? f->why : "?") + "]";
    violation("no-progress", "no termination after %llu simulated steps (livelock or unbounded wait)%s%s", (unsigned long long)R->steps, why.empty() ? "" : "; blocked:", why.c_str());
  }
}
static std::string blocked_report() {
  std::string r; for (Fiber *f : fibers) if (f->st == Fiber::BLOCK) { r += f->name + ":" + (f->why ? f->why : "?") + " "; if (r.size() > 300) break; }
  return r;
}
static void pick_and_go() { // current fiber cannot continue
  for (;;) {
    runnable_list(true);
    if (!rl.empty()) break;
    R->steps++; check_limits();
    if (!fire_time()) {
      std::string why = blocked_report();
      if (on_deadlock) on_deadlock(why.c_str());
      violation("deadlock", "every thread is blocked for ever: %s", why.c_str());
    }
  }
  Fiber *f = rl[0];
  if (rl.size() > 1) {
    if (!replaying && sched.policy == 3) {
      size_t bi = 0; for (size_t i = 1; i < rl.size(); i++) if (rl[i]->prio > rl[bi]->prio) bi = i;
      u64 idx = stidx[ST_PICK]++; record(ST_PICK, idx, (u32)bi); hash_mix(((u64)ST_PICK << 40) ^ bi); f = rl[bi];
    } else f = rl[pick(ST_PICK, (u32)rl.size())];
  }
  resume_to(f);
}
bool block(const char *why, std::function<bool()> ready, u64 deadline) {
  Fiber *f = cur; sb_drain(f, true);
  R->steps++; check_limits();
  if (f->nosched) { if (ready && ready()) return true; sim_error("block(%s) in a forked child", why); }
  f->st = Fiber::BLOCK; f->ready = ready; f->deadline = deadline; f->why = why; f->timed_out = false; f->intr = false;
  pick_and_go();
  return !f->timed_out;
}
void actor_sleep(u64 ns) { block("sleep", nullptr, now_ns + ns); }
void fiber_finish() {
  Fiber *f = cur; sb_drain(f, true); f->st = Fiber::DONE;
  extern void run_check_done(); run_check_done();
  for (size_t i = 0; i < fibers.size();) { if (fibers[i]->st == Fiber::DONE && fibers[i] != cur) { fibers[i]->sp = nullptr; fibers.erase(fibers.begin() + i); } else i++; }
  // switch away for good
  for (;;) { pick_and_go(); abort(); }
}

// conflict table: who touched an address last
struct Cent { u64 key; int fid; bool w; };
const int CT = 1 << 16; static Cent *ct;
static u64 next_pct[32]; static int npct, pctpos; static i64 pct_low;
static u64 next_rand_pre = 0; static u64 cpts; // points at contended addresses and synchronisation
void choose_sched() {
  u32 p = pick(ST_CFG, 8);
  sched.policy = p <= 1 ? 0 : p <= 3 ? 1 : p <= 5 ? 2 : 3;
  static const u32 pm[] = {0, 3, 10, 30, 100, 300, 1000}; static const u32 pc[] = {2, 3, 5, 10};
  sched.p_sync = 1 + pick(ST_CFG, 4); // 1/(n)
  sched.p_mem = sched.policy == 0 ? 0 : pm[pick(ST_CFG, 7)];
  sched.p_conf = sched.policy == 2 ? pc[pick(ST_CFG, 4)] : 0;
  sched.pct_d = 1 + pick(ST_CFG, 6);
  u32 span = 200u << pick(ST_CFG, 8); sched.pct_conf = sched.policy == 3 && pick(ST_CFG, 2); if (sched.pct_conf) span /= 20;
  npct = 0; if (sched.policy == 3) { for (int i = 0; i < sched.pct_d; i++) next_pct[npct++] = (sched.pct_conf ? cpts : R->points) + 1 + pick(ST_CFG, span); std::sort(next_pct, next_pct + npct); for (auto f : fibers) f->prio = 1000 + (i64)pick(ST_PICK, 1000); }
  pctpos = 0; pct_low = 0;
  next_rand_pre = 0;
}
static void switch_to_choice(u32 v) { // v: 1..n index into others
  runnable_list(false);
  if (rl.empty()) return;
  Fiber *f = rl[(v - 1) % rl.size()];
  resume_to(f);
}
extern bool fork_child;
bool time_jumps = true;
static inline bool others() { return fibers.size() > 1; }
// The single preemption decision. kind: 0 memory, 1 memory at a contended address, 2 synchronisation
static void point(int kind) {
  Fiber *f = cur; R->points++; if (!f->sb.empty() && R->points - f->sb_since > 600) sb_drain(f, true);
  u64 idx = stidx[ST_PREEMPT]++;
  now_ns += 20;
  f->run_streak++; f->pts++; if (kind) cpts++;
  if (sched_frozen || f->nosched || ending) return;
  if ((++R->steps & 1023) == 0) check_limits();
  if (step_hook && step_hook_every && R->steps % step_hook_every == 0) step_hook();
  if (!others()) return;
  u32 v = 0;
  if (replaying) {
    while (replay_pre_pos < replay_pre.size() && replay_pre[replay_pre_pos] < idx) replay_pre_pos++;
    if (replay_pre_pos < replay_pre.size() && replay_pre[replay_pre_pos] == idx) { v = replay_map[ST_PREEMPT][idx]; }
  } else {
    bool want = false;
    if (sched.policy == 3) {
      if (pctpos < npct && (sched.pct_conf ? cpts : R->points) >= next_pct[pctpos]) { pctpos++; f->prio = --pct_low; want = true; }
      if (want || kind == 2) {
        runnable_list(false); size_t bi = rl.size(); i64 bp = f->prio;
        for (size_t i = 0; i < rl.size(); i++) if (rl[i]->prio > bp) { bp = rl[i]->prio; bi = i; }
        if (bi < rl.size()) v = (u32)bi + 1;
      }
    } else {
      if (kind == 2) want = rng[ST_PREEMPT].next() % (sched.p_sync ? sched.p_sync : 4) == 0;
      else {
        if (kind == 1 && sched.p_conf) want = rng[ST_PREEMPT].next() % sched.p_conf == 0;
        if (!want && sched.p_mem) {
          if (!next_rand_pre) next_rand_pre = R->points + 1 + rng[ST_PREEMPT].next() % (2 * sched.p_mem);
          if (R->points >= next_rand_pre) { want = true; next_rand_pre = 0; }
        }
      }
      if (want) { runnable_list(false); if (!rl.empty()) v = 1 + (u32)(rng[ST_PREEMPT].next() % rl.size()); }
    }
  }
  if (!v && f->run_streak > 20000) { // fairness: a spinning thread cannot hold the processor for ever
    runnable_list(false); if (!rl.empty()) { if (sched.policy == 3) f->prio = --pct_low; resume_to(rl[0]); } else if (f->run_streak % 20000 == 0) fire_time();
    f->run_streak = 0; return;
  }
  if (v) { record(ST_PREEMPT, idx, v); hash_mix(idx * 31 + v); switch_to_choice(v); }
}
void store_buffer_drain() { if (cur && !cur->sb.empty()) sb_drain(cur, true); }
static void point_plain() { // a call that executes no serialising instruction (an allocation served from the thread's own cache)
  if (!cur) return;
  if (!sched_frozen && !cur->nosched && time_jumps && chance(ST_TIME, sched.policy ? 1 : 0, 96)) { fire_time(); }
  point(2);
}
void point_sync(const char *what) {
  if (!cur) return;
  if (!cur->sb.empty()) sb_drain(cur, true);
  (void)what;
  if (!sched_frozen && !cur->nosched && time_jumps && chance(ST_TIME, sched.policy ? 1 : 0, 96)) { fire_time(); }
  point(2);
}
void yield_now() { // sched_yield / pause: let somebody else run
  if (!cur || cur->nosched || sched_frozen) return;
  R->points++; R->steps++; now_ns += 100; check_limits();
  if (sched.policy == 3) cur->prio = --pct_low;
  if (cur->pts - cur->ypts > 400) cur->yields = 0; cur->ypts = cur->pts; cur->yields++;
  runnable_list(false);
  if (rl.empty()) { if (cur->yields % 8 == 0) fire_time(); return; }
  // when everybody runnable is only yielding, let time pass
  bool all = true; for (Fiber *f : rl) if (f->yields < 3 || !f->in_yield) all = false;
  if (all && cur->yields > 3) { fire_time(); for (Fiber *f : fibers) f->yields = 0; runnable_list(false); if (rl.empty()) return; }
  Fiber *f = rl[pick(ST_PICK, (u32)rl.size())];
  Fiber *self = cur; self->in_yield = true; resume_to(f); self->in_yield = false;
}

// ---------------------------------------------------------------- shadow heap
const u64 HB = 0x200000000000ull; const u64 HSZ = 64ull << 30;
static unsigned char *shadow; static u64 htop;
const size_t RZ = 32;
struct Blk { u64 addr, cap, size; int state; Proc *p; u64 step; int fid; u64 serial; };
static std::vector<Blk> *blks; static std::unordered_map<u64, u32> *blkidx;
static std::unordered_map<u64, std::deque<u32>> *quar; static u64 quar_bytes; static u64 alloc_serial;
void heap_init() {
  ptab = (ProbeTab *)mmap(nullptr, sizeof(ProbeTab), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  void *p = mmap((void *)HB, HSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) { perror("heap mmap"); exit(2); }
  shadow = (unsigned char *)mmap(nullptr, HSZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (shadow == MAP_FAILED) { perror("shadow mmap"); exit(2); }
  htop = HB + 4096; blks = new std::vector<Blk>; blkidx = new std::unordered_map<u64, u32>; quar = new std::unordered_map<u64, std::deque<u32>>;
  ct = (Cent *)mmap(nullptr, sizeof(Cent) * CT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static inline bool in_heap(u64 a) { return a - HB < HSZ; }
static void mark(u64 a, u64 n, bool ok) {
  u64 g = (a - HB) / 8;
  if (ok) { memset(shadow + g, 8, n / 8); if (n % 8) shadow[g + n / 8] = n % 8; } else memset(shadow + g, 0, (n + 7) / 8);
}
static Blk *find_blk(u64 a) {
  if (blks->empty()) return nullptr; size_t lo = 0, hi = blks->size();
  while (lo + 1 < hi) { size_t m = (lo + hi) / 2; if ((*blks)[m].addr - RZ <= a) lo = m; else hi = m; }
  return &(*blks)[lo];
}
extern "C" const char *pc_name(void *pc, char *buf, size_t n) {
  Dl_info di; if (pc && dladdr(pc, &di) && di.dli_fname) { const char *b = strrchr(di.dli_fname, '/'); b = b ? b + 1 : di.dli_fname; snprintf(buf, n, "%s+0x%lx", b, (unsigned long)((char *)pc - (char *)di.dli_fbase)); } else snprintf(buf, n, "?");
  return buf;
}
static void heap_bad(u64 a, size_t n, bool w, void *pc, const char *who) {
  Blk *b = find_blk(a); char pb[200]; pc_name(pc, pb, sizeof pb);
  const char *kind = "heap-buffer-overflow"; char d[200] = "";
  if (b) {
    if (b->state == 2 && a < b->addr + b->cap) { kind = "heap-use-after-free"; snprintf(d, sizeof d, "block of %llu bytes freed by thread %d at step %llu", (unsigned long long)b->size, b->fid, (unsigned long long)b->step); }
    else snprintf(d, sizeof d, "%lld bytes from a block of %llu bytes", (long long)(a - b->addr), (unsigned long long)b->size);
  }
  violation(kind, "%s of %zu bytes %s (%s), thread %d %s pc=%s", w ? "write" : "read", n, d, who ? who : "", cur ? cur->id : -1, cur ? cur->name.c_str() : "", pb);
}
static inline void heap_check(u64 a, size_t n, bool w, void *pc, const char *who) {
  if (!in_heap(a) || !n) return;
  u64 g = (a - HB) / 8, ge = (a + n - 1 - HB) / 8;
  if (g == ge) { if ((a & 7) + n > shadow[g]) heap_bad(a, n, w, pc, who); return; }
  for (u64 i = g; i < ge; i++) if (shadow[i] < 8) { u64 bad = std::max(a, HB + i * 8); heap_bad(bad, n, w, pc, who); }
  if (((a + n - 1) & 7) + 1 > shadow[ge]) heap_bad(HB + ge * 8, n, w, pc, who);
}
void check_access(const void *a, size_t n, bool w, const char *who) { heap_check((u64)a, n, w, nullptr, who); }
static u64 round_cap(u64 n) { n = (n + 15) & ~15ull; return n ? n : 16; }
std::map<std::string, i64> knobs;
extern "C" {
void *sim_malloc_raw(size_t n) {
  u64 cap = round_cap(n); u64 a = 0; u32 bi;
  if (n > (8ull << 30)) return nullptr;
  auto q = quar->find(cap);
  if (quar_bytes > (256ull << 20) && q != quar->end() && q->second.size() > 64) { bi = q->second.front(); q->second.pop_front(); quar_bytes -= cap; a = (*blks)[bi].addr; }
  else {
    if (htop + cap + 2 * RZ > HB + HSZ) return nullptr;
    a = htop + RZ; htop = a + cap; bi = (u32)blks->size(); blks->push_back({}); (*blks)[bi].addr = a; (*blks)[bi].cap = cap; (*blkidx)[a] = bi;
  }
  Blk &b = (*blks)[bi]; b.size = n; b.state = 1; b.p = cur ? cur->proc : nullptr; b.step = R ? R->steps : 0; b.fid = cur ? cur->id : -1; b.serial = ++alloc_serial;
  mark(a, cap, false); mark(a, n ? n : 1, true); if (!n) mark(a, 8, false);
  size_t fill = n < 65536 ? n : 65536; memset((void *)a, 0xAA, fill);
  if (b.p) { b.p->live_bytes += n; b.p->live_blocks++; }
  return (void *)a;
}
void *sim_malloc(size_t n) {
  if (cur) { point_plain(); if (fault(F_MALLOC)) { cur->err = ENOMEM; return nullptr; } }
  return sim_malloc_raw(n);
}
void *sim_calloc(size_t a, size_t b) { if (b && a > ~0ull / b) return nullptr; void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
static Blk *get_blk(void *p, const char *op, void *pc) {
  auto it = blkidx->find((u64)p); char pb[200];
  if (it == blkidx->end()) { violation("invalid-free", "%s of a pointer that is not a heap block, thread %d pc=%s", op, cur ? cur->id : -1, pc_name(pc, pb, sizeof pb)); }
  Blk *b = &(*blks)[it->second];
  if (b->state != 1) violation("double-free", "%s of a block of %llu bytes already freed by thread %d, thread %d pc=%s", op, (unsigned long long)b->size, b->fid, cur ? cur->id : -1, pc_name(pc, pb, sizeof pb));
  return b;
}
static void do_free(Blk *b) {
  if (cur) for (auto &e : cur->sb) if ((u64)e.addr >= b->addr && (u64)e.addr < b->addr + b->size) { sb_drain(cur, true); break; }
  if (b->p) { b->p->live_bytes -= b->size; b->p->live_blocks--; }
  b->state = 2; b->fid = cur ? cur->id : -1; b->step = R ? R->steps : 0;
  memset((void *)b->addr, 0xDD, b->size < 4096 ? b->size : 2048);
  mark(b->addr, b->cap, false); (*quar)[b->cap].push_back((u32)(b - &(*blks)[0])); quar_bytes += b->cap;
}
void sim_free_raw(void *p) { if (p) do_free(get_blk(p, "free", nullptr)); }
void sim_free(void *p) {
  if (!p) return;
  void *pc = __builtin_return_address(0);
  if (cur) point_plain();
  do_free(get_blk(p, "free", pc));
}
void *sim_realloc(void *p, size_t n) {
  void *pc = __builtin_return_address(0);
  if (!p) return sim_malloc(n);
  if (cur) { point_plain(); if (fault(F_MALLOC)) { cur->err = ENOMEM; return nullptr; } }
  Blk *b = get_blk(p, "realloc", pc); u64 old = b->size;
  void *q = sim_malloc_raw(n); if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  do_free(get_blk(p, "realloc", pc)); return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > ~0ull / b) { if (cur) cur->err = ENOMEM; return nullptr; } return sim_realloc(p, a * b); }
void *sim_aligned_alloc(size_t al, size_t n) { (void)al; return sim_malloc(n); }
int sim_posix_memalign(void **o, size_t al, size_t n) { (void)al; *o = sim_malloc(n); return *o ? 0 : ENOMEM; }
size_t sim_malloc_usable_size(void *p) { return p ? get_blk(p, "usable_size", nullptr)->size : 0; }
}
u64 heap_live_bytes(Proc *p) { return p->live_bytes; }
u64 heap_live_blocks(Proc *p) { return p->live_blocks; }
std::string heap_leak_report(Proc *p) {
  std::string r; int n = 0; for (auto &b : *blks) if (b.state == 1 && b.p == p) { if (n++ < 6) r += std::to_string(b.size) + "B(thread " + std::to_string(b.fid) + ") "; }
  return std::to_string(n) + " blocks: " + r;
}

// ---------------------------------------------------------------- memory access callbacks
static inline bool on_stack(u64 a) { return a - (u64)cur->stack < STACK + 4096; }
void mem_tick(const void *a, bool w) {
  Fiber *f = cur; R->mempts++;
  if (fibers.size() < 2) { R->points++; stidx[ST_PREEMPT]++; if ((++R->steps & 4095) == 0) check_limits(); now_ns += 20; return; }
  if ((u64)a - HB >= 0x200000000000ull && ((u64)a < mod_lo || (u64)a >= mod_hi)) { point(0); return; } // host memory: not shared by guests
  u64 key = (u64)a >> 3; Cent &c = ct[(key * 0x9e3779b97f4a7c15ull) >> 48];
  int kind = 0;
  if (c.key == key && c.fid != f->id && (w || c.w)) kind = 1;
  if (c.key != key) { c.key = key; c.w = w; c.fid = f->id; } else { if (c.fid != f->id) { c.fid = f->id; c.w = w; } else c.w |= w; }
  point(kind);
}
static void late_check(Fiber *f, u64 u, size_t n) { for (auto it = late.begin(); it != late.end();) { Fiber *o = it->first; bool hit = false; if (o != f) for (auto &l : it->second) if (u < l.a + l.n && l.a < u + n) hit = true; ++it; if (hit) sb_drain(o, true); } }
static inline void acc(void *a, size_t n, bool w, void *pc) {
  Fiber *f = cur; if (!f) return;
  u64 u = (u64)a;
  if (on_stack(u)) return;
  if (!f->sb.empty()) { // keep store order; forward own buffered stores
    bool ov = false; for (auto &e : f->sb) if ((char *)a < e.addr + e.sz && e.addr < (char *)a + n) ov = true;
    if (w && !ov) { auto &v = late[f]; v.push_back({u, (u32)n}); if (v.size() > 48) ov = true; }
    if (ov) sb_drain(f, true);
  }
  if (!late.empty()) late_check(f, u, n);
  mem_tick(a, w);
  heap_check(u, n, w, pc, nullptr);
}
void access_range(const void *a, size_t n, bool w) { if (!n || !cur) return; acc((void *)a, n, w, __builtin_return_address(0)); }
extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) { }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void *a) { acc(a, n, false, PC); } void __tsan_write##n(void *a) { acc(a, n, true, PC); } \
  void __tsan_unaligned_read##n(void *a) { acc(a, n, false, PC); } void __tsan_unaligned_write##n(void *a) { acc(a, n, true, PC); } \
  void __tsan_read_write##n(void *a) { acc(a, n, true, PC); } void __tsan_unaligned_read_write##n(void *a) { acc(a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { acc(a, n, false, PC); } void __tsan_volatile_write##n(void *a) { acc(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) acc(a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { if (n) acc(a, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { acc((void *)s, n, false, PC); acc(d, n, true, PC); } return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { acc((void *)s, n, false, PC); acc(d, n, true, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) acc(d, n, true, PC); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) { if (cur) { sb_drain(cur, true); point(2); } }
void __tsan_atomic_signal_fence(int) {}
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { if (cur) { sb_drain(cur, true); point(2); heap_check((u64)a, sizeof(T), false, PC, "atomic load"); } return *a; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { if (cur) { sb_drain(cur, true); point(2); heap_check((u64)a, sizeof(T), true, PC, "atomic store"); } *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { if (cur) { sb_drain(cur, true); point(2); heap_check((u64)a, sizeof(T), true, PC, "atomic"); } T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { if (cur) { sb_drain(cur, true); point(2); heap_check((u64)a, sizeof(T), true, PC, "atomic"); } T o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { if (cur) { sb_drain(cur, true); point(2); heap_check((u64)a, sizeof(T), true, PC, "atomic"); } T o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { if (cur) { sb_drain(cur, true); point(2); heap_check((u64)a, sizeof(T), true, PC, "atomic"); } T o = *a; *a = (T)(o & v); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { if (cur) { sb_drain(cur, true); point(2); heap_check((u64)a, sizeof(T), true, PC, "atomic"); } T o = *a; *a = (T)(o | v); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { if (cur) { sb_drain(cur, true); point(2); heap_check((u64)a, sizeof(T), true, PC, "atomic"); } T o = *a; *a = (T)(o ^ v); return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { if (cur) { sb_drain(cur, true); point(2); } T o = *a; *a = (T)~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T d, int, int) { if (cur) { sb_drain(cur, true); point(2); heap_check((u64)a, sizeof(T), true, PC, "atomic"); } if (*a == *e) { *a = d; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T d, int, int) { if (cur) { sb_drain(cur, true); point(2); heap_check((u64)a, sizeof(T), true, PC, "atomic"); } if (*a == *e) { *a = d; return 1; } *e = *a; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T d, int, int) { if (cur) { sb_drain(cur, true); point(2); heap_check((u64)a, sizeof(T), true, PC, "atomic"); } T o = *a; if (o == e) *a = d; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)

// ---- support for lifted assembly: memory operations at instruction granularity
void asm_pt() { if (cur) { point(2); } }
u64 asm_load(u64 a, int sz) {
  if (cur) { mem_tick((void *)a, false); heap_check(a, sz, false, nullptr, "asm load"); }
  u64 v = 0; memcpy(&v, (void *)a, sz);
  if (cur) for (auto &e : cur->sb) { if (e.addr == (char *)a && e.sz == sz) v = e.val; else if (e.addr < (char *)a + sz && (char *)a < e.addr + e.sz) { sb_drain(cur, true); v = 0; memcpy(&v, (void *)a, sz); break; } }
  return v;
}
void asm_store(u64 a, u64 v, int sz) {
  if (cur) {
    mem_tick((void *)a, true); heap_check(a, sz, true, nullptr, "asm store");
    if (tso_enabled && !sched_frozen && !cur->nosched && fibers.size() > 1) { cur->sb_since = R->points; cur->sb.push_back({(char *)a, v, sz}); return; }
  }
  memcpy((void *)a, &v, sz);
}
void asm_fence() { if (cur) sb_drain(cur, true); }
void asm_lock_begin() { if (cur) { sb_drain(cur, true); point(2); } }
void asm_lock_check(u64 a, int sz) { if (cur) heap_check(a, sz, true, nullptr, "locked instruction"); }
void asm_pause() { if (cur) sb_drain(cur, true); yield_now(); }
void asm_drain_maybe() { if (cur && !cur->sb.empty() && pick(ST_PREEMPT, 3) == 2) sb_drain(cur, false); }

// ---- thread local storage
struct EmCtl { size_t size, align; union { u64 index; void *addr; } u; void *templ; };
static u64 em_next = 0; static std::vector<void*> boot_tls;
void *__emutls_get_address(EmCtl *c) {
  if (!c->u.index) c->u.index = ++em_next;
  std::vector<void*> &t = cur ? cur->tls : boot_tls;
  if (t.size() < c->u.index) t.resize(c->u.index);
  void *&p = t[c->u.index - 1];
  if (!p) { if (!tls_top) { if (mmap((void *)TLS_BASE, 1ull << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) sim_error("tls arena"); tls_top = TLS_BASE; } tls_top = (tls_top + 63) & ~63ull; p = (void *)tls_top; tls_top += c->size + 64; if (c->templ) memcpy(p, c->templ, c->size); }
  return p;
}
static int boot_errno;
int *sim___errno_location() { return cur ? &cur->err : &boot_errno; }
}

// ---------------------------------------------------------------- pthreads
struct Mtx { int owner = -1; int count = 0; int type = 0; bool live = true; int waiters = 0; };
struct Cnd { u64 seq = 0; std::deque<u64> waiters; std::set<u64> signaled; int nwait = 0; };
struct RwL { int readers = 0; int writer = -1; };
static std::unordered_map<void*, Mtx> mtxs; static std::unordered_map<void*, Cnd> cnds; static std::unordered_map<void*, RwL> rws; static std::unordered_map<void*, i64> sems;
static std::unordered_map<u64, Fiber*> tids; static u64 ctok;
static u32 next_key = 1; static std::map<u32, void (*)(void *)> key_dtor;
u64 mutex_contended;
static void chk(void *a, size_t n, const char *who) { heap_check((u64)a, n, true, nullptr, who); }
extern "C" {
int sim_pthread_mutex_init(void *m, const int *attr) { chk(m, 40, "pthread_mutex_init"); Mtx x; if (attr) x.type = *attr; mtxs[m] = x; return 0; }
int sim_pthread_mutex_destroy(void *m) {
  chk(m, 40, "pthread_mutex_destroy"); point_sync("mutex_destroy"); auto it = mtxs.find(m);
  if (it != mtxs.end()) { if (it->second.owner >= 0) violation("pthread-misuse", "mutex destroyed while locked by thread %d", it->second.owner); mtxs.erase(it); } return 0;
}
static Mtx &getm(void *m) { auto it = mtxs.find(m); if (it == mtxs.end()) it = mtxs.emplace(m, Mtx()).first; return it->second; }
static int fid() { return cur->id; }
static int lock_common(void *m, u64 deadline) {
  chk(m, 40, "pthread_mutex_lock"); point_sync("mutex_lock");
  Mtx &x = getm(m);
  if (x.owner == fid()) { if (x.type == 1) { x.count++; return 0; } if (x.type == 2) return EDEADLK; }
  bool ok = true;
  if (x.owner >= 0) { mutex_contended++; PROBE("mutex contended"); ok = block("mutex", [m] { auto it = mtxs.find(m); return it == mtxs.end() || it->second.owner < 0; }, deadline); }
  if (!ok) return ETIMEDOUT;
  chk(m, 40, "pthread_mutex_lock (after wait)");
  Mtx &y = getm(m); if (y.owner >= 0) return lock_common(m, deadline); y.owner = fid(); y.count = 1; return 0;
}
int sim_pthread_mutex_lock(void *m) { return lock_common(m, ~0ull); }
int sim_pthread_mutex_timedlock(void *m, const struct timespec *ts) { i64 abs = ts->tv_sec * 1000000000ll + ts->tv_nsec - wall_off; return lock_common(m, abs < 0 ? 0 : (u64)abs); }
int sim_pthread_mutex_trylock(void *m) {
  chk(m, 40, "pthread_mutex_trylock"); point_sync("mutex_trylock"); Mtx &x = getm(m);
  if (x.owner == fid() && x.type == 1) { x.count++; return 0; }
  if (x.owner >= 0) { PROBE("trylock busy"); return EBUSY; } x.owner = fid(); x.count = 1; return 0;
}
int sim_pthread_mutex_unlock(void *m) {
  chk(m, 40, "pthread_mutex_unlock"); Mtx &x = getm(m);
  if (x.owner != fid()) { if (x.type == 2) return EPERM; violation("pthread-misuse", "mutex unlocked by thread %d which does not hold it (holder %d)", fid(), x.owner); }
  sb_drain(cur, true);
  if (--x.count == 0) x.owner = -1;
  point_sync("mutex_unlock"); return 0;
}
int sim_pthread_mutexattr_init(int *a) { *a = 0; return 0; } int sim_pthread_mutexattr_destroy(int *) { return 0; }
int sim_pthread_mutexattr_settype(int *a, int t) { *a = t; return 0; } int sim_pthread_mutexattr_setpshared(int *, int) { return 0; } int sim_pthread_mutexattr_setprotocol(int *, int) { return 0; }
int sim_pthread_cond_init(void *c, const void *) { chk(c, 48, "pthread_cond_init"); cnds[c] = Cnd(); return 0; }
int sim_pthread_cond_destroy(void *c) { chk(c, 48, "pthread_cond_destroy"); auto it = cnds.find(c); if (it != cnds.end() && !it->second.waiters.empty()) violation("pthread-misuse", "condition variable destroyed while a thread waits on it"); cnds.erase(c); return 0; }
static int cwait(void *c, void *m, u64 deadline) {
  chk(c, 48, "pthread_cond_wait"); chk(m, 40, "pthread_cond_wait"); point_sync("cond_wait");
  Mtx &x = getm(m); if (x.owner != fid()) violation("pthread-misuse", "condition wait without holding the mutex");
  if (cnds.find(c) == cnds.end()) cnds[c] = Cnd();
  u64 tok = ++ctok; int cnt = x.count; x.owner = -1; x.count = 0;
  PROBE("cond wait");
  bool to = false;
  if (fault(F_SPURIOUS)) { yield_now(); }
  else {
    cnds[c].waiters.push_back(tok);
    bool ok = block("condition", [c, tok] { auto it = cnds.find(c); return it == cnds.end() || it->second.signaled.count(tok) > 0; }, deadline);
    auto it = cnds.find(c); if (it != cnds.end()) { auto &w = it->second.waiters; w.erase(std::remove(w.begin(), w.end(), tok), w.end()); it->second.signaled.erase(tok); }
    to = !ok;
  }
  chk(m, 40, "pthread_cond_wait (after wait)");
  int r = lock_common(m, ~0ull); (void)r; getm(m).count = cnt;
  return to ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(void *c, void *m) { return cwait(c, m, ~0ull); }
int sim_pthread_cond_timedwait(void *c, void *m, const struct timespec *ts) { i64 abs = ts->tv_sec * 1000000000ll + ts->tv_nsec - wall_off; return cwait(c, m, abs < 0 ? 0 : (u64)abs); }
int sim_pthread_cond_signal(void *c) {
  chk(c, 48, "pthread_cond_signal"); point_sync("cond_signal"); auto it = cnds.find(c);
  if (it != cnds.end() && !it->second.waiters.empty()) { auto &w = it->second.waiters; u32 k = pick(ST_PICK, (u32)w.size()); it->second.signaled.insert(w[k]); w.erase(w.begin() + k); }
  return 0;
}
int sim_pthread_cond_broadcast(void *c) { chk(c, 48, "pthread_cond_broadcast"); point_sync("cond_broadcast"); auto it = cnds.find(c); if (it != cnds.end()) { for (u64 t : it->second.waiters) it->second.signaled.insert(t); it->second.waiters.clear(); } return 0; }
int sim_pthread_condattr_init(void *) { return 0; } int sim_pthread_condattr_destroy(void *) { return 0; } int sim_pthread_condattr_setclock(void *, int) { return 0; }
int sim_pthread_rwlock_init(void *l, const void *) { rws[l] = RwL(); return 0; } int sim_pthread_rwlock_destroy(void *l) { rws.erase(l); return 0; }
int sim_pthread_rwlock_rdlock(void *l) { point_sync("rdlock"); if (rws[l].writer >= 0) block("rwlock", [l] { return rws[l].writer < 0; }); rws[l].readers++; return 0; }
int sim_pthread_rwlock_wrlock(void *l) { point_sync("wrlock"); while (rws[l].writer >= 0 || rws[l].readers) block("rwlock", [l] { return rws[l].writer < 0 && !rws[l].readers; }); rws[l].writer = fid(); return 0; }
int sim_pthread_rwlock_tryrdlock(void *l) { point_sync("tryrdlock"); if (rws[l].writer >= 0) return EBUSY; rws[l].readers++; return 0; }
int sim_pthread_rwlock_trywrlock(void *l) { point_sync("trywrlock"); if (rws[l].writer >= 0 || rws[l].readers) return EBUSY; rws[l].writer = fid(); return 0; }
int sim_pthread_rwlock_unlock(void *l) { point_sync("rwunlock"); if (rws[l].writer == fid()) rws[l].writer = -1; else rws[l].readers--; return 0; }
int sim_pthread_spin_init(void *l, int) { mtxs[l] = Mtx(); return 0; } int sim_pthread_spin_lock(void *l) { return lock_common(l, ~0ull); } int sim_pthread_spin_unlock(void *l) { Mtx &x = getm(l); x.owner = -1; point_sync("spin"); return 0; } int sim_pthread_spin_trylock(void *l) { return sim_pthread_mutex_trylock(l); } int sim_pthread_spin_destroy(void *) { return 0; }
int sim_sem_init(void *s, int, unsigned v) { sems[s] = v; return 0; } int sim_sem_destroy(void *s) { sems.erase(s); return 0; }
int sim_sem_wait(void *s) { point_sync("sem_wait"); while (sems[s] <= 0) block("sem", [s] { return sems[s] > 0; }); sems[s]--; return 0; }
int sim_sem_trywait(void *s) { point_sync("sem_trywait"); if (sems[s] <= 0) { cur->err = EAGAIN; return -1; } sems[s]--; return 0; }
int sim_sem_getvalue(void *s, int *v) { *v = sems[s]; return 0; }
u64 knob_reads;
i64 sim_knob(const char *n, i64 dflt) { knob_reads++; if (knobs.empty()) return dflt; auto it = knobs.find(n); return it == knobs.end() ? dflt : it->second; }
void sim_missing(const char *n) { sim_error("the program calls %s, which is not simulated", n); }
int sim_sem_post(void *s) { sems[s]++; point_sync("sem_post"); return 0; }
int sim_pthread_once(int *o, void (*fn)(void)) { point_sync("once"); if (*o == 0) { *o = 1; fn(); *o = 2; } else if (*o == 1) block("once", [o] { return *o == 2; }); return 0; }
int sim_pthread_key_create(u32 *k, void (*d)(void *)) { *k = next_key++; key_dtor[*k] = d; return 0; } int sim_pthread_key_delete(u32 k) { key_dtor.erase(k); return 0; }
void *sim_pthread_getspecific(u32 k) { return cur->keys[k]; } int sim_pthread_setspecific(u32 k, const void *v) { cur->keys[k] = (void *)v; return 0; }
int sim_pthread_attr_init(int *a) { *a = 0; return 0; } int sim_pthread_attr_destroy(int *) { return 0; } int sim_pthread_attr_setdetachstate(int *a, int d) { *a = d; return 0; } int sim_pthread_attr_setstacksize(void *, size_t) { return 0; } int sim_pthread_attr_getstacksize(void *, size_t *s) { *s = STACK; return 0; }
u64 sim_pthread_self() { return (u64)cur->id + 0x7000; }
int sim_pthread_equal(u64 a, u64 b) { return a == b; }
static void thread_exit_common(Fiber *f) { for (int r = 0; r < 2; r++) for (auto &kv : f->keys) if (kv.second && key_dtor.count(kv.first) && key_dtor[kv.first]) { void *v = kv.second; kv.second = nullptr; key_dtor[kv.first](v); } f->tls.clear(); }
int sim_pthread_create(u64 *t, const int *attr, void *(*fn)(void *), void *arg) {
  chk(t, 8, "pthread_create"); point_sync("pthread_create");
  if (fault(F_THREAD)) return EAGAIN;
  Proc *p = cur->proc; Fiber *f = spawn_fiber("", p, nullptr); f->name = "thread" + std::to_string(f->id);
  if (attr && *attr == 1) f->detached = true;
  tids[(u64)f->id + 0x7000] = f;
  f->fn = [f, fn, arg] { f->retval = fn(arg); thread_exit_common(f); };
  *t = (u64)f->id + 0x7000; PROBE("thread created");
  if (verbose) logline("create %s", f->name.c_str());
  point_sync("pthread_created"); return 0;
}
static Fiber *gett(u64 t, const char *op) { auto it = tids.find(t); if (it == tids.end()) violation("pthread-misuse", "%s of a thread that does not exist (id %llx)", op, (unsigned long long)t); return it->second; }
int sim_pthread_join(u64 t, void **ret) {
  point_sync("pthread_join"); Fiber *f = gett(t, "join");
  if (f->joined) violation("pthread-misuse", "thread joined twice"); if (f->detached) violation("pthread-misuse", "join of a detached thread");
  if (f == cur) return EDEADLK;
  f->joined = true; block("join", [f] { return f->st == Fiber::DONE; }); if (ret) *ret = f->retval; PROBE("thread joined"); return 0;
}
int sim_pthread_detach(u64 t) { point_sync("pthread_detach"); Fiber *f = gett(t, "detach"); if (f->joined) violation("pthread-misuse", "detach of a joined thread"); if (f->detached) violation("pthread-misuse", "thread detached twice"); f->detached = true; if (f->st == Fiber::DONE) PROBE("detach after exit"); return 0; }
void sim_pthread_exit(void *r) { Fiber *f = cur; f->retval = r; thread_exit_common(f); fiber_finish(); abort(); }
int sim_sched_yield() { point_sync("sched_yield"); yield_now(); return 0; }
}
int unreaped_threads(Proc *p) { int n = 0; for (auto &kv : tids) if (kv.second->proc == p && !kv.second->joined && !kv.second->detached) n++; return n; }
int live_threads(Proc *p) { int n = 0; for (auto &kv : tids) if (kv.second->proc == p && kv.second->st != Fiber::DONE) n++; return n; }
void kill_fibers(Proc *p, Fiber *except) { for (Fiber *f : fibers) if (f->proc == p && f != except && f->st != Fiber::DONE) { f->st = Fiber::DONE; } }
bool in_core_finish() { return ending; }
[[noreturn]] void run_scheduler_from_main() {
  // called once on the child's original stack: become a pseudo fiber and hand over
  static Fiber boot; boot.id = -2; boot.name = "boot"; boot.st = Fiber::DONE; cur = &boot; boot.stack = nullptr; boot.nosched = false;
  pick_and_go();
  sim_error("scheduler returned");
}
