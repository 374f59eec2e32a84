// Shared scenario helpers.
#pragma once
#include "hooks.h"
#include "lin.h"
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <algorithm>
extern std::function<bool()> run_done; extern std::function<void(Proc *)> on_proc_exit; extern int unreaped_threads(Proc *); extern int live_threads(Proc *);
void sample_add(const char *fmt, ...); void proc_kill(Proc *p, int sig);
static Proc *G __attribute__((unused)); // the guest under test
inline Proc *launch(const char *prog, std::vector<std::string> args = {}) { std::vector<std::string> av = {prog}; for (auto &a : args) av.push_back(a); Proc *p = start_guest(std::string(prog) + ".so", av); G = p; run_done = [p] { return p->exited; }; return p; }
inline void must_exit(Proc *p, int code) { if (p->killed_by) violation("killed", "the program was killed by signal %d; stderr: %s", p->killed_by, hexdump(p->err, 300).c_str()); if (!p->exited) violation("not-exited", "the program did not exit"); if (p->status != code) violation("exit-status", "the program exited with status %d instead of %d; stderr: %s", p->status, code, hexdump(p->err, 300).c_str()); }
inline u32 opick(u32 n) { return pick(ST_OP, n); } inline u32 cfg(u32 n) { return pick(ST_CFG, n); }
inline std::string fmts(const char *f, ...) { char b[4000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
inline bool has(const std::string &h, const std::string &n) { return h.find(n) != std::string::npos; }
// A run has no faults, one chosen fault, or a random mixture.
inline bool draw_faults(const std::vector<int> &kinds, u32 span = 14) {
  u32 mode = cfg(4); if (mode == 0) return false;
  if (mode == 1 || mode == 2) { int f = kinds[cfg((u32)kinds.size())]; fault_nth[f] = 1 + cfg(span); fault_sticky[f] = cfg(3) == 0; if (mode == 2 && kinds.size() > 1) { int g = kinds[cfg((u32)kinds.size())]; if (g != f) { fault_nth[g] = 1 + cfg(span); } } return true; }
  static const u32 rates[] = {1500, 6000, 20000}; for (int f : kinds) if (cfg(2)) fault_rate[f] = rates[cfg(3)]; return true; }
inline std::string rnd_bytes(size_t n, int kind) { // kind 0: any bytes, 1: printable, 2: text with line ends
  std::string s(n, 0); u64 z = (u64)pick(ST_OP, 1u << 30) * 0x9e3779b97f4a7c15ull + 12345; for (size_t i = 0; i < n; i++) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; u32 r = (u32)(z >> 33); s[i] = kind == 0 ? (char)r : kind == 1 ? "abcdefghijklmnopqrstuvwxyz0123456789 "[r % 37] : (r % 23 == 0 ? '\n' : r % 29 == 0 ? '\r' : "abcdefghijklmnopqrstuvwxyz0123456789 \t,"[r % 39]); } return s; }

// ---- C10 in the other groups: any scenario, while allocations fail.  What it reports must still be true; it may also stop, saying that memory ran out.
static inline void oom_setup_of(void (*setup)(), u32 span) { setup(); u32 m = cfg(3); if (cfg(3) == 2) span = 14; if (m == 0) { fault_nth[F_MALLOC] = 1 + cfg(span); fault_sticky[F_MALLOC] = 0; } else if (m == 1) { fault_nth[F_MALLOC] = 1 + cfg(span); fault_sticky[F_MALLOC] = 1; } else { static const u32 d[] = {20, 80, 400}; fault_rate[F_MALLOC] = 65536 / d[cfg(3)]; } }
static inline void oom_check_of(void (*check)()) { if (R->faults[F_MALLOC] && G && G->exited && !G->killed_by && G->status != 0 && G->status < 128 && has(G->err, "memory")) { PROBE("clean out-of-memory stop"); return; } if (R->faults[F_MALLOC]) PROBE("went on after an allocation failure"); check(); }
