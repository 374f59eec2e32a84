// Linearizability of a recorded concurrent history against a sequential model (Wing & Gong with memoisation).
#pragma once
#include "sim.h"
#include <cstring>
struct LOp { int w; int kind; i64 a, b; i64 r, r2; u64 inv, ret; bool done; };   // ret = ~0 when it never returned
typedef std::vector<i64> LState;
// step: apply op (with its recorded result when done) to s; returns false when the model forbids it
typedef std::function<bool(LState &s, const LOp &op)> LStep;
struct LinResult { bool ok; bool unknown; bool quiescent_ok; };
// enabled(state, op): could this pending op take effect now? used to judge blocked operations at quiescence
inline LinResult linearize(const std::vector<LOp> &ops, const LState &init, const LStep &step, std::function<bool(const LState &, const LOp &)> enabled = nullptr) {
  LinResult R0 = {false, false, false}; size_t n = ops.size(); if (n > 62) { R0.unknown = true; return R0; }
  struct H { size_t operator()(const std::pair<u64, LState> &p) const { u64 h = p.first * 0x9e3779b97f4a7c15ull; for (i64 x : p.second) h = (h ^ (u64)x) * 0x100000001b3ull; return h; } };
  std::set<std::pair<u64, LState>> seen; u64 done_mask = 0; for (size_t i = 0; i < n; i++) if (ops[i].done) done_mask |= 1ull << i;
  size_t budget = 400000; struct Fr { u64 mask; LState s; };
  std::vector<Fr> st; st.push_back({0, init});
  while (!st.empty()) {
    Fr f = st.back(); st.pop_back();
    if (!seen.insert({f.mask, f.s}).second) continue; if (!budget--) { R0.unknown = true; return R0; }
    if ((f.mask & done_mask) == done_mask) {
      R0.ok = true; bool q = true; if (enabled) for (size_t i = 0; i < n; i++) if (!(f.mask >> i & 1) && enabled(f.s, ops[i])) q = false;
      // a pending op that took effect must also have returned by quiescence
      for (size_t i = 0; i < n; i++) if ((f.mask >> i & 1) && !ops[i].done) q = false;
      if (q) { R0.quiescent_ok = true; return R0; } if (!enabled) return R0;
    }
    u64 minret = ~0ull; for (size_t i = 0; i < n; i++) if (!(f.mask >> i & 1) && ops[i].done && ops[i].ret < minret) minret = ops[i].ret;
    for (size_t i = 0; i < n; i++) if (!(f.mask >> i & 1) && ops[i].inv < minret) { LState s = f.s; if (step(s, ops[i])) st.push_back({f.mask | 1ull << i, s}); }
  }
  return R0;
}
