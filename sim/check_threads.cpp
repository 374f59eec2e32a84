// Scenarios for the thread-related properties C01..C09.
#include "scn.h"

// ================================================================ channels (C01, C02)
struct COp { int op, ch; i64 v; };
static std::vector<std::vector<COp>> plan; static std::vector<size_t> pos_; static std::vector<LOp> hist; static std::vector<int> hist_ch; static std::vector<int> open_op; static int caps[2]; static int nthreads; static int chan_prop; static bool balanced;
static const char *cname[] = {"stop", "send", "receive", "try_send", "try_receive", "close", "sleep", "yield"};
static std::string show_chan() { std::string s = fmts("capacities %d,%d; ", caps[0], caps[1]); for (size_t w = 0; w < plan.size(); w++) { s += fmts("[T%zu:", w); for (auto &o : plan[w]) s += o.op >= 6 ? fmts(" %s", cname[o.op]) : (o.op == 1 || o.op == 3) ? fmts(" %s(c%d,%lld)", cname[o.op], o.ch, (long long)o.v) : fmts(" %s(c%d)", cname[o.op], o.ch); s += "] "; } return s; }
static std::string show_hist(int ch) { std::string s; for (size_t i = 0; i < hist.size(); i++) if (hist_ch[i] == ch) { auto &o = hist[i]; s += fmts("T%d %s", o.w, cname[o.kind]); if (o.kind == 1 || o.kind == 3) s += fmts("(%lld)", (long long)o.a); if (o.done) { if (o.kind == 2) s += fmts("=%lld", (long long)o.r); if (o.kind == 3) s += fmts("=%s", o.r2 ? "true" : "false"); if (o.kind == 4) s += fmts("=(%lld,%s)", (long long)o.r, o.r2 ? "true" : "false"); s += fmts(" @%llu-%llu; ", (unsigned long long)o.inv, (unsigned long long)o.ret); } else s += fmts(" @%llu-blocked; ", (unsigned long long)o.inv); } return s; }
static bool chan_step_cap(LState &s, const LOp &o, int cap) { // s[0]=closed, then the buffer
  size_t n = s.size() - 1;
  switch (o.kind) {
    case 1: if (s[0]) return true; if ((int)n >= cap) return false; s.push_back(o.a); return true;
    case 2: if (n) { if (o.done && o.r != s[1]) return false; s.erase(s.begin() + 1); return true; } if (!s[0]) return false; return !o.done || o.r == 0;
    case 3: { bool can = !s[0] && (int)n < cap; if (o.done && (o.r2 != 0) != can) return false; if (can) s.push_back(o.a); return true; }
    case 4: if (n) { if (o.done && (!o.r2 || o.r != s[1])) return false; s.erase(s.begin() + 1); return true; } return !o.done || (!o.r2 && o.r == 0);
    case 5: s[0] = 1; return true;
  }
  return true;
}
static void chan_judge(bool deadlocked, const char *why) {
  for (int ch = 0; ch < 2; ch++) {
    std::vector<LOp> ops; for (size_t i = 0; i < hist.size(); i++) if (hist_ch[i] == ch) ops.push_back(hist[i]); if (ops.empty()) continue;
    int cap = caps[ch]; LStep st = [cap](LState &s, const LOp &o) { return chan_step_cap(s, o, cap); };
    auto en = [cap](const LState &s, const LOp &o) { if (o.kind == 1) return s[0] || (int)s.size() - 1 < cap; if (o.kind == 2) return s[0] || s.size() > 1; return true; };
    LinResult r = linearize(ops, {0}, st, en);
    if (r.unknown) { PROBE("history too long to check"); continue; }
    if (chan_prop == 1 && !r.ok) violation("not-linearizable", "channel c%d (capacity %d): no order of its operations explains the results: %s", ch, cap, show_hist(ch).c_str());
    if (chan_prop == 2 && r.ok && deadlocked && !r.quiescent_ok) violation("lost-wakeup", "a thread stays blocked on channel c%d although it could proceed (%s): %s", ch, why, show_hist(ch).c_str());
  }
  if (chan_prop == 2 && deadlocked && balanced) violation("hang", "a balanced program hangs (%s): %s", why, (show_hist(0) + show_hist(1)).c_str());
  PROBE(deadlocked ? "legitimate deadlock reached" : "program completed");
}
static i64 uniq_val(int w, size_t i) { i64 v = w * 1000 + (i64)i + 1; switch (opick(4)) { case 1: return -v; case 2: return v + (1ll << 40); case 3: return -v - (1ll << 52); } return v; }
static void chan_setup(int prop) {
  chan_prop = prop; choose_sched(); if (cfg(2)) { fault_rate[F_SPURIOUS] = 16384; PROBE("spurious wakeups enabled"); }
  nthreads = 2 + cfg(4); int nch = 1 + cfg(2); caps[0] = 1 + cfg(3); caps[1] = 1 + cfg(3); plan.assign(nthreads, {}); pos_.assign(nthreads, 0); open_op.assign(nthreads, -1);
  balanced = false; u32 shape = cfg(5); int maxops = 26;
  if (shape == 0) { // arbitrary mixture
    int tot = 0; for (int w = 0; w < nthreads; w++) { int n = 1 + opick(6); for (int i = 0; i < n && tot < maxops; i++, tot++) { static const int mix[] = {1, 2, 3, 4, 1, 2, 1, 2, 5, 7, 6}; int op = mix[opick(prop == 2 && i < 2 ? 8 : 11)]; if (op == 5 && opick(2)) op = 4; plan[w].push_back({op, (int)opick(nch), op == 6 ? (i64)opick(4) : uniq_val(w, i)}); } }
  } else if (shape == 1 || shape == 4) { // producers and consumers whose totals match
    balanced = true; int per = 1 + opick(4), pairs = 1 + opick(2); int ch = 0; std::vector<int> prod, cons; for (int w = 0; w < nthreads; w++) (w % 2 == 0 ? prod : cons).push_back(w); int total = per * (int)prod.size() * pairs; if (total > 12) total = 12; for (int i = 0; i < total; i++) { int w = prod[opick(prod.size())]; plan[w].push_back({1, ch, uniq_val(w, i)}); w = cons[opick(cons.size())]; plan[w].push_back({2, ch, 0}); if (opick(6) == 0) plan[w].push_back({7, 0, 0}); }
  } else if (shape == 2) { // blocked users released by close
    balanced = true; bool rx = cfg(2); for (int w = 1; w < nthreads; w++) { int n = 1 + opick(3); for (int i = 0; i < n; i++) plan[w].push_back({rx ? 2 : 1, 0, uniq_val(w, i)}); } int pre = opick(3); for (int i = 0; i < pre; i++) { int k = opick(4); if (k == 0) plan[0].push_back({rx ? 3 : 4, 0, uniq_val(0, i)}); else plan[0].push_back({k == 1 ? 6 : 7, 0, (i64)opick(3)}); } plan[0].push_back({5, 0, 0});
    if (opick(2)) plan[0].push_back({rx ? 3 : 4, 0, uniq_val(0, 50)});
    if (prop == 1 && opick(2)) { // what follows a close, while non-blocking calls are under way in other threads
      int k = 1 + opick(4); for (int i = 0; i < k; i++) plan[0].push_back({2, 0, 0}); for (int w = 1; w < nthreads; w++) for (auto &o : plan[w]) if (opick(4)) o.op += 2; }
  } else { // ping-pong over two channels
    nch = 2; nthreads = 2; plan.assign(2, {}); balanced = true; int n = 1 + opick(5); for (int i = 0; i < n; i++) { plan[0].push_back({1, 0, uniq_val(0, i)}); plan[0].push_back({2, 1, 0}); plan[1].push_back({2, 0, 0}); plan[1].push_back({1, 1, uniq_val(1, i)}); }
  }
  sample_add("%s", show_chan().c_str());
  hook_call = [](i64 k, i64 a, i64 b, i64) -> i64 {
    if (k == 0) return a < 2 ? caps[a] : nthreads - 1;
    if (k == 1) { size_t &p = pos_[a]; if (p >= plan[a].size()) return 0; auto &o = plan[a][p]; return o.op; }
    if (k == 2) { auto &o = plan[a][pos_[a]]; if (b == 0) return o.ch; // last query before the call: the operation starts here
      if (o.op <= 5) { LOp l = {(int)a, o.op, o.v, 0, 0, 0, 0, ~0ull, false}; l.inv = add_event(10 + o.op, a, o.ch, o.v).seq; open_op[a] = hist.size(); hist.push_back(l); hist_ch.push_back(o.ch); } return o.v; }
    return 0;
  };
  auto base = hook_call;
  hook_call = [base](i64 k, i64 a, i64 b, i64 c) -> i64 { if (k == 3) { if (open_op[a] >= 0) { auto &l = hist[open_op[a]]; l.done = true; l.r = b; l.r2 = c; l.ret = add_event(20 + l.kind, a, b, c).seq; open_op[a] = -1; } pos_[a]++; return 0; } return base(k, a, b, c); };
  on_deadlock = [](const char *why) { chan_judge(true, why); end_run(); };
  launch("chan");
}
static bool chan_checked = false;
static void chan_check() { if (chan_checked) return; if (G->exited) { must_exit(G, 0); chan_judge(false, ""); } }
static RegScenario c01({"channel-history", "C01", {"chan.so"}, [] { chan_setup(1); }, chan_check, 1});
static RegScenario c02({"channel-progress", "C02", {"chan.so"}, [] { chan_setup(2); }, chan_check, 1});

// ================================================================ locks and atomics (C03, C04, C05): program conc
struct XOp { int op, k; i64 v, e; };
static std::vector<std::vector<XOp>> xplan; static std::vector<int> xopen; static std::vector<u64> xt0; static int xprop; static i64 crit_n[2], seen_cnt[2]; static bool finals; static i64 fin[3][2]; static std::vector<int> xk; static std::map<int, int> pairs_lost;
static const char *xname(int op) { static std::map<int, const char *> m = {{1, "lock"}, {2, "unlock"}, {3, "try_lock"}, {4, "critical-section"}, {5, "spin_lock"}, {6, "spin_unlock"}, {7, "spin_trylock"}, {10, "load"}, {11, "store"}, {12, "add"}, {13, "sub"}, {14, "exchange"}, {15, "cas"}, {16, "and"}, {17, "or"}, {18, "xor"}, {19, "fence"}, {20, "send"}, {21, "receive"}, {30, "sleep"}, {31, "yield"}}; return m.count(op) ? m[op] : "?"; }
static std::string show_x() { std::string s; for (size_t w = 0; w < xplan.size(); w++) { s += fmts("[T%zu:", w); for (auto &o : xplan[w]) { s += fmts(" %s", xname(o.op)); if (o.op < 30 && o.op != 19) s += fmts("(%d", o.k); if (o.op >= 11 && o.op <= 18) s += fmts(",%lld", (long long)o.v); if (o.op == 15) s += fmts(",expect %lld", (long long)o.e); if (o.op < 30 && o.op != 19) s += ")"; } s += "] "; } return s; }
static std::string show_xh(int k) { std::string s; for (size_t i = 0; i < hist.size(); i++) if (k < 0 || xk[i] == k) { auto &o = hist[i]; s += fmts("T%d %s(%d", o.w, xname(o.kind), xk[i]); if (o.kind >= 11) s += fmts(",%lld", (long long)o.a); if (o.kind == 15) s += fmts(",expect %lld", (long long)o.b); s += ")"; if (o.done) s += fmts("=%lld @%llu-%llu; ", (long long)o.r, (unsigned long long)o.inv, (unsigned long long)o.ret); else s += fmts(" @%llu-blocked; ", (unsigned long long)o.inv); } return s; }
static bool lock_step(LState &s, const LOp &o) { switch (o.kind) { // s[0] = holder+1
    case 1: case 5: if (s[0]) return false; s[0] = o.w + 1; return true;
    case 2: case 6: s[0] = 0; return true;
    case 3: case 7: { bool can = s[0] == 0; if (o.done && (o.r != 0) != can) return false; if (can) s[0] = o.w + 1; return true; } } return true; }
static void x_judge(bool deadlocked, const char *why) {
  if (xprop == 4) {
    std::vector<LOp> ops = hist; for (size_t i = 0; i < ops.size(); i++) ops[i].r2 = xk[i];
    LStep st = [](LState &s, const LOp &o) { i64 &x = s[o.r2]; i64 old = x, ret = 0; switch (o.kind) { case 10: ret = old; break; case 11: x = o.a; break; case 12: ret = old; x = (i64)((u64)old + (u64)o.a); break; case 13: ret = old; x = (i64)((u64)old - (u64)o.a); break; case 14: ret = old; x = o.a; break; case 15: ret = old == o.b; if (ret) x = o.a; break; case 16: ret = old; x = old & o.a; break; case 17: ret = old; x = old | o.a; break; case 18: ret = old; x = old ^ o.a; break; } return !o.done || ret == o.r; };
    if (finals) { for (int k = 0; k < 2; k++) { LOp f = {99, 10, 0, 0, fin[2][k], k, ~0ull - 10, ~0ull - 5, true}; ops.push_back(f); } }
    LinResult r = linearize(ops, {0, 0}, st, nullptr);
    if (r.unknown) { PROBE("history too long to check"); return; }
    if (!r.ok) violation("not-linearizable", "no single order of the atomic operations explains their results (final values %lld,%lld): %s", (long long)fin[2][0], (long long)fin[2][1], show_xh(-1).c_str());
    if (deadlocked) violation("hang", "a program that only uses atomic operations hangs (%s)", why);
    return;
  }
  for (int k = 0; k < 2; k++) {
    std::vector<LOp> ops; for (size_t i = 0; i < hist.size(); i++) if (xk[i] == k) ops.push_back(hist[i]); if (ops.empty()) continue;
    auto en = [](const LState &s, const LOp &o) { return (o.kind == 1 || o.kind == 5) ? s[0] == 0 : true; };
    LinResult r = linearize(ops, {0}, lock_step, en);
    if (r.unknown) { PROBE("history too long to check"); continue; }
    const char *kind = xprop == 3 ? "mutex" : "spinlock";
    if (!r.ok) violation("exclusion", "no order of the operations on %s %d respects mutual exclusion and the reported results: %s", kind, k, show_xh(k).c_str());
    if (deadlocked && !r.quiescent_ok) violation("lost-wakeup", "a thread never returns from an operation on %s %d that could proceed (%s): %s", kind, k, why, show_xh(k).c_str());
  }
  if (deadlocked) violation("hang", "a program whose locks are all released hangs (%s): %s", why, show_xh(-1).c_str());
  if (finals) for (int k = 0; k < 2; k++) if (fin[k][0] != crit_n[k] || fin[k][1] != crit_n[k]) violation("lost-update", "%lld updates were made under lock %d, but the counters end as %lld and %lld: %s", (long long)crit_n[k], k, (long long)fin[k][0], (long long)fin[k][1], show_x().c_str());
}
static i64 aval() { static const i64 v[] = {1, -1, 2, 7, 0, 1ll << 32, -(1ll << 40), 0x5555555555555555ll, (i64)0x8000000000000000ull, 0x7fffffffffffffffll, 0xff00ff00ll, 3}; return v[opick(12)]; }
static void x_setup(int prop) {
  xprop = prop; choose_sched(); if (prop == 3 && cfg(2)) fault_rate[F_SPURIOUS] = 16384;
  time_jumps = cfg(2);
  int n = 2 + cfg(3); xplan.assign(n, {}); pos_.assign(n, 0); xopen.assign(n, -1); xt0.assign(n, 0);
  u32 shape = cfg(4); int L = prop == 3 ? 1 : 5, T = prop == 3 ? 3 : 7, U = prop == 3 ? 2 : 6;
  if (prop == 4) {
    if (shape == 0) { // store-buffer and message-passing shapes, one order of two variables
      for (int w = 0; w < n; w++) { int m = 1 + opick(4); for (int i = 0; i < m; i++) { int k = (w + i) & 1; if (opick(2)) xplan[w].push_back({11, k, 100 * w + i + 1, 0}); else xplan[w].push_back({10, k ^ (int)opick(2), 0, 0}); } }
    } else if (shape == 1) { int op = 12 + opick(2); for (int w = 0; w < n; w++) { int m = 1 + opick(5); for (int i = 0; i < m; i++) xplan[w].push_back({op, 0, aval(), 0}); } }
    else { bool two = opick(2); int tot = 0; for (int w = 0; w < n; w++) { int m = 1 + opick(7); for (int i = 0; i < m && tot < 24; i++, tot++) { int op = 10 + opick(10); i64 e = opick(2) ? 0 : aval(); xplan[w].push_back({op, two ? (int)opick(2) : 0, aval(), e}); } } }
  } else {
    bool gated = shape == 3; // a holder that waits for another thread while holding the lock
    if (gated) {
      int k = opick(2); if (opick(2)) xplan[0].push_back({L, k ^ 1, 0, 0}), xplan[0].push_back({4, k ^ 1, 0, 0}), xplan[0].push_back({U, k ^ 1, 0, 0});
      xplan[0].push_back({L, k, 0, 0}); xplan[0].push_back({20, 1, 7, 0}); xplan[0].push_back({21, 0, 0, 0}); xplan[0].push_back({4, k, 0, 0}); xplan[0].push_back({U, k, 0, 0});
      xplan[1].push_back({21, 1, 0, 0}); int m = 1 + opick(3); for (int i = 0; i < m; i++) { xplan[1].push_back({T, k, 0, 0}); xplan[1].push_back({4, k, 0, 0}); xplan[1].push_back({U, k, 0, 0}); } if (opick(2)) { xplan[1].push_back({L, k ^ 1, 0, 0}); xplan[1].push_back({4, k ^ 1, 0, 0}); xplan[1].push_back({U, k ^ 1, 0, 0}); } xplan[1].push_back({20, 0, 1, 0});
      for (int w = 2; w < n; w++) { int kk = opick(2); xplan[w].push_back({opick(2) ? L : T, kk, 0, 0}); xplan[w].push_back({4, kk, 0, 0}); xplan[w].push_back({U, kk, 0, 0}); }
    } else for (int w = 0; w < n; w++) {
      int m = 1 + opick(shape == 0 ? 4 : 3); bool two = shape != 1;
      for (int i = 0; i < m; i++) {
        int k = two ? opick(2) : 0; int a = opick(3) == 2 ? T : L; bool nest = two && k == 0 && opick(4) == 0; u32 extra = opick(8);
        xplan[w].push_back({a, k, 0, 0}); if (nest) xplan[w].push_back({L, 1, 0, 0}), xplan[w].push_back({4, 1, 0, 0});
        int cs = 1 + opick(2); for (int j = 0; j < cs; j++) xplan[w].push_back({4, k, 0, 0}); if (extra == 1) xplan[w].push_back({31, 0, 0, 0}); if (extra == 2) xplan[w].push_back({30, 0, (i64)(prop == 3 ? 1 + 5000 * opick(2) : 0), 0}); if (nest) xplan[w].push_back({U, 1, 0, 0});
        xplan[w].push_back({U, k, 0, 0}); if (extra == 3) xplan[w].push_back({30, 0, (i64)opick(2), 0}); if (extra == 4) xplan[w].push_back({31, 0, 0, 0});
      }
    }
  }
  sample_add("%s", show_x().c_str());
  hook_call = [L, T, U](i64 k, i64 a, i64 b, i64 c) -> i64 {
    if (k == 0) return (i64)xplan.size() - 1;
    if (k == 1) return pos_[a] >= xplan[a].size() ? 0 : xplan[a][pos_[a]].op;
    if (k == 2) { auto &o = xplan[a][pos_[a]]; return b == 0 ? o.k : b == 1 ? o.v : o.e; }
    if (k == 4) { yield_now(); return 0; }
    if (k == 5) { fin[a][0] = b; fin[a][1] = c; if (a == 2) finals = true; return 0; }
    if (k == 6) { auto &o = xplan[a][pos_[a]]; LOp l = {(int)a, o.op, o.v, o.e, 0, 0, 0, ~0ull, false}; l.inv = add_event(o.op, a, o.k, o.v).seq; xopen[a] = hist.size(); xt0[a] = now_ns; hist.push_back(l); xk.push_back(o.k); return 0; }
    if (k == 3) {
      auto &o = xplan[a][pos_[a]];
      if (o.op == 6) store_buffer_drain(); // unlocking may be a plain store: it counts as done once it is visible
      if (o.op == 4) { if (b != c) violation("torn", "two counters updated together under lock %d differ inside the lock: %lld and %lld (%s)", o.k, (long long)b, (long long)c, show_x().c_str()); if (b != seen_cnt[o.k]) violation("lost-update", "a thread holding lock %d reads counter value %lld although %lld updates were made under the lock (%s)", o.k, (long long)b, (long long)seen_cnt[o.k], show_xh(o.k).c_str()); seen_cnt[o.k]++; crit_n[o.k]++; }
      if (xopen[a] >= 0) { auto &l = hist[xopen[a]]; l.done = true; l.r = b; l.ret = add_event(50 + l.kind, a, b, c).seq; xopen[a] = -1;
        if (o.op == T && !time_jumps && now_ns - xt0[a] > 1000000000ull) violation("try-blocks", "%s took %.1f ms of simulated time", xname(o.op), (now_ns - xt0[a]) / 1e6);
        if (o.op == T && !b) { int d = 0; size_t p = pos_[a] + 1; int kk = o.k; PROBE("try_lock refused"); while (p < xplan[a].size()) { auto &q = xplan[a][p]; if (q.op == U && q.k == kk && d == 0) break; p++; } pos_[a] = p; } else if (o.op == T) PROBE("try_lock acquired"); }
      pos_[a]++; return 0;
    }
    return 0;
  };
  on_deadlock = [](const char *why) { x_judge(true, why); end_run(); };
  on_steplimit = [] { x_judge(true, "step limit reached: threads spin without progress"); end_run(); };
  launch("conc");
}
static void x_check() { if (G->exited) { must_exit(G, 0); if (!finals) violation("exit-status", "the program ended before its main function did"); x_judge(false, ""); } }
static RegScenario c03({"mutex-history", "C03", {"conc.so"}, [] { x_setup(3); }, x_check, 1});
static RegScenario c04({"atomic-history", "C04", {"conc.so"}, [] { x_setup(4); }, x_check, 1});
static RegScenario c05({"spinlock-history", "C05", {"conc.so"}, [] { x_setup(5); }, x_check, 1});

// ================================================================ thread life cycle (C06, C07): program life
struct TOp { int op, k; i64 v; };
static std::vector<std::vector<TOp>> tplan; static std::vector<size_t> tpos; // by "who": 0 main, 1.. bodies in creation order
struct TInfo { i64 arg; bool zero; bool called = false, returned = false, started = false, ended = false, joined = false, detached = false, seen_dead = false; i64 effect = 0; int spawner = 0; u64 id = 0; };
static std::vector<TInfo> tinfo; static int tprop; static i64 cnt_lo; static std::vector<std::pair<u64, u64>> round_heap; static int alive_polls;
static const char *tname(int op) { static const char *n[] = {"", "spawn", "spawn0", "join", "is_alive", "thread_count", "sleep", "yield", "detach", "receive", "send", "set", "id", "round-end", "work"}; return op <= 14 ? n[op] : "?"; }
static std::string show_t() { std::string s; for (size_t w = 0; w < tplan.size(); w++) { s += fmts("[%s%zu:", w ? "thread" : "main", w); for (auto &o : tplan[w]) { s += fmts(" %s", tname(o.op)); if (o.op == 1 || o.op == 2 || o.op == 3 || o.op == 4 || o.op == 8) s += fmts("(%d)", o.k); if (o.op == 6) s += fmts("(%lldms)", (long long)o.v); } s += "] "; } return s; }
static std::vector<int> slot_thread(8, -1);
static i64 life_hook(i64 k, i64 a, i64 b, i64 c) {
  switch (k) {
    case 1: { if (tpos[a] >= tplan[a].size()) return 0; auto &o = tplan[a][tpos[a]]; return o.op; }
    case 2: { auto &o = tplan[a][tpos[a]]; if (b == 1) { if (o.op == 1) return tinfo[o.v].arg; return o.v; }
      // the last query before the operation is performed
      if (o.op == 1 || o.op == 2) { tinfo[o.v].called = true; slot_thread[o.k] = (int)o.v; }
      if (o.op == 5) { cnt_lo = 0; for (size_t i = 1; i < tinfo.size(); i++) if (tinfo[i].returned && !tinfo[i].ended) cnt_lo |= 1ll << i; i64 up = 0; for (size_t i = 1; i < tinfo.size(); i++) if (tinfo[i].joined) up |= 1ll << i; cnt_lo |= up << 32; tplan[a][tpos[a]].v = cnt_lo; }
      add_event(100 + o.op, a, o.k, o.v); return o.k; }
    case 3: { auto &o = tplan[a][tpos[a]]; add_event(120 + o.op, a, b, c); int t = o.op == 3 || o.op == 4 || o.op == 8 ? slot_thread[o.k] : -1;
      if (o.op == 1 || o.op == 2) { tinfo[o.v].returned = true; }
      if (o.op == 3) { auto &ti = tinfo[t]; ti.joined = true; if (!ti.ended) violation("join-early", "join of thread %d returned before its function finished: %s", t, show_t().c_str()); if (ti.effect && b != ti.effect) violation("join-visibility", "after join of thread %d its write %lld is not visible (read %lld)", t, (long long)ti.effect, (long long)b); PROBE("join observed"); }
      if (o.op == 4) { auto &ti = tinfo[t]; if (!b) { if (!ti.ended) violation("alive-lies", "is_alive reports thread %d finished before its function returned: %s", t, show_t().c_str()); ti.seen_dead = true; PROBE("is_alive false seen"); } else { if (ti.seen_dead) violation("alive-lies", "is_alive reports thread %d alive again", t); PROBE("is_alive true seen"); if (o.v == 1 && ti.ended) { actor_sleep(1000000); if (++alive_polls > 60) violation("alive-lies", "is_alive still reports thread %d alive long after its function returned", t); return 0; } } }
      if (o.op == 5) { int lo = __builtin_popcountll(o.v & 0xffffffff), hi = 0; int lo2 = 0; for (size_t i = 1; i < tinfo.size(); i++) { if (tinfo[i].called && !(o.v >> 32 >> i & 1)) hi++; if ((o.v >> i & 1) && !tinfo[i].ended) lo2++; } lo = lo2; if (b < lo || b > hi) violation("thread-count", "thread_count() returned %lld although between %d and %d spawned threads were live: %s", (long long)b, lo, hi, show_t().c_str()); PROBE("thread_count judged"); }
      if (o.op == 12) { if (b != c) violation("thread-id", "two identity queries in one thread differ"); }
      if (o.op == 11) tinfo[a].effect = o.v;
      if (o.op == 14) { i64 w = 0; for (int i = 0; i < 2 + o.k; i++) w += o.k % 2 == 0 || i % 2 == 0 ? 8ll << o.v : (8ll << o.v) + 1 + 23; if (b != w) violation("wrong-result", "a thread's private work gave %lld instead of %lld", (long long)b, (long long)w); PROBE("work done in a thread"); }
      tpos[a]++; return 0; }
    case 10: { // a thread body starts; a = argument, b = has argument
      int w = -1; for (size_t i = 1; i < tinfo.size(); i++) if (tinfo[i].called && tinfo[i].zero == !b && (b ? tinfo[i].arg == a : !tinfo[i].started)) { w = (int)i; if (!b) break; }
      if (w < 0) violation("spawn-argument", "a thread runs with argument %lld, which no spawn passed (%s)", (long long)a, show_t().c_str());
      if (tinfo[w].started) violation("spawn-twice", "the function of thread %d (argument %lld) runs twice", w, (long long)a);
      if (cur->is_main) violation("spawn-own-thread", "a spawned function runs in the main thread");
      tinfo[w].started = true; add_event(140, w, a); return w; }
    case 12: if (c != b + 1) violation("wrong-result", "a thread's private string has the wrong length (%lld, %lld)", (long long)b, (long long)c); return 0;
    case 11: tinfo[a].ended = true; add_event(141, a); return 0;
    case 7: { // end of a round: wait until the spawned threads are really gone, then account for memory
      block("end of the round: spawned threads never finish", [] { return live_threads(G) == 0; });
      if (unreaped_threads(G) > 0) violation("unreaped", "%d finished threads were joined or detached by the program but never reaped (%s)", unreaped_threads(G), show_t().c_str());
      round_heap.push_back({heap_live_bytes(G), heap_live_blocks(G)});
      if (round_heap.size() >= 2 && round_heap.back() != round_heap[0]) violation("leak", "after round %zu the program holds %llu bytes in %llu blocks, after the first round %llu bytes in %llu blocks; %s (%s)", round_heap.size(), (unsigned long long)round_heap.back().first, (unsigned long long)round_heap.back().second, (unsigned long long)round_heap[0].first, (unsigned long long)round_heap[0].second, heap_leak_report(G).c_str(), show_t().c_str());
      PROBE("round accounted"); return 0; }
  }
  return 0;
}
static i64 targ(int i) { static const i64 v[] = {0, -1, 1, 1ll << 40, -(1ll << 62), 0x7fffffffffffffffll, (i64)0x8000000000000000ull, 77, 1000, 123456789012ll}; return v[opick(10)] ^ ((i64)i << 8); }
static int zeros;
static int new_thread(std::vector<TOp> body, bool &zero) { if (zero && zeros++) zero = false; int id = (int)tinfo.size(); TInfo t; t.arg = zero ? 0 : targ(id); t.zero = zero; tinfo.push_back(t); tplan.push_back(body); tpos.push_back(0); return id; }
static int body_wait; // tokens bodies will receive
static std::vector<TOp> rnd_body(bool effects, int slot) { std::vector<TOp> b; int n = opick(4); for (int i = 0; i < n; i++) { switch (opick(6)) { case 0: b.push_back({6, 0, (i64)opick(3)}); break; case 1: b.push_back({7, 0, 0}); break; case 2: b.push_back({9, 0, 0}); body_wait++; break; case 3: b.push_back({5, 0, 0}); break; case 4: b.push_back({12, 0, 0}); break; default: b.push_back({7, 0, 0}); } } if (effects) b.push_back({11, slot, 1000 + (i64)tinfo.size()}); return b; }
static void life_setup(int prop) {
  tprop = prop; choose_sched(); time_jumps = cfg(2); bool thr_fault = prop == 6 && cfg(5) == 0; if (thr_fault) fault_rate[F_THREAD] = 12000;
  if (cfg(3) == 0) fault_rate[F_SPURIOUS] = 8192;
  tinfo.resize(1); tplan.resize(1); tpos.resize(1); std::vector<TOp> m; body_wait = 0;
  if (prop == 6) {
    int n = 1 + cfg(5); std::vector<int> live; std::vector<int> nested(8, 0);
    auto noise = [&](bool allow_alive) { int z = opick(4); for (int i = 0; i < z; i++) switch (opick(6)) { case 0: m.push_back({6, 0, (i64)opick(4)}); break; case 1: m.push_back({7, 0, 0}); break; case 2: m.push_back({5, 0, 0}); break; case 3: case 4: if (allow_alive && !live.empty()) m.push_back({4, live[opick(live.size())], 0}); break; case 5: if (body_wait) { m.push_back({10, 0, 5}); body_wait--; } break; } };
    for (int s = 0; s < n; s++) { bool zero = opick(4) == 0; auto b = rnd_body(true, s);
      if (s + 1 < n && opick(5) == 0) { // this thread spawns and joins the next one itself
        bool iz = opick(4) == 0; int inner = new_thread(rnd_body(true, s + 1), iz); b.insert(b.begin(), {tinfo[inner].zero ? 2 : 1, s + 1, inner}); size_t at = 1; if (opick(2)) b.insert(b.begin() + at++, {4, s + 1, 0}); b.insert(b.begin() + at + opick(b.size() - at), {3, s + 1, 0}); int t = new_thread(b, zero); m.push_back({zero ? 2 : 1, s, t}); live.push_back(s); s++; noise(true); continue; }
      int t = new_thread(b, zero); m.push_back({zero ? 2 : 1, s, t}); live.push_back(s); noise(true); }
    while (body_wait > 0) { m.push_back({10, 0, 5}); body_wait--; }
    if (opick(3) == 0 && !live.empty()) { m.push_back({6, 0, 60}); for (int s : live) for (int i = 0; i < 2; i++) { m.push_back({4, s, 1}); } }
    while (!live.empty()) { size_t i = opick(live.size()); m.push_back({3, live[i], 0}); live.erase(live.begin() + i); noise(true); }
    m.push_back({5, 0, 0});
  } else {
    int rounds = 2 + cfg(2); bool heavy = cfg(8) == 7;
    for (int r = 0; r < rounds; r++) {
      int n = 1 + opick(4); std::vector<int> live; 
      for (int s = 0; s < n; s++) { bool zero = opick(4) == 0; auto b = rnd_body(false, s); if (heavy && opick(2)) { static const i64 sz[] = {2, 9, 12, 15, 16, 17}; int m = 1 + opick(3); for (int i = 0; i < m; i++) b.insert(b.begin() + opick((u32)b.size() + 1), {14, (int)opick(4), sz[opick(6)]}); } int t = new_thread(b, zero); m.push_back({zero ? 2 : 1, s, t}); live.push_back(s);
        if (opick(2)) { int d = opick(5); if (d == 1) m.push_back({7, 0, 0}); if (d == 2) m.push_back({6, 0, 1}); while (body_wait > 0 && opick(2)) { m.push_back({10, 0, 5}); body_wait--; } m.push_back({opick(4) ? 8 : 3, live.back(), 0}); if (m.back().op == 3 && body_wait) { auto j = m.back(); m.pop_back(); while (body_wait > 0) { m.push_back({10, 0, 5}); body_wait--; } m.push_back(j); } live.pop_back(); } }
      while (body_wait > 0) { m.push_back({10, 0, 5}); body_wait--; }
      while (!live.empty()) { size_t i = opick(live.size()); int d = opick(4); if (d == 1) m.push_back({6, 0, (i64)opick(3)}); if (d == 2) m.push_back({7, 0, 0}); m.push_back({opick(3) ? 8 : 3, live[i], 0}); live.erase(live.begin() + i); }
      m.push_back({13, 0, 0}); zeros = 0;
    }
  }
  tplan[0] = m; sample_add("%s", show_t().c_str());
  hook_call = life_hook; launch("life");
}
static void life_check() {
  if (!G->exited) return;
  if (R->faults[F_THREAD]) { if (G->killed_by) violation("killed", "the program was killed by signal %d when a thread could not be created", G->killed_by); if (G->status == 0) violation("spawn-failure-ignored", "a thread could not be created but the program carried on and exited with status 0: %s", show_t().c_str()); if (G->err.empty()) violation("spawn-failure-silent", "a thread could not be created and the program stopped without a message"); PROBE("thread creation refused, clean stop"); return; }
  must_exit(G, 0);
  for (size_t i = 1; i < tinfo.size(); i++) if (tinfo[i].called && !tinfo[i].started) violation("spawn-lost", "the function of thread %zu never ran", i);
}
static RegScenario c06({"thread-life", "C06", {"life.so"}, [] { life_setup(6); }, life_check, 1});
static RegScenario c07({"thread-memory", "C07", {"life.so"}, [] { life_setup(7); }, life_check, 1});

// ================================================================ isolation between threads (C08): program iso
static std::vector<std::pair<int, i64>> kpairs; static std::vector<std::string> kref; static std::vector<std::vector<int>> kplan; static std::vector<size_t> kpos;
static const char *kname[] = {"strings", "arrays", "maps", "structs", "new", "time", "json", "regex", "encoding", "numbers", "recursion", "csv", "bytes", "hof", "strarr", "strings2", "maps2", "time2", "json2", "regex2", "enc2", "fmt", "fmt2", "strconv", "math", "wide", "binary2", "csv2", "show", "path", "file", "env", "uuid", "mem", "err", "multi"};
static const int nkern = sizeof kname / sizeof *kname; static i64 kfile;
static void iso_setup() {
  choose_sched(); int n = 1 + cfg(4); int th = 1 + cfg(3); int only = cfg(3) == 0 ? (int)cfg(nkern) : -1;
  for (int i = 0; i < n; i++) kpairs.push_back({only >= 0 ? only : (int)opick(nkern), 1 + (i64)opick(400)});
  kref.assign(n, ""); kplan.assign(th + 1, {}); kpos.assign(th + 1, 0);
  for (auto &p : kplan) { int m = 1 + opick(3); for (int i = 0; i < m; i++) p.push_back(opick(n)); }
  for (size_t w = 0; w < kplan.size(); w++) { sample_add("[T%zu:", w); for (int i : kplan[w]) sample_add(" %s(%lld)", kname[kpairs[i].first], (long long)kpairs[i].second); sample_add("] "); }
  hook_call = [](i64 k, i64 a, i64 b, i64) -> i64 { if (k == 0) return a == 0 ? (i64)kpairs.size() : (i64)kplan.size() - 1; if (k == 6) return ++kfile; if (k == 3) return b == 0 ? kpairs[a].first : kpairs[a].second; if (k == 1) { if (kpos[a] >= kplan[a].size()) return -1; auto &p = kpairs[kplan[a][kpos[a]]]; return b == 0 ? p.first : p.second; } return 0; };
  hook_put = [](i64 k, i64 a, i64, const std::string &s) { if (k == 4) { kref[a] = s; return; } int i = kplan[a][kpos[a]++]; add_event(200, a, i, 0, s); if (s != kref[i]) violation("disturbed", "thread %lld computed %s(%lld) = \"%s\" while other threads ran; alone it is \"%s\"", (long long)a, kname[kpairs[i].first], (long long)kpairs[i].second, hexdump(s, 300).c_str(), hexdump(kref[i], 300).c_str()); };
  launch("iso");
}
static void iso_check() { if (!G->exited) return; must_exit(G, 0); for (size_t w = 0; w < kplan.size(); w++) if (kpos[w] != kplan[w].size()) violation("lost-work", "thread %zu did not finish its work", w); for (auto &r : kref) if (r.empty()) violation("lost-work", "a reference result is empty"); }
static RegScenario c08({"isolation", "C08", {"iso.so"}, iso_setup, iso_check, 1});

// ================================================================ recursion guard (C09): program deep
struct DOp { int op; i64 d; }; static std::vector<std::vector<DOp>> dplan; static std::vector<size_t> dpos; static int holders; static bool must_stop, barrier_seen;
// What exits(d) of the program computes: every kind of way out of a function, d times.
static i64 exits_value(i64 d) { i64 sum = 0; for (i64 n = 0; n < d; n++) { sum += 1 + 14 + 5 + (n % 2 ? 2 : 1) + (n % 3 ? n : 0) + (n % 5 >= 1 && n % 5 <= 3 ? 3 : 1) + n + n; sum += n % 3 == 0 ? 4 : n % 3 == 1 ? (i64)std::to_string(n).size() : n > 5 ? 4 : 3; i64 r = -1; for (i64 i = 0; i < 3 && r < 0; i++) { for (i64 j = 0; j < 3; j++) if (i * j == n % 5) { r = i; break; } if (r < 0 && i == n % 4) r = 10; } sum += r; } return sum; }
extern u64 knob_reads; static i64 dlim; static i64 dsc(i64 x) { return x * dlim / 10000; } // most runs with a smaller limit, which a run reaches a hundred times faster
static void deep_setup() {
  dlim = cfg(24) == 23 ? 10000 : 300 + 100 * (i64)cfg(3); if (dlim != 10000) knobs["max_call_depth"] = dlim;
  choose_sched(); if (dlim == 10000) sched.p_mem = sched.p_mem ? std::max(sched.p_mem, 500u) : 0; int th = 1 + cfg(4); dplan.assign(th + 1, {}); dpos.assign(th + 1, 0); must_stop = cfg(5) == 0; u32 shape = cfg(5); max_steps = 40000000; holders = 0; i64 lim = dlim - 50;
  if (shape == 0) { for (int w = 1; w <= th; w++) { dplan[w].push_back({2, dsc(2600) + (i64)opick((u32)(lim - dsc(2600)))}); holders++; } if (opick(2)) dplan[0].push_back({6, 1 + (i64)opick(lim)}); }
  else if (shape == 1) { for (auto &p : dplan) { p.push_back({5, dlim == 10000 ? 200 + (i64)opick(3) * 400 : 60 + (i64)opick(3) * 100}); p.push_back({(i64)opick(2) ? 6 : 3, dsc(8000) + (i64)opick((u32)(lim - dsc(8000)))}); } }
  else if (shape == 2) { for (auto &p : dplan) { int m = 1 + opick(3); for (int i = 0; i < m; i++) { int op = opick(5); if (op == 0) p.push_back({4, 1 + (i64)opick(40)}); else if (op == 1) p.push_back({7, 0}); else if (op == 2) p.push_back({5, 1 + (i64)opick(60)}); else p.push_back({6, 1 + (i64)opick(lim)}); } } }
  else if (shape == 3) { dplan[opick(th + 1)].push_back({1, dsc(3000) + (i64)opick((u32)(lim - dsc(3000)))}); for (int w = 1; w <= th; w++) if (dplan[w].empty() && opick(2)) { dplan[w].push_back({2, dsc(5000) + (i64)opick((u32)(lim - dsc(5000)))}); holders++; } }
  else if (shape == 4) { for (auto &p : dplan) if (&p == &dplan[0] || opick(2)) { p.push_back({8, dlim == 10000 ? 40 + (i64)opick(3) * 60 : 15 + (i64)opick(3) * 20}); p.push_back({6, dlim - 40 + (i64)opick(20)}); } }
  if (must_stop) { int w = opick(th + 1); auto &p = dplan[w]; if (w && !p.empty() && p[0].op == 2) { holders--; } p.clear(); p.push_back({6, dlim + 100 + (i64)opick(3) * dlim / 10}); if (w && holders == 0 && shape == 0) {} }
  for (size_t w = 0; w < dplan.size(); w++) { sample_add("[T%zu:", w); for (auto &o : dplan[w]) sample_add(" %s %lld", o.op == 1 ? "recurse-value" : o.op == 2 ? "hold-depth" : o.op == 3 ? "mutual" : o.op == 4 ? "small" : o.op == 5 ? "early-returns" : o.op == 8 ? "exits" : o.op == 6 ? "recurse" : "yield", (long long)o.d); sample_add("] "); }
  hook_call = [](i64 k, i64 a, i64 b, i64) -> i64 { if (k == 0) return a == 0 ? (i64)dplan.size() - 1 : holders; if (k == 1) return dpos[a] >= dplan[a].size() ? 0 : dplan[a][dpos[a]].op; if (k == 2) return dplan[a][dpos[a]].d; if (k == 3) { auto &o = dplan[a][dpos[a]++]; add_event(300, a, o.op, b); i64 want = o.op == 1 ? o.d : o.op == 2 ? 1 : o.op == 3 ? o.d % 2 == 0 : o.op == 4 ? o.d * 5 : o.op == 8 ? exits_value(o.d) : 0; if (b != want) violation("wrong-value", "recursive computation gave %lld instead of %lld", (long long)b, (long long)want); if (o.op == 6 && o.d > dlim && (knob_reads || dlim == 10000)) violation("guard-missed", "a call depth of %lld was not stopped", (long long)o.d); } if (k == 6) barrier_seen = true; return 0; };
  launch("deep");
}
static void deep_check() {
  if (!G->exited) return; if (G->killed_by) must_exit(G, 0);
  if (dlim != 10000 && !knob_reads) { PROBE("the limit is not read as expected: run not judged"); return; }
  if (must_stop) { if (G->status == 0) violation("guard-missed", "the program exits with status 0 although a thread recursed past the limit"); if (!has(G->err, "P0003")) violation("guard-message", "the program was stopped without the stack-overflow panic: %s", hexdump(G->err, 300).c_str()); PROBE("guard stopped a runaway recursion"); return; }
  if (G->status != 0 && has(G->err, "P0003")) violation("guard-false", "the recursion guard stopped a program in which every thread stays below the limit; stderr: %s", hexdump(G->err, 200).c_str());
  must_exit(G, 0); if (holders) PROBE("depths held at the same time");
}
static RegScenario c09({"recursion-guard", "C09", {"deep.so"}, deep_setup, deep_check, 1});

// ================================================================ allocation failure (C10): program oom, run twice
static std::string oom_out; static int oom_phase;
static void oom_setup() {
  choose_sched(); int n = 1 + cfg(4); int th = cfg(3); u32 mode = cfg(4); u32 only = cfg(2) ? 1 + cfg(16) : 0;
  for (int i = 0; i < n; i++) kpairs.push_back({only ? (int)only - 1 : (int)opick(16), 1 + (i64)opick(400)});
  kref.assign(n, ""); kplan.assign(th ? th + 1 : 0, {}); for (auto &p : kplan) { int m = 1 + opick(2); for (int i = 0; i < m; i++) { int j = opick(n); if (kpairs[j].first != 14) p.push_back(j); } }
  for (auto &p : kpairs) sample_add("%s(%lld) ", p.first < 14 ? kname[p.first] : p.first == 14 ? "files" : "sync", (long long)p.second);
  fs_mkdirs("/work"); fs_mkdirs("/tmp");
  hook_call = [](i64 k, i64 a, i64 b, i64) -> i64 { if (k == 0) return a == 0 ? (i64)kpairs.size() : kplan.empty() ? 0 : (i64)kplan.size() - 1; if (k == 3) return b == 0 ? kpairs[a].first : kpairs[a].second; if (k == 1) { if (kpos[a] >= kplan[a].size()) return -1; auto &p = kpairs[kplan[a][kpos[a]]]; return b == 0 ? p.first : p.second; } return 0; };
  hook_put = [](i64 k, i64 a, i64, const std::string &s) { int i = k == 4 ? (int)a : kplan[a][kpos[a]++]; if (oom_phase == 0) { if (k == 4) kref[a] = s; return; }
    if (s == kref[i]) return; if (kpairs[i].first == 14 && has(s, "failed")) { PROBE("library call reported the failure"); return; }
    violation("wrong-result", "under allocation failure %s(%lld) produced \"%s\" instead of \"%s\"", kpairs[i].first < 14 ? kname[kpairs[i].first] : "files/sync", (long long)kpairs[i].second, hexdump(s, 300).c_str(), hexdump(kref[i], 300).c_str()); };
  static Proc *g1, *g2; g1 = g2 = nullptr; run_done = [] { return g2 && g2->exited; };
  spawn_actor("driver", [mode] {
    bool fz = sched_frozen; kpos.assign(kplan.size(), 0); g1 = start_guest("oom.so", {"oom"}); G = g1; block("first run", [] { return g1->exited; }); must_exit(g1, 0); oom_out = g1->out; (void)fz;
    u64 opp = R->fault_elig[F_MALLOC]; oom_phase = 1; kpos.assign(kplan.size(), 0); for (auto &f : fs_list("/work")) { fs_remove("/work/" + f); }
    if (mode <= 1) { fault_nth[F_MALLOC] = 1 + pick(ST_CFG, (u32)std::min<u64>(opp, 1u << 30)); fault_sticky[F_MALLOC] = mode == 1; } else fault_rate[F_MALLOC] = mode == 2 ? 65536 / 40 : 65536 / 400;
    sample_add("fail allocation #%llu of %llu", (unsigned long long)fault_nth[F_MALLOC], (unsigned long long)opp);
    g2 = start_guest("oom.so", {"oom"}); G = g2; });
}
static void oom_check() {
  if (!G || !G->exited) return; if (G->killed_by) violation("killed", "under allocation failure the program was killed by signal %d", G->killed_by);
  if (!R->faults[F_MALLOC]) { must_exit(G, 0); return; }
  if (G->status == 0) { if (G->out != oom_out && !has(G->out, "failed")) violation("wrong-output", "an allocation failed and the program exited with status 0 but printed something else: %s", hexdump(G->out, 400).c_str()); PROBE("survived an allocation failure"); return; }
  if (!has(G->err, "memory") && !has(G->err, "P0102") && !has(G->err, "panic")) violation("silent-stop", "the program stopped with status %d after an allocation failure without an out-of-memory message; stderr: \"%s\"", G->status, hexdump(G->err, 300).c_str());
  if (oom_out.compare(0, G->out.size(), G->out) != 0 && !has(G->out, "failed")) violation("wrong-output", "before stopping for lack of memory the program printed wrong results: %s", hexdump(G->out, 400).c_str());
  PROBE("clean out-of-memory stop");
}
static RegScenario c10({"allocation-failure", "C10", {"oom.so", "oom.so"}, oom_setup, oom_check, 1});
