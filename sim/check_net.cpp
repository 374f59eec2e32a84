// Scenarios for sockets, the HTTP client and the HTTP server (C18-C21).
// The peers are scripted actors of the simulator; the programs under test are programs/{sock,hcli,serv}.gray.
#include "scn.h"
#include <set>
static const u64 MS = 1000000ull, SEC = 1000000000ull;
static u64 nf(Fault f) { return R->faults[f]; }
static u64 slack(u64 steps0) { return 60 * MS + (R->steps - steps0) * 200; }

// ================================================================ C18: sockets
struct NOp { int op = 0; std::string s; i64 v = 0, u = 0; };
static const int NW = 4; static std::vector<NOp> nplan[NW]; static size_t npos[NW]; static int nthreads;
struct NOpen { bool on = false; NOp o; u64 t0 = 0, steps0 = 0, eintr = 0, hard = 0, resets = 0; bool listening = false; }; static NOpen nopen_[NW];
struct Sess { bool on = false; EndP e, p; std::string got; std::set<size_t> pos; u64 tmo = 0; bool lost = false; }; static Sess sess[NW];
static std::vector<std::shared_ptr<Listener>> plis; static std::string nstr[NW];
static std::map<std::string, std::pair<int, std::vector<u32>>> names; // host -> resolver result
static u64 nhard() { u64 n = 0; for (int f : {F_SOCKET, F_CONNECT, F_RESOLVE, F_ACCEPT, F_RESET}) n += R->faults[f]; return n; }
static const char *nname(int op) { switch (op) { case 1: return "net.connect"; case 2: case 8: return "net.listen"; case 3: return "net.accept"; case 4: return "net.close(listener)"; case 5: case 6: return "net.resolve"; case 7: return "sleep"; case 10: case 14: case 16: return "net.send"; case 11: case 15: case 17: case 18: return "net.receive"; case 12: return "net.set_timeout"; case 13: return "net.close"; } return "?"; }
static std::string nshow(const NOp &o) { std::string s = nname(o.op); switch (o.op) { case 1: return s + fmts("('%s', %lld)", o.s.c_str(), (long long)o.v); case 5: case 6: return s + "('" + o.s + "')"; case 10: case 14: case 16: return s + fmts("(%zu bytes)", o.s.size()); default: return s + fmts("(%lld)", (long long)o.v); } }
// what a peer does on one connection
static void peer_script(EndP e) {
  int n = (int)opick(6); bool shut = false;
  for (int i = 0; i < n; i++) switch (opick(shut ? 2 : 5)) {
    case 0: { std::string s; int k = 1 + (int)opick(3); for (int j = 0; j < k; j++) ep_recv(e, s, 1 + opick(opick(2) ? 20000 : 60), opick(3) * 40 * MS); break; }
    case 1: actor_sleep((1 + opick(opick(4) == 0 ? 9000 : 50)) * MS); break;
    case 2: case 3: { std::string d = rnd_bytes(opick(8) == 0 ? 1 + opick(120000) : 1 + opick(opick(2) ? 3000 : 12), opick(3) ? 1 : 0); if (!ep_send_t(e, d, (1 + opick(20)) * 100 * MS)) { if (opick(2)) ep_reset(e); else ep_close(e); return; } break; }
    case 4: ep_shutdown_wr(e); shut = true; break; }
  switch (opick(6)) {
    case 0: if (e->inbytes) ep_reset(e); else ep_close(e); return; // a close with unread data is a reset
    case 1: ep_reset(e); return;
    case 2: actor_sleep((1 + opick(20000)) * MS); if (e->inbytes) ep_reset(e); else ep_close(e); return;
    default: { if (!shut) ep_shutdown_wr(e); std::string s; u64 end = now_ns + 40 * SEC; while (now_ns < end) { int r = ep_recv(e, s, 65536, 2 * SEC); if (r == 0 || r == -1) break; } ep_close(e); return; } }
}
static void positions_send(Sess &x, const std::string &d, i64 n, bool failed) {
  std::set<size_t> np; const std::string &out = x.e->total_out;
  for (size_t p : x.pos) { size_t k = 0; while (k < d.size() && p + k < out.size() && out[p + k] == d[k]) { if (failed) np.insert(p + k); k++; } if (failed) np.insert(p + k); else if (k >= (size_t)n) np.insert(p + (size_t)n); }
  x.pos = np;
}
static std::string cs(const std::string &s) { return s.substr(0, s.find('\0')); }
static void sock_result(int w, i64 val, bool failed) {
  NOpen &q = nopen_[w]; if (!q.on) return; NOp &o = q.o; Sess &x = sess[w]; std::string S = fmts("T%d: %s", w, nshow(o).c_str()); u64 el = now_ns - q.t0; bool eintr = nf(F_EINTR_SOCK) > q.eintr, hard = nhard() > q.hard, resets = nf(F_RESET) > q.resets;
  std::string r = nstr[w]; nstr[w].clear(); q.on = o.op == 16 || o.op == 17; add_event(300 + o.op, w, val, failed);
  auto gone = [&] { return x.e->was_reset || x.p->closed || resets; };
  switch (o.op) {
    case 1: {
      if (failed) { bool host_ok = o.s == "localhost" || cs(o.s) == "127.0.0.1" || (names.count(o.s) && !names[o.s].first && (names[o.s].second[0] >> 24) == 127); if (host_ok && q.listening && net_listening((int)o.v) && !hard && !eintr) { bool full = false; for (auto &l : plis) if (l->port == o.v && (int)l->q.size() > l->backlog) full = true; if (!full && o.v < 9150) full = true; if (!full) violation("false-failure", "%s failed although the peer was listening and nothing went wrong", S.c_str()); } PROBE("connect failed"); }
      else { auto it = last_ep.find(cur->id); if (it == last_ep.end() || !it->second) violation("false-success", "%s succeeded but no connection was made", S.c_str()); x = Sess(); x.on = true; x.e = it->second; x.p = x.e->peer.lock(); x.pos = {0}; last_ep.erase(it); PROBE("connected"); }
      break; }
    case 3: {
      if (failed) { if (!hard && !eintr) violation("false-failure", "%s failed although nothing went wrong", S.c_str()); PROBE("accept failed"); }
      else { auto it = last_ep.find(cur->id); if (it == last_ep.end() || !it->second) violation("false-success", "%s succeeded but no connection was made", S.c_str()); x = Sess(); x.on = true; x.e = it->second; x.p = x.e->peer.lock(); x.pos = {0}; last_ep.erase(it); PROBE("accepted"); }
      break; }
    case 2: case 8: {
      bool shared = false; for (int y = 0; y < NW; y++) if (y != w) for (auto &z : nplan[y]) if ((z.op == 2 || z.op == 8) && z.v == o.v) shared = true;
      if (failed) { if (!q.listening && !hard && !shared && (o.op == 2 || o.s == "127.0.0.1" || o.s == "0.0.0.0")) violation("false-failure", "%s failed although the port was free", S.c_str()); }
      else { if (!net_listening((int)o.v)) violation("false-success", "%s succeeded but nothing listens on the port", S.c_str()); if (o.op == 8 && !(o.s == "127.0.0.1" || o.s == "0.0.0.0")) violation("false-success", "%s listens on the host '%s'", S.c_str(), o.s.c_str()); }
      break; }
    case 5: case 6: {
      bool num = o.s == "127.0.0.1" || o.s == "10.9.8.7"; int rc = num ? 0 : o.s == "localhost" ? 0 : names.count(o.s) ? names[o.s].first : -2;
      if (failed) { if (!rc && !hard) violation("false-failure", "%s failed although the name resolves", S.c_str()); }
      else { std::set<std::string> ok; if (num) ok.insert(o.s); else if (o.s == "localhost") ok.insert("127.0.0.1"); else if (!rc) for (u32 a : names[o.s].second) ok.insert(fmts("%u.%u.%u.%u", a >> 24, (a >> 16) & 255, (a >> 8) & 255, a & 255)); if (!ok.count(r)) violation("wrong-address", "%s returned '%s'", S.c_str(), hexdump(r, 40).c_str()); }
      break; }
    case 10: case 14: case 16: {
      if (val > (i64)o.s.size() || val < -1) violation("bad-count", "%s reports %lld bytes as sent", S.c_str(), (long long)val);
      if (failed != (val < 0)) violation("contradiction", "%s returned %lld together with %s", S.c_str(), (long long)val, failed ? "an error" : "no error");
      if (!failed && val == 0 && !o.s.empty()) violation("bad-count", "%s reports success with no bytes sent", S.c_str());
      positions_send(x, o.s, val, failed);
      if (x.pos.empty() || (!failed && !x.pos.count(x.e->total_out.size()))) violation("bytes-sent", "%s: the connection carries %zu bytes which are not what the program was told had been sent", S.c_str(), x.e->total_out.size());
      bool timed = x.tmo && el + 1000 >= x.tmo;
      if (failed && !gone() && !timed && !eintr) if (!R->faults[F_MALLOC]) violation("false-failure", "%s failed although the connection is intact, after %.6f s", S.c_str(), el / 1e9);
      if (x.tmo && el > x.tmo + slack(q.steps0) && o.op != 16) violation("timeout-ignored", "%s took %.6f s with a timeout of %.3f s", S.c_str(), el / 1e9, x.tmo / 1e9);
      if (failed) PROBE("send failed"); else if (val < (i64)o.s.size()) PROBE("send was short");
      break; }
    case 11: case 15: case 17: case 18: {
      if (!has(r, std::string(1, 0)) && val != (i64)r.size()) violation("garbled", "%s: the string of %zu bytes it returned is %lld long when it is used", S.c_str(), r.size(), (long long)val);
      if ((i64)r.size() > std::max<i64>(o.v, 0)) violation("too-much", "%s returned %zu bytes", S.c_str(), r.size());
      if (failed && !r.empty()) violation("contradiction", "%s returned %zu bytes together with an error", S.c_str(), r.size());
      x.got += r; if (x.got.size() > x.p->total_out.size() || x.p->total_out.compare(0, x.got.size(), x.got)) violation("bytes-received", "%s: what the program has received (%zu bytes, the last %s) is not what the peer sent (%zu bytes)", S.c_str(), x.got.size(), hexdump(r, 40).c_str(), x.p->total_out.size());
      bool timed = x.tmo && el + 1000 >= x.tmo, eof = x.e->peer_closed && x.e->fin_at <= now_ns;
      if (r.empty() && o.v > 0) {
        if (!failed && !eof) violation("silent-failure", "%s returned nothing and no error although the connection had not ended", S.c_str());
        if (!gone() && !timed && !eintr && !eof) if (!R->faults[F_MALLOC]) violation("false-failure", "%s failed although the connection is intact, after %.6f s", S.c_str(), el / 1e9);
        if (eof && !gone() && !timed && !eintr && x.got.size() < x.p->total_out.size()) violation("bytes-lost", "%s reports the end of the connection after %zu of the %zu bytes the peer sent", S.c_str(), x.got.size(), x.p->total_out.size());
        PROBE(timed ? "receive timed out" : eof ? "end of stream" : "receive failed"); }
      if (x.tmo && el > x.tmo + slack(q.steps0) && o.op < 16) violation("timeout-ignored", "%s took %.6f s with a timeout of %.3f s", S.c_str(), el / 1e9, x.tmo / 1e9);
      break; }
    case 12: x.tmo = (u64)o.v * MS; break;
    case 13: if (!x.e->closed) violation("not-closed", "%s left the connection open", S.c_str()); if (!x.pos.count(x.e->total_out.size()) && !x.pos.empty() && *x.pos.rbegin() < x.e->total_out.size()) violation("bytes-sent", "the connection carried %zu bytes which are not what the program was told had been sent", x.e->total_out.size()); x.on = false; break;
  }
}
static void add_session(int w, bool pair) {
  auto add = [w](int op, i64 v = 0, std::string s = "") { NOp o; o.op = op; o.v = v; o.s = s; nplan[w].push_back(o); };
  static const int tm[] = {1, 50, 999, 1000, 1500, 5000, 30000};
  if (pair || opick(2)) add(12, tm[opick(7)]);
  int n = 1 + (int)opick(7);
  for (int i = 0; i < n; i++) {
    static const i64 mx[] = {1, 5, 100, 4096, 65536, 300000, 8, 16, 64}; i64 m = opick(25) == 0 ? (i64)opick(2) - 1 : opick(40) == 0 ? 3000000 : mx[opick(9)];
    auto data = [] { return rnd_bytes(opick(7) == 0 ? opick(300000) : opick(opick(2) ? 4000 : 20), opick(3) ? 1 : 0); };
    switch (opick(8)) { case 0: case 1: add(10, 0, data()); break; case 2: add(14, 0, data()); break; case 3: case 4: add(11, m); break; case 5: add(15, m); break;
      case 6: { std::string d = data(); i64 m2 = mx[opick(9)]; if (m < 1) m = 7; add(16, 0, d); add(17, m); add(18, m2); break; }
      case 7: if (opick(3) == 0) add(12, tm[opick(7)]); else { add(10, 0, data()); add(11, m); } break; } }
  add(13);
}
static void sock_setup() {
  choose_sched(); time_jumps = false; max_steps = 8000000; seg_mode = cfg(2); if (cfg(2)) { static const u64 d[] = {1 * MS, 40 * MS, 900 * MS}; net_delay_max = d[cfg(3)]; }
  bool faulty = cfg(5) >= 2; if (faulty) { if (cfg(2)) fault_rate[F_SEND_SHORT] = 20000; if (cfg(3) == 2) fault_rate[F_EINTR_SOCK] = 3000; draw_faults({F_RESET, F_SOCKET, F_CONNECT, F_RESOLVE, F_ACCEPT, F_RESET}, 10); }
  names = {{"svc.example", {0, {0x7f000001}}}, {"two.example", {0, {0x7f000001, 0x7f000002}}}, {"far.example", {0, {0x0a000001}}}, {"silent.example", {0, {0x0a000063}}}, {"gone.example", {-2, {}}}, {"again.example", {-3, {}}}};
  resolver = [](const std::string &h, std::vector<u32> &a) -> int { auto it = names.find(h); if (it == names.end()) return -2; a = it->second.second; return it->second.first; };
  nthreads = (int)cfg(3); bool pair = nthreads && cfg(3) == 0; std::vector<int> accept_ports;
  for (int k = 0; k < 2; k++) { auto l = net_listen_actor(9200 + k); plis.push_back(l); spawn_actor(fmts("peer-listen%d", k), [l] { for (;;) { EndP e = net_accept_actor(l, ~0ull); if (e) spawn_actor("peer", [e] { peer_script(e); }); } })->daemon = true; }
  for (int w = 0; w <= nthreads; w++) {
    nplan[w].clear(); auto add = [w](int op, i64 v = 0, std::string s = "") { NOp o; o.op = op; o.v = v; o.s = s; nplan[w].push_back(o); };
    if (pair && w < 2) { // the two ends of one connection are both programs' threads
      if (w == 0) { add(2, 9100); add(3); add_session(w, true); add(4); } else { add(7, 20 + opick(50)); add(1, 9100, "127.0.0.1"); add_session(w, true); } if (w == 0) accept_ports.push_back(9100); continue; }
    int n = 1 + (int)opick(3); bool lis = false;
    for (int i = 0; i < n; i++) switch (opick(7)) {
      case 0: case 1: case 2: { static const char *hs[] = {"127.0.0.1", "localhost", "svc.example", "two.example"}; std::string h = opick(6) ? hs[opick(4)] : opick(3) == 0 ? "silent.example" : opick(2) ? "far.example" : "gone.example"; int port = 9200 + (int)opick(2); if (opick(9) == 0) port = 9300; add(1, port, h); add_session(w, false); break; }
      case 3: case 4: { int port = opick(8) ? 9100 + w : 9100; if (!lis) { if (opick(5) == 0) { static const char *hs[] = {"127.0.0.1", "0.0.0.0", "nowhere", "999.1.1.1"}; add(8, port, hs[opick(4)]); } else add(2, port); accept_ports.push_back(port); lis = true; } int k = 1 + (int)opick(2); for (int j = 0; j < k; j++) { add(3); add_session(w, false); } if (opick(3)) { add(4); lis = false; } break; }
      case 5: { static const char *hs[] = {"127.0.0.1", "localhost", "svc.example", "two.example", "gone.example", "again.example", "10.9.8.7", "nope.example"}; add(opick(3) ? 5 : 6, 0, hs[opick(8)]); break; }
      case 6: add(7, 1 + opick(2000)); break; }
    if (lis) add(4); }
  std::string s; for (int w = 0; w <= nthreads; w++) { s += fmts("[T%d:", w); for (auto &o : nplan[w]) s += " " + nshow(o); s += "] "; npos[w] = 0; nopen_[w].on = false; sess[w] = Sess(); } sample_add("%s", s.c_str());
  hook_put = [](i64, i64 a, i64, const std::string &d) { nstr[a] = d; };
  hook_str = [](i64, i64 a, i64) { return nopen_[a].o.s; };
  static bool lastlisten[NW]; for (auto &b : lastlisten) b = false;
  hook_call = [](i64 k, i64 a, i64 b, i64 c) -> i64 {
    if (k == 0) return nthreads;
    if (k == 9) { if (u64 n = count_open_fds(G)) violation("descriptor-leak", "%llu descriptors are open after everything was closed", (unsigned long long)n); return 0; }
    int w = (int)a; NOpen &q = nopen_[w];
    if (k == 1) {
      for (;; npos[w]++) { if (npos[w] >= nplan[w].size()) return 0; NOp &o = nplan[w][npos[w]]; if (o.op >= 10 && !sess[w].on) continue; if ((o.op == 3 || o.op == 4) && !lastlisten[w]) continue; break; }
      bool sub = nplan[w][npos[w]].op == 17 || nplan[w][npos[w]].op == 18; q.o = nplan[w][npos[w]++]; q.on = true; if (sub) return q.o.op; // the rest of a combined operation keeps its start
      q.t0 = now_ns; q.steps0 = R->steps; q.eintr = nf(F_EINTR_SOCK); q.hard = nhard(); q.resets = nf(F_RESET); q.listening = net_listening((int)q.o.v); return q.o.op; }
    if (k == 2) { if (q.o.op == 16) return nplan[w][npos[w] + b].v; return q.o.v; }
    if (k == 3) { int op = q.o.op; sock_result(w, b, c); if (op == 2 || op == 8) lastlisten[w] = !c; if (op == 4) lastlisten[w] = false; return 0; }
    return 0; };
  // connections for the program's own listeners: some scripted, and one more whenever it waits and nobody comes
  spawn_actor("callers", [accept_ports] { int left = 8; for (;;) { actor_sleep((1 + opick(30)) * MS); for (int p : accept_ports) if (net_listening(p) && left > 0 && opick(3) == 0) { EndP e = net_connect_actor(p); if (e) { left--; spawn_actor("caller", [e] { peer_script(e); }); } } if (left <= 0) break; } for (;;) { actor_sleep(1500 * MS); for (int p : accept_ports) if (net_listening(p)) { EndP e = net_connect_actor(p); if (e) { ep_close(e); } } } })->daemon = true;
  launch("sock");
}
static void sock_check() { must_exit(G, 0); }
static RegScenario c18({"sockets", "C18", {"sock.so"}, sock_setup, sock_check, 1});
static RegScenario oom_sockets({"sockets-oom", "C10", {"sock.so"}, [] { oom_setup_of(sock_setup, 80); }, [] { oom_check_of(sock_check); }, 1});

// ================================================================ C19: HTTP client
struct HOp { int op = 0; std::string url, host, path, body; int port = 0; std::vector<std::pair<std::string, std::string>> hdrs; bool reachable = true, fits = true;
  // the server's side
  std::string resp, want_body, want_x; int want_status = 0; bool head = false; bool complete = true, must_ok = true, may_ok = true; size_t send_upto = 0; int pieces = 0; u64 maxgap = 0; int ending = 0; bool early = false; u64 stall_at = 0, stall_ns = 0; u64 readgap = 0; std::string how;
  std::string got_req; bool served = false; u64 last_activity = 0; bool req_ok = false; std::string req_why; bool gave_up = false, cut = false, answered = false; u64 t_begin = 0; };
static std::vector<HOp> hplan[NW]; static size_t hpos[NW]; struct HOpen { bool on = false; u64 t0, steps0, hard, eintr; std::string b, x; bool inner = false; int innerv = 0; }; static HOpen hopen_[NW];
static const char *meth(int op) { switch (op % 10) { case 1: return "GET"; case 2: return "POST"; case 3: return "PUT"; case 4: return "PATCH"; case 5: return "DELETE"; default: return "HEAD"; } }
static bool ieq(const std::string &a, const char *b) { return strcasecmp(a.c_str(), b) == 0; }
static void check_request(HOp &o) { // the bytes the server received against what was asked for
  const std::string &r = o.got_req; size_t he = r.find("\r\n\r\n"); if (he == std::string::npos) { o.req_why = "its header block does not end"; return; }
  std::vector<std::string> ls; size_t i = 0; while (i <= he) { size_t n = r.find("\r\n", i); ls.push_back(r.substr(i, n - i)); i = n + 2; }
  std::string first = fmts("%s ", meth(o.op)) + o.path + " HTTP/1.1"; if (ls[0] != first) { o.req_why = "its request line is '" + hexdump(ls[0], 60) + "'"; return; }
  std::map<std::string, int> cnt; long cl = -1; bool host = false;
  for (size_t k = 1; k < ls.size(); k++) { size_t c = ls[k].find(':'); if (c == std::string::npos || c == 0) { o.req_why = "a header line is '" + hexdump(ls[k], 60) + "'"; return; } std::string n = ls[k].substr(0, c), v = ls[k].substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); cnt[n + "\n" + v]++;
    if (ieq(n, "Host")) { if (host || (v != o.host && v != fmts("%s:%d", o.host.c_str(), o.port))) { o.req_why = "its Host is '" + hexdump(v, 60) + "'"; return; } host = true; }
    if (ieq(n, "Content-Length")) { if (cl >= 0) { o.req_why = "it has two lengths"; return; } cl = atol(v.c_str()); }
    if (ieq(n, "Content-Type") && !o.hdrs.empty()) for (auto &h : o.hdrs) if (ieq(h.first, "Content-Type") && h.second != v) { o.req_why = "it has a Content-Type other than the caller's"; return; } }
  if (!host) { o.req_why = "it has no Host"; return; }
  for (auto &h : o.hdrs) if (cnt[h.first + "\n" + h.second] != 1) { o.req_why = "the header '" + h.first + "' is missing or repeated"; return; }
  std::string body = r.substr(he + 4), want = o.op % 10 >= 2 && o.op % 10 <= 4 ? o.body : ""; if (cl < 0) cl = 0;
  if (body != want || cl != (long)want.size()) { o.req_why = fmts("its body is %zu bytes (announced: %ld) instead of %zu", body.size(), cl, want.size()); return; }
  o.req_ok = true;
}
static HOp *current_op(int w) { return hpos[w] < hplan[w].size() ? &hplan[w][hpos[w]] : nullptr; }
static void serve_one(int w, EndP e) {
  HOp *o = current_op(w); bool mine = o && hopen_[w].on && e->made >= hopen_[w].steps0; if (!mine) { ep_close(e); return; } /* the connection of a request that has ended already */ o->served = true; o->last_activity = now_ns; o->t_begin = now_ns; u64 h0 = hopen_[w].hard, e0 = hopen_[w].eintr;
  // read the request
  size_t need = std::string::npos, he = std::string::npos; u64 give = now_ns + 25 * SEC;
  if (!o->early) for (;;) {
    if (he == std::string::npos) { he = o->got_req.find("\r\n\r\n"); if (he != std::string::npos) { need = he + 4; std::string low = o->got_req.substr(0, he); for (auto &ch : low) ch = (char)tolower(ch); size_t c = low.find("\r\ncontent-length:"); if (c != std::string::npos) need += (size_t)atol(low.c_str() + c + 17); } }
    if (he != std::string::npos && o->got_req.size() >= need) break;
    if (o->readgap && opick(3) == 0) actor_sleep(1 + opick(1000) * (o->readgap / 1000));
    int r = ep_recv(e, o->got_req, opick(3) ? 65536 : 1 + opick(300), give > now_ns ? give - now_ns : 1); if (r > 0) o->last_activity = now_ns; else {
      if (o->reachable && !o->readgap && !e->was_reset && nhard() == h0 && nf(F_EINTR_SOCK) == e0 && (o->fits || !o->got_req.empty())) violation("bad-request", "T%d: %s %s: the server received only %zu bytes of the request (its body is %zu bytes) although it was reading and the connection is intact", w, meth(o->op), o->url.substr(0, 90).c_str(), o->got_req.size(), o->body.size());
      o->gave_up = true; ep_close(e); o->last_activity = now_ns; return; } }
  if (!o->early) { std::string more; if (opick(2)) { int r = ep_recv(e, more, 1000, 5 * MS); if (r > 0) o->got_req += more; } check_request(*o); }
  o->answered = true; if (now_ns - o->t_begin > 7 * SEC) o->must_ok = false; // the client may have waited in vain
  // answer
  size_t off = 0, end = o->send_upto; int k = 0;
  while (off < end) {
    if (o->stall_ns && off >= o->stall_at) { actor_sleep(o->stall_ns); o->stall_ns = 0; }
    size_t m = end - off; if (k < o->pieces) { u32 z = opick(4); m = z == 0 ? 1 : z == 1 ? 1 + opick(8) : 1 + opick((u32)m); m = std::min(m, end - off); } if (o->stall_ns && off < o->stall_at) m = std::min<size_t>(m, o->stall_at - off);
    if (!ep_send_t(e, o->resp.substr(off, m), 900 * SEC)) { o->last_activity = now_ns; o->cut = true; ep_close(e); return; } o->last_activity = now_ns; off += m; k++;
    if (o->maxgap && off < end && k <= o->pieces) { u64 g = opick(1000) * (o->maxgap / 1000); if (g) actor_sleep(g); } }
  if (o->stall_ns) { actor_sleep(o->stall_ns); }
  switch (o->ending) {
    case 0: ep_shutdown_wr(e); o->last_activity = now_ns; { std::string s; ep_recv(e, s, 65536, 60 * SEC); } ep_close(e); break;
    case 1: ep_reset(e); o->last_activity = now_ns; break;
    case 2: { std::string s; ep_recv(e, s, 65536, 120 * SEC); ep_close(e); break; } // keep the connection open
    case 3: ep_close(e); o->last_activity = now_ns; break; }
}
static std::string chunked(const std::string &b, std::set<size_t> &) { std::string s; size_t off = 0; while (off < b.size()) { size_t m = 1 + opick((u32)std::min<size_t>(b.size() - off, b.size() < 8000 && opick(3) ? 60 : 5000)); s += fmts(opick(2) ? "%zx" : "%zX", m); if (opick(5) == 0) s += ";ext=1"; s += "\r\n" + b.substr(off, m) + "\r\n"; off += m; } s += opick(6) ? "0\r\n" : "000\r\n"; if (opick(5) == 0) s += "X-T: tr\r\n"; return s + "\r\n"; }
static std::string token_str(size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyz0123456789"[opick(36)]; return s; }
static HOp draw_http(int w, int i) {
  HOp o; static const int ops[] = {1, 2, 3, 4, 5, 6, 1, 2, 11, 12, 21, 16}; o.op = ops[opick(12)]; o.head = o.op % 10 == 6; o.port = 8100 + w;
  static const char *hosts[] = {"127.0.0.1", "localhost", "svc.example"}; o.host = hosts[opick(3)]; bool p80 = w == 0 && opick(4) == 0; if (p80) o.port = 80;
  o.path = "/" + fmts("r%d", i); if (opick(3) == 0) o.path += "/" + token_str(opick(20)) + "?a=" + token_str(3) + "&b=" + token_str(2); if (opick(12) == 0) { o.path += "/" + token_str(1900 + opick(300)); if (o.path.size() > 2030) o.fits = false; }
  std::string shown = o.path; if (opick(15) == 0) { o.path = "/"; shown = ""; }
  o.url = "http://" + o.host + (p80 && opick(2) ? "" : fmts(":%d", o.port)) + shown;
  if (opick(25) == 0) { o.port = 8199; o.url = "http://" + o.host + ":8199" + shown; o.reachable = false; }
  if (opick(25) == 0) { static const char *bad[] = {"https://127.0.0.1/x", "ftp://a/b", "http://", "127.0.0.1/x", "http:///x", "http://gone.example/x", "http://far.example/x"}; o.url = bad[opick(7)]; o.reachable = false; }
  if (o.op % 10 >= 2 && o.op % 10 <= 4) o.body = rnd_bytes(opick(14) == 0 ? opick(200000) : opick(opick(2) ? 6000 : 50), opick(3) ? 1 : 0);
  int nh = opick(3) ? (int)opick(4) : 0;  for (int k = 0; k < nh; k++) o.hdrs.push_back({fmts("X-H%d", k), token_str(1 + opick(opick(12) == 0 ? 2500 : 30))}); if (opick(8) == 0) o.hdrs.push_back({opick(2) ? "Content-Type" : "content-type", "application/json"});
  if (opick(14) == 0) { // a header block close to or beyond the client's buffer
    size_t room = 3800 + opick(opick(2) ? 400 : 4000), used = o.path.size() + 60; if (o.op % 10 >= 2 && o.op % 10 <= 4) used += 80; for (auto &h : o.hdrs) used += h.first.size() + h.second.size() + 4; size_t each = 1 + opick(opick(2) ? 2000 : 200); while (used + 20 < room) { size_t n = std::min(each, room - used - 12); o.hdrs.push_back({fmts("X-H%zu", o.hdrs.size()), token_str(n)}); used += n + 10; } }
  size_t hsz = o.path.size() + 200; for (auto &h : o.hdrs) hsz += h.first.size() + h.second.size() + 4; if (hsz > 3900) o.fits = false;
  // the response
  static const int sts[] = {200, 200, 200, 201, 404, 500, 204, 304, 302}; o.want_status = sts[opick(9)]; bool nobody = o.head || o.want_status == 204 || o.want_status == 304;
  std::string b = rnd_bytes(opick(60) == 0 ? 900000 + opick(200000) : opick(8) == 0 ? opick(70000) : opick(opick(2) ? 5000 : 30), opick(2) ? 1 : opick(2) ? 0 : 2); if (opick(6) == 0) b = "a\r\n\r\nb\n\nc" + b; if (opick(20) == 0) b.clear();
  std::string nl = opick(6) ? "\r\n" : "\n"; o.want_x = token_str(1 + opick(20)); std::string h = fmts("HTTP/1.%d %d ", (int)opick(5) ? 1 : 0, o.want_status) + (opick(5) ? "Some Reason" : "") + nl; std::set<size_t> dummy;
  if (opick(3) == 0) h += "Server: sim" + nl; h += "X-A:" + std::string(opick(4) ? " " : "") + o.want_x + nl; if (opick(12) == 0) h += "X-Long: " + token_str(3000 + opick(3000)) + nl;
  int framing = nobody ? (int)opick(2) : (int)opick(4); bool until_close = false; std::string payload; o.want_body = nobody ? "" : b;
  static const char *cln[] = {"Content-Length", "content-length", "CONTENT-LENGTH"}; static const char *ten[] = {"Transfer-Encoding", "transfer-encoding"};
  if (nobody) { if (framing && o.want_status != 204) h += fmts("%s: %zu", cln[opick(3)], o.head ? b.size() : 0) + nl; }
  else if (framing == 0 || framing == 3) { h += fmts("%s:%s%zu", cln[opick(3)], opick(4) ? " " : "", b.size()) + nl; payload = b; }
  else if (framing == 1) { h += std::string(ten[opick(2)]) + ": chunked" + nl; payload = chunked(b, dummy); }
  else { until_close = true; payload = b; }
  if (opick(4) == 0) h += "Connection: close" + nl;
  std::string interim; int ni = opick(15) == 14 ? 1 + (int)opick(2) : 0; for (int k = 0; k < ni; k++) interim += opick(2) ? "HTTP/1.1 100 Continue" + nl + nl : "HTTP/1.1 103 Early Hints" + nl + "Link: </s.css>" + nl + "X-A: early" + nl + nl; h = interim + h;
  o.resp = h + nl + payload; size_t head_len = h.size() + nl.size(); o.send_upto = o.resp.size(); o.pieces = opick(3) ? (int)opick(12) : 0; static const u64 gaps[] = {0, 5 * MS, 200 * MS, 6000 * MS}; o.maxgap = o.pieces ? gaps[opick(4)] : 0; if (o.maxgap > SEC) o.pieces = std::min(o.pieces, 3);
  o.ending = until_close ? 0 : opick(4) == 0 ? 2 : opick(2) ? 0 : 3; o.how = fmts("%s%s", nobody ? "no body" : framing == 1 ? "chunked" : until_close ? "until close" : "length", nl.size() == 1 ? " LF" : ""); if (ni) o.how += ", after interim responses";
  bool big = o.resp.size() > 1000000; if (big) o.must_ok = false; if (o.send_upto == 0) o.complete = false;
  switch (opick(12)) { // misbehaviour
    case 0: { // break off before the end
      o.send_upto = opick((u32)o.resp.size()); if (opick(2) && !nobody && o.resp.size() > head_len) o.send_upto = head_len + opick((u32)(o.resp.size() - head_len)); o.ending = (int)opick(2) ? 1 : opick(2) ? 0 : 3; o.how += ", broken off";
      o.must_ok = false; o.may_ok = (nobody && o.send_upto >= head_len) || (until_close && o.send_upto >= head_len && o.ending != 1); if (o.may_ok && until_close) { o.want_body = o.resp.substr(head_len, o.send_upto - head_len); o.may_ok = o.must_ok = true; if (o.send_upto > 1000000) o.must_ok = false; } else if (o.may_ok) o.must_ok = true; break; }
    case 1: // reset at the end instead of a close: what was in flight may be lost
      o.ending = 1; o.must_ok = false; o.how += ", reset"; break;
    case 2: { // a long silence
      o.stall_at = opick((u32)o.resp.size() + 1); o.stall_ns = (opick(3) ? 40 + opick(60) : 9 + opick(6)) * SEC; o.must_ok = false; o.how += ", stalls"; if (o.stall_ns >= 40 * SEC && o.stall_at < (nobody ? head_len : until_close ? o.resp.size() + 1 : o.resp.size())) o.may_ok = false; break; }
    case 3: { // not HTTP at all
      if (opick(2)) { o.resp = rnd_bytes(opick(300), 0); o.ending = (int)opick(2); o.how = "garbage"; } else { static const char *gb[] = {"\r\n\r\n", "HTTP/1.1\r\n\r\nxx", "HTTP/1.1 abc def\r\n\r\n", "FTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi", "HTTP/1.1 200 OK\r\nContent-Length: zz\r\n\r\nhi", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nhi\r\n0\r\n\r\n"}; u32 z = opick(6); o.resp = gb[z]; o.how = "malformed"; o.ending = 0; if (o.head && z >= 4) { o.send_upto = o.resp.size(); o.must_ok = false; o.want_status = 200; o.want_body = ""; o.want_x = "-"; break; } }
      o.send_upto = o.resp.size(); o.must_ok = o.may_ok = false; if (!strncmp(o.resp.c_str(), "HTTP/", 5) && o.how == "garbage") o.must_ok = false; break; }
    case 4: if (opick(2)) { o.early = true; o.must_ok = false; o.how += ", answered early"; } break;
    case 5: o.readgap = (opick(2) ? 50 : 3000) * MS; break;
  }
  if (!o.fits) o.must_ok = false; if (!o.reachable) o.must_ok = o.may_ok = false;
  return o;
}
static void http_result(int w, i64 status, bool failed) {
  HOpen &q = hopen_[w]; if (!q.on) return; q.on = false; HOp &o = hplan[w][hpos[w]]; bool hard = R->faults[F_MALLOC] || nhard() > q.hard || nf(F_EINTR_SOCK) > q.eintr; std::string S = fmts("T%d: %s %s (%zu-byte body; server: %s, %zu of %zu bytes)", w, meth(o.op), o.url.size() > 90 ? (o.url.substr(0, 80) + "...").c_str() : o.url.c_str(), o.body.size(), o.how.c_str(), o.send_upto, o.resp.size());
  add_event(400 + o.op, w, status, failed); sample_add("%s -> %s %lld; ", S.c_str(), failed ? "error" : "ok", (long long)status);
  if (failed && status != 0 && o.op < 10) violation("contradiction", "%s returned status %lld together with an error", S.c_str(), (long long)status);
  if (o.op == 21 && q.inner && q.innerv != (failed ? 1 : 0)) violation("contradiction", "%s: status %lld but the call %s an error", S.c_str(), (long long)status, q.innerv ? "returned" : "did not return");
  if (o.served && !o.answered && now_ns - o.t_begin > 7 * SEC) o.must_ok = false;
  if (failed) {
    if (o.must_ok && !hard && !o.cut && !o.gave_up) violation("false-failure", "%s failed although the exchange was complete and in time: %s", S.c_str(), hexdump(q.b, 80).c_str());
    if (!o.req_why.empty()) violation("bad-request", "%s: the server received a request that is not the one asked for: %s", S.c_str(), o.req_why.c_str());
    PROBE("request reported an error"); }
  else {
    if (!o.may_ok) violation("false-success", "%s was reported as successful with status %lld and %zu body bytes", S.c_str(), (long long)status, q.b.size());
    if (!o.served) violation("false-success", "%s was reported as successful but no server was reached", S.c_str());
    if (!o.early && !o.req_ok) violation("bad-request", "%s: the server received a request that is not the one asked for: %s", S.c_str(), o.req_why.empty() ? "it is not complete" : o.req_why.c_str());
    if (status != o.want_status) violation("wrong-response", "%s returned status %lld instead of %d", S.c_str(), (long long)status, o.want_status);
    if (q.b != o.want_body) { size_t d = 0; while (d < q.b.size() && d < o.want_body.size() && q.b[d] == o.want_body[d]) d++; violation("wrong-response", "%s returned a body of %zu bytes that differs from the %zu bytes sent at byte %zu", S.c_str(), q.b.size(), o.want_body.size(), d); }
    if (q.x != o.want_x) violation("wrong-response", "%s returned the header X-A as '%s' instead of '%s' (sent: %s)", S.c_str(), hexdump(q.x, 40).c_str(), o.want_x.c_str(), hexdump(o.resp, 120).c_str());
    PROBE(o.body.size() > 20000 ? "large request succeeded" : q.b.size() > 20000 ? "large response succeeded" : "request succeeded"); }
  u64 from = std::max(q.t0, o.last_activity); if (o.reachable && now_ns - from > 30 * SEC + slack(q.steps0)) violation("unbounded", "%s ended %.1f s after the server's last activity", S.c_str(), (now_ns - from) / 1e9);
}
static void hcli_setup() {
  choose_sched(); time_jumps = false; max_steps = 12000000; seg_mode = cfg(2); if (cfg(2)) { static const u64 d[] = {1 * MS, 40 * MS, 900 * MS}; net_delay_max = d[cfg(3)]; }
  if (cfg(2)) { if (cfg(2)) fault_rate[F_SEND_SHORT] = 20000; if (cfg(3) == 2) fault_rate[F_EINTR_SOCK] = 6000; if (cfg(3) == 0) draw_faults({F_RESET, F_SOCKET, F_CONNECT, F_RESOLVE, F_RESET}, 12); }
  names = {{"svc.example", {0, {0x7f000001}}}, {"far.example", {0, {0x0a000001}}}}; resolver = [](const std::string &h, std::vector<u32> &a) -> int { auto it = names.find(h); if (it == names.end()) return -2; a = it->second.second; return it->second.first; };
  nthreads = (int)cfg(3);
  for (int w = 0; w <= nthreads; w++) { hplan[w].clear(); hpos[w] = 0; hopen_[w].on = false; int n = 1 + (int)opick(3); for (int i = 0; i < n; i++) { hplan[w].push_back(draw_http(w, i)); HOp &o = hplan[w].back(); if (o.body.size() + o.resp.size() > 30000) net_rcvbuf_min = 65536; }
    for (int port : {8100 + w, w == 0 ? 80 : 0}) if (port) { auto l = net_listen_actor(port); spawn_actor(fmts("server%d", port), [l, w] { for (;;) { EndP e = net_accept_actor(l, ~0ull); if (e) spawn_actor("exchange", [e, w] { serve_one(w, e); }); } })->daemon = true; } }
  hook_put = [](i64, i64 a, i64 b, const std::string &d) { (b ? hopen_[a].x : hopen_[a].b) = d; };
  hook_str = [](i64 k, i64 a, i64 i) -> std::string { HOp *o = current_op((int)a); if (!o) return ""; return k == 0 ? o->url : k == 1 ? o->body : k == 2 ? o->hdrs[i].first : o->hdrs[i].second; };
  hook_call = [](i64 k, i64 a, i64 b, i64 c) -> i64 {
    if (k == 0) return nthreads; int w = (int)a;
    if (k == 9) { if (u64 n = count_open_fds(G)) violation("descriptor-leak", "%llu descriptors are open after every request has ended", (unsigned long long)n); return 0; }
    HOp *o = current_op(w); if (!o) return 0; HOpen &q = hopen_[w];
    if (k == 1) { q = HOpen(); q.on = true; q.t0 = now_ns; q.steps0 = R->steps; q.hard = nhard(); q.eintr = nf(F_EINTR_SOCK); return o->op; }
    if (k == 2) { return (i64)o->hdrs.size(); }
    if (k == 4) { q.inner = true; q.innerv = (int)b; return 0; }
    if (k == 3) { http_result(w, b, c); hpos[w]++; return 0; }
    return 0; };
  launch("hcli");
}
static void hcli_check() { must_exit(G, 0); }
static RegScenario c19({"http-client", "C19", {"hcli.so"}, hcli_setup, hcli_check, 1});
static RegScenario oom_http_client({"http-client-oom", "C10", {"hcli.so"}, [] { oom_setup_of(hcli_setup, 120); }, [] { oom_check_of(hcli_check); }, 1});

// ================================================================ C20, C21: HTTP server
struct Want { int status = 0; std::string ctype; std::vector<std::string> bodies; std::string location; bool redirect = false; };
struct Cli { int id = 0; std::string token, method, path, raw_query, body; std::vector<std::pair<std::string, std::string>> hdrs; std::string cl_name = "Content-Length"; bool valueless = false, lf = false; int handler_ms = 0, repeat = 0; Want want; u64 wgap = 0, rgap = 0; int wpieces = 0; bool halfclose = false; size_t rchunk = 65536; u64 start = 0; int keep = 0; };
static std::map<std::string, Cli *> by_token; static std::map<int, Cli *> by_fiber; static std::vector<Cli *> clis; static bool cors_on, host_form, mw_on; static int cli_left; static const int SPORT = 8080;
static std::string req_bytes(const Cli &c) { const char *nl = c.lf ? "\n" : "\r\n"; std::string r = c.method + " " + c.path + (c.raw_query.empty() ? "" : "?" + c.raw_query) + " HTTP/1.1" + nl; for (auto &h : c.hdrs) r += h.first + ": " + h.second + nl; return r + nl + c.body; }
static void build_client(Cli &c, bool small) {
  static int serial = 0; c.id = serial++; c.token = fmts("t%d%s", c.id, token_str(opick(opick(20) == 0 ? 2000 : 8)).c_str());
  struct Rt { const char *m, *p; int kind; }; static const Rt rts[] = {{"GET", "/", 0}, {"GET", "/echo/", 1}, {"POST", "/echo/", 1}, {"PUT", "/echo/", 1}, {"DELETE", "/echo/", 1}, {"GET", "/p/", 2}, {"GET", "/p/", 3}, {"POST", "/raw", 4}, {"GET", "/big", 5}, {"POST", "/nested", 6}, {"GET", "/cond", 7}, {"POST", "/heap", 8}, {"GET", "/away", 9}, {"GET", "/empty", 10}, {"GET", "/nope", 11}, {"POST", "/", 11}, {"GET", "/echo", 11}, {"GET", "/echo/a/b", 11}, {"PATCH", "/echo/a", 11}, {"GET", "/p/1/three", 11}};
  const Rt &r = small ? rts[1 + opick(2)] : rts[opick(20)]; c.method = r.m; c.path = r.p; std::string id = token_str(1 + opick(opick(10) == 0 ? 1500 : 12)), id2 = token_str(1 + opick(6)); int kind = r.kind; std::string idp = id; int np = 0;
  if (opick(6) == 0) id += "-._~"; idp = id;
  if (kind == 1) { c.path += id; np = 1; } if (kind == 2) { c.path += id + "/one"; np = 1; } if (kind == 3) { c.path += id + "/two/" + id2; idp = id + "+" + id2; np = 2; }
  // query
  std::map<std::string, std::string> q; std::vector<std::string> parts; int nq = opick(3) ? (int)opick(4) : 0; static const char *qn[] = {"q", "x", "zz", "y"}; for (int i = 0; i < nq; i++) { std::string n = qn[opick(4)]; if (q.count(n)) continue; std::string v = token_str(opick(opick(9) == 0 ? 300 : 8)); if (kind == 9 && n == "q" && v.empty()) v = "z"; q[n] = v; parts.push_back(n + "=" + v); } if (nq && opick(4) == 0 && kind != 9) { c.valueless = true; parts.insert(parts.begin() + opick((u32)parts.size() + 1), "flag"); } for (auto &p : parts) c.raw_query += (c.raw_query.empty() ? "" : "&") + p;
  bool hasbody = c.method == "POST" || c.method == "PUT"; if (hasbody) { size_t n = opick(9) == 0 ? opick(small ? 3000 : 150000) : opick(opick(2) ? 5000 : 40); c.body = rnd_bytes(n, kind == 4 && opick(2) ? 0 : opick(2) ? 1 : 2); if (opick(8) == 0) c.body = "a\r\n\r\nGET / HTTP/1.1\r\n\r\n" + c.body; }
  std::vector<std::pair<std::string, std::string>> h = {{"Host", "localhost:8080"}}; bool tok = opick(8) != 0 || kind == 5; if (tok) h.push_back({"X-T", c.token}); if (opick(3) == 0) h.push_back({"Accept", "*/*"}); if (opick(4) == 0) h.push_back({"X-Other", token_str(1 + opick(opick(9) == 0 ? 4000 : 20))});
  bool marked = opick(5) == 0 && c.body.find('\0') == std::string::npos; if (marked) h.push_back({"X-M", "1"});
  if (hasbody || opick(6) == 0) { static const char *cn[] = {"Content-Length", "content-length", "CONTENT-LENGTH", "Content-length"}; h.push_back({cn[opick(4)], fmts("%zu", c.body.size())}); if (opick(2)) h.push_back({"Content-Type", "text/plain"}); } for (size_t i = h.size(); i > 1; i--) std::swap(h[i - 1], h[opick((u32)i)]); c.hdrs = h;
  c.handler_ms = tok && opick(4) == 0 ? (int)opick(opick(3) ? 40 : 4000) : 0; c.repeat = (int)(opick(8) == 0 ? opick(3000) : opick(60)); if (c.token.size() > 100) c.repeat = c.repeat % 40;
  // what must come back
  auto get = [&](const char *n) { return q.count(n) ? q[n] : std::string("-"); }; Want &w = c.want; std::vector<int> counts = {(int)q.size()}; if (c.valueless) counts.push_back((int)q.size() + 1);
  auto desc = [&](const std::string &i, int params, const std::string &pre, const std::string &post) { for (int n : counts) w.bodies.push_back(pre + c.method + "|" + c.path + "|" + i + "|" + get("q") + "|" + get("x") + "|" + (tok ? c.token : "-") + fmts("|%d|%d|%zu|", n, params, c.body.size()) + c.body + post); };
  w.status = 200; w.ctype = "text/plain";
  switch (kind) { case 0: w.bodies = {"fixed"}; break; case 1: case 2: case 3: desc(idp, np, "", ""); break; case 4: w.status = 201; w.ctype = "application/json"; w.bodies = {c.body}; break;
    case 5: { w.ctype = "text/html"; std::string s; for (int i = 0; i < c.repeat; i++) s += c.token + ";"; w.bodies = {s}; break; }
    case 6: w.status = 202; w.ctype = "application/json"; desc("n", 0, "[", "]"); break;
    case 7: if (q.count("q")) { w.status = 404; w.bodies = {"none of " + c.path}; if (q["q"] == "-") {} } else { w.ctype = "text/html"; desc("c", 0, "<", ">"); } break;
    case 8: w.status = 203; w.bodies = {fmts("%zu:", c.body.size()) + c.path}; break; case 9: w.status = 302; w.redirect = true; w.location = "/to/" + get("q"); w.bodies = {""}; break; case 10: w.bodies = {""}; break; case 11: w.status = 404; w.ctype = ""; break; }
  if (marked && mw_on && !w.redirect) for (auto &b : w.bodies) b += "~" + c.path;
  c.wpieces = opick(3) ? (int)opick(14) : 0; static const u64 gaps[] = {0, 1 * MS, 300 * MS, 12000 * MS}; c.wgap = gaps[opick(4)]; if (c.wgap > SEC) c.wpieces = std::min(c.wpieces, 3); c.rgap = gaps[opick(4)]; c.rchunk = opick(2) ? 65536 : 1 + opick(3000); c.halfclose = opick(12) == 0; c.lf = opick(12) == 11; c.start = opick(3) ? 0 : opick(opick(2) ? 20 : 4000) * MS; by_token[c.token] = &c;
}
static std::string cshow(const Cli &c) { return fmts("client %d: %s %s (%zu-byte body)", c.id, c.method.c_str(), (c.path.size() > 60 ? c.path.substr(0, 50) + "..." : c.path).c_str(), c.body.size()); }
// Judges one complete response; empty = as it must be
static std::string judge(const Cli &c, const std::string &r) {
  size_t he = r.find("\r\n\r\n"); if (r.empty()) return "it is empty"; if (he == std::string::npos) return "its header block is not complete: " + hexdump(r, 80); std::vector<std::string> ls; size_t i = 0; while (i <= he) { size_t n = r.find("\r\n", i); ls.push_back(r.substr(i, n - i)); i = n + 2; }
  if (ls[0].size() < 13 || ls[0].compare(0, 7, "HTTP/1.") || ls[0][8] != ' ' || ls[0][12] != ' ') return "its status line is '" + hexdump(ls[0], 60) + "'"; int st = atoi(ls[0].c_str() + 9); std::string body = r.substr(he + 4);
  std::map<std::string, std::vector<std::string>> h; for (size_t k = 1; k < ls.size(); k++) { size_t cpos = ls[k].find(':'); if (cpos == std::string::npos || !cpos) return "a header line is '" + hexdump(ls[k], 60) + "'"; std::string n = ls[k].substr(0, cpos), v = ls[k].substr(cpos + 1); for (auto &ch : n) ch = (char)tolower(ch); while (!v.empty() && v[0] == ' ') v.erase(0, 1); h[n].push_back(v); }
  if (st != c.want.status) return fmts("its status is %d instead of %d", st, c.want.status); if (h["content-length"].size() != 1) return "it does not have one Content-Length"; if (h["content-length"][0] != fmts("%zu", body.size())) return fmts("it announces %s bytes and has %zu", h["content-length"][0].c_str(), body.size());
  if (!c.want.ctype.empty() && !c.want.redirect && (h["content-type"].size() != 1 || h["content-type"][0].compare(0, c.want.ctype.size(), c.want.ctype))) return "its Content-Type is '" + (h["content-type"].empty() ? "" : h["content-type"][0]) + "'";
  if (c.want.redirect && (h["location"].size() != 1 || h["location"][0] != c.want.location)) return "its Location is '" + (h["location"].empty() ? "" : hexdump(h["location"][0], 60)) + "' instead of '" + c.want.location + "'";
  auto &co = h["access-control-allow-origin"]; if (cors_on ? (co.size() != 1 || co[0] != "http://origin.example") : !co.empty()) return "its Access-Control-Allow-Origin is not the one configured";
  if (!c.want.bodies.empty()) { for (auto &b : c.want.bodies) if (b == body) return ""; auto &b = c.want.bodies[0]; size_t d = 0; while (d < b.size() && d < body.size() && b[d] == body[d]) d++; return fmts("its body (%zu bytes, %s) differs from the expected %zu bytes (%s) from byte %zu", body.size(), hexdump(body.substr(d > 10 ? d - 10 : 0), 40).c_str(), b.size(), hexdump(b.substr(d > 10 ? d - 10 : 0), 40).c_str(), d); }
  return "";
}
// C10: while allocations fail the server may stop, saying so, or fail a request; it may not answer one wrongly
static bool serv_oom;
static bool excused() { if (!serv_oom || !R->faults[F_MALLOC]) return false; PROBE(G->exited ? "request lost in an out-of-memory stop" : "request failed by an allocation failure"); return true; }
static bool oom_ended() { return serv_oom && R->faults[F_MALLOC] && G->exited && !G->killed_by && G->status == 1 && has(G->err, "memory"); }
static EndP client_connect(u64 limit = 20 * SEC) { u64 end = now_ns + limit; for (;;) { EndP e = net_connect_actor(SPORT); if (e) return e; if (oom_ended()) return nullptr; if (G->exited) violation("server-died", "the server ended: status %d, signal %d, stderr: %s", G->status, G->killed_by, hexdump(G->err, 200).c_str()); if (now_ns > end) return nullptr; actor_sleep(MS); } }
static void good_client(Cli &c, bool warm = false) {
  (void)warm; if (c.start) actor_sleep(c.start); EndP e = client_connect(); if (!e && excused()) return; if (!e) violation("no-connection", "%s: the server does not accept the connection", cshow(c).c_str());
  std::string r = req_bytes(c); size_t off = 0; int k = 0; u64 t0 = now_ns;
  while (off < r.size()) { size_t m = r.size() - off; if (k < c.wpieces) { u32 z = opick(4); m = z == 0 ? 1 : z == 1 ? 1 + opick(8) : 1 + opick((u32)m); m = std::min(m, r.size() - off); } if (!ep_send_t(e, r.substr(off, m), 120 * SEC)) { if (G->exited && !oom_ended()) violation("server-died", "%s: the server ended: status %d, signal %d, stderr: %s", cshow(c).c_str(), G->status, G->killed_by, hexdump(G->err, 200).c_str()); if (excused()) { ep_close(e); return; } violation("request-refused", "%s: the connection broke after %zu of the request's %zu bytes", cshow(c).c_str(), off, r.size()); } off += m; k++; if (off < r.size() && c.wgap && k <= c.wpieces) { u64 g = opick(1000) * (c.wgap / 1000); if (g) actor_sleep(g); } }
  if (c.halfclose) ep_shutdown_wr(e); u64 sent = now_ns; (void)sent; (void)t0;
  std::string got; int pauses = 0; for (;;) { if (c.rgap && pauses < 10 && opick(3) == 0) { pauses++; u64 g = opick(1000) * (c.rgap / 1000); if (g) actor_sleep(g); } int n = ep_recv(e, got, c.rchunk, 100 * SEC);
    if (n > 0) continue; if (oom_ended() || (n < 0 && excused()) || (got.empty() && excused())) { ep_close(e); return; } if (G->exited) violation("server-died", "%s: the server ended: status %d, signal %d, stderr: %s", cshow(c).c_str(), G->status, G->killed_by, hexdump(G->err, 200).c_str());
    if (n == -2) violation("no-response", "%s: nothing more comes after %zu bytes of the response", cshow(c).c_str(), got.size()); if (n == -1) violation("broken-response", "%s: the connection was reset after %zu bytes of the response", cshow(c).c_str(), got.size()); break; }
  ep_close(e); std::string why = judge(c, got); if (!why.empty() && got.compare(0, 10, "HTTP/1.1 5") == 0 && excused()) return; if (!why.empty()) violation("wrong-response", "%s: the response is not the one for this request: %s", cshow(c).c_str(), why.c_str());
  add_event(500, c.id, (i64)got.size()); PROBE(got.size() > 20000 ? "large response served" : c.body.size() > 20000 ? "large request served" : "request served");
}
static u32 dummies[2]; // further routes registered before and after the ones requested
static void serv_hooks() {
  hook_put = [](i64, i64, i64, const std::string &t) { auto it = by_token.find(t); by_fiber[cur->id] = it == by_token.end() ? nullptr : it->second; };
  hook_call = [](i64 k, i64 a, i64, i64) -> i64 { if (k == 0) return a == 0 ? cors_on : a == 2 ? mw_on : a == 3 ? (i64)dummies[0] : a == 4 ? (i64)dummies[1] : host_form; auto it = by_fiber.find(cur->id); Cli *c = it == by_fiber.end() ? nullptr : it->second; if (!c) return 0; return k == 3 ? c->handler_ms : k == 4 ? c->repeat : 0; };
}
static void serv_base() { choose_sched(); serv_oom = false; for (auto &d : dummies) { d = cfg(3) ? 0 : 1 + cfg(40); } time_jumps = false; max_steps = 12000000; seg_mode = cfg(2); if (cfg(2)) { static const u64 d[] = {1 * MS, 40 * MS, 900 * MS}; net_delay_max = d[cfg(3)]; } cors_on = cfg(3) == 0; host_form = cfg(3) == 0; mw_on = cfg(3) == 0; by_token.clear(); by_fiber.clear(); clis.clear(); serv_hooks(); }
static void serv_setup() {
  serv_base(); if (cfg(2)) fault_rate[F_SEND_SHORT] = 20000; if (cfg(3) == 2) fault_rate[F_EINTR_SOCK] = 6000;
  int n = 1 + (int)opick(opick(2) ? 3 : 8); for (int i = 0; i < n; i++) { Cli *c = new Cli(); build_client(*c, false); clis.push_back(c); sample_add("%s; ", cshow(*c).c_str()); if (c->body.size() + c->repeat * c->token.size() > 20000) net_rcvbuf_min = 65536; }
  cli_left = n; launch("serv"); run_done = [] { return cli_left == 0 || G->exited; };
  for (Cli *c : clis) spawn_actor(fmts("client%d", c->id), [c] { good_client(*c); int more = opick(3) == 0 ? 1 : 0; if (more) { Cli *d = new Cli(); build_client(*d, true); good_client(*d); } cli_left--; });
}
static void serv_check() { if (G->exited) violation("server-died", "the server ended: status %d, signal %d, stderr: %s", G->status, G->killed_by, hexdump(G->err, 200).c_str()); }
static RegScenario c20({"http-server", "C20", {"serv.so"}, serv_setup, serv_check, 1});
static RegScenario oom_http_server({"http-server-oom", "C10", {"serv.so"}, [] { oom_setup_of(serv_setup, 300); serv_oom = true; }, [] { oom_check_of(serv_check); }, 1});

// misbehaviour
static bool storm; static int bad_left;
static void bad_client() {
  EndP e = client_connect(5 * SEC); if (!e) return; std::string s; size_t off = 0;
  Cli c; build_client(c, true); std::string good = req_bytes(c); by_token.erase(c.token);
  switch (opick(14)) {
    case 0: s = rnd_bytes(opick(300), 0); break; case 1: s = rnd_bytes(opick(opick(4) ? 2000 : 90000), 1); break; // never a header end
    case 2: s = good.substr(0, opick((u32)good.size() + 1)); break;
    case 3: s = good; break; // and then breaks off
    case 4: s = "GET /" + token_str(2100) + " HTTP/1.1\r\nHost: x\r\n\r\n"; break;
    case 5: s = token_str(30) + " / HTTP/1.1\r\nHost: x\r\n\r\n"; break;
    case 6: { static const char *cl[] = {"99999999999999999999", "-5", "zz", "", "17000000", "5 5", "1e3", "4294967297"}; s = "POST /raw HTTP/1.1\r\nContent-Length: " + std::string(cl[opick(8)]) + "\r\n\r\nhello"; break; }
    case 7: s = "GET / HTTP/1.1\r\nX: " + rnd_bytes(70000, 1) + "\r\n\r\n"; break;
    case 8: { static const char *odd[] = {"\r\n\r\n\r\n\r\n\r\n\r\n", "GET\r\n\r\n            ", "GET /\r\n\r\nxxxxxxxxxx", "          \r\n\r\n", "GET  HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\n\n", "GET /?&&=&=&a HTTP/1.1\r\n: \r\n:\r\n\r\n", "/////////////////\n\n", "GET /?=?=? HTTP/1.1\r\n\n", "GET /echo/?x HTTP/1.1\r\nA:\r\n\r\n", "POST /raw HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n", "POST /raw HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: 300\r\n\r\nabc"}; s = odd[opick(12)]; break; }
    case 9: s = std::string(1 + opick(40), 0) + good; break; case 10: { s = good; size_t at = opick((u32)s.size()); s[at] = (char)opick(256); break; }
    case 11: s = ""; break; case 12: s = good + good; break;
    case 13: { Cli *d = new Cli(c); d->token = fmts("big%d", c.id); d->repeat = 5000 + (int)opick(20000); by_token[d->token] = d; s = "GET /big HTTP/1.1\r\nX-T: " + d->token + "\r\n\r\n"; break; } }
  int pieces = opick(2) ? (int)opick(6) : 0; bool reads = opick(2);
  while (off < s.size()) { size_t m = s.size() - off; if (pieces-- > 0) { m = 1 + opick((u32)m); } if (!ep_send_t(e, s.substr(off, m), opick(3) ? 40 * SEC : MS)) break; off += m; if (opick(4) == 0) actor_sleep((opick(6) ? opick(200) : opick(50000)) * MS); }
  if (reads) { std::string g; int k = (int)opick(20); while (k-- > 0) { int n = ep_recv(e, g, 1 + opick(3000), opick(5) ? 500 * MS : 45 * SEC); if (n <= 0) break; } }
  if (opick(4) == 0) { int k = (int)opick(3); for (int i = 0; i < k; i++) actor_sleep(opick(40000) * MS); }
  switch (opick(4)) { case 0: ep_reset(e); break; case 1: if (e->inbytes) ep_reset(e); else ep_close(e); break; case 2: ep_shutdown_wr(e); actor_sleep(opick(3) ? opick(2000) * MS : 70 * SEC); ep_reset(e); break; default: actor_sleep((opick(4) ? opick(500) : 70000) * MS); if (e->inbytes) ep_reset(e); else ep_close(e); }
  PROBE("misbehaving client done");
}
extern int live_threads(Proc *); extern int net_backlog(int port);
static bool settled(u64 heap) { return live_threads(G) == 0 && count_open_socks(G) == 0 && net_backlog(SPORT) == 0 && (!heap || heap_live_bytes(G) <= heap); }
static void probe_request(const char *when) { Cli *c = new Cli(); build_client(*c, true); c->wgap = c->rgap = 0; c->wpieces = 0; c->handler_ms = 0; c->start = 0; c->halfclose = false; u64 t0 = now_ns; good_client(*c); if (now_ns - t0 > 15 * SEC) violation("slow-answer", "%s a well-formed request was answered only after %.3f s", when, (now_ns - t0) / 1e9); }
static void hostile_setup() {
  serv_base(); bool many = cfg(40) == 39, small_cap = !many && cfg(2); if (small_cap) knobs["server_max_connections"] = 2 + cfg(4); int fsel = (int)cfg(5); if (many) { net_delay_max = 0; seg_mode = 0; }
  launch("serv"); bad_left = -1; storm = false; run_done = [] { return bad_left == -2 || G->exited; };
  fault_filter = [](Fault f) { if (!storm) return false; if (f == F_MALLOC) return cur->proc == G && cur->is_main && !cur->actor; return true; };
  u32 rate = 4000 + cfg(30000); if (fsel == 1) fault_rate[F_ACCEPT] = rate; if (fsel == 2) fault_rate[F_THREAD] = rate; if (fsel == 3) { fault_rate[F_RESET] = 6000; fault_rate[F_SEND_SHORT] = 20000; fault_rate[F_EINTR_SOCK] = 4000; } if (fsel == 4) { fault_rate[F_ACCEPT] = rate / 2; fault_rate[F_THREAD] = rate / 2; fault_rate[F_MALLOC] = 20000; fault_rate[F_RESET] = 3000; } if (fsel == 0 && cfg(2)) { fault_rate[F_MALLOC] = 30000; }
  int fdlimit = cfg(8) == 7 ? 5 + (int)cfg(4) : 0;
  spawn_actor("director", [many, fdlimit, small_cap] {
    probe_request("at the start"); for (int i = 0; i < 400 && !settled(0); i++) actor_sleep(50 * MS); if (!settled(0)) violation("not-released", "after one request %d threads and %llu sockets remain", live_threads(G), (unsigned long long)count_open_socks(G));
    u64 heap = heap_live_bytes(G); storm = true; if (fdlimit) G->max_fds = fdlimit;
    if (many) { for (int i = 0; i < 1100; i++) { EndP e = client_connect(5 * SEC); if (!e) break; switch (opick(3)) { case 0: ep_reset(e); break; case 1: ep_send_t(e, "GET", SEC); ep_close(e); break; default: ep_close(e); } if (i % 16 == 15) actor_sleep(20 * MS); } PROBE("more connections than slots"); }
    else { int rounds = 1 + (int)opick(3); for (int r = 0; r < rounds; r++) { int n = 1 + (int)opick(7); bad_left = n; for (int i = 0; i < n; i++) spawn_actor("bad", [] { bad_client(); bad_left--; }); int g = (int)opick(2); for (int i = 0; i < g; i++) { // other clients meanwhile: with system calls failing they may be turned away
            bad_left++; spawn_actor("bystander", [] { EndP e = client_connect(2 * SEC); if (e) { Cli c; build_client(c, true); by_token.erase(c.token); std::string s; if (ep_send_t(e, req_bytes(c), SEC)) while (ep_recv(e, s, 65536, 40 * SEC) > 0) {} ep_close(e); } bad_left--; }); }
          if (r + 1 < rounds && opick(2)) { actor_sleep(opick(3000) * MS); } else block("bad clients", [] { return bad_left <= 0; }); int left = bad_left; (void)left; if (bad_left > 0) block("bad clients", [] { return bad_left <= 0; }); } }
    storm = false; G->max_fds = 256; u64 t0 = now_ns; bool early = opick(2) && !small_cap; if (early) probe_request("after the misbehaving clients were gone,");
    while (!settled(heap) && now_ns - t0 < 200 * SEC) actor_sleep(500 * MS);
    if (live_threads(G) != 0) violation("thread-leak", "%.0f s after the last misbehaving client %d connection threads remain", (now_ns - t0) / 1e9, live_threads(G));
    if (count_open_socks(G)) violation("descriptor-leak", "%.0f s after the last misbehaving client %llu connections are still open", (now_ns - t0) / 1e9, (unsigned long long)count_open_socks(G));
    if (heap_live_bytes(G) > heap) violation("memory-leak", "%.0f s after the last misbehaving client %llu bytes more are allocated than after one request:%s", (now_ns - t0) / 1e9, (unsigned long long)(heap_live_bytes(G) - heap), heap_leak_report(G).c_str());
    probe_request("after everything had settled"); for (int i = 0; i < 400 && !settled(heap); i++) actor_sleep(50 * MS); if (!settled(heap)) violation("not-released", "after the final request %d threads, %llu sockets and %lld more bytes remain", live_threads(G), (unsigned long long)count_open_socks(G), (long long)(heap_live_bytes(G) - heap));
    bad_left = -2; });
}
static RegScenario c21({"hostile-clients", "C21", {"serv.so"}, hostile_setup, serv_check, 1});
