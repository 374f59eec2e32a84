// Scenarios for files, directories, temporary files, processes, clocks, randomness and console input (C11-C17, C22, C23).
// The workload program (programs/io.gray) asks for one operation after another and reports each result; the plans are drawn here.
#include "scn.h"
#include <fnmatch.h>
#include <set>

struct IOp { int op = 0; std::string p, q; i64 v = 0, u = 0; std::vector<std::string> args; };
struct IRes { bool open = false, done = false; std::map<i64, std::string> strs; std::string bytes; std::vector<i64> vals; i64 val = 0, code = 0; bool failed = false; u64 t0 = 0, t1 = 0, seq0 = 0, seq1 = 0, f0 = 0, f1 = 0; i64 w0 = 0; u64 steps0 = 0; };
static const int MAXW = 8;
static std::vector<IOp> iplan[MAXW]; static std::vector<IRes> ires[MAXW]; static size_t ipos[MAXW]; static int ithreads; static bool iearly; static Proc *inst[2];
static std::function<void(int w, IOp &, IRes &)> on_begin, on_end; static bool expect_stop; static u64 iseq; static u64 clock_epoch;
static u64 faults_total() { u64 n = 0; for (int i = 0; i < F_N; i++) if (i != F_CLOCK_STEP && i != F_SLOW && i != F_SPURIOUS) n += R->faults[i]; return n; }
static u64 hard_faults() { u64 n = 0; for (int i = 0; i < F_N; i++) switch (i) { case F_CLOCK_STEP: case F_SLOW: case F_SPURIOUS: case F_READ_SHORT: case F_WRITE_SHORT: case F_EINTR_SLEEP: case F_EINTR_SELECT: case F_EINTR_WAIT: case F_EINTR_READ: case F_ENTROPY_SHORT: case F_XDEV: break; default: n += R->faults[i]; } return n; }
static const char *oname(int op) {
  static std::map<int, const char *> m = {{1, "read_file"}, {2, "read_bytes"}, {3, "read_lines"}, {4, "csv.read_file"}, {5, "write_file"}, {6, "append_file"}, {7, "write_bytes"}, {8, "append_bytes"}, {9, "csv.write_file"}, {10, "copy_file"}, {11, "move_file"}, {12, "rename_file"}, {13, "list_dir"}, {14, "make_dir"}, {15, "make_dir_all"}, {16, "remove_dir"}, {17, "remove_dir_all"}, {18, "walk"}, {19, "glob"}, {20, "temp_file"}, {21, "temp_dir"}, {22, "delete_file"}, {23, "temp_file*"}, {24, "temp_dir*"}, {31, "read_file*"}, {32, "read_bytes*"}, {34, "csv.read_file*"}, {33, "read_lines*"}, {35, "write_file*"}, {36, "append_file*"}, {37, "write_bytes*"}, {38, "append_bytes*"}, {40, "copy_file*"}, {41, "move_file*"}, {42, "rename_file*"}, {45, "make_dir_all*"}, {47, "remove_dir_all*"}, {50, "os.exec"}, {51, "threads.sleep"}, {52, "sleep_s"}, {53, "sleep_ms"}, {54, "sleep_ns"}, {55, "time.tick"}, {56, "time.elapsed_ms"}, {57, "time.now"}, {58, "time.now_ms"}, {59, "time.now_ns"}, {60, "rand_int(max)"}, {61, "rand_int(min,max)"}, {62, "rand_float()"}, {63, "rand_float(min,max)"}, {64, "rand_bool"}, {65, "rand_byte"}, {66, "rand_char()"}, {67, "rand_char('f','q')"}, {68, "choice"}, {69, "shuffle"}, {70, "sample"}, {71, "seed"}, {72, "uuid.generate"}, {73, "uuid.generate_random"}, {74, "uuid.generate_time_ordered"}, {75, "crypto.random_hex"}, {76, "uuid.generate_compact"}, {80, "input"}, {81, "yield"}, {97, "index out of range"}, {98, "exit"}, {99, "panic"}};
  return m.count(op) ? m[op] : "?"; }
static std::string show_op(const IOp &o) {
  std::string s = oname(o.op); s += "("; if (o.op <= 50 && o.op != 20 && o.op != 21 && o.op != 23 && o.op != 24) s += "'" + hexdump(o.p, 40) + "'"; if (!o.q.empty()) s += fmts(", '%s'", hexdump(o.q, 12).c_str());
  for (auto &a : o.args) s += " " + hexdump(a, 10); if (o.op > 50 && o.op != 80 && o.op != 81) s += fmts("%lld", (long long)o.v); if (o.op == 61 || o.op == 63) s += fmts(",%lld", (long long)o.u); return s + ")"; }
static std::string show_plan() { std::string s; for (int w = 0; w < MAXW; w++) if (!iplan[w].empty()) { s += fmts("[T%d:", w); for (auto &o : iplan[w]) s += " " + show_op(o); s += "] "; } return s; }
static int wid(i64 a) { return (int)a + (cur->proc == inst[1] ? 4 : 0); }
static void finish_op(int w) { IOp &o = iplan[w][ipos[w]]; IRes &r = ires[w][ipos[w]]; r.done = true; r.open = false; r.t1 = now_ns; r.seq1 = ++iseq; r.f1 = faults_total(); add_event(200 + o.op, w, r.val, r.failed); ipos[w]++; if (on_end) on_end(w, o, r); }
static IRes *open_res(int w) { return ipos[w] < ires[w].size() && ires[w][ipos[w]].open ? &ires[w][ipos[w]] : nullptr; }
static void mark_start(int w) { IRes *r = open_res(w); if (r) { r->t0 = now_ns; r->w0 = (i64)now_ns + wall_off; r->steps0 = R->steps; } }
static void io_hooks() {
  for (int w = 0; w < MAXW; w++) { ires[w].assign(iplan[w].size(), IRes()); ipos[w] = 0; }
  hook_call = [](i64 k, i64 a, i64 b, i64 c) -> i64 {
    if (k == 0) return a == 0 ? ithreads : (i64)iearly;
    int w = wid(a);
    if (k == 1) { if (ipos[w] >= iplan[w].size()) return 0; IOp &o = iplan[w][ipos[w]]; IRes &r = ires[w][ipos[w]]; r.open = true; r.seq0 = ++iseq; r.f0 = faults_total(); add_event(100 + o.op, w); if (on_begin) on_begin(w, o, r); mark_start(w); if (o.op == 99 || o.op == 98) ipos[w]++; return o.op; }
    if (k == 2) { size_t i = ipos[w]; if (i && !(i < iplan[w].size() && ires[w][i].open)) i--; IOp &o = iplan[w][i]; i64 v = o.op == 50 ? (i64)o.args.size() : b == 0 ? o.v : o.u; mark_start(w); return v; }
    IRes *r = open_res(w); if (!r) return 0; IOp &o = iplan[w][ipos[w]];
    if (k == 5) { if (b == -1) return 0; if (o.op == 2 || o.op == 32) r->bytes += (char)b; else if (b == -2) r->vals.push_back(c); else r->vals.push_back(b); return 0; }
    if (k == 3) { r->val = b; r->failed = c; if (o.op != 50) finish_op(w); return 0; }
    if (k == 6) { r->code = b; finish_op(w); return 0; }
    return 0; };
  hook_str = [](i64 k, i64 a, i64) -> std::string { int w = wid(a); if (ipos[w] >= iplan[w].size()) return ""; IOp &o = iplan[w][ipos[w]]; mark_start(w); return k == 0 ? o.p : k == 1 ? o.q : o.args[k - 10]; };
  hook_put = [](i64, i64 a, i64 b, const std::string &s) { IRes *r = open_res(wid(a)); if (r) r->strs[b] = s; };
}
static void io_launch() { sample_add("%s", show_plan().c_str()); io_hooks(); inst[0] = launch("io"); }
static void io_reset(int threads) { for (auto &p : iplan) p.clear(); ithreads = threads; iearly = false; expect_stop = false; on_begin = nullptr; on_end = nullptr; choose_sched(); }
static size_t rnd_size() { static const size_t sz[] = {0, 1, 2, 10, 100, 511, 512, 1000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12288, 20000, 66000}; u32 i = opick(18); size_t n = sz[i]; if (opick(3) == 0) n += opick(50); return n; }
static std::string rnd_csv() { std::string s; int rows = 1 + opick(6), cols = 1 + opick(4); for (int r = 0; r < rows; r++) { for (int c = 0; c < cols; c++) { if (c) s += ","; s += rnd_bytes(1 + opick(opick(8) == 0 ? 3000 : 12), 1); } s += "\n"; } return s; }
static void stop_ok(const char *code) { // the program may have stopped with this documented panic
  if (!G->exited || G->status != 1 || !has(G->err, code)) must_exit(G, 0); }

// ================================================================ C12: writes
static std::map<std::string, std::string> wr_old; static std::map<int, std::pair<bool, std::string>> wr_before; static bool wr_any_fault;
static bool is_write(int op) { return (op >= 5 && op <= 10) || (op >= 35 && op <= 40); }
static int base_op(int op) { return op >= 30 && op < 50 ? op - 30 : op; }
static void write_setup() {
  io_reset(cfg(3) == 2 ? 1 + cfg(2) : 0);
  wr_any_fault = draw_faults({F_OPEN, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_CLOSE, F_STAT, F_READ_EIO, F_READ_SHORT});
  for (int w = 0; w <= ithreads; w++) {
    int n = 1 + opick(5); std::string d = fmts("/work/d%d", w); fs_mkdirs(d + "/sub"); if (opick(2)) fs_put(d + "/a", rnd_bytes(rnd_size(), 0)); if (opick(2)) fs_put(d + "/b", rnd_bytes(rnd_size() % 9000, 0));
    static const int ops[] = {5, 6, 7, 8, 9, 10, 35, 36, 37, 38, 40, 6, 5};
    for (int i = 0; i < n; i++) { IOp o; o.op = ops[opick(13)]; static const char *names[] = {"/a", "/b", "/c", "/sub/x"}; o.p = d + names[opick(4)]; if (opick(14) == 0) o.p = opick(2) ? d + "/sub" : d + "/missing/x";
      if (base_op(o.op) == 10) { o.q = d + names[opick(4)]; if (!fs_exists(o.p) && opick(2)) fs_put(o.p, rnd_bytes(rnd_size(), 0)); } else o.q = o.op == 9 ? rnd_csv() : rnd_bytes(rnd_size(), 0); iplan[w].push_back(o); } }
  if (cfg(4) == 3) disk_quota = disk_used() + cfg(4) * 3000 + cfg(3000);
  on_begin = [](int w, IOp &o, IRes &) { std::string t = base_op(o.op) == 10 ? o.q : o.p, s; bool e = fs_get(t, s); wr_before[w] = {e, s}; };
  on_end = [](int w, IOp &o, IRes &r) {
    int b = base_op(o.op); std::string t = b == 10 ? o.q : o.p, now, want; bool e = fs_get(t, now); bool ok = r.val && !r.failed;
    if (b == 6 || b == 8) want = wr_before[w].second + o.q; else if (b == 10) { if (!fs_get(o.p, want) && ok) violation("false-success", "%s reports success but its source does not exist", show_op(o).c_str()); } else want = o.q;
    if ((bool)r.val == r.failed) violation("contradiction", "%s returned %s together with %s", show_op(o).c_str(), r.val ? "true" : "false", r.failed ? "an error" : "no error");
    if (ok && (!e || now != want)) violation("false-success", "T%d: %s reported success but the file holds %s instead of %zu bytes", w, show_op(o).c_str(), e ? fmts("%zu different bytes", now.size()).c_str() : "nothing (it does not exist)", want.size());
    if (!ok && r.f1 == r.f0 && disk_quota == ~0ull) { bool legit = fs_isdir(t) || has(t, "/missing/") || (b == 10 && (!fs_exists(o.p) || fs_isdir(o.p) || o.p == o.q)); if (!legit) violation("false-failure", "T%d: %s failed although nothing went wrong", w, show_op(o).c_str()); }
    if (ok) PROBE("write succeeded"); else PROBE("write reported failure"); };
  io_launch();
}
static void write_check() {
  if (G->status == 1 && (has(G->err, "P0087") || has(G->err, "P0088") || has(G->err, "P0089"))) { for (int w = 0; w < 4; w++) if (IRes *r = open_res(w)) { (void)r; if (fs_isdir(iplan[w][ipos[w]].p)) return; } violation("false-panic", "stopped with %s but the path is not a directory", hexdump(G->err, 200).c_str()); }
  must_exit(G, 0); }
static RegScenario c12({"file-writes", "C12", {"io.so"}, write_setup, write_check, 1});
static RegScenario oom_file_writes({"file-writes-oom", "C10", {"io.so"}, [] { oom_setup_of(write_setup, 60); }, [] { oom_check_of(write_check); }, 1});

// ================================================================ C13: reads
static std::map<std::string, std::string> rd_csvs;
static std::vector<std::string> split_lines(const std::string &s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t n = s.find('\n', i); if (n == std::string::npos) n = s.size(); std::string l = s.substr(i, n - i); if (!l.empty() && l.back() == '\r') l.pop_back(); v.push_back(l); i = n + 1; } return v; }
static void read_setup() {
  max_steps = 20000000; io_reset(cfg(3) == 2 ? 1 + cfg(2) : 0); wr_any_fault = draw_faults({F_OPEN, F_READ_EIO, F_READ_SHORT, F_STAT, F_READ_EIO, F_READ_SHORT});
  if (cfg(2)) fault_rate[F_READ_SHORT] = 20000;
  std::vector<std::string> fl; int nf = 1 + opick(3); for (int i = 0; i < nf; i++) { std::string p = fmts(opick(4) == 0 ? "/fifo/f%d" : "/work/f%d", i); size_t sz = rnd_size(); if (sz > 9000 && opick(8)) sz = sz % 9000; if (sz > 700 && opick(5) > 1) sz = sz % 700; if (has(p, "/fifo/") && opick(4) == 3) sz = (size_t)4096 << opick(3); fs_put(p, rnd_bytes(sz, (int)opick(3))); fl.push_back(p); } fs_put("/work/t.csv", rnd_csv()); fs_mkdirs("/work/dir");
  for (int w = 0; w <= ithreads; w++) { int n = 1 + opick(5); static const int ops[] = {1, 2, 3, 4, 31, 33, 32, 2, 34}; for (int i = 0; i < n; i++) { IOp o; o.op = ops[opick(9)]; o.p = o.op == 4 || o.op == 34 ? "/work/t.csv" : fl[opick(fl.size())]; if (opick(16) == 0) o.p = opick(2) ? "/work/none" : "/work/dir"; iplan[w].push_back(o); } }
  on_end = [](int w, IOp &o, IRes &r) {
    std::string c; bool ex = fs_get(o.p, c); std::string fifo = has(o.p, "/fifo/") ? " (not seekable)" : "";
    if (r.failed) { if (ex && r.f1 == r.f0) violation("false-error", "T%d: %s failed although nothing went wrong", w, show_op(o).c_str()); PROBE("read reported an error"); return; }
    if (!ex && o.op < 30) violation("false-success", "T%d: %s succeeded although there is no such file", w, show_op(o).c_str());
    bool same = true; size_t got = 0;
    if (o.op == 1 || o.op == 31) { got = r.strs[0].size(); same = r.strs[0] == c; }
    else if (o.op == 2 || o.op == 32) { got = r.bytes.size(); same = r.bytes == c; }
    else if (o.op == 3) { auto v = split_lines(c); got = r.strs.size(); same = v.size() == r.strs.size() && v.size() == (size_t)r.val; for (size_t i = 0; same && i < v.size(); i++) same = r.strs[i] == v[i]; }
    else if (o.op == 33) { auto v = split_lines(c); std::string j; for (size_t i = 0; i < v.size(); i++) { if (i) j += "\n"; j += v[i]; } got = r.strs[0].size(); same = r.strs[0] == j; }
    else if (o.op == 4 || o.op == 34) { auto v = split_lines(c); got = r.strs.size(); same = v.size() == r.strs.size(); for (size_t i = 0; same && i < v.size(); i++) { std::string l = v[i]; for (auto &ch : l) if (ch == ',') ch = '|'; same = r.strs[i] == l; } }
    if (o.op >= 30 && !same && got == 0 && (!ex || R->faults[F_OPEN] || R->faults[F_STAT])) return; // the plain form returns "" when the file cannot be opened
    if (!same) violation("partial-read", "T%d: %s%s reported success with %zu %s that are not the file's (%zu bytes, read in pieces)", w, show_op(o).c_str(), fifo.c_str(), got, o.op == 3 || o.op == 4 || o.op == 34 ? "lines" : "bytes", c.size());
    PROBE("whole file read"); };
  io_launch();
}
static void read_check() {
  if (G->exited && !G->killed_by && G->status == 1) {
    if (has(G->err, "P0086")) { for (int w = 0; w < 4; w++) if (open_res(w) && iplan[w][ipos[w]].op >= 30 && fs_isdir(iplan[w][ipos[w]].p)) { PROBE("stopped on a directory"); return; } }
    else if (R->faults[F_READ_EIO] || R->faults[F_OPEN] || R->faults[F_STAT]) { for (int w = 0; w < 4; w++) if (open_res(w) && iplan[w][ipos[w]].op >= 30 && has(G->err, "panic")) { PROBE("plain read stopped with a panic"); return; } } // any panic is accepted for the plain form
    for (int w = 0; w < 4; w++) if (open_res(w) && fs_isdir(iplan[w][ipos[w]].p) && iplan[w][ipos[w]].op >= 30 && has(G->err, "panic")) return; }
  must_exit(G, 0); }
static RegScenario c13({"file-reads", "C13", {"io.so"}, read_setup, read_check, 1});
static RegScenario oom_file_reads({"file-reads-oom", "C10", {"io.so"}, [] { oom_setup_of(read_setup, 60); }, [] { oom_check_of(read_check); }, 1});

// ================================================================ C14: copy, move, rename
struct Guard { bool on = false; int op; std::string src, dst, content; bool same; }; static Guard guard_[4];
static void guards_hold(const char *when) { for (int w = 0; w < 4; w++) { Guard &g = guard_[w]; if (!g.on) continue; std::string s, d; bool a = fs_get(g.src, s) && s == g.content, b = fs_get(g.dst, d) && d == g.content; if (g.op == 10 ? !a : !(a || b)) violation("content-lost", "during %s('%s', '%s') %s: the %zu bytes of the source are complete under %s", oname(g.op), g.src.c_str(), g.dst.c_str(), when, g.content.size(), g.op == 10 ? "another name only, or nowhere: the source was changed" : "neither name"); } }
static void move_setup() {
  io_reset(cfg(3) == 2 ? 1 + cfg(2) : 0); for (auto &g : guard_) g.on = false;
  draw_faults({F_OPEN, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_CLOSE, F_STAT, F_READ_EIO, F_READ_SHORT, F_RENAME, F_UNLINK});
  fs_mount("/other", 2); if (cfg(5) == 4) { fs_mount("/work", 1); }
  for (int w = 0; w <= ithreads; w++) {
    std::string d = fmts("/work/m%d", w), x = fmts("/other/m%d", w); fs_mkdirs(d + "/dir/full"); fs_mkdirs(x); fs_put(d + "/dir/full/f", "x"); fs_put(d + "/a", rnd_bytes(rnd_size(), 0)); fs_put(d + "/b", rnd_bytes(rnd_size() % 7000, 0)); fs_put(x + "/a", rnd_bytes(opick(6000), 0)); fs_symlink(opick(2) ? d + "/a" : "a", d + "/la"); fs_symlink(x + "/a", d + "/lx"); fs_link(d + "/a", d + "/ha");
    int n = 1 + opick(5); for (int i = 0; i < n; i++) { static const int ops[] = {10, 11, 12, 40, 41, 42, 11, 41, 10}; IOp o; o.op = ops[opick(9)]; const std::string src[] = {d + "/a", d + "/b", x + "/a", d + "/a", d + "/c"}; o.p = src[opick(5)]; const std::string dst[] = {d + "/b", d + "/c", x + "/a", x + "/n", d + "/la", d + "/lx", d + "/dir", d + "/none/f", d + "/a", d + "/./a", x + "/z", d + "/ha"}; o.q = dst[opick(12)]; iplan[w].push_back(o); } }
  if (cfg(4) == 3) disk_quota = disk_used() + cfg(5000);
  fs_observer = [](const char *op, const std::string &path) { guards_hold(fmts("(after %s %s)", op, path.c_str()).c_str()); };
  on_begin = [](int w, IOp &o, IRes &) { Guard &g = guard_[w]; g.op = base_op(o.op); g.src = o.p; g.dst = o.q; g.on = fs_exists(o.p) && !fs_isdir(o.p) && fs_get(o.p, g.content, false); g.same = fs_same(o.p, o.q); };
  on_end = [](int w, IOp &o, IRes &r) {
    Guard g = guard_[w]; guards_hold("(after it returned)"); guard_[w].on = false; bool ok = r.val && !r.failed; if ((bool)r.val == r.failed) violation("contradiction", "%s returned %s together with %s", show_op(o).c_str(), r.val ? "true" : "false", r.failed ? "an error" : "no error");
    bool same = g.same; /* one file under two names: moving it need not take away the first */ std::string s, t;
    if (!g.on) { if (ok) violation("false-success", "%s succeeded although the source does not exist", show_op(o).c_str()); return; }
    bool sok = fs_exists(o.p) && fs_get(o.p, s) && s == g.content, dok = fs_get(o.q, t) && t == g.content;
    if (ok && !dok) violation("incomplete-copy", "T%d: %s reported success but the destination holds %zu bytes that are not the source's %zu", w, show_op(o).c_str(), t.size(), g.content.size());
    if (ok && g.op != 10 && !same && fs_exists(o.p)) violation("source-left", "T%d: %s reported success but the source name is still there", w, show_op(o).c_str());
    if (!ok && !sok) violation("source-lost", "T%d: %s failed but the source is no longer intact", w, show_op(o).c_str());
    bool alias = same || (has(o.q, "/la") && has(o.p, "/a")); bool plain = !fs_isdir(o.q) && !has(o.q, "/none/") && !alias && (g.op != 12 || !(has(o.p, "/other/") != has(o.q, "/other/"))) && !has(o.q, "/l");
    if (!ok && r.f0 == r.f1 && disk_quota == ~0ull && plain) violation("false-failure", "T%d: %s failed although nothing went wrong", w, show_op(o).c_str());
    if (ok) PROBE("copy/move succeeded"); else PROBE("copy/move reported failure"); if (ok && g.op == 11 && has(o.p, "/other/") != has(o.q, "/other/")) PROBE("move across devices"); };
  io_launch();
  if (cfg(3) == 2) { u32 n = 1 + cfg(120); spawn_actor("killer", [n] { for (u32 i = 0; i < n; i++) { actor_sleep(400 + pick(ST_DATA, 4000)); if (G->exited) return; } PROBE("killed part-way"); fault_fired(F_KILL); proc_kill(G, 9); }); }
}
static void move_check() { guards_hold("(at the end)"); if (G->killed_by == 9) return; if (G->status == 1 && has(G->err, "P0089")) violation("false-panic", "copying stopped with %s", hexdump(G->err, 200).c_str()); must_exit(G, 0); }
static RegScenario c14({"copy-move", "C14", {"io.so"}, move_setup, move_check, 1});
static RegScenario oom_copy_move({"copy-move-oom", "C10", {"io.so"}, [] { oom_setup_of(move_setup, 60); }, [] { oom_check_of(move_check); }, 1});

// ================================================================ C15: directories
static std::string outside; static bool dir_conc; static bool dir_fault, dir_far; static bool too_long(const std::string &d) { if (d.size() >= 4096) return true; for (auto &n : fs_list(d)) if (!fs_islink(d + "/" + n) && too_long(d + "/" + n)) return true; return false; }  static std::vector<std::string> dir_all;
static std::string dump_outside() { return fs_dump("/work/out") + fs_dump("/work/t2"); }
static void mk_tree(const std::string &d, int depth, std::vector<std::string> &ds, bool links) {
  fs_mkdirs(d); ds.push_back(d); int n = opick(5); static const char *names[] = {"x1.txt", "y.dat", ".hid", "z.txt", "n n", "w", "..y", "..."};
  for (int i = 0; i < n; i++) fs_put(d + "/" + names[opick(8)], rnd_bytes(opick(30), 1));
  if (links && opick(3) == 0) { static const char *t[] = {"/work/out", "/work/out/f1.txt", "/nowhere", "../out", "/work/t2"}; fs_symlink(t[opick(5)], d + "/" + (opick(2) ? "lnk" : "x9.txt")); }
  if (depth > 0) { int k = opick(4); static const char *sub[] = {"s1", "s2", ".s3", "x4"}; for (int i = 0; i < k; i++) mk_tree(d + "/" + sub[i], depth - 1, ds, links); } }
static void collect(const std::string &base, const std::string &rel, std::set<std::string> &out, int depth = 0) { if (depth > 200) return; for (auto &n : fs_list(rel.empty() ? base : base + "/" + rel)) { std::string r = rel.empty() ? n : rel + "/" + n; out.insert(r); std::string p = base + "/" + r, tmp; if (fs_exists(p, true) && !fs_get(p, tmp)) collect(base, r, out, depth + 1); } }
static void globx(const std::string &dir, const std::vector<std::string> &parts, size_t i, std::set<std::string> &out) { // dir ends without '/'
  if (i == parts.size()) { out.insert(dir); return; } for (auto &n : fs_list(dir.empty() ? "/" : dir)) { if (fnmatch(parts[i].c_str(), n.c_str(), FNM_PERIOD)) continue; std::string p = dir + "/" + n, tmp; bool isd = fs_exists(p, true) && !fs_get(p, tmp); if (i + 1 < parts.size() && !isd) continue; globx(p, parts, i + 1, out); } }
static void dir_setup() {
  dir_far = false; dir_conc = cfg(4) == 3; io_reset(dir_conc ? 1 + cfg(2) : 0); dir_fault = draw_faults({F_OPENDIR, F_READDIR, F_UNLINK, F_RMDIR, F_STAT, F_MKDIR}, 20); bool links = cfg(2);
  fs_put("/work/out/f1.txt", "precious"); fs_put("/work/out/deep/er/f2", "keep"); fs_symlink("/work/out/f1.txt", "/work/out/l"); fs_put("/work/t2/mine", "keep too"); fs_put("/work/file", "plain file");
  for (int w = 0; w <= ithreads; w++) {
    std::vector<std::string> ds; std::string t = fmts("/work/t%c", 'a' + w); mk_tree(t, 2, ds, links); u32 dk = cfg(8); if (dk == 5) { std::string p = t; for (int i = 0; i < 30; i++) p += "/deep"; fs_mkdirs(p); } if (dk >= 6) { std::string p = t; for (int i = 0; i < 20; i++) p += "/" + std::string(200, 'd'); if (dk == 7) p += "/" + std::string(40 + opick(90), 'e'); fs_mkdirs(p); fs_put(p + "/" + std::string(1 + opick(80), 'f'), "far"); dir_far = true; } if (links) fs_symlink("/work/out", fmts("/work/k%d", w));
    int n = 1 + opick(4); for (int i = 0; i < n; i++) { static const int ops[] = {17, 47, 15, 45, 13, 18, 19, 17, 15, 18}; IOp o; o.op = ops[opick(10)]; o.p = ds[opick(ds.size())];
      if (o.op == 17 || o.op == 47) { u32 k = opick(8); if (k == 0) o.p += "/"; if (k == 1 && links) o.p = fmts("/work/k%d", w); if (k == 2) o.p = "/work/file"; if (k == 3) o.p = "/work/none"; if (k == 4 || k == 5) o.p = t; }
      else if (o.op == 15 || o.op == 45) { static const char *e[] = {"/new", "/new/a/b", "/new/a/b/c/d/e", "", "/x1.txt/q", "/new//a", "/./new/z/", "/s1/k", "/x1.txt", "/../../file", "/../../out/l"}; o.p += e[opick(11)]; if (dir_conc && opick(2)) o.p = "/work/shared/p/q/r"; }
      else if (o.op == 13 || o.op == 18) { u32 k = opick(10); if (k == 0) o.p = "/work/none"; if (k == 1) o.p = "/work/file"; if (k == 2) o.p += "/"; }
      else { static const char *g[] = {"/*", "/*.txt", "/x*", "/*/*", "/s?/*", "/[xy]*", "/*/*/*.txt", "/.h*", "/nomatch*"}; o.p += g[opick(9)]; }
      iplan[w].push_back(o); } }
  outside = dump_outside();
  fs_observer = [](const char *op, const std::string &path) { if (dump_outside() != outside) violation("escaped", "'%s %s' changed something outside the directory being worked on: %s", op, path.c_str(), dump_outside().c_str()); };
  on_begin = [](int, IOp &o, IRes &r) { if (o.op == 17 || o.op == 47) { std::string p = o.p; bool slash = p.back() == '/'; r.code = fs_isdir(p) ? 1 : slash ? 2 : 0; if (dir_far && too_long(p)) r.code = 3; std::string q = p; while (q.size() > 1 && q.back() == '/') q.pop_back(); if (!fs_isdir(q)) r.code = 0; } };
  on_end = [](int w, IOp &o, IRes &r) {
    bool ok = !r.failed; bool clean = r.f0 == r.f1; std::string so = show_op(o);
    if (o.op == 17 || o.op == 47) { if ((bool)r.val != ok) violation("contradiction", "%s returned %s together with %s", so.c_str(), r.val ? "true" : "false", r.failed ? "an error" : "no error"); std::string q = o.p; while (q.size() > 1 && q.back() == '/') q.pop_back(); if (ok && fs_exists(q)) violation("false-success", "T%d: %s reported success but it is still there", w, so.c_str()); if (!ok && clean && r.code == 1) violation("false-failure", "T%d: %s failed although nothing went wrong; %s", w, so.c_str(), fs_exists(q) ? "it is still there" : "it is gone"); if (ok) PROBE("tree removed"); else PROBE("tree removal reported failure"); return; }
    if (o.op == 15 || o.op == 45) { if ((bool)r.val != ok) violation("contradiction", "%s returned %s together with %s", so.c_str(), r.val ? "true" : "false", r.failed ? "an error" : "no error"); std::string q = o.p; while (q.size() > 1 && q.back() == '/') q.pop_back(); std::string tmp; bool isd = fs_exists(q, true) && !fs_get(q, tmp); if (ok && !isd) violation("false-success", "T%d: %s reported success but there is no such directory", w, so.c_str()); if (!ok && clean && !dir_conc) { bool obstacle = false; for (size_t i = 1; i <= q.size(); i++) if (i == q.size() || q[i] == '/') { std::string s = q.substr(0, i); if (fs_exists(s) && (!fs_exists(s, true) || fs_get(s, tmp))) obstacle = true; } if (!obstacle) violation("false-failure", "T%d: %s failed although nothing went wrong", w, so.c_str()); } if (!ok && clean && dir_conc && has(o.p, "/shared/")) violation("false-failure", "T%d: %s failed because another thread created the same directory", w, so.c_str()); if (ok) PROBE("directories made"); return; }
    std::set<std::string> want; std::multiset<std::string> got; for (auto &kv : r.strs) got.insert(kv.second); std::string tmp; bool isd = fs_exists(o.p, true) && !fs_get(o.p, tmp);
    if (o.op == 13) { for (auto &n : fs_list(o.p)) want.insert(n); }
    else if (o.op == 18) { std::string b = o.p; while (b.size() > 1 && b.back() == '/') b.pop_back(); if (isd) collect(b, "", want); }
    else { std::vector<std::string> parts; std::string c; for (char ch : o.p) { if (ch == '/') { if (!c.empty()) parts.push_back(c); c.clear(); } else c += ch; } parts.push_back(c); globx("", parts, 0, want); isd = true; }
    if (!ok) { if (clean && isd && !(dir_far && o.op != 13 && too_long(o.op == 18 ? o.p : o.p.substr(0, 8)))) violation("false-failure", "T%d: %s failed although nothing went wrong", w, so.c_str()); PROBE("listing reported an error"); return; }
    if (!isd) violation("false-success", "T%d: %s succeeded although there is no such directory", w, so.c_str());
    std::string diff; for (auto &x : want) if (!got.count(x)) diff += " missing " + x; for (auto &x : got) if (!want.count(x)) diff += " extra " + x; if (got.size() != want.size() && diff.empty()) diff = " duplicates"; if (!diff.empty()) violation("incomplete-listing", "T%d: %s reported success but its %zu entries are not the %zu there are:%s", w, so.c_str(), got.size(), want.size(), diff.substr(0, 300).c_str()); PROBE("complete listing"); };
  io_launch();
}
static void dir_check() { if (dump_outside() != outside) violation("escaped", "something outside the directories worked on changed"); must_exit(G, 0); }
static RegScenario c15({"directories", "C15", {"io.so"}, dir_setup, dir_check, 1});
static RegScenario oom_directories({"directories-oom", "C10", {"io.so"}, [] { oom_setup_of(dir_setup, 120); }, [] { oom_check_of(dir_check); }, 1});

// ================================================================ C16: temporary files
static std::map<std::string, std::pair<int, bool>> tmp_paths; static bool tmp_two; static std::map<std::string, u64> tmp_created; static int tmp_exit; static bool tmp_exiting_[2]; static bool tmp_exiting(int k) { return tmp_exiting_[k] || (inst[k] && R->faults[F_MALLOC] && has(inst[k]->err, "memory")); }
static void tmp_setup() {
  tmp_paths.clear(); tmp_created.clear(); tmp_exiting_[0] = tmp_exiting_[1] = false; tmp_two = cfg(3) == 2; io_reset(cfg(4)); iearly = ithreads && cfg(3) == 2; draw_faults({F_OPEN, F_MKDIR, F_UNLINK, F_RMDIR});
  tmp_exit = cfg(4); bool many = cfg(3) == 2;
  for (int k = 0; k <= (tmp_two ? 1 : 0); k++) for (int w = 0; w <= ithreads; w++) { int n = 1 + opick(many ? 60 : 8); for (int i = 0; i < n; i++) { static const int ops[] = {20, 21, 23, 24, 20, 81}; IOp o; o.op = ops[opick(6)]; iplan[k * 4 + w].push_back(o); }
    if (w == 0 && tmp_exit) { IOp o; o.op = tmp_exit == 1 ? 98 : tmp_exit == 2 ? 99 : 97; o.v = tmp_exit == 1 ? opick(3) : 5; size_t at = opick(3) ? iplan[k * 4].size() : opick((u32)iplan[k * 4].size()); iplan[k * 4].insert(iplan[k * 4].begin() + at, o); } }
  if (cfg(2)) { for (int i = 0; i < 6; i++) fs_put(fmts("/tmp/gray_%d", 4242 + i), "someone else's"); fs_put("/tmp/keep", "x"); }
  fs_observer = [](const char *op, const std::string &path) { if (!strcmp(op, "create") || !strcmp(op, "mkdir")) tmp_created[path] = ++iseq; else if (cur && tmp_paths.count(path)) { int k = tmp_paths[path].first / 4; if (inst[k] && cur->proc != inst[k] && (cur->proc == inst[0] || cur->proc == inst[1])) violation("deleted-others", "one program changed the name '%s' that belongs to another (%s)", path.c_str(), op); else if (!tmp_exiting(k) && inst[k] && !inst[k]->exited) PROBE("removed before the end"); } };
  on_begin = [](int w, IOp &o, IRes &) { if (o.op >= 97) tmp_exiting_[w / 4] = true; };
  on_end = [](int w, IOp &o, IRes &r) {
    if (o.op == 81) { // the program uses its temporary files and directories: fill some
      if (!tmp_exiting(w / 4)) for (auto &kv : tmp_paths) if (kv.second.first == w && kv.second.second && fs_isdir(kv.first) && kv.first.size() % 2 == 0) { fs_put(kv.first + "/sub/data", "tmp data"); fs_symlink("/tmp/keep", kv.first + "/lnk"); } return; }
    if (o.op < 20 || o.op > 24) return; if (r.failed) { if (hard_faults() == 0) violation("false-failure", "T%d: %s failed although nothing went wrong", w, show_op(o).c_str()); return; }
    std::string p = r.strs[0]; if (p.empty()) violation("empty-path", "%s succeeded with an empty path", show_op(o).c_str());
    if (tmp_paths.count(p)) violation("duplicate-path", "T%d: %s returned '%s', which T%d received before", w, show_op(o).c_str(), p.c_str(), tmp_paths[p].first);
    if (!tmp_created.count(p) || tmp_created[p] < r.seq0) violation("not-new", "T%d: %s returned '%s', which was not created by the call", w, show_op(o).c_str(), p.c_str());
    bool dir = o.op == 21 || o.op == 24; if (!fs_exists(p) || fs_isdir(p) != dir) { if (!tmp_exiting(w / 4)) violation("not-there", "T%d: %s returned '%s', which does not exist as such", w, show_op(o).c_str(), p.c_str()); }
    if (!tmp_exiting(w / 4)) tmp_paths[p] = {w, dir}; PROBE("temporary path created"); };
  on_proc_exit = [](Proc *p) { if (p != inst[0] && p != inst[1]) return; int k = p == inst[1]; u64 stuck = R->faults[F_UNLINK] + R->faults[F_RMDIR], left = 0; for (auto &kv : tmp_paths) if (kv.second.first / 4 == k && fs_exists(kv.first) && ++left > stuck) violation("left-behind", "the program ended (%s) and left '%s', created by T%d", p->status_str().c_str(), kv.first.c_str(), kv.second.first); };
  io_launch(); auto base = hook_call; hook_call = [base](i64 k, i64 a, i64 b, i64 c) -> i64 { if (k == 0 && a == 1) tmp_exiting_[cur->proc == inst[1]] = true; i64 r = base(k, a, b, c); if (k == 1 && r == 0 && a == 0 && ithreads == 0) tmp_exiting_[cur->proc == inst[1]] = true; return r; };
  if (tmp_two) { inst[1] = start_guest("io.so", {"io"}); run_done = [] { return inst[0]->exited && inst[1]->exited; }; } else inst[1] = nullptr;
}
static void tmp_check() {
  static const int want[] = {0, -1, 1, 1}; for (int k = 0; k <= (tmp_two ? 1 : 0); k++) { if (inst[k]->killed_by) must_exit(inst[k], 0); if (R->faults[F_MALLOC] && inst[k]->status != 0 && has(inst[k]->err, "memory")) { PROBE("clean out-of-memory stop"); continue; } int wst = want[tmp_exit]; if (tmp_exit == 1) for (auto &o : iplan[k * 4]) if (o.op == 98) wst = (int)o.v; if (inst[k]->status != wst) must_exit(inst[k], wst); }
  std::string s; for (auto &n : fs_list("/tmp")) if (n.compare(0, 5, "gray_") == 0 && fs_get("/tmp/" + n, s, false) && s == "someone else's") continue; else if (n == "keep") { if (!fs_get("/tmp/keep", s) || s != "x") violation("deleted-others", "a link's target was changed"); } }
static RegScenario c16({"temporary-files", "C16", {"io.so", "io.so"}, tmp_setup, tmp_check, 1});
static RegScenario oom_temporary_files({"temporary-files-oom", "C10", {"io.so", "io.so"}, [] { oom_setup_of(tmp_setup, 80); }, tmp_check, 1});

// ================================================================ C17: os.exec
struct Act { int k; std::string d; i64 n; }; // 1 out, 2 err, 3 sleep, 4 close out, 5 close err, 6 exit, 7 killed, 8 wait for another exec to finish
struct Child { std::vector<Act> a; std::string out, err; int status = 0, sig = 0; bool exists = true; bool started = false; std::vector<std::string> argv; };
static std::map<std::string, Child> childs; static std::map<std::string, bool> child_done; static int exec_open;
static void exec_setup() {
  io_reset(cfg(3)); childs.clear(); child_done.clear(); exec_open = 0; bool f = draw_faults({F_PIPE, F_FORK, F_EXEC, F_EINTR_SELECT, F_EINTR_WAIT, F_EINTR_READ, F_READ_SHORT}, 8); (void)f; if (cfg(2)) { fault_rate[F_EINTR_SELECT] = 8000; fault_rate[F_EINTR_WAIT] = 20000; fault_rate[F_EINTR_READ] = 8000; }
  std::vector<std::string> ids;
  for (int w = 0; w <= ithreads; w++) { int n = 1 + opick(3); for (int i = 0; i < n; i++) {
      IOp o; o.op = 50; std::string id = fmts("job%d.%d", w, i); o.p = "/usr/bin/tool"; o.args = {id}; Child c; int extra = opick(3); for (int k = 0; k < extra; k++) o.args.push_back(rnd_bytes(1 + opick(20), 1)); c.argv = {o.p}; c.argv.insert(c.argv.end(), o.args.begin(), o.args.end());
      if (opick(9) == 0) { o.p = opick(2) ? "/usr/bin/none" : "no-such-program"; c.exists = false; c.argv[0] = o.p; }
      int m = opick(7); for (int k = 0; k < m; k++) { u32 t = opick(12); if (t < 4) c.a.push_back({1, rnd_bytes(opick(4) ? 1 + opick(200) : rnd_size(), 0), 0}); else if (t < 7) c.a.push_back({2, rnd_bytes(opick(4) ? 1 + opick(200) : rnd_size(), 0), 0}); else if (t < 9) c.a.push_back({3, "", 1000 + (i64)opick(3000000)}); else if (t == 9) c.a.push_back({4, "", 0}); else if (t == 10) c.a.push_back({5, "", 0}); else if (!ids.empty() && opick(2) && ids.back().compare(3, 1, fmts("%d", w)) != 0) c.a.push_back({8, ids[opick((u32)ids.size())], 0}); }
      if (opick(5) == 0) c.a.push_back({7, "", opick(2) ? 9 : 11}); else { static const int st[] = {0, 1, 2, 127, 126, 255, 42, 0}; c.a.push_back({6, "", st[opick(8)]}); }
      bool oo = true, eo = true; for (auto &a : c.a) { if (a.k == 1 && oo) c.out += a.d; if (a.k == 2 && eo) c.err += a.d; if (a.k == 4) oo = false; if (a.k == 5) eo = false; if (a.k == 6) c.status = (int)a.n; if (a.k == 7) c.sig = (int)a.n; }
      childs[id] = c; iplan[w].push_back(o); }
    for (auto &o : iplan[w]) ids.push_back(o.args[0]); }
  exec_exists = [](Proc *, const std::vector<std::string> &av) { return av.size() > 0 && av[0] == "/usr/bin/tool"; };
  exec_script = [](Proc *p) {
    if (p->argv.size() < 2 || !childs.count(p->argv[1])) violation("wrong-arguments", "a program was started with unexpected arguments (%zu of them)", p->argv.size()); Child &c = childs[p->argv[1]]; if (c.argv != p->argv) violation("wrong-arguments", "%s was started with other arguments than it was given", p->argv[1].c_str()); if (c.started) violation("started-twice", "%s was started twice", p->argv[1].c_str()); c.started = true;
    for (auto &a : c.a) { if (p->exited) return; switch (a.k) { case 1: case 2: if (p->fds.count(a.k)) { if (act_write(p, a.k, a.d) < 0 && !p->exited) proc_kill(p, 13); } break; case 3: actor_sleep(a.n); break; case 4: case 5: { extern void proc_fd_close(Proc *, int); proc_fd_close(p, a.k - 3); break; } case 6: proc_exit(p, (int)a.n); return; case 7: proc_kill(p, (int)a.n); return; case 8: { std::string id = a.d; PROBE("a child waits for another command"); block("child waits for another command", [id] { return child_done[id]; }); break; } } } };
  on_begin = [](int, IOp &, IRes &) { exec_open++; };
  on_end = [](int w, IOp &o, IRes &r) {
    exec_open--; child_done[o.args[0]] = true; Child &c = childs[o.args[0]]; std::string so = show_op(o); bool could_fail = R->faults[F_PIPE] || R->faults[F_FORK] || R->faults[F_EXEC] || !c.exists;
    if (!c.started) { if (!could_fail) violation("not-started", "T%d: %s was never started", w, so.c_str()); if (r.val) violation("false-ok", "T%d: %s says ok=true but the program was never started", w, so.c_str()); PROBE("launch failure reported"); }
    else if (c.sig && !r.val) PROBE("killed child reported");
    else {
      if (!r.val) violation("false-failure", "T%d: %s says ok=false but the program ran and exited with %d by itself", w, so.c_str(), c.status);
      if (c.sig ? r.code != 128 + c.sig : r.code != c.status) violation("exit-code", "T%d: %s returned exit code %lld although the program %s %d", w, so.c_str(), (long long)r.code, c.sig ? "was killed by signal" : "exited with", c.sig ? c.sig : c.status);
      if (r.strs[0] != c.out) violation("stdout", "T%d: %s returned %zu bytes of standard output that are not the %zu the program wrote", w, so.c_str(), r.strs[0].size(), c.out.size());
      if (r.strs[1] != c.err) violation("stderr", "T%d: %s returned %zu bytes of standard error that are not the %zu the program wrote", w, so.c_str(), r.strs[1].size(), c.err.size()); PROBE("command completed"); }
    for (Proc *p : procs) if (p->ppid == G->pid && p->argv.size() > 1 && p->argv[1] == o.args[0] && !p->reaped) violation("zombie", "T%d: %s returned but left its process %s", w, so.c_str(), p->exited ? "unreaped" : "running");
    if (exec_open == 0) { if (G->fds.size() != 3) violation("descriptor-leak", "%zu descriptors are open after %s, 3 before", G->fds.size(), so.c_str()); for (Proc *p : procs) if (p->ppid == G->pid && !p->reaped) violation("zombie", "process %d is left behind after %s", p->pid, so.c_str()); } };
  io_launch();
}
static RegScenario c17({"os-exec", "C17", {"io.so"}, exec_setup, [] { must_exit(G, 0); }, 1});
static RegScenario oom_os_exec({"os-exec-oom", "C10", {"io.so"}, [] { oom_setup_of(exec_setup, 80); }, [] { oom_check_of([] { must_exit(G, 0); }); }, 1});

// ================================================================ C11: sleeping and clocks
static void time_setup() {
  io_reset(cfg(4)); time_jumps = false; if (cfg(3)) { static const u32 rt[] = {2000, 16000, 40000}; fault_rate[F_EINTR_SLEEP] = rt[cfg(3)]; } if (cfg(2)) fault_rate[F_CLOCK_STEP] = 16000;
  for (int w = 0; w <= ithreads; w++) { int n = 2 + opick(6); for (int i = 0; i < n; i++) { IOp o; u32 k = opick(12); o.op = k < 6 ? 51 + (int)k % 4 : 55 + (int)opick(5); if (o.op == 56) o.op = 55;
      static const i64 ms[] = {0, 1, 2, 10, 100, 999, 1000, 1001, 1500, 2500, 60000}; static const i64 ns[] = {0, 1, 999, 1000, 1000000, 999999999, 1000000000, 1000000001, 2500000000}; static const i64 sec[] = {0, 1, 2, 5, 3600};
      o.v = o.op == 52 ? sec[opick(5)] : o.op == 54 ? ns[opick(9)] : ms[opick(11)]; if (o.op >= 55) o.v = 0; iplan[w].push_back(o); if (o.op == 55 && opick(2)) { IOp e; e.op = 56; iplan[w].push_back(e); } } }
  on_begin = [](int w, IOp &o, IRes &) { if (o.op == 56) { o.v = 0; for (size_t i = ipos[w]; i-- > 0;) if (iplan[w][i].op == 55) { o.v = ires[w][i].val; o.u = (i64)i; break; } } clock_epoch = R->faults[F_CLOCK_STEP]; };
  on_end = [](int w, IOp &o, IRes &r) {
    u64 el = r.t1 - r.t0; std::string so = show_op(o);
    if (o.op <= 54) { u64 want = o.op == 52 ? o.v * 1000000000ull : o.op == 54 ? (u64)o.v : o.v * 1000000ull; if (el < want) violation("woke-early", "T%d: %s returned after %.6f s instead of %.6f s", w, so.c_str(), el / 1e9, want / 1e9); if (el > want + 60000000ull + (R->steps - r.steps0) * 200) violation("overslept", "T%d: %s returned only after %.6f s instead of %.6f s", w, so.c_str(), el / 1e9, want / 1e9); PROBE("sleep measured"); return; }
    u64 lo = r.t0, hi = r.t1; // real time of the call
    if (o.op == 55) { for (int x = 0; x < 4; x++) for (size_t i = 0; i < ires[x].size(); i++) { IRes &q = ires[x][i]; if (iplan[x][i].op != 55 || !q.done || &q == &r || q.seq1 > r.seq0) continue; if (r.val < q.val) violation("clock-back", "time.tick went back from %lld to %lld", (long long)q.val, (long long)r.val); i64 dmin = (i64)(lo - q.t1), dmax = (i64)(hi - q.t0), d = r.val - q.val; if (d < dmin - 1000000 || d > dmax + 1000000) violation("clock-wrong", "time.tick advanced by %lld ns while %lld to %lld ns passed", (long long)d, (long long)dmin, (long long)dmax); } PROBE("ticks compared"); return; }
    if (o.op == 56) { IRes &q = ires[w][o.u]; i64 dmin = (i64)(lo - q.t1) / 1000000 - 1, dmax = (i64)(hi - q.t0) / 1000000 + 1; if (iplan[w][o.u].op == 55 && q.done && (r.val < dmin || r.val > dmax || r.val < 0)) violation("clock-wrong", "time.elapsed_ms says %lld ms but %lld to %lld ms passed", (long long)r.val, (long long)dmin, (long long)dmax); PROBE("elapsed compared"); return; }
    if (clock_epoch != R->faults[F_CLOCK_STEP] || ithreads) return; // stepped during the call, or another thread may have observed a step
    i64 unit = o.op == 57 ? 1000000000 : o.op == 58 ? 1000000 : 1, a = r.w0 / unit, b = ((i64)now_ns + wall_off) / unit; if (r.val < a || r.val > b) violation("wall-clock", "%s returned %lld, outside %lld..%lld", so.c_str(), (long long)r.val, (long long)a, (long long)b); PROBE("wall clock compared"); };
  io_launch();
}
static RegScenario c11({"sleep-and-clocks", "C11", {"io.so"}, time_setup, [] { must_exit(G, 0); }, 1});

// ================================================================ C22: randomness
extern std::function<u32()> rand_source; extern std::map<int, std::string> entropy_log;
static std::set<std::string> ids_seen; static std::set<std::pair<int, size_t>> ent_used; static bool rnd_fault; static size_t seq_at[2]; static u32 src_mode; static u64 src_ctr;
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static void entropy_check(const std::string &what, const std::string &b, const std::vector<unsigned char> &mask) { // some fresh window of the bytes the system supplied matches
  for (auto &kv : entropy_log) { const std::string &l = kv.second; if (l.size() < b.size()) continue; for (size_t i = 0; i + b.size() <= l.size(); i++) { bool m = true; for (size_t j = 0; m && j < b.size(); j++) m = ((unsigned char)b[j] & mask[j]) == ((unsigned char)l[i + j] & mask[j]); if (!m) continue; for (size_t j = 0; j < b.size(); j++) if (!ent_used.insert({kv.first, i + j}).second) violation("reused-randomness", "%s reuses random bytes that were already given out", what.c_str()); return; } }
  violation("weak", "%s does not carry the random bytes the system supplied", what.c_str()); }
static void check_id(int w, IOp &o, IRes &r) {
  std::string s = r.strs[0], so = show_op(o); if (ids_seen.count(s) && s.size() >= 16) violation("repeated", "T%d: %s returned '%s' a second time", w, so.c_str(), s.c_str()); ids_seen.insert(s);
  if (o.op == 75) { if ((i64)s.size() != o.v) violation("malformed", "%s returned %zu characters", so.c_str(), s.size()); std::string b; std::vector<unsigned char> mask; for (size_t i = 0; i < s.size(); i++) { int h = hexv(s[i]); if (h < 0) violation("malformed", "%s returned '%s'", so.c_str(), s.c_str()); if (i % 2 == 0) { b += (char)(h << 4); mask.push_back(0xf0); } else { b.back() = (char)(b.back() | h); mask.back() = 0xff; } } if (s.size() >= 16) entropy_check(so + " = " + s, b, mask); return; }
  std::string hex; if (o.op == 76) { hex = s; if (s.size() != 32) violation("malformed", "%s returned '%s'", so.c_str(), s.c_str()); } else { if (s.size() != 36) violation("malformed", "%s returned '%s'", so.c_str(), s.c_str()); for (size_t i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23) { if (s[i] != '-') violation("malformed", "%s returned '%s'", so.c_str(), s.c_str()); } else hex += s[i]; }
  if (r.failed) violation("malformed", "%s returned '%s', which is_valid refuses", so.c_str(), s.c_str()); std::string b; for (size_t i = 0; i < 32; i += 2) { int x = hexv(hex[i]), y = hexv(hex[i + 1]); if (x < 0 || y < 0) violation("malformed", "%s returned '%s'", so.c_str(), s.c_str()); b += (char)(x << 4 | y); }
  int ver = (unsigned char)b[6] >> 4; if (ver != (o.op == 74 ? 7 : 4) || ((unsigned char)b[8] >> 6) != 2) violation("malformed", "%s returned '%s' with a wrong version or variant", so.c_str(), s.c_str());
  std::vector<unsigned char> mask(16, 0xff); mask[6] = 0x0f; mask[8] = 0x3f;
  if (o.op == 74) { i64 ms = 0; for (int i = 0; i < 6; i++) ms = ms << 8 | (unsigned char)b[i]; i64 lo = r.w0 / 1000000, hi = ((i64)now_ns + wall_off) / 1000000; if (!R->faults[F_CLOCK_STEP] && (ms < lo || ms > hi)) violation("not-ordered", "%s carries the time %lld, it was made between %lld and %lld", so.c_str(), (long long)ms, (long long)lo, (long long)hi); if (R->faults[F_CLOCK_STEP] == 0) for (int x = 0; x < 4; x++) for (size_t i = 0; i < ires[x].size(); i++) { IRes &q = ires[x][i]; if (iplan[x][i].op != 74 || !q.done || &q == &r) continue; if (q.t1 / 1000000 < r.t0 / 1000000 && q.strs[0] >= s) violation("not-ordered", "%s sorts before the earlier %s", s.c_str(), q.strs[0].c_str()); } entropy_check(so + " = " + s, b.substr(6), std::vector<unsigned char>(mask.begin() + 6, mask.end())); }
  else entropy_check(so + " = " + s, b, mask);
  PROBE("identifier checked"); }
static IOp rnd_op() {
  IOp o; o.op = 60 + (int)opick(11); static const i64 mx[] = {1, 2, 3, 6, 10, 100, 256, 65536, 2147483647, 2147483648ll, 4294967296ll, 1ll << 40, 9223372036854775807ll}; static const i64 mn[] = {0, -1, -5, -100, 1, 7, -2147483648ll, -(1ll << 40), -9223372036854775807ll - 1};
  if (o.op == 60) o.v = mx[opick(13)]; else if (o.op == 61) { o.v = mn[opick(9)]; i64 d = mx[opick(13)]; o.u = __builtin_add_overflow(o.v, d, &o.u) ? 9223372036854775807ll : o.v + d; if (opick(8) == 0) { o.v = -9223372036854775807ll - 1; o.u = 9223372036854775807ll; } } else if (o.op == 63) { o.v = -(i64)opick(1000); o.u = o.v + 1 + (opick(2) ? opick(1000) : opick(1u << 30)); } else if (o.op == 70) o.v = opick(8); return o; }
static void rand_setup() {
  io_reset(0); ids_seen.clear(); ent_used.clear(); rand_source = nullptr; src_ctr = 0; u32 mode = cfg(4); seq_at[0] = seq_at[1] = 0;
  if (mode == 0) { // equal seeds, equal sequences
    i64 seed = opick(2) ? opick(1u << 30) : -(i64)opick(1000); IOp s; s.op = 71; s.v = seed; std::vector<IOp> seq; int n = 3 + opick(12); for (int i = 0; i < n; i++) seq.push_back(rnd_op()); int pre = opick(4); for (int i = 0; i < pre; i++) iplan[0].push_back(rnd_op()); iplan[0].push_back(s); seq_at[0] = iplan[0].size(); for (auto &o : seq) iplan[0].push_back(o); int mid = opick(4); for (int i = 0; i < mid; i++) iplan[0].push_back(opick(2) ? rnd_op() : IOp{72}); iplan[0].push_back(s); seq_at[1] = iplan[0].size(); for (auto &o : seq) iplan[0].push_back(o);
  } else if (mode == 1) { // hostile values from the generator
    src_mode = cfg(4); rand_source = []() -> u32 { src_ctr++; static const u32 v[] = {0, 0x7fffffff, 1, 0x7ffffffe, 0x40000000, 0x3fffffff, 255, 256, 94, 95}; return src_mode == 0 ? 0x7fffffff : src_mode == 1 ? 0 : v[pick(ST_DATA, 10)]; };
    ithreads = (int)cfg(2); for (int w = 0; w <= ithreads; w++) { int n = 4 + opick(16); for (int i = 0; i < n; i++) iplan[w].push_back(rnd_op()); }
  } else { // identifiers
    ithreads = (int)cfg(4); if (cfg(2)) draw_faults({F_ENTROPY_FAIL, F_ENTROPY_SHORT, F_OPEN}, 8); if (cfg(3) == 2) fault_rate[F_ENTROPY_SHORT] = 30000; if (cfg(3) == 2) fault_rate[F_ENTROPY_FAIL] = 30000; if (cfg(4) == 3) fault_rate[F_CLOCK_STEP] = 10000;
    for (int w = 0; w <= ithreads; w++) { int n = 2 + opick(8); for (int i = 0; i < n; i++) { static const int ops[] = {72, 73, 74, 75, 76, 74, 53, 64}; IOp o; o.op = ops[opick(8)]; static const i64 ln[] = {0, 1, 2, 15, 16, 17, 32, 33, 64, 200, 1000, 4100}; o.v = o.op == 75 ? ln[opick(12)] : o.op == 53 ? opick(3) : 0; iplan[w].push_back(o); } } }
  on_end = [](int w, IOp &o, IRes &r) {
    std::string so = show_op(o); i64 v = r.val; bool bad = false; auto in7 = [](i64 x) { return x % 11 == 0 && x >= 11 && x <= 77; };
    switch (o.op) { case 60: bad = v < 0 || v >= o.v; break; case 61: bad = v < o.v || v >= o.u; break; case 62: bad = !r.val; break; case 63: bad = !r.val; break; case 65: bad = v < 0 || v > 255; break; case 66: bad = v < 32 || v > 126; break; case 67: bad = v < 'f' || v > 'q'; break; case 68: bad = !in7(v); break;
      case 69: case 70: { std::set<i64> s(r.vals.begin(), r.vals.end()); bad = s.size() != r.vals.size() || (i64)r.vals.size() != (o.op == 69 ? 7 : o.v); for (i64 x : r.vals) if (!in7(x)) bad = true; break; } }
    if (bad) violation("out-of-range", "T%d: %s returned %lld%s", w, so.c_str(), (long long)v, r.vals.empty() ? "" : fmts(" (%lld ...)", (long long)r.vals[0]).c_str());
    if (o.op >= 72 && o.op <= 76) check_id(w, o, r);
    if (seq_at[1] && ipos[0] > seq_at[1]) { size_t i = ipos[0] - 1, j = i - seq_at[1] + seq_at[0]; IRes &q = ires[0][j]; if (q.val != r.val || q.vals != r.vals) violation("seed", "after equal seeds %s returned %lld the first time and %lld the second", so.c_str(), (long long)q.val, (long long)r.val); PROBE("seeded sequences compared"); } };
  io_launch();
}
static void rand_check() { if (G->status == 1 && has(G->err, "panic") && (R->faults[F_ENTROPY_FAIL] || R->faults[F_OPEN] || R->faults[F_ENTROPY_SHORT])) { for (int w = 0; w < 4; w++) if (open_res(w) && iplan[w][ipos[w]].op >= 72) { PROBE("stopped for lack of randomness"); return; } } must_exit(G, 0); }
static RegScenario c22({"randomness", "C22", {"io.so"}, rand_setup, rand_check, 1});
static RegScenario oom_randomness({"randomness-oom", "C10", {"io.so"}, [] { oom_setup_of(rand_setup, 60); }, [] { oom_check_of(rand_check); }, 1});

// ================================================================ C23: console input
static std::vector<std::string> in_lines; static size_t in_next; static bool in_eof_seen; static std::map<int, i64> in_last; static std::vector<std::pair<u64, i64>> in_done;
static void input_setup() {
  io_reset(cfg(3) == 2 ? 1 + cfg(2) : 0); in_lines.clear(); in_next = 0; in_eof_seen = false; in_last.clear(); in_done.clear();
  if (cfg(2)) fault_rate[F_READ_SHORT] = 40000; if (cfg(2)) fault_rate[F_EINTR_READ] = 12000; if (cfg(2)) fault_rate[F_SLOW] = 12000; if (cfg(4) == 3) { fault_nth[F_READ_EIO] = 1 + cfg(12); fault_sticky[F_READ_EIO] = cfg(2); }
  int n = opick(8); std::string data; for (int i = 0; i < n; i++) { static const size_t ln[] = {0, 1, 5, 20, 80, 200, 1023, 1024, 4000, 4094, 4095, 4096, 4097, 5000, 9000}; size_t k = opick(3) ? opick(40) : ln[opick(15)]; std::string l = rnd_bytes(k, opick(4) == 0 ? 0 : 1); for (auto &c : l) if (c == '\n') c = '_'; if (ithreads) l = fmts("%d:", i) + l; in_lines.push_back(l); data += l; if (i + 1 < n || opick(3)) data += "\n"; else if (l.empty()) in_lines.pop_back(); }
  if (n && !data.empty() && data.back() == '\n' && !in_lines.empty()) {} int calls = n + (int)opick(4); for (int i = 0; i < calls; i++) { IOp o; o.op = 80; int w = ithreads ? (int)opick((u32)ithreads + 1) : 0; iplan[w].push_back(o); if (opick(6) == 0) { IOp y; y.op = 81; iplan[w].push_back(y); } }
  on_end = [](int w, IOp &o, IRes &r) {
    if (o.op != 80) return; const std::string &s = r.strs[0]; bool err = R->faults[F_READ_EIO]; auto cut = [](const std::string &l) { return l.substr(0, 4095); }; auto tail = [&](const std::string &l, const std::string &t) { if (cut(l) == t) return true; for (size_t i = 0; i < l.size() && i < 12000; i++) if (l.size() - i >= t.size() && l.compare(i, std::min<size_t>(4095, l.size() - i), t) == 0) return true; return false; }; // after a read error the rest of the broken line counts as a line
   
    if (!ithreads) {
      if (err) { if (s.empty()) { in_eof_seen = true; return; } size_t k = in_next; while (k < in_lines.size() && !tail(in_lines[k], s)) k++; if (k >= in_lines.size()) violation("invented", "after a read error input() returned '%s', which is no remaining line", hexdump(s, 60).c_str()); in_next = k + 1; return; }
      std::string want = in_next < in_lines.size() ? cut(in_lines[in_next]) : ""; if (s != want) violation("wrong-line", "input() number %zu returned '%s' (%zu bytes) instead of '%s' (%zu bytes)", in_next + 1, hexdump(s, 60).c_str(), s.size(), hexdump(want, 60).c_str(), want.size()); if (in_next < in_lines.size()) in_next++; else PROBE("input after the end"); PROBE("line compared"); return; }
    i64 at = -1; for (size_t i = 0; i < in_lines.size(); i++) if (cut(in_lines[i]) == s) at = (i64)i; if (at < 0 && err && !s.empty()) for (auto &l : in_lines) if (tail(l, s)) { PROBE("rest of a broken line"); return; }
    if (at < 0) { if (!s.empty()) violation("mixed", "T%d: input() returned '%s', which is no line of the input", w, hexdump(s, 60).c_str()); if (!err && in_done.size() < in_lines.size()) { size_t pend = 0; for (int x = 0; x < 4; x++) if (open_res(x)) pend++; if (in_done.size() + pend < in_lines.size()) violation("lost-line", "T%d: input() returned nothing although lines remain", w); } return; }
    for (auto &d : in_done) if (d.second == at) violation("repeated-line", "line %lld was delivered twice", (long long)at); for (auto &d : in_done) if (d.first < r.seq0 && d.second > at) violation("out-of-order", "T%d: input() returned line %lld after line %lld had been delivered", w, (long long)at, (long long)d.second); in_done.push_back({r.seq1, at}); PROBE("line compared"); };
  sample_add("input: %zu lines, %zu bytes; ", in_lines.size(), data.size()); io_launch(); G->in = data;
}
static RegScenario c23({"console-input", "C23", {"io.so"}, input_setup, [] { must_exit(G, 0); }, 1});
static RegScenario oom_console_input({"console-input-oom", "C10", {"io.so"}, [] { oom_setup_of(input_setup, 40); }, [] { oom_check_of([] { must_exit(G, 0); }); }, 1});
