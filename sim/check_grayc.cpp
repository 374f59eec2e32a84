// Scenarios for the compiler itself as a process: formatting in place (C24), builds and runs (C25), and several
// compilers at once (C26).  The compiler is real code; the C compiler it starts and the binaries that "come out" are
// scripted processes over the simulated file system.
#include "scn.h"
#include <fcntl.h>
#include <set>

// ---------------------------------------------------------------- world
struct Inv { // one run of the compiler
  bool self = false; // the output path is one of the source files
  std::vector<std::string> args; std::string cwd, src, out; int mode = 0; // 0 build, 1 -c, 2 run, 3 check, 4 fmt
  std::string ref; bool has_ref = false; int ref_status = 0; int marker = 0; Proc *p = nullptr; bool killed = false, intr = false, cc_seen = false, cc_fail = false, cc_reject = false; int ran = 0, ran_status = -1; u64 t0 = 0, t1 = 0; bool done = false; std::string orig, fmt; u32 mode_bits = 0644; std::string real; bool nul = false; bool raw = false; bool fifo = false; std::string okc; };
static std::vector<Inv> inv; static std::vector<Proc *> refs; static std::map<std::string, std::string> before; static bool no_cc, no_rt, alone, ctrlc_cfg; static int prog_exit; static Proc *helper;
static std::map<std::string, int> ref_of; // complete C text -> marker
static std::string self = "/opt/gray/grayc";
static bool is_ref(Proc *p) { return std::find(refs.begin(), refs.end(), p) != refs.end(); }
static Inv *inv_of(Proc *p) { for (auto &i : inv) if (i.p == p) return &i; return nullptr; }
static Inv *inv_of_pid(int pid) { for (int k = 0; k < 8; k++) { for (auto &i : inv) if (i.p && i.p->pid == pid) return &i; int up = 0; for (Proc *q : procs) if (q->pid == pid) up = q->parent0 ? q->parent0 : q->ppid; if (!up) return nullptr; pid = up; } return nullptr; }
static void snap_rec(const std::string &d, std::map<std::string, std::string> &m) { for (auto &n : fs_list(d)) { std::string p = (d == "/" ? "" : d) + "/" + n; if (fs_isdir(p)) { m[p + "/"] = ""; snap_rec(p, m); } else { std::string c; if (fs_get(p, c, false)) m[p] = c; } } }
static std::map<std::string, std::string> snap() { std::map<std::string, std::string> m; for (const char *d : {"/tmp", "/work", "/home", "/opt", "/usr", "/fifo"}) if (fs_isdir(d)) snap_rec(d, m); return m; }

// ---------------------------------------------------------------- the scripted C compiler and binaries
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> w; std::string c; bool in = false, q = false, dq = false; for (size_t i = 0; i < s.size(); i++) { char ch = s[i]; if (q) { if (ch == '\'') q = false; else c += ch; continue; } if (dq) { if (ch == '"') dq = false; else if (ch == '\\' && i + 1 < s.size()) c += s[++i]; else c += ch; continue; } if (ch == '\'') { q = in = true; continue; } if (ch == '"') { dq = in = true; continue; } if (ch == '\\' && i + 1 < s.size()) { c += s[++i]; in = true; continue; } if (ch == ' ' || ch == '\t' || ch == '\n') { if (in) w.push_back(c); c.clear(); in = false; continue; } c += ch; in = true; } if (in) w.push_back(c); return w; }
static std::string abspath(Proc *p, const std::string &f) { return f.empty() || f[0] == '/' ? f : p->cwd + "/" + f; }
static void run_cc(Proc *p, const std::vector<std::string> &w, Inv *I) {
  std::string out = "a.out"; std::vector<std::string> cs; for (size_t i = 1; i < w.size(); i++) { if (w[i] == "-o" && i + 1 < w.size()) out = w[++i]; else if (w[i].size() > 2 && w[i].substr(w[i].size() - 2) == ".c" && !has(w[i], "/runtime/") && !has(w[i], "/stdlib/")) cs.push_back(w[i]); }
  if (!I) { proc_exit(p, 1); return; } if (cs.empty()) { std::string a; for (auto &x : w) a += " " + x; sim_error("cc without a source file:%s", a.c_str()); }; std::string cf = abspath(p, cs[0]); out = abspath(p, out);
  I->cc_seen = true; bool fail = fault(F_CCFAIL); u32 how = fail ? pick(ST_DATA, 4) : 0; if (fail) I->cc_fail = true;
  actor_sleep(1000ull * (1 + pick(ST_DATA, 400000)));
  if (fail && how == 0) { proc_kill(p, 9); return; }
  std::string text; if (!fs_get(cf, text)) { I->cc_reject = true; act_write(p, 1, "cc: error: " + cf + ": No such file or directory\n"); proc_exit(p, 1); return; }
  actor_sleep(1000ull * (1 + pick(ST_DATA, 200000)));
  if (fail && how == 1) { act_write(p, 1, "cc: internal compiler error\n"); proc_exit(p, 1); return; }
  auto it = ref_of.find(text); if (it == ref_of.end()) { if (verbose) { size_t a = 0; while (a < text.size() && a < I->ref.size() && text[a] == I->ref[a]) a++; logline("cc: %zu bytes, reference %zu, first difference at %zu: '%s' against '%s'", text.size(), I->ref.size(), a, hexdump(text.substr(a < 60 ? 0 : a - 60, 160)).c_str(), hexdump(I->ref.substr(a < 60 ? 0 : a - 60, 160)).c_str()); } bool plausible = I->has_ref && text.size() > 200 && text.substr(text.size() - 40) == I->ref.substr(I->ref.size() - 40); if (!plausible) { I->cc_reject = true; act_write(p, 1, cf + ":1:1: error: expected declaration\n"); proc_exit(p, 1); return; } PROBE("C text that is well-formed but not that of the source"); }
  int what = it == ref_of.end() ? 0 : it->second; if (what && what != I->marker) violation("foreign-source", "the C compiler started for '%s' compiled the C text of another source file (program %d instead of %d)", I->src.c_str(), it->second, I->marker);
  if (disk_used() + 40 > disk_quota) { I->cc_fail = true; act_write(p, 1, "ld: final link failed: No space left on device\n"); proc_exit(p, 1); return; }
  if (fs_isdir(out)) { I->cc_reject = true; proc_exit(p, 1); return; }
  std::string old; bool had = fs_get(out, old); size_t sl = out.rfind('/'); if (!fs_isdir(out.substr(0, sl ? sl : 1)) ) { I->cc_fail = true; act_write(p, 1, "ld: cannot open output file\n"); proc_exit(p, 1); return; }
  if (had) fs_remove(out); fs_put(out, ""); if (fs_observer) fs_observer("cc", out); actor_sleep(1000ull * (1 + pick(ST_DATA, 200000)));
  if (fail && how == 2) { fs_remove(out); act_write(p, 1, "ld: final link failed\n"); proc_exit(p, 1); return; }
  if (fail && how == 3) { fs_put(out, "BIN"); proc_kill(p, 9); return; }
  fs_put(out, fmts("BIN %d", what)); extern void fs_chmod(const std::string &, u32); fs_chmod(out, 0755); if (fs_observer) fs_observer("cc", out);
  actor_sleep(1000ull * (1 + pick(ST_DATA, 50000))); proc_exit(p, 0);
}
static void script(Proc *p) {
  std::vector<std::string> w = p->argv; if (w.size() >= 3 && (w[0] == "/bin/sh" || w[0] == "sh") && w[1] == "-c") w = words(w[2]);
  while (w.size() && w[0] == "exec") w.erase(w.begin());
  std::string prog = w.empty() ? "" : w[0].substr(w[0].rfind('/') == std::string::npos ? 0 : w[0].rfind('/') + 1);
  Inv *I = inv_of_pid(p->ppid != 1 ? p->ppid : p->parent0);
  if (prog == "cc" || prog == "gcc" || prog == "clang") {
    bool ver = false; for (auto &x : w) if (x == "--version") ver = true;
    if (no_cc) { proc_exit(p, 127); return; }
    if (ver) { actor_sleep(1000ull * (1 + pick(ST_DATA, 20000))); proc_exit(p, fault(F_CCFAIL) ? 1 : 0); return; }
    run_cc(p, w, I); return;
  }
  // a binary
  std::string path = abspath(p, w.empty() ? "" : w[0]), c; if (!fs_get(path, c)) { proc_exit(p, 127); return; }
  if (!I) { proc_exit(p, 1); return; } int m = -1; if (sscanf(c.c_str(), "BIN %d", &m) != 1) { violation("torn-binary", "'%s' was started although it is not a complete binary", path.c_str()); }
  I->ran++; if (m != I->marker) violation("foreign-binary", "running '%s' executed something else than the program of that source file (%d instead of %d)", I->src.c_str(), m, I->marker);
  bool imm = p->sigh.count(2) && p->sigh[2] == (void *)1; if (imm) violation("deaf-program", "the program started by 'run' ignores Ctrl-C: it inherited the ignored signal");
  act_write(p, 1, fmts("out %d\n", m)); actor_sleep(1000ull * (1 + pick(ST_DATA, 800000))); I->ran_status = prog_exit; if (prog_exit > 255) { proc_kill(p, prog_exit - 256); return; } proc_exit(p, prog_exit);
}

// ---------------------------------------------------------------- sources
static std::string gen_decls(int m, int n) { std::string s; for (int i = 0; i < n; i++) { switch (opick(5)) { case 0: s += fmts("do f%d(a int) -> int {\n    mut x int = a\n    if x > %d {\n        x = x - 1\n    }\n    return x\n}\n\n", i, m); break; case 1: s += fmts("const S%d struct {\n    name string\n    age int\n}\n\n", i); break; case 2: s += fmts("// comment %d\ndo g%d() -> string {\n    return \"g{%d}\"\n}\n\n", m, i, i); break; case 3: s += fmts("const K%d enum {\n    A\n    B\n}\n\n", i); break; default: s += fmts("do h%d() -> [int] {\n    mut v [int] = {1, 2, %d}\n    for_each q in v {\n        println(\"${q}\")\n    }\n    return v\n}\n\n", i, m); } } return s; }
// kind: 1 imports a file, 2 imports a directory, 3 embeds a file
static std::string gen_source(int m, const std::string &dir, int kind) {
  std::string s; if (kind == 1) { s += "import \"./util.gray\"\n\n"; fs_put(dir + "/util.gray", fmts("do twice(a int) -> int {\n    return a * %d\n}\n", m + 1000)); } if (kind == 2) { s += "import \"./lib\"\n\n"; fs_put(dir + "/lib/a.gray", fmts("do one() -> int {\n    return %d\n}\n", m + 2000)); fs_put(dir + "/lib/b.gray", fmts("do two() -> int {\n    return %d\n}\n", m + 3000)); }
  if (kind == 4 || kind == 5) { fs_mkdirs(dir + "/sub"); s += "import \"./util.gray\"\nimport \"./mid.gray\"\n\n"; fs_put(dir + "/util.gray", fmts("%sdo twice(a int) -> int {\n    return a * %d\n}\n", kind == 5 ? "import \"./mid.gray\"\n\n" : "", m + 1000)); fs_put(dir + "/mid.gray", fmts("import \"./sub/../util.gray\"\n\ndo thrice(a int) -> int {\n    return util.twice(a) + %d\n}\n", m)); }
  if (kind == 3) fs_put(dir + "/data.txt", "embedded " + fmts("%d ", m) + rnd_bytes(opick(3) ? opick(60) : 4000 + opick(3000), 1));
  s += gen_decls(m, (int)opick(opick(6) == 0 ? 12 : 3)); s += fmts("do main() {\n    println(\"program %d\")\n", m); if (kind == 4 || kind == 5) s += "    println(\"${util.twice(2)} ${mid.thrice(3)}\")\n"; if (kind == 1) s += "    println(\"${util.twice(2)}\")\n"; if (kind == 2) s += "    println(\"${lib.one()}\")\n"; if (kind == 3) s += "    println(embed(\"data.txt\"))\n"; s += "}\n"; return s; }

static Proc *start_grayc(const std::vector<std::string> &args, const std::string &cwd) { std::vector<std::string> av = {self}; for (auto &a : args) av.push_back(a); Proc *p = start_guest("grayc.so", av); p->cwd = cwd; return p; }
static void world() {
  inv.clear(); refs.clear(); ref_of.clear(); before.clear(); no_cc = no_rt = ctrlc_cfg = false; alone = true; prog_exit = 0; choose_sched(); sched.p_mem = sched.p_conf = 0; max_steps = 60000000;
  u32 lay = cfg(6); self = lay == 1 ? "/usr/local/bin/grayc" : "/opt/gray/grayc"; std::string rt = lay == 1 ? "/usr/local/lib/grayc" : "/opt/gray/src";
  fs_mkdirs("/ref"); fs_put(self, "ELF"); extern void fs_chmod(const std::string &, u32); fs_chmod(self, 0755); if (!(no_rt = lay == 5 && cfg(3) == 2)) fs_put(rt + "/runtime/runtime.h", "/* runtime */"); if (lay != 4) fs_put(lay == 1 ? "/usr/local/lib/libgrayrt.a" : "/opt/gray/libgrayrt.a", "!<arch>");
  exec_exists = [](Proc *p, const std::vector<std::string> &av) { if (av.empty()) return false; std::string c; if (av[0].find('/') == std::string::npos) return av[0] == "sh" || (!no_cc && (av[0] == "cc" || av[0] == "gcc" || av[0] == "clang")); if (av[0] == "/bin/sh") return true; return fs_get(abspath(p, av[0]), c) && c.compare(0, 4, "BIN ") == 0; };
  exec_script = script; run_done = nullptr;
  fault_filter = [](Fault) { return !(cur && cur->proc && is_ref(cur->proc)); };
}
static std::string tail(const std::string &s) { return hexdump(s.size() > 300 ? s.substr(s.size() - 300) : s, 300); }
// The complete C (or formatted text) of a source: what the compiler makes of it when nothing fails and it is alone.
static Proc *run_ref(const std::vector<std::string> &args, const std::string &cwd) { Proc *p = start_grayc(args, cwd); refs.push_back(p); block("reference", [p] { return p->exited; }); return p; }
static void make_ref(Inv &I) {
  if (I.mode == 4) { std::string c; fs_put("/ref/x.gray", I.orig); Proc *p = run_ref({"--fmt", "/ref/x.gray"}, "/ref"); I.ref_status = p->status; if (p->status == 0 && fs_get("/ref/x.gray", c)) { I.fmt = c; I.has_ref = true; }
    if (I.raw) { for (int k = 0; k < 2; k++) { fs_put("/ref/x.gray", k ? I.fmt : I.orig); Proc *q = run_ref({"build", "/ref/x.gray", "-c", "-o", "/ref/out.c"}, "/ref"); std::string o; if (q->status || !fs_get("/ref/out.c", o)) { if (k == 0) sim_error("a source for the formatter does not compile: %s\n%s", q->err.c_str(), I.orig.c_str()); o = "(does not compile: " + tail(q->err) + ")"; } (k ? I.okc : I.ref) = o; fs_remove("/ref/out.c"); }
      if (I.ref != I.okc) { size_t d = 0; while (d < I.ref.size() && d < I.okc.size() && I.ref[d] == I.okc[d]) d++; violation("formatting-changes-program", "formatting changes the program: the C of the source has '%s' where that of the formatted source has '%s'", hexdump(I.ref.substr(d > 20 ? d - 20 : 0), 60).c_str(), hexdump(I.okc.substr(d > 20 ? d - 20 : 0), 60).c_str()); } }
    return; }
  Proc *p = run_ref({"build", I.src, "-c", "-o", "/ref/out.c"}, I.cwd); I.ref_status = p->status; std::string c; if (p->status == 0 && fs_get("/ref/out.c", c)) { I.ref = c; I.has_ref = true; ref_of[c] = I.marker; } else sim_error("the reference build of '%s' failed: %s", I.src.c_str(), p->err.c_str());
  fs_remove("/ref/out.c"); }
static std::string mname(int m) { static const char *n[] = {"build", "-c", "run", "check", "fmt"}; return n[m]; }
static void start_all() {
  before = snap();
  for (auto &I : inv) { I.p = start_grayc(I.args, I.cwd); G = I.p; Inv *J = &I; J->t0 = now_ns; I.p->on_exit = [J] { J->t1 = now_ns; J->done = true; }; std::string a; for (auto &x : I.args) a += " " + x; sample_add("[%s$ grayc%s]", I.cwd.c_str(), a.c_str()); }
}
static bool quiet_faults() { for (int i = 0; i < F_N; i++) { if (i == F_READ_SHORT || i == F_WRITE_SHORT || i == F_SLOW || i == F_EINTR_WAIT) continue; if (R->faults[i]) return false; } return true; }
static bool fired(int f) { return R->faults[f] > 0; }
static void launch_all(std::function<void()> extra = nullptr) {
  helper = nullptr; spawn_actor("driver", [extra] { auto t0 = fs_list("/tmp"); std::set<std::string> had(t0.begin(), t0.end()); for (auto &I : inv) make_ref(I); for (auto &n : fs_list("/tmp")) if (!had.count(n)) fs_remove("/tmp/" + n); start_all(); if (extra) extra(); block("compilers", [] { for (auto &I : inv) if (!I.p || !I.p->exited) return false; return true; }); actor_sleep(3000000000ull); end_run(); });
}
static bool said_anything(Inv &I) { for (Proc *q : procs) if (!(q->err.empty() && q->out.empty()) && inv_of_pid(q->pid) == &I) return true; return false; }
static void judge(Inv &I) {
  Proc *p = I.p; if (!p || !p->exited) violation("not-exited", "grayc %s did not end", mname(I.mode).c_str());
  if (p->killed_by && !I.killed && !(I.intr && p->killed_by == 2)) violation("crash", "grayc %s '%s' was killed by signal %d; stderr: %s", mname(I.mode).c_str(), I.src.c_str(), p->killed_by, tail(p->err).c_str());
  if (p->killed_by) return;
  std::string o; bool ok = p->status == 0; add_event(300 + I.mode, p->status, I.cc_seen, I.ran);
  if (!ok && !I.intr && !said_anything(I) && !(I.mode == 2 && I.ran)) violation("silent-failure", "grayc %s '%s' failed (status %d) without any message", mname(I.mode).c_str(), I.src.c_str(), p->status);
  if (I.self) { if (ok && !fired(F_STAT)) violation("overwrites-source", "grayc %s '%s' reported success although its output is a source file", mname(I.mode).c_str(), I.src.c_str()); PROBE("output over a source"); return; }
  if (I.mode == 0 && ok) { if (!fs_get(I.out, o)) violation("false-success", "grayc build '%s' reported success but there is no '%s'; stderr: %s", I.src.c_str(), I.out.c_str(), tail(p->err).c_str()); if (o != fmts("BIN %d", I.marker)) violation("false-success", "grayc build '%s' reported success but '%s' holds '%s' instead of the program; stderr: %s", I.src.c_str(), I.out.c_str(), hexdump(o, 60).c_str(), tail(p->err).c_str()); }
  if (I.mode == 1 && ok) { if (!fs_get(I.out, o)) violation("false-success", "grayc -c '%s' reported success but there is no '%s'", I.src.c_str(), I.out.c_str()); if (o != I.ref) violation("false-success", "grayc -c '%s' reported success but '%s' holds %zu bytes that are not the complete C text (%zu bytes)", I.src.c_str(), I.out.c_str(), o.size(), I.ref.size()); }
  if (I.mode == 2) {
    if (ok && (!I.ran || I.ran_status != 0)) violation("false-success", "grayc run '%s' ended with success but the program %s", I.src.c_str(), !I.ran ? "was not run" : "did not end with status 0");
    if (I.ran && I.ran_status == 0 && !ok && !I.intr && !I.killed && !fired(F_UNLINK) && !fired(F_RMDIR)) violation("false-failure", "grayc run '%s': the program ended with status 0 but grayc with %d", I.src.c_str(), p->status);
    if (I.ran && I.ran_status > 0 && I.ran_status < 256 && !I.intr && p->status != I.ran_status) violation("exit-status", "grayc run '%s': the program ended with status %d but grayc with %d", I.src.c_str(), I.ran_status, p->status); }
  if (I.mode != 4 && !ok && !I.intr && quiet_faults() && !no_cc && !no_rt && !I.cc_fail && !(I.mode == 2 && I.ran)) violation("false-failure", "grayc %s '%s' failed (status %d) although nothing went wrong; stderr: %s", mname(I.mode).c_str(), I.src.c_str(), p->status, tail(p->err).c_str());
  if (I.mode == 2 && I.ran > 1) violation("run-twice", "grayc run started the program %d times", I.ran);
}
static bool is_output(const std::string &f) { for (auto &I : inv) if (I.mode < 2 && (f == I.out) && !I.self) return true; return false; }
static void judge_files() {
  auto after = snap(); bool unl = fired(F_UNLINK) || fired(F_RMDIR) || fired(F_OPENDIR) || fired(F_READDIR) || fired(F_STAT); bool killed = false; std::string said; bool rejected = false;
  for (auto &I : inv) { if (I.p->killed_by) killed = true; said += I.p->err + I.p->out; if (I.cc_fail || I.cc_reject) rejected = true; }
  for (auto &kv : before) { bool fmtd = false; for (auto &I : inv) if (I.mode == 4 && (kv.first == I.real || kv.first == I.src)) fmtd = true; if (fmtd || is_output(kv.first)) continue; auto it = after.find(kv.first); if (it == after.end()) violation("foreign-deleted", "'%s', which belongs to somebody else, was deleted", kv.first.c_str()); if (it->second != kv.second) violation("foreign-overwritten", "'%s', which belongs to somebody else, was changed to '%s'", kv.first.c_str(), hexdump(it->second, 60).c_str()); }
  if (killed) return;
  for (auto &kv : after) { if (before.count(kv.first) || is_output(kv.first) || unl) continue; bool named = has(said, kv.first); if (!named && kv.first.back() == '/') for (auto &k2 : after) if (k2.first != kv.first && k2.first.compare(0, kv.first.size(), kv.first) == 0 && has(said, k2.first)) named = true;
    if (rejected && named) { PROBE("C text kept after a failed compilation"); continue; } violation("leftover", "'%s' was left behind (holding %zu bytes)", kv.first.c_str(), kv.second.size()); }
}
static void grayc_check() { if (inv.empty() || !inv[0].p) sim_error("nothing was started"); for (auto &I : inv) judge(I); if (inv[0].self && fired(F_STAT)) return; judge_files(); }

// ---------------------------------------------------------------- C25: one build
static void pick_cmd(Inv &I, const std::string &base, const std::string &tag = "") {
  I.mode = (int)opick(4); std::string src = I.src; if (opick(3) == 0 && src.compare(0, I.cwd.size() + 1, I.cwd + "/") == 0) src = src.substr(I.cwd.size() + 1); else if (opick(3) == 0 && src.compare(0, I.cwd.size() + 1, I.cwd + "/") == 0) src = "./" + src.substr(I.cwd.size() + 1); I.src = src;
  if (I.mode == 3) { I.args = {"check", src}; return; }
  if (I.mode == 2) { I.args = {"run", src}; } else { if (opick(2)) I.args.push_back("build"); I.args.push_back(src); if (I.mode == 1) I.args.push_back("-c");
    if (opick(2)) { std::string o = I.cwd + "/" + (opick(2) ? "out" : "bin") + tag + (I.mode == 1 ? ".c" : ""); I.out = o; I.args.push_back("-o"); I.args.push_back(opick(2) ? o : o.substr(I.cwd.size() + 1)); } else I.out = I.cwd + "/" + base + (I.mode == 1 ? ".c" : ""); }
  if (opick(4) == 0) I.args.push_back("-O0"); if (opick(6) == 0) I.args.push_back("--time"); if (opick(6) == 0) I.args.push_back("-v"); if (opick(8) == 0) I.args.push_back("--quiet");
}
static void litter(const std::string &base) { // files of other people where a careless compiler would write
  if (cfg(3) == 0) fs_put("/tmp/gray_" + base + ".c", "/* not yours */"); if (cfg(3) == 0) for (int k = 0; k < 8; k++) fs_put(fmts("/tmp/gray_run_%d", 4242 + k), "not yours"); if (cfg(3) == 0) for (int k = 0; k < 8; k++) fs_put(fmts("/tmp/gray_gray_run_%d.c", 4242 + k), "not yours"); if (cfg(4) == 0) fs_put("/tmp/a.out", "x"); }
// The output path is the source itself, or a file it imports: nothing may be written.
static void onto_source(Inv &I, const std::string &dir, int kind, const std::string &full) {
  I.self = true; I.src = full; std::string victim = I.src; bool dflt = I.mode == 0 && opick(2) == 0 && (kind != 3 || dir == I.cwd); I.args.clear(); if (opick(2)) I.args.push_back("build");
  if (dflt) { std::string s; fs_get(I.src, s); fs_remove(I.src); victim = I.src = I.cwd + "/prog"; if (dir != I.cwd) for (size_t k = 0; (k = s.find("import \"./", k)) != std::string::npos; k += 15) s.replace(k, 10, "import \"./sub/"); fs_put(I.src, s); I.okc = s; }
  else if ((kind == 1 || kind == 4 || kind == 5) && opick(2)) victim = dir + "/util.gray"; else if (kind == 2 && opick(2)) victim = dir + (opick(2) ? "/lib/a.gray" : "/lib/b.gray");
  std::string src = I.src, o = victim; if (opick(3) == 0 && has(src, I.cwd + "/")) src = src.substr(I.cwd.size() + 1); I.src = src; I.args.push_back(src); if (I.mode == 1) I.args.push_back("-c"); I.out = victim;
  if (!dflt) { switch (opick(4)) { case 0: break; case 1: if (o.compare(0, I.cwd.size() + 1, I.cwd + "/") == 0) o = o.substr(I.cwd.size() + 1); break; case 2: o = I.cwd + "/ln"; fs_symlink(victim, o); break; case 3: o = victim.substr(0, victim.rfind('/')) + "/../" + victim.substr(victim.rfind('/', victim.rfind('/') - 1) + 1); break; } I.args.push_back("-o"); I.args.push_back(o); }
}
static void build_setup() {
  world(); Inv I; static const char *bases[] = {"main", "x", "prog"}; std::string base = bases[opick(3)]; I.cwd = opick(2) ? "/work" : "/work/p"; fs_mkdirs(I.cwd); std::string dir = opick(3) == 0 ? I.cwd + "/sub" : I.cwd; fs_mkdirs(dir); I.marker = 1 + opick(50); I.src = dir + "/" + base + ".gray";
  if (opick(10) == 9) { I.fifo = true; dir = "/fifo"; I.src = "/fifo/" + base + ".gray"; }
  int kind = opick(2) ? 1 + opick(5) : 0; fs_put(I.src, gen_source(I.marker, dir, kind)); std::string full = I.src; pick_cmd(I, base); if (I.mode < 2 && !I.fifo && opick(8) == 7) onto_source(I, dir, kind, full); litter(base); if (I.mode < 2 && !I.self && opick(3) == 0) fs_put(I.out, opick(2) ? "older output" : "BIN 99999");
  draw_faults({F_OPEN, F_READ_EIO, F_READ_SHORT, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_CLOSE, F_CCFAIL, F_CCFAIL, F_FORK, F_EXEC, F_EINTR_WAIT, F_UNLINK, F_RMDIR, F_MKDIR, F_STAT, F_OPENDIR, F_READDIR, F_RENAME}, 10);
  if (cfg(6) == 0) { fault_nth[F_MALLOC] = 1 + cfg(400); fault_sticky[F_MALLOC] = cfg(2); }
  if (cfg(8) == 0) no_cc = true; static const int ex[] = {0, 0, 0, 1, 3, 42, 255, 256 + 11, 256 + 6}; prog_exit = ex[cfg(9)];
  u32 quota = cfg(5) == 0 ? 1 + cfg(6000) : 0; u32 kill = cfg(6); u64 when = 1000ull * (1 + pick(ST_TIME, 1500000)); if (kill == 1) ctrlc_cfg = true; inv.push_back(I);
  launch_all([quota, kill, when] { if (quota) disk_quota = disk_used() + quota; Proc *p = inv[0].p; if (kill == 0) spawn_actor("killer", [p, when] { actor_sleep(when); if (!p->exited) { fault_fired(F_KILL); inv[0].killed = true; proc_kill(p, 9); } }); if (kill == 1) spawn_actor("ctrl-c", [p, when] { actor_sleep(when); if (!p->exited) { PROBE("Ctrl-C"); inv[0].intr = true; group_sigint(p); } }); });
}
static RegScenario s_build({"build", "C25", {"grayc.so", "grayc.so"}, build_setup, grayc_check, 4});

// ---------------------------------------------------------------- C24: formatting in place
// What the source says, whatever its layout: its lines without the white space around them, blank lines dropped.
static std::vector<std::string> gist(const std::string &s) { std::vector<std::string> r; std::string c; auto put = [&] { size_t a = 0, b = c.size(); while (a < b && (c[a] == ' ' || c[a] == '\t')) a++; while (b > a && (c[b - 1] == ' ' || c[b - 1] == '\t' || c[b - 1] == '\r')) b--; if (b > a) r.push_back(c.substr(a, b - a)); c.clear(); }; for (char ch : s) { if (ch == '\n') put(); else c += ch; } put(); return r; }
static std::string mess(const std::string &s) { std::string o; bool bol = true; for (size_t i = 0; i < s.size(); i++) { if (bol) { while (i < s.size() && s[i] == ' ') i++; u32 k = opick(4); o += k == 0 ? "" : k == 1 ? "\t" : k == 2 ? "      " : " "; if (opick(12) == 0) o += "\n"; bol = false; if (i >= s.size()) break; } o += s[i]; if (s[i] == '\n') bol = true; } if (opick(4) == 0 && !o.empty()) o.pop_back(); return o; }
static std::string last_seen; static u32 mode0; static bool via_link;
// A program whose raw strings run over several lines, next to everything that holds quotes and backticks of its own.
static std::string gen_raw(int m) { std::string s = fmts("// a comment%s%s\n", opick(2) ? " with a \" in it" : "", opick(2) ? " and a ` in it" : ""); int n = 1 + opick(3); s += "do main() {\n"; for (int i = 0; i < n; i++) { switch (opick(6)) { case 0: break; case 1: s += fmts("    mut c%d char = '%s'\n    println(\"${c%d}\")\n", i, opick(2) ? "\"" : "`", i); break; case 2: s += "    /* a block \" comment\n       ` of two lines */\n"; break; case 3: s += fmts("    println(\"nested ${%s} quotes\")\n", opick(2) ? "\"a\"" : "`b`"); break; case 4: s += "    println(\"an escaped \\\" quote, a ` tick\")\n"; break; default: s += "    println(`a \" quote`)\n"; }
  s += fmts("    mut r%d string = `%d", i, m); int l = 1 + opick(3); for (int j = 0; j < l; j++) { static const char *ln[] = {"", "   ", "  text", "\ttab", "}", "        { deep", "// no comment", "a \" quote"}; if (opick(4) == 0) s += opick(2) ? " " : "\t "; s += "\n"; s += ln[opick(8)]; } s += fmts("`\n    println(r%d)\n", i); } s += "}\n"; return s; }
static u32 mode_of(const std::string &p) { extern u32 fs_mode(const std::string &); return fs_mode(p); }
static void fmt_invariant(const char *op, const std::string &path) { (void)path; for (auto &I : inv) { if (I.mode != 4 || !I.p) continue; std::string c; if (!fs_get(I.real, c)) violation("source-lost", "after %s: the source file '%s' is gone", op, I.real.c_str()); if (c != I.orig && !(I.has_ref && c == I.fmt)) violation("source-damaged", "after %s: '%s' holds %zu bytes that are neither the original (%zu bytes) nor the formatted text (%zu bytes)", op, I.real.c_str(), c.size(), I.orig.size(), I.fmt.size()); } }
static void fmt_setup() {
  world(); Inv I; I.mode = 4; I.cwd = "/work"; I.marker = 1 + opick(50); std::string dir = opick(2) ? "/work" : "/work/d"; fs_mkdirs(dir); I.real = I.src = dir + "/main.gray"; std::string s = gen_source(I.marker, "/work/x", 0); u32 k = opick(10);
  if (k == 9) s += "// " + rnd_bytes(opick(3) * 4000 + opick(9000), 1) + "\n"; if (k == 8) s = ""; bool raw = k == 7 || (k < 4 && opick(3) == 0); if (raw) s = gen_raw(I.marker); if (k == 6) s = gen_decls(I.marker, 60); if (k == 5) { s = rnd_bytes(opick(400), 0); I.nul = s.find('\0') != std::string::npos; } if (k == 4) { s += std::string("// tail\0 more\n", 14) + "do tail() {\n}\n"; I.nul = true; }
  I.orig = k == 5 && !raw ? s : raw ? s : mess(s); if (raw) { I.nul = false; I.raw = true; } via_link = opick(5) == 4; if (via_link) { I.src = "/work/link.gray"; fs_symlink(opick(2) ? I.real : (dir == "/work" ? "main.gray" : "d/main.gray"), I.src); }
  static const u32 md[] = {0644, 0600, 0755, 0664}; mode0 = md[opick(4)]; I.mode_bits = mode0;
  draw_faults({F_OPEN, F_READ_EIO, F_READ_SHORT, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_CLOSE, F_STAT, F_RENAME, F_UNLINK, F_READ_EIO, F_CLOSE}, 8); if (cfg(5) == 0) { fault_nth[F_MALLOC] = 1 + cfg(12); fault_sticky[F_MALLOC] = cfg(2); }
  fs_put(I.real, I.orig); extern void fs_chmod(const std::string &, u32); fs_chmod(I.real, mode0); std::string a = I.src; if (opick(2)) a = a.substr(6); I.args = {"--fmt", a}; inv.push_back(I); if (opick(5) == 4) { I.src = I.real; I.args = {"--fmt", I.real}; inv.push_back(I); }
  if (opick(3) == 0) fs_put(dir + "/other.gray", "mine"); u32 quota = cfg(4) == 0 ? 1 + cfg(3000) : 0; if (cfg(4) == 0 && quota) quota = 1; u32 kill = cfg(5); u64 when = 200ull * (1 + pick(ST_TIME, 2500));
  fs_observer = fmt_invariant;
  launch_all([quota, kill, when] { if (quota) disk_quota = disk_used() + quota - 1; Proc *p = inv[0].p; if (kill == 0) spawn_actor("killer", [p, when] { actor_sleep(when); if (!p->exited) { fault_fired(F_KILL); inv[0].killed = true; proc_kill(p, pick(ST_DATA, 2) ? 9 : 2); } }); });
}
static void fmt_check() {
  extern bool fs_islink(const std::string &); if (inv.empty() || !inv[0].p) sim_error("nothing was started");
  fmt_invariant("the end", ""); bool quiet = quiet_faults();
  for (auto &I : inv) { judge(I); std::string c; fs_get(I.real, c); Proc *p = I.p; add_event(310, p->status, c == I.fmt);
    if (I.has_ref && !I.nul && gist(I.fmt) != gist(I.orig)) violation("formatting-changes-code", "formatting drops or changes lines of the source: %zu lines before, %zu after", gist(I.orig).size(), gist(I.fmt).size());
    if (I.has_ref && I.nul && gist(I.fmt) != gist(I.orig)) violation("source-cut", "formatting a source that contains a NUL byte left %zu of its %zu lines and reported success", gist(I.fmt).size(), gist(I.orig).size());
    if (p->killed_by) continue;
    if (p->status == 0) { if (!I.has_ref) { if (I.ref_status == 0) sim_error("no reference"); violation("false-success", "the formatter reported success where it failed on the same text before"); } if (c != I.fmt) violation("false-success", "the formatter reported success but '%s' does not hold the formatted text", I.real.c_str()); if (mode_of(I.real) != I.mode_bits) violation("mode-changed", "formatting changed the mode of '%s' from %o to %o", I.real.c_str(), I.mode_bits, mode_of(I.real)); }
    else if (quiet && I.ref_status == 0 && !fired(F_KILL)) violation("false-failure", "the formatter failed (status %d) although nothing went wrong; stderr: %s", p->status, tail(p->err).c_str()); }
  if (via_link && !fs_islink("/work/link.gray")) violation("link-replaced", "the symbolic link through which the source was formatted became a regular file");
  judge_files();
}
static RegScenario s_fmt({"fmt", "C24", {"grayc.so", "grayc.so", "grayc.so", "grayc.so", "grayc.so", "grayc.so", "grayc.so", "grayc.so"}, fmt_setup, fmt_check, 4});

// ---------------------------------------------------------------- C26: several compilers at once
static void many_setup() {
  world(); int n = 2 + (int)cfg(3); static const char *bases[] = {"main", "x"}; std::map<std::string, int> used; bool faults = cfg(3) == 2;
  std::string shared;
  for (int i = 0; i < n; i++) {
    Inv I; bool near = false; std::string base = bases[opick(4) == 3]; I.marker = 100 * (i + 1) + opick(50); I.cwd = fmts("/work/p%d", i); std::string dir = I.cwd; fs_mkdirs(I.cwd);
    if (i && opick(3) == 0 && inv[0].mode != 4) { I.marker = inv[0].marker; I.src = inv[0].okc; I.okc = I.src; } // the same source, in another working directory
    else if (i && opick(3) == 0) { near = true; I.cwd = dir = inv[0].cwd; I.src = dir + fmts("/m%d.gray", i); fs_put(I.src, gen_source(I.marker, dir, 0)); I.okc = I.src; } // another source in the same directory, worked on at the same time
    else { I.src = dir + "/" + base + ".gray"; fs_put(I.src, gen_source(I.marker, dir, opick(3) == 0 ? 1 + opick(5) : 0)); I.okc = I.src; }
    std::string full = I.src; size_t sl = full.rfind('/'); base = full.substr(sl + 1, full.size() - sl - 6); pick_cmd(I, base, near ? fmts("%d", i) : ""); if (I.mode == 3) { I.mode = 2; I.args = {"run", I.src}; I.out = ""; } inv.push_back(I);
    if (i == 0) litter(base); }
  if (faults) draw_faults({F_OPEN, F_WRITE_EIO, F_WRITE_ENOSPC, F_CLOSE, F_CCFAIL, F_FORK, F_EXEC, F_EINTR_WAIT, F_UNLINK, F_RMDIR, F_MKDIR, F_READ_EIO}, 20);
  static const int ex[] = {0, 0, 0, 3, 256 + 11}; prog_exit = ex[cfg(5)]; u32 kill = cfg(5); int victim = (int)cfg((u32)n); u64 when = 1000ull * (1 + pick(ST_TIME, 1500000));
  launch_all([kill, victim, when] { Proc *p = inv[victim].p; if (kill == 4) spawn_actor("killer", [p, victim, when] { actor_sleep(when); if (!p->exited) { fault_fired(F_KILL); inv[victim].killed = true; proc_kill(p, 9); } }); if (kill == 3) spawn_actor("ctrl-c", [p, victim, when] { actor_sleep(when); if (!p->exited) { PROBE("Ctrl-C"); inv[victim].intr = true; group_sigint(p); } }); });
}
static RegScenario s_many({"many", "C26", {"grayc.so", "grayc.so", "grayc.so", "grayc.so", "grayc.so", "grayc.so", "grayc.so", "grayc.so"}, many_setup, grayc_check, 4});
