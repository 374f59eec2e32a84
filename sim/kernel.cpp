// Simulated kernel: processes, file system, descriptors, pipes, sockets, time, entropy.
#include "sim.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <dirent.h>
#include <glob.h>
#include <netdb.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/utsname.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <time.h>
#include <limits.h>
#include <spawn.h>
#include <ftw.h>

#define ERR(e) do { cur->err = (e); return -1; } while (0)
extern void add_timer(u64); extern void kill_fibers(Proc *, Fiber *);
extern "C" { void *sim_malloc_raw(size_t); void sim_free_raw(void *); void *sim_malloc(size_t); void sim_free(void *); }
InodeP fs_root; u64 disk_quota = ~0ull; static u64 used_bytes = 0; static int next_ino = 1; static int next_pid = 4242;
std::function<void(const char *, const std::string &)> fs_observer;
std::function<bool(Proc *, const std::vector<std::string> &)> exec_exists; std::function<void(Proc *)> exec_script;
std::function<int(const std::string &, std::vector<u32> &)> resolver;
std::function<void(Proc *)> on_proc_exit; std::function<bool()> run_done;
bool fork_child = false; static int fork_pipe = -1; static bool fork_exec_fail = false;
u64 net_delay_max = 0; u32 seg_mode = 0;
static std::map<int, std::shared_ptr<Listener>> listeners; static int next_port = 40000;
static u64 ep_ids = 0;

// ---------------------------------------------------------------- file system
static InodeP mk(Inode::T t, int dev) { auto i = std::make_shared<Inode>(); i->t = t; i->ino = ++next_ino; i->dev = dev; i->mode = t == Inode::DIR ? 0755 : 0644; return i; }
static std::vector<std::string> split(const std::string &p) { std::vector<std::string> r; std::string c; for (char ch : p) { if (ch == '/') { if (!c.empty()) r.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) r.push_back(c); return r; }
struct Look { InodeP dir, node; std::string last; int err = 0; bool slash = false; };
static Look lookup(const std::string &cwd, const std::string &path, bool follow, int depth = 0) {
  Look L; if (path.empty()) { L.err = ENOENT; return L; } if (depth >= 0 && path.size() >= PATH_MAX) { L.err = ENAMETOOLONG; return L; }
  InodeP d = fs_root; std::vector<std::string> parts;
  if (path[0] != '/') parts = split(cwd);
  { auto q = split(path); parts.insert(parts.end(), q.begin(), q.end()); }
  L.slash = path.size() > 1 && path.back() == '/';
  L.dir = fs_root; L.node = fs_root; L.last = ".";
  for (size_t i = 0; i < parts.size(); i++) {
    const std::string &c = parts[i]; bool last = i + 1 == parts.size();
    if (c.size() > 255) { L.err = ENAMETOOLONG; L.node = nullptr; return L; }
    if (d->t != Inode::DIR) { L.err = ENOTDIR; L.node = nullptr; return L; }
    if (c == ".") { L.dir = d; L.node = d; L.last = "."; continue; }
    if (c == "..") { auto p = d->parent.lock(); if (p) d = p; L.dir = d; L.node = d; L.last = ".."; continue; }
    L.dir = d; L.last = c; auto it = d->ents.find(c);
    if (it == d->ents.end()) { L.node = nullptr; L.err = ENOENT; if (!last) { L.dir = nullptr; } return L; }
    InodeP n = it->second;
    if (n->t == Inode::LINK && (!last || follow || L.slash)) {
      if (depth > 8) { L.err = ELOOP; L.node = nullptr; return L; }
      std::string base = "/"; { std::vector<std::string> names; InodeP x = d; while (x != fs_root) { auto p = x->parent.lock(); if (!p) break; for (auto &e : p->ents) if (e.second == x) { names.push_back(e.first); break; } x = p; } std::reverse(names.begin(), names.end()); for (auto &s : names) base += s + "/"; }
      Look T = lookup(base, n->data, true, depth + 1);
      if (T.err || !T.node) { T.err = T.err ? T.err : ENOENT; if (!last) T.dir = nullptr; return T; }
      n = T.node; if (last) { L.node = n; L.dir = T.dir; L.last = T.last; return L; }
    }
    d = n; L.node = n;
  }
  L.err = 0; return L;
}
static Look lookup(const std::string &cwd, const char *p, bool follow) { if (!p) { Look L; L.err = EFAULT; return L; } return lookup(cwd, std::string(p), follow, 0); }
static std::string canon(const std::string &cwd, const char *p);
static std::string canon(const std::string &cwd, const std::string &p) { if (p.empty() || p[0] == '/') return p; return cwd + "/" + p; }
static std::string canon(const std::string &cwd, const char *p) { return p ? canon(cwd, std::string(p)) : std::string(); }
u64 disk_used() { return used_bytes; }
void fs_init() { fs_root = mk(Inode::DIR, 1); fs_root->parent = fs_root; for (const char *d : {"/tmp", "/work", "/dev", "/etc", "/home/user", "/proc"}) fs_mkdirs(d); fs_put("/dev/urandom", ""); fs_put("/dev/random", ""); fs_put("/dev/null", ""); fs_put("/dev/tty", ""); fs_mkdirs("/fifo"); used_bytes = 0; }
void fs_mkdirs(const std::string &path) { InodeP d = fs_root; for (auto &c : split(path)) { auto it = d->ents.find(c); if (it == d->ents.end()) { auto n = mk(Inode::DIR, d->dev); n->parent = d; d->ents[c] = n; d = n; } else d = it->second; } }
void fs_put(const std::string &path, const std::string &data) {
  size_t s = path.rfind('/'); fs_mkdirs(path.substr(0, s)); Look L = lookup("/", path.substr(0, s + 1), true, -1); std::string n = path.substr(s + 1);
  auto it = L.node->ents.find(n); if (it != L.node->ents.end()) { used_bytes -= it->second->data.size(); it->second->data = data; } else { auto f = mk(Inode::FILE, L.node->dev); f->data = data; L.node->ents[n] = f; } used_bytes += data.size();
}
void fs_remove(const std::string &path) { size_t s = path.rfind('/'); Look L = lookup("/", path.substr(0, s + 1), true, -1); if (!L.node) return; auto it = L.node->ents.find(path.substr(s + 1)); if (it == L.node->ents.end()) return; if (it->second->t == Inode::FILE) used_bytes -= it->second->data.size(); L.node->ents.erase(it); }
bool fs_get(const std::string &path, std::string &out, bool follow) { Look L = lookup("/work", path, follow, -1); if (!L.node || L.node->t == Inode::DIR) return false; out = L.node->data; return true; }
bool fs_exists(const std::string &path, bool follow) { return lookup("/work", path, follow, -1).node != nullptr; }
bool fs_isdir(const std::string &path) { Look L = lookup("/work", path, false, -1); return L.node && L.node->t == Inode::DIR; }
void fs_symlink(const std::string &target, const std::string &path) { size_t s = path.rfind('/'); fs_mkdirs(path.substr(0, s)); Look L = lookup("/", path.substr(0, s + 1), true, -1); auto n = mk(Inode::LINK, L.node->dev); n->data = target; L.node->ents[path.substr(s + 1)] = n; }
void fs_link(const std::string &a, const std::string &b) { size_t s = b.rfind('/'); Look A = lookup("/", a, false, -1), L = lookup("/", b.substr(0, s + 1), true, -1); if (A.node && L.node && !L.node->ents.count(b.substr(s + 1))) { A.node->nlink++; L.node->ents[b.substr(s + 1)] = A.node; } }
bool fs_same(const std::string &a, const std::string &b) { Look A = lookup("/", a, false, -1), B = lookup("/", b, false, -1); return A.node && A.node == B.node; }
void fs_mount(const std::string &path, int dev) { fs_mkdirs(path); lookup("/", path, true, -1).node->dev = dev; }
std::vector<std::string> fs_list(const std::string &dir) { std::vector<std::string> r; Look L = lookup("/", dir, true, -1); if (L.node && L.node->t == Inode::DIR) for (auto &e : L.node->ents) r.push_back(e.first); return r; }
static void dump_rec(InodeP n, const std::string &p, std::string &o) { if (n->t == Inode::DIR) { o += p + "/\n"; for (auto &e : n->ents) dump_rec(e.second, p + "/" + e.first, o); } else if (n->t == Inode::LINK) o += p + " -> " + n->data + "\n"; else o += p + " = " + hexdump(n->data, 60) + "\n"; }
std::string fs_dump(const std::string &dir) { std::string o; Look L = lookup("/", dir, true, -1); if (L.node) dump_rec(L.node, dir, o); return o; }
static void observe(const char *op, const std::string &path) { if (verbose) logline("fs %s %s", op, path.c_str()); hash_mix(0xf5); for (const char *c = op; *c; c++) hash_mix(*c); for (char c : path) hash_mix((unsigned char)c); if (fs_observer && !fork_child) fs_observer(op, path); }

// ---------------------------------------------------------------- processes
std::string Proc::status_str() const { if (killed_by) return std::string("killed by signal ") + std::to_string(killed_by); return "exit status " + std::to_string(status); }
Proc *new_proc(const std::string &name, int ppid) {
  Proc *p = new Proc(); p->pid = next_pid++; p->ppid = ppid; p->name = name; p->env["PATH"] = "/usr/bin:/bin"; p->env["HOME"] = "/home/user";
  OFDP i = std::make_shared<OFD>(); i->t = OFD::TTYIN; i->rd = true; OFDP o = std::make_shared<OFD>(); o->t = OFD::CAPTURE; o->cap = &p->out; o->wr = true; OFDP e = std::make_shared<OFD>(); e->t = OFD::CAPTURE; e->cap = &p->err; e->wr = true;
  p->fds[0].o = i; p->fds[1].o = o; p->fds[2].o = e; for (int k = 0; k < 3; k++) p->fds[k].o->refs++;
  procs.push_back(p); return p;
}
static void ep_fin(EndP e);
static void ofd_release(OFDP o) {
  if (--o->refs > 0) return;
  switch (o->t) {
    case OFD::PIPE_R: o->pipe->readers--; break; case OFD::PIPE_W: o->pipe->writers--; break;
    case OFD::SOCK: if (o->ep) { if (o->ep->inbytes > 0) ep_reset(o->ep); else ep_close(o->ep); } break;
    case OFD::LISTEN: o->lis->open = false; for (auto &e : o->lis->q) ep_reset(e); listeners.erase(o->lis->port); break;
    default: break;
  }
}
static void fd_close(Proc *p, int fd) { auto it = p->fds.find(fd); if (it == p->fds.end()) return; OFDP o = it->second.o; p->fds.erase(it); ofd_release(o); }
void proc_fd_close(Proc *p, int fd) { fd_close(p, fd); }
void close_all(Proc *p) { while (!p->fds.empty()) fd_close(p, p->fds.begin()->first); }
int fd_alloc(Proc *p, OFDP o, int min) { int n = min; while (p->fds.count(n)) n++; if (n >= p->max_fds) return -1; p->fds[n].o = o; p->fds[n].cloexec = false; o->refs++; return n; }
extern "C" void stdio_flush_proc(Proc *p);
void run_check_done() { if (run_done && run_done()) end_run(); }
void proc_exit(Proc *p, int status) {
  if (p->exited) return;
  p->exited = true; p->status = status & 255; close_all(p);
  if (verbose) logline("process %d (%s) %s", p->pid, p->name.c_str(), p->status_str().c_str());
  hash_mix(0xe0000 + p->pid * 256 + status);
  kill_fibers(p, cur);
  for (Proc *c : procs) if (c->ppid == p->pid) { c->parent0 = p->pid; c->ppid = 1; if (c->exited) c->reaped = true; }
  if (p->on_exit) p->on_exit();
  if (on_proc_exit) on_proc_exit(p);
  if (cur && cur->proc == p) { cur->st = Fiber::DONE; run_check_done(); extern void fiber_finish(); fiber_finish(); }
  run_check_done();
}
void proc_kill(Proc *p, int sig) { if (p->exited) return; p->killed_by = sig; proc_exit(p, 128 + sig); }
Proc *start_guest(const std::string &so, const std::vector<std::string> &argv, const char *entry) {
  extern void *load_module(const std::string &so); void *h = load_module(so);
  int (*fn)(int, char **) = (int (*)(int, char **))dlsym(h, entry);
  if (!fn) sim_error("no %s in %s", entry, so.c_str());
  Proc *p = new_proc(so); p->mod = h; p->argv = argv;
  Fiber *f = spawn_fiber("main" + std::to_string(p->pid), p, [p, fn] {
    char **av = (char **)calloc(p->argv.size() + 1, sizeof(char *)); for (size_t i = 0; i < p->argv.size(); i++) av[i] = strdup(p->argv[i].c_str());
    int r = fn((int)p->argv.size(), av); extern void guest_exit(int); guest_exit(r);
  });
  f->is_main = true; return p;
}
static Proc *P() { return cur->proc; }
void guest_exit(int code) {
  Proc *p = P(); point_sync("exit");
  if (fork_child) { // child of fork ended without exec
    std::string r = "X"; int st = code & 255; r.append((char *)&st, sizeof st); for (const std::string *s : {&P()->out, &P()->err}) { u32 l = s->size(); r.append((char *)&l, 4); r += *s; } size_t off = 0; while (off < r.size()) { ssize_t w = write(fork_pipe, r.data() + off, r.size() - off); if (w <= 0) break; off += w; } _exit(0);
  }
  if (p->exiting) { if (cur->is_main) {} block("exit in progress", [] { return false; }); }
  p->exiting = true;
  while (!p->atexit_fns.empty()) { auto f = p->atexit_fns.back(); p->atexit_fns.pop_back(); f(); }
  stdio_flush_proc(p);
  proc_exit(p, code);
}
std::function<u32()> rand_source; std::map<int, std::string> entropy_log;
extern "C" {
void sim_exit(int c) { guest_exit(c); abort(); }
void sim__exit(int c) { if (fork_child) guest_exit(c); point_sync("_exit"); proc_exit(P(), c); abort(); }
void sim__Exit(int c) { sim__exit(c); }
void sim_abort() { if (fork_child) _exit(0); proc_kill(P(), SIGABRT); abort(); }
int sim_atexit(void (*f)(void)) { P()->atexit_fns.push_back(f); return 0; }
void sim___assert_fail(const char *, const char *, unsigned, const char *) { sim_abort(); }
void sim___stack_chk_fail() { violation("stack-smash", "stack protector failure"); }
int sim_getpid() { return fork_child ? 99999 : P()->pid; } int sim_getppid() { return P()->ppid; } unsigned sim_getuid() { return 1000; } unsigned sim_geteuid() { return 1000; } unsigned sim_getgid() { return 1000; }
char *sim_getenv(const char *n) { auto it = P()->env.find(n); if (it == P()->env.end()) return nullptr; auto &c = P()->envp[n]; if (!c || it->second != c) c = strdup(it->second.c_str()); return c; }
int sim_setenv(const char *n, const char *v, int o) { if (!o && P()->env.count(n)) return 0; P()->env[n] = v; return 0; }
int sim_unsetenv(const char *n) { P()->env.erase(n); return 0; }
int sim_putenv(char *s) { std::string x = s; size_t e = x.find('='); if (e == std::string::npos) P()->env.erase(x); else P()->env[x.substr(0, e)] = x.substr(e + 1); return 0; }
char *sim_getcwd(char *b, size_t n) { if (fault(F_STAT)) { cur->err = ENOENT; return nullptr; } std::string &c = P()->cwd; if (!b) { if (!n) n = c.size() + 1; b = (char *)sim_malloc(n); if (!b) return nullptr; } if (c.size() + 1 > n) { cur->err = ERANGE; return nullptr; } memcpy(b, c.c_str(), c.size() + 1); return b; }
int sim_chdir(const char *p) { Look L = lookup(P()->cwd, p, true); if (!L.node) ERR(L.err); if (L.node->t != Inode::DIR) ERR(ENOTDIR); P()->cwd = canon(P()->cwd, p); return 0; }
int sim_gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }
int sim_uname(struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->nodename, "simhost"); strcpy(u->machine, "x86_64"); return 0; }
long sim_sysconf(int) { return 4096; }
int sim_isatty(int fd) { (void)fd; return 0; }
unsigned sim_umask(unsigned m) { unsigned o = P()->umask; P()->umask = m; return o; }

// ---------------------------------------------------------------- time
static void step_clock() { if (fault(F_CLOCK_STEP)) { static const i64 st[] = {3600000000000ll, -3600000000000ll, 1500000000ll, -1500000000ll, 86400000000000ll * 40, -86400000000000ll * 40}; wall_off += st[pick(ST_DATA, 6)]; } }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
int sim_clock_getres(int, struct timespec *ts) { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return 0; }
int sim_clock_gettime(int c, struct timespec *ts) { point_sync("clock"); step_clock(); i64 t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? (i64)now_ns + wall_off : (i64)now_ns; ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
time_t sim_time(time_t *o) { point_sync("clock"); step_clock(); time_t t = ((i64)now_ns + wall_off) / 1000000000; if (o) *o = t; return t; }
int sim_gettimeofday(struct timeval *tv, void *) { point_sync("clock"); step_clock(); i64 t = (i64)now_ns + wall_off; tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000; return 0; }
int sim_timespec_get(struct timespec *ts, int b) { sim_clock_gettime(CLOCK_REALTIME, ts); return b; }
long sim_clock() { return now_ns / 1000; }
static int do_sleep(u64 ns, u64 *rem) {
  point_sync("sleep"); u64 dl = now_ns + ns;
  if (ns && fault(F_EINTR_SLEEP)) { u64 part = ns / 8 * pick(ST_DATA, 8); if (part) block("sleep", nullptr, now_ns + part); *rem = dl > now_ns ? dl - now_ns : 0; cur->err = EINTR; return -1; }
  step_clock();
  block("sleep", nullptr, dl); *rem = 0; return 0;
}
int sim_nanosleep(const struct timespec *r, struct timespec *m) { if (r->tv_nsec < 0 || r->tv_nsec > 999999999 || r->tv_sec < 0) ERR(EINVAL); u64 rem; u64 sec = (u64)r->tv_sec; if (sec > 1000000000ull) sec = 1000000000ull; int x = do_sleep(sec * 1000000000ull + r->tv_nsec, &rem); if (x && m) { m->tv_sec = rem / 1000000000; m->tv_nsec = rem % 1000000000; } return x; }
int sim_clock_nanosleep(int c, int flags, const struct timespec *r, struct timespec *m) {
  if (flags & TIMER_ABSTIME) { i64 t = r->tv_sec * 1000000000ll + r->tv_nsec; if (c == CLOCK_REALTIME) t -= wall_off; if (t <= (i64)now_ns) return 0; u64 rem; return do_sleep(t - now_ns, &rem) ? EINTR : 0; }
  return sim_nanosleep(r, m) ? cur->err : 0; }
unsigned sim_sleep(unsigned s) { u64 rem; if (do_sleep((u64)s * 1000000000ull, &rem)) return (unsigned)((rem + 500000000ull) / 1000000000ull); return 0; }
int sim_usleep(unsigned us) { u64 rem; return do_sleep((u64)us * 1000, &rem); }
static struct tm static_tm; // one buffer per program, like the C library's
struct tm *sim_localtime_r(const time_t *t, struct tm *o) { return gmtime_r(t, o); }
struct tm *sim_gmtime_r(const time_t *t, struct tm *o) { return gmtime_r(t, o); }
static struct tm *shared_tm(const time_t *t) { point_sync("localtime"); if (!gmtime_r(t, &static_tm)) { cur->err = EOVERFLOW; return nullptr; } point_sync("localtime done"); return &static_tm; }
struct tm *sim_localtime(const time_t *t) { return shared_tm(t); } struct tm *sim_gmtime(const time_t *t) { return shared_tm(t); }
char *sim_ctime(const time_t *t) { static char b[64]; struct tm m; gmtime_r(t, &m); asctime_r(&m, b); return b; }
void sim_tzset() {}
time_t sim_mktime(struct tm *t) { return timegm(t); }

// ---------------------------------------------------------------- randomness
static u64 ent_ctr = 0;
static void fill_entropy(unsigned char *b, size_t n) { for (size_t i = 0; i < n; i++) { ent_ctr++; u64 z = (run_seed * 1000003 + ent_ctr) * 0x9e3779b97f4a7c15ull; z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; b[i] = (unsigned char)(z >> 40); } entropy_log[cur->id].append((char *)b, n); }
void sim_srand(unsigned s) { P()->rand_state = s; point_sync("srand"); }
int sim_rand() { point_sync("rand"); if (rand_source) return (int)(rand_source() & 0x7fffffff); u32 &x = P()->rand_state; u64 z = (u64)x + 0x9e3779b97f4a7c15ull; x = x * 1103515245 + 12345; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; return (int)((z >> 20) & 0x7fffffff); }
long sim_random() { return sim_rand(); } void sim_srandom(unsigned s) { sim_srand(s); } int sim_rand_r(unsigned *s) { if (rand_source) return (int)(rand_source() & 0x7fffffff); *s = *s * 1103515245 + 12345; return (*s >> 1) & 0x7fffffff; }
double sim_drand48() { return sim_rand() / 2147483648.0; } long sim_lrand48() { return sim_rand(); } void sim_srand48(long s) { sim_srand((unsigned)s); }
int sim_getentropy(void *b, size_t n) { check_access(b, n, true, "getentropy"); point_sync("getentropy"); if (n > 256) ERR(EIO); if (fault(F_ENTROPY_FAIL)) ERR(ENOSYS); fill_entropy((unsigned char *)b, n); return 0; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { check_access(b, n, true, "getrandom"); point_sync("getrandom"); if (fault(F_ENTROPY_FAIL)) ERR(EINTR); if (n > 1 && fault(F_ENTROPY_SHORT)) n = 1 + pick(ST_DATA, (u32)(pick(ST_DATA, 2) ? std::min<size_t>(n, 24) : n) - 1); fill_entropy((unsigned char *)b, n); return n; }

// ---------------------------------------------------------------- descriptors and files
static OFD *getfd(int fd) { auto it = P()->fds.find(fd); return it == P()->fds.end() ? nullptr : it->second.o.get(); }
static OFDP getfdp(int fd) { auto it = P()->fds.find(fd); return it == P()->fds.end() ? nullptr : it->second.o; }
int sim_open(const char *path, int flags, ...) {
  mode_t mode = 0644; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  point_sync("open");
  if (fault(F_OPEN)) { static const int es[] = {EMFILE, EACCES, EIO, ENFILE}; ERR(es[pick(ST_DATA, 4)]); }
  Look L = lookup(P()->cwd, path, !(flags & O_NOFOLLOW)); std::string cp = canon(P()->cwd, path); OFDP o = std::make_shared<OFD>(); o->path = cp;
  if (!L.node) {
    if (L.err != ENOENT || !(flags & O_CREAT) || !L.dir) ERR(L.err ? L.err : ENOENT);
    if (L.slash) ERR(EISDIR);
    if (L.dir->t != Inode::DIR) ERR(ENOTDIR);
    if (disk_used() >= disk_quota && fault_rate[F_WRITE_ENOSPC] == 0) { fault_fired(F_WRITE_ENOSPC); ERR(ENOSPC); }
    auto f = mk(Inode::FILE, L.dir->dev); f->mode = mode & ~P()->umask; L.dir->ents[L.last] = f; L.node = f; observe("create", cp);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) ERR(EEXIST);
    if (L.node->t == Inode::LINK) ERR(ELOOP);
    if (L.node->t == Inode::DIR && (flags & O_ACCMODE) != O_RDONLY) ERR(EISDIR);
    if (L.node->t != Inode::DIR && (flags & O_DIRECTORY)) ERR(ENOTDIR);
    if (!(L.node->mode & 0200) && (flags & O_ACCMODE) != O_RDONLY) ERR(EACCES);
    if (!(L.node->mode & 0400) && (flags & O_ACCMODE) != O_WRONLY) ERR(EACCES);
    if ((flags & O_TRUNC) && L.node->t == Inode::FILE && (flags & O_ACCMODE) != O_RDONLY) { used_bytes -= L.node->data.size(); L.node->data.clear(); observe("truncate", cp); }
  }
  o->t = OFD::FILE; if (cp == "/dev/urandom" || cp == "/dev/random") o->t = OFD::URANDOM; else if (cp == "/dev/null") o->t = OFD::NUL;
  o->ino = L.node; o->rd = (flags & O_ACCMODE) != O_WRONLY; o->wr = (flags & O_ACCMODE) != O_RDONLY; o->append = flags & O_APPEND;
  int fd = fd_alloc(P(), o); if (fd < 0) ERR(EMFILE); if (flags & O_CLOEXEC) P()->fds[fd].cloexec = true; return fd;
}
int sim_creat(const char *p, mode_t m) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int sim_openat(int, const char *p, int fl, ...) { return sim_open(p, fl, 0644); }
int sim_close(int fd) {
  point_sync("close"); auto o = getfdp(fd); if (!o) { if (fd >= 0 && !fork_child) { PROBE("close of a bad descriptor"); } ERR(EBADF); }
  bool bad = o->t == OFD::FILE && o->wr && o->refs == 1 && (o->werr_pending || (o->dirty && fault(F_CLOSE)));
  fd_close(P(), fd);
  if (bad) { if (o->dirty && o->ino) { /* delayed allocation failed: some of the data never reached the disk */ size_t keep = o->ino->data.size() ? pick(ST_DATA, (u32)std::min<size_t>(o->ino->data.size(), 1u << 20)) : 0; used_bytes -= o->ino->data.size() - keep; o->ino->data.resize(keep); observe("lost-write", o->path); } ERR(ENOSPC); }
  return 0;
}
static bool rd_block_pipe(Pipe *p, u64 dl) { if (!p->buf.empty() || !p->writers) return true; return block("pipe read", [p] { return !p->buf.empty() || !p->writers; }, dl); }
static ssize_t ep_read(OFDP o, char *b, size_t n, int flags); static ssize_t ep_write(OFDP o, const char *b, size_t n, int flags);
ssize_t sim_read(int fd, void *b, size_t n) {
  check_access(b, n, true, "read"); point_sync("read"); auto o = getfdp(fd); if (!o || !o->rd) ERR(EBADF);
  switch (o->t) {
    case OFD::FILE: {
      if (o->ino->t == Inode::DIR) ERR(EISDIR);
      if (fault(F_READ_EIO)) ERR(EIO);
      std::string &d = o->ino->data; if (o->pos >= d.size()) return 0; size_t m = std::min(n, d.size() - o->pos);
      if (m > 1 && fault(F_READ_SHORT)) m = 1 + pick(ST_DATA, (u32)m - 1);
      memcpy(b, d.data() + o->pos, m); o->pos += m; return m; }
    case OFD::URANDOM: if (fault(F_ENTROPY_FAIL)) ERR(EIO); if (n > 1 && fault(F_ENTROPY_SHORT)) n = 1 + pick(ST_DATA, (u32)(pick(ST_DATA, 2) ? std::min<size_t>(n, 24) : n) - 1); fill_entropy((unsigned char *)b, n); return n;
    case OFD::NUL: return 0;
    case OFD::TTYIN: {
      Proc *p = P(); if (fault(F_SLOW)) block("terminal", nullptr, now_ns + 1000000ull * (1 + pick(ST_DATA, 2000))); if (fault(F_EINTR_READ)) ERR(EINTR); if (fault(F_READ_EIO)) ERR(EIO); if (p->in_pos >= p->in.size()) return 0; size_t m = std::min(n, p->in.size() - p->in_pos);
      if (m > 1 && fault(F_READ_SHORT)) m = 1 + pick(ST_DATA, (u32)std::min<size_t>(m - 1, 64)); memcpy(b, p->in.data() + p->in_pos, m); p->in_pos += m; return m; }
    case OFD::PIPE_R: {
      if (fault(F_EINTR_READ)) ERR(EINTR);
      if (o->nonblock && o->pipe->buf.empty() && o->pipe->writers) ERR(EAGAIN);
      while (o->pipe->buf.empty() && o->pipe->writers) rd_block_pipe(o->pipe.get(), ~0ull);
      if (o->pipe->buf.empty()) return 0; size_t m = std::min(n, o->pipe->buf.size()); if (m > 1 && fault(F_READ_SHORT)) m = 1 + pick(ST_DATA, (u32)m - 1);
      memcpy(b, o->pipe->buf.data(), m); o->pipe->buf.erase(0, m); return m; }
    case OFD::SOCK: return ep_read(o, (char *)b, n, 0);
    default: ERR(EBADF);
  }
}
static ssize_t file_write_at(OFDP o, size_t pos, const char *b, size_t n) {
  if (fault(F_WRITE_EIO)) { ERR(EIO); }
  if (fault(F_WRITE_ENOSPC)) { if (n > 1 && pick(ST_DATA, 2)) n = 1 + pick(ST_DATA, (u32)n - 1); else ERR(ENOSPC); }
  else if (n > 1 && fault(F_WRITE_SHORT)) n = 1 + pick(ST_DATA, (u32)n - 1);
  std::string &d = o->ino->data; size_t grow = pos + n > d.size() ? pos + n - d.size() : 0;
  if (disk_quota != ~0ull && used_bytes + grow > disk_quota) { fault_fired(F_WRITE_ENOSPC); u64 room = disk_quota > used_bytes ? disk_quota - used_bytes : 0; if (room == 0) ERR(ENOSPC); n = n - (grow - room); grow = room; }
  if (pos + n > d.size()) { d.resize(pos + n, '\0'); used_bytes += grow; }
  memcpy(&d[pos], b, n); o->dirty = true; observe("write", o->path); return n;
}
ssize_t sim_write(int fd, const void *vb, size_t n) {
  const char *b = (const char *)vb; check_access(b, n, false, "write"); point_sync("write"); auto o = getfdp(fd); if (!o || (!o->wr && o->t != OFD::SOCK)) ERR(EBADF);
  switch (o->t) {
    case OFD::FILE: { size_t pos = o->append ? o->ino->data.size() : o->pos; ssize_t r = file_write_at(o, pos, b, n); if (r > 0) o->pos = pos + r; return r; }
    case OFD::CAPTURE: o->cap->append(b, n); for (size_t i = 0; i < n; i++) hash_mix((unsigned char)b[i]); if (verbose) logline("output fd%d: %s", fd, hexdump(std::string(b, n)).c_str()); return n;
    case OFD::NUL: return n;
    case OFD::PIPE_W:
      if (fork_child) { std::string r = "W"; u64 ptr = (u64)o.get(); u32 l = (u32)n; r.append((char *)&ptr, 8); r.append((char *)&l, 4); r.append(b, n); size_t off = 0; while (off < r.size()) { ssize_t w = write(fork_pipe, r.data() + off, r.size() - off); if (w <= 0) break; off += w; } return n; }
      return act_write(P(), fd, std::string(b, n)) < 0 ? -1 : (ssize_t)n;
    case OFD::SOCK: return ep_write(o, b, n, 0);
    default: ERR(EBADF);
  }
}
ssize_t sim_pread(int fd, void *b, size_t n, off_t off) { auto o = getfdp(fd); if (!o || o->t != OFD::FILE) ERR(EBADF); size_t sp = o->pos; o->pos = off; ssize_t r = sim_read(fd, b, n); o->pos = sp; return r; }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t off) { auto o = getfdp(fd); if (!o || o->t != OFD::FILE) ERR(EBADF); point_sync("pwrite"); return file_write_at(o, off, (const char *)b, n); }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { std::string s; for (int i = 0; i < c; i++) s.append((char *)v[i].iov_base, v[i].iov_len); return sim_write(fd, s.data(), s.size()); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
off_t sim_lseek(int fd, off_t off, int wh) { auto o = getfdp(fd); if (!o) ERR(EBADF); if (o->t != OFD::FILE || o->path.compare(0, 6, "/fifo/") == 0) ERR(ESPIPE); if (wh == SEEK_END && o->ino->t == Inode::DIR) ERR(EINVAL); off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)o->pos : (off_t)o->ino->data.size(); if (base + off < 0) ERR(EINVAL); o->pos = base + off; return o->pos; }
int sim_ftruncate(int fd, off_t n) { point_sync("ftruncate"); auto o = getfdp(fd); if (!o || o->t != OFD::FILE) ERR(EBADF); used_bytes -= o->ino->data.size(); o->ino->data.resize(n); used_bytes += n; observe("truncate", o->path); return 0; }
int sim_truncate(const char *p, off_t n) { Look L = lookup(P()->cwd, p, true); if (!L.node) ERR(L.err); used_bytes -= L.node->data.size(); L.node->data.resize(n); used_bytes += n; observe("truncate", p); return 0; }
int sim_fsync(int fd) { point_sync("fsync"); auto o = getfdp(fd); if (!o) ERR(EBADF); if (o->t == OFD::FILE && o->dirty && fault(F_CLOSE)) { size_t keep = o->ino->data.size() ? pick(ST_DATA, (u32)std::min<size_t>(o->ino->data.size(), 1u << 20)) : 0; used_bytes -= o->ino->data.size() - keep; o->ino->data.resize(keep); observe("lost-write", o->path); o->dirty = false; ERR(EIO); } o->dirty = false; return 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); } void sim_sync() {}
int sim_dup(int fd) { auto o = getfdp(fd); if (!o) ERR(EBADF); return fd_alloc(P(), o); }
int sim_dup2(int a, int b) { auto o = getfdp(a); if (!o) ERR(EBADF); if (a == b) return b; if (P()->fds.count(b)) fd_close(P(), b); P()->fds[b].o = o; P()->fds[b].cloexec = false; o->refs++; return b; }
int sim_dup3(int a, int b, int fl) { int r = sim_dup2(a, b); if (r >= 0 && (fl & O_CLOEXEC)) P()->fds[b].cloexec = true; return r; }
int sim_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); auto it = P()->fds.find(fd); if (it == P()->fds.end()) ERR(EBADF); switch (cmd) { case F_GETFD: return it->second.cloexec; case F_SETFD: it->second.cloexec = a & FD_CLOEXEC; return 0; case F_GETFL: return (it->second.o->nonblock ? O_NONBLOCK : 0); case F_SETFL: it->second.o->nonblock = a & O_NONBLOCK; return 0; case F_DUPFD: return fd_alloc(P(), it->second.o, (int)a); case F_DUPFD_CLOEXEC: { int r = fd_alloc(P(), it->second.o, (int)a); if (r >= 0) P()->fds[r].cloexec = true; return r; } } ERR(EINVAL); }
int sim_ioctl(int, unsigned long, ...) { ERR(ENOTTY); }
int sim_flock(int, int) { return 0; }
int sim_pipe2(int fds[2], int fl) {
  check_access(fds, 8, true, "pipe"); point_sync("pipe"); if (fault(F_PIPE)) ERR(EMFILE);
  auto p = std::make_shared<Pipe>(); OFDP r = std::make_shared<OFD>(), w = std::make_shared<OFD>(); r->t = OFD::PIPE_R; r->rd = true; w->t = OFD::PIPE_W; w->wr = true; r->pipe = w->pipe = p; p->readers = p->writers = 1; p->cap = 1u << (9 + pick(ST_CFG, 8));
  int a = fd_alloc(P(), r); if (a < 0) ERR(EMFILE); int b = fd_alloc(P(), w); if (b < 0) { fd_close(P(), a); ERR(EMFILE); } fds[0] = a; fds[1] = b; if (fl & O_CLOEXEC) P()->fds[a].cloexec = P()->fds[b].cloexec = true; if (fl & O_NONBLOCK) r->nonblock = w->nonblock = true; return 0; }
int sim_pipe(int fds[2]) { return sim_pipe2(fds, 0); }
static void fill_stat(InodeP n, struct stat *s) { memset(s, 0, sizeof *s); s->st_mode = (n->t == Inode::DIR ? S_IFDIR : n->t == Inode::LINK ? S_IFLNK : S_IFREG) | n->mode; s->st_size = n->t == Inode::DIR ? 4096 : n->data.size(); s->st_ino = n->ino; s->st_dev = n->dev; s->st_nlink = n->nlink; if (n->t == Inode::DIR) { s->st_nlink = 2; for (auto &e : n->ents) if (e.second->t == Inode::DIR) s->st_nlink++; } s->st_uid = 1000; s->st_blksize = 4096; }
static int do_stat(const char *p, struct stat *s, bool follow) { check_access(s, sizeof *s, true, "stat"); point_sync("stat"); if (fault(F_STAT)) ERR(EIO); Look L = lookup(P()->cwd, p, follow); if (!L.node) ERR(L.err ? L.err : ENOENT); if (L.slash && L.node->t != Inode::DIR) ERR(ENOTDIR); fill_stat(L.node, s); return 0; }
int sim_stat(const char *p, struct stat *s) { return do_stat(p, s, true); } int sim_lstat(const char *p, struct stat *s) { return do_stat(p, s, false); }
int sim_fstatat(int, const char *p, struct stat *s, int fl) { return do_stat(p, s, !(fl & AT_SYMLINK_NOFOLLOW)); }
int sim_fstat(int fd, struct stat *s) { auto o = getfd(fd); if (!o) ERR(EBADF); point_sync("fstat"); if (fault(F_STAT)) ERR(EIO); if (o->ino) fill_stat(o->ino, s); else { memset(s, 0, sizeof *s); s->st_mode = o->t == OFD::SOCK ? S_IFSOCK : S_IFIFO; } return 0; }
int sim_access(const char *p, int m) { point_sync("access"); if (fault(F_STAT)) ERR(EIO); Look L = lookup(P()->cwd, p, true); if (!L.node) ERR(L.err ? L.err : ENOENT); if ((m & X_OK) && !(L.node->mode & 0111)) ERR(EACCES); if ((m & W_OK) && !(L.node->mode & 0222)) ERR(EACCES); return 0; }
int sim_faccessat(int, const char *p, int m, int) { return sim_access(p, m); }
int sim_mkdir(const char *p, mode_t m) { point_sync("mkdir"); Look L = lookup(P()->cwd, p, false); if (L.node) ERR(EEXIST); if (!L.dir) ERR(L.err ? L.err : ENOENT); if (L.err != ENOENT) ERR(L.err); if (fault(F_MKDIR)) { static const int es[] = {ENOSPC, EACCES, EIO}; ERR(es[pick(ST_DATA, 3)]); } auto n = mk(Inode::DIR, L.dir->dev); n->mode = m & 0777 & ~P()->umask; n->parent = L.dir; L.dir->ents[L.last] = n; observe("mkdir", canon(P()->cwd, p)); return 0; }
int sim_rmdir(const char *p) { point_sync("rmdir"); Look L = lookup(P()->cwd, p, false); if (!L.node) ERR(L.err); if (L.node->t != Inode::DIR) ERR(ENOTDIR); if (L.node == fs_root || L.last == "..") ERR(EBUSY); if (L.last == ".") ERR(EINVAL); if (!L.node->ents.empty()) ERR(ENOTEMPTY); if (fault(F_RMDIR)) { ERR(EACCES); } L.dir->ents.erase(L.last); observe("rmdir", canon(P()->cwd, p)); return 0; }
int sim_unlink(const char *p) { point_sync("unlink"); Look L = lookup(P()->cwd, p, false); if (!L.node) ERR(L.err); if (L.node->t == Inode::DIR) ERR(EISDIR); if (fault(F_UNLINK)) { ERR(EACCES); } if (--L.node->nlink == 0) used_bytes -= L.node->t == Inode::FILE ? L.node->data.size() : 0; L.dir->ents.erase(L.last); observe("unlink", canon(P()->cwd, p)); return 0; }
int sim_remove(const char *p) { Look L = lookup(P()->cwd, p, false); if (L.node && L.node->t == Inode::DIR) return sim_rmdir(p); return sim_unlink(p); }
int sim_unlinkat(int, const char *p, int fl) { return (fl & AT_REMOVEDIR) ? sim_rmdir(p) : sim_unlink(p); }
int sim_rename(const char *a, const char *b) {
  point_sync("rename"); Look A = lookup(P()->cwd, a, false), B = lookup(P()->cwd, b, false); if (!A.node) ERR(A.err); if (!B.node && (B.err != ENOENT || !B.dir)) ERR(B.err ? B.err : ENOENT);
  if (A.node->dev != B.dir->dev) { fault_fired(F_XDEV); ERR(EXDEV); }
  if (fault(F_RENAME)) { static const int es[] = {EIO, EACCES, ENOSPC}; ERR(es[pick(ST_DATA, 3)]); }
  if (B.node) { if (B.node == A.node) return 0; if (B.node->t == Inode::DIR) { if (A.node->t != Inode::DIR) ERR(EISDIR); if (!B.node->ents.empty()) ERR(ENOTEMPTY); } else { if (A.node->t == Inode::DIR) ERR(ENOTDIR); used_bytes -= B.node->data.size(); } }
  if (A.node->t == Inode::DIR) { for (InodeP x = B.dir; x && x != fs_root; x = x->parent.lock()) if (x == A.node) ERR(EINVAL); A.node->parent = B.dir; }
  InodeP n = A.node; A.dir->ents.erase(A.last); B.dir->ents[B.last] = n; observe("rename", canon(P()->cwd, a) + " -> " + canon(P()->cwd, b)); return 0; }
int sim_renameat(int, const char *a, int, const char *b) { return sim_rename(a, b); }
int sim_link(const char *a, const char *b) { point_sync("link"); Look A = lookup(P()->cwd, a, false), B = lookup(P()->cwd, b, false); if (!A.node) ERR(A.err); if (B.node) ERR(EEXIST); if (!B.dir) ERR(ENOENT); if (A.node->dev != B.dir->dev) ERR(EXDEV); A.node->nlink++; B.dir->ents[B.last] = A.node; observe("link", b); return 0; }
int sim_symlink(const char *t, const char *p) { point_sync("symlink"); Look L = lookup(P()->cwd, p, false); if (L.node) ERR(EEXIST); if (!L.dir) ERR(ENOENT); auto n = mk(Inode::LINK, L.dir->dev); n->data = t; L.dir->ents[L.last] = n; observe("symlink", p); return 0; }
ssize_t sim_readlink(const char *p, char *b, size_t n) { Look L = lookup(P()->cwd, p, false); if (p && std::string(p) == "/proc/self/exe") { std::string e = P()->argv.empty() ? "/usr/bin/x" : P()->argv[0]; size_t m = std::min(n, e.size()); memcpy(b, e.data(), m); return m; } if (!L.node) ERR(L.err); if (L.node->t != Inode::LINK) ERR(EINVAL); size_t m = std::min(n, L.node->data.size()); memcpy(b, L.node->data.data(), m); return m; }
static std::string node_path(InodeP n, InodeP dir, const std::string &last) { std::string base; std::vector<std::string> names; InodeP x = n->t == Inode::DIR ? n : dir; while (x != fs_root) { auto p = x->parent.lock(); if (!p) break; for (auto &e : p->ents) if (e.second == x) { names.push_back(e.first); break; } x = p; } std::reverse(names.begin(), names.end()); for (auto &s : names) base += "/" + s; if (n->t != Inode::DIR) base += "/" + last; return base.empty() ? "/" : base; }
char *sim_realpath(const char *p, char *o) { point_sync("realpath"); if (fault(F_STAT)) { cur->err = EIO; return nullptr; } Look L = lookup(P()->cwd, p, true); if (!L.node) { cur->err = L.err ? L.err : ENOENT; return nullptr; } std::string s = node_path(L.node, L.dir, L.last); if (!o) { o = (char *)sim_malloc(PATH_MAX); if (!o) return nullptr; } strcpy(o, s.c_str()); return o; }
int sim_chmod(const char *p, mode_t m) { Look L = lookup(P()->cwd, p, true); if (!L.node) ERR(L.err); L.node->mode = m & 07777; observe("chmod", p); return 0; }
int sim_fchmod(int fd, mode_t m) { auto o = getfd(fd); if (!o || !o->ino) ERR(EBADF); o->ino->mode = m & 07777; return 0; }
int sim_utimensat(int, const char *, const struct timespec *, int) { return 0; } int sim_chown(const char *, unsigned, unsigned) { return 0; } int sim_fchown(int, unsigned, unsigned) { return 0; }
struct SDir { std::vector<std::pair<std::string, int>> names; std::vector<int> inos; size_t pos = 0; struct dirent de; InodeP ino; Proc *p; int fd; };
static std::set<SDir*> open_dirs;
static SDir *mkdirp(InodeP n) { SDir *d = new SDir(); d->ino = n; d->p = P(); d->names.push_back({".", DT_DIR}); d->inos.push_back(n->ino); d->names.push_back({"..", DT_DIR}); d->inos.push_back(1); std::vector<std::pair<std::string, InodeP>> v(n->ents.begin(), n->ents.end()); u32 rot = v.empty() ? 0 : pick(ST_DATA, (u32)v.size()); for (size_t i = 0; i < v.size(); i++) { auto &e = v[(i + rot) % v.size()]; d->names.push_back({e.first, e.second->t == Inode::DIR ? DT_DIR : e.second->t == Inode::LINK ? DT_LNK : DT_REG}); d->inos.push_back(e.second->ino); } open_dirs.insert(d); return d; }
void *sim_opendir(const char *p) { point_sync("opendir"); if (fault(F_OPENDIR)) { static const int es[] = {EMFILE, EACCES, EIO}; cur->err = es[pick(ST_DATA, 3)]; return nullptr; } Look L = lookup(P()->cwd, p, true); if (!L.node) { cur->err = L.err ? L.err : ENOENT; return nullptr; } if (L.node->t != Inode::DIR) { cur->err = ENOTDIR; return nullptr; } return mkdirp(L.node); }
void *sim_fdopendir(int fd) { auto o = getfdp(fd); if (!o || !o->ino) { cur->err = EBADF; return nullptr; } SDir *d = mkdirp(o->ino); d->fd = fd; return d; }
static struct dirent *readdir_(void *v, bool faults) { SDir *d = (SDir *)v; if (!open_dirs.count(d)) violation("use-after-close", "readdir of a closed directory stream"); point_sync("readdir"); if (d->pos < d->names.size() && faults && fault(F_READDIR)) { cur->err = EIO; return nullptr; } if (d->pos >= d->names.size()) return nullptr; memset(&d->de, 0, sizeof d->de); snprintf(d->de.d_name, sizeof d->de.d_name, "%s", d->names[d->pos].first.c_str()); d->de.d_type = pick(ST_CFG, 4) == 3 ? DT_UNKNOWN : d->names[d->pos].second; d->de.d_ino = d->inos[d->pos]; d->pos++; return &d->de; }
struct dirent *sim_readdir(void *v) { return readdir_(v, true); }
int sim_closedir(void *v) { SDir *d = (SDir *)v; if (!open_dirs.count(d)) violation("double-close", "directory stream closed twice"); open_dirs.erase(d); return 0; }
void sim_rewinddir(void *v) { ((SDir *)v)->pos = 0; }
int sim_dirfd(void *) { return -1; }
int sim_scandir(const char *, struct dirent ***, int (*)(const struct dirent *), int (*)(const struct dirent **, const struct dirent **)) { sim_error("scandir is not simulated"); }
static int g_stat(const char *p, struct stat *s) { Look L = lookup(P()->cwd, p, true); if (!L.node) { errno = ENOENT; return -1; } fill_stat(L.node, s); return 0; }
static int g_lstat(const char *p, struct stat *s) { Look L = lookup(P()->cwd, p, false); if (!L.node) { errno = ENOENT; return -1; } fill_stat(L.node, s); return 0; }
static void *g_opendir(const char *p) { void *d = sim_opendir(p); if (!d) { errno = cur->err; } return d; }
static struct dirent *g_readdir(void *d) { struct dirent *e = readdir_(d, false); if (e) e->d_type = DT_UNKNOWN; return e; } // glibc's glob takes a readdir error for the end
static void g_closedir(void *d) { sim_closedir(d); }
int sim_glob(const char *pat, int flags, int (*ef)(const char *, int), glob_t *g) { point_sync("glob"); if (fault(F_MALLOC)) return GLOB_NOSPACE; g->gl_opendir = g_opendir; g->gl_readdir = g_readdir; g->gl_closedir = g_closedir; g->gl_stat = g_stat; g->gl_lstat = g_lstat; return glob(pat, flags | GLOB_ALTDIRFUNC, ef, g); }
void sim_globfree(glob_t *g) { globfree(g); }
static const char *TC = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; static u64 tmp_ctr = 0;
static void tmpl_fill(char *x) { u64 z = (run_seed + ++tmp_ctr) * 0x9e3779b97f4a7c15ull; for (int i = 0; i < 6; i++) { x[i] = TC[z % 62]; z /= 62; } }
int sim_mkostemps(char *t, int suf, int fl) { point_sync("mkstemp"); size_t n = strlen(t); if (n < 6 + (size_t)suf || strncmp(t + n - 6 - suf, "XXXXXX", 6)) ERR(EINVAL); check_access(t, n + 1, true, "mkstemp"); tmpl_fill(t + n - 6 - suf); if (fault(F_OPEN)) ERR(EMFILE); Look L = lookup(P()->cwd, t, false); if (!L.dir) ERR(ENOENT); auto f = mk(Inode::FILE, L.dir->dev); f->mode = 0600; L.dir->ents[L.last] = f; OFDP o = std::make_shared<OFD>(); o->t = OFD::FILE; o->ino = f; o->rd = o->wr = true; o->path = canon(P()->cwd, t); int fd = fd_alloc(P(), o); if (fd < 0) { L.dir->ents.erase(L.last); ERR(EMFILE); } if (fl & O_CLOEXEC) P()->fds[fd].cloexec = true; observe("create", o->path); return fd; }
int sim_mkstemp(char *t) { return sim_mkostemps(t, 0, 0); } int sim_mkstemps(char *t, int s) { return sim_mkostemps(t, s, 0); } int sim_mkostemp(char *t, int fl) { return sim_mkostemps(t, 0, fl); }
// a name is only chosen, not taken: every other one comes from a small set, as if many programs were choosing
char *sim_mktemp(char *t) { point_sync("mktemp"); size_t n = strlen(t); if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { t[0] = 0; cur->err = EINVAL; return t; } check_access(t, n + 1, true, "mktemp"); if (pick(ST_DATA, 2)) tmpl_fill(t + n - 6); else for (u32 i = pick(ST_DATA, 3);; i++) { snprintf(t + n - 6, 7, "%06u", i); if (!lookup(P()->cwd, t, false).node) break; } return t; }
char *sim_tmpnam(char *b) { static char own[32]; if (!b) b = own; strcpy(b, "/tmp/fileXXXXXX"); return sim_mktemp(b); }
char *sim_mkdtemp(char *t) { point_sync("mkdtemp"); size_t n = strlen(t); if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { cur->err = EINVAL; return nullptr; } check_access(t, n + 1, true, "mkdtemp"); tmpl_fill(t + n - 6); if (sim_mkdir(t, 0700)) return nullptr; return t; }
int sim_nftw(const char *p, int (*fn)(const char *, const struct stat *, int, struct FTW *), int nfd, int flags) {
  struct stat s; bool phys = flags & FTW_PHYS; if ((phys ? g_lstat(p, &s) : g_stat(p, &s))) ERR(ENOENT); struct FTW f = {0, 0}; int ty = S_ISDIR(s.st_mode) ? ((flags & FTW_DEPTH) ? FTW_DP : FTW_D) : S_ISLNK(s.st_mode) ? FTW_SL : FTW_F;
  if (!S_ISDIR(s.st_mode)) return fn(p, &s, ty, &f); if (!(flags & FTW_DEPTH)) { int r = fn(p, &s, ty, &f); if (r) return r; }
  SDir *d = (SDir *)sim_opendir(p); if (!d) return fn(p, &s, FTW_DNR, &f); for (size_t i = 2; i < d->names.size(); i++) { std::string c = std::string(p) + "/" + d->names[i].first; int r = sim_nftw(c.c_str(), fn, nfd, flags); if (r) { sim_closedir(d); return r; } } sim_closedir(d); if (flags & FTW_DEPTH) return fn(p, &s, ty, &f); return 0; }

// ---------------------------------------------------------------- processes: fork / exec / wait
int sim_fork() {
  point_sync("fork"); if (fork_child) sim_error("fork in a forked child"); if (fault(F_FORK)) ERR(EAGAIN);
  bool xf = fault(F_EXEC); int pp[2]; if (pipe(pp)) sim_error("host pipe");
  fflush(stdout); fflush(stderr); // not the simulated streams
  pid_t h = fork(); if (h < 0) sim_error("host fork failed");
  if (h == 0) { close(pp[0]); P()->out.clear(); P()->err.clear(); fork_child = true; fork_pipe = pp[1]; fork_exec_fail = xf; cur->nosched = true; cur->err = 0; return 0; }
  close(pp[1]); std::string rec; char b[4096]; ssize_t n; while ((n = read(pp[0], b, sizeof b)) > 0) rec.append(b, n); close(pp[0]); int st; waitpid(h, &st, 0);
  Proc *par = P(); Proc *p = new Proc(); p->pid = next_pid++; p->ppid = par->pid; p->guest = false; p->scripted = true; p->env = par->env; p->cwd = par->cwd; p->umask = par->umask; procs.push_back(p);
  if (rec.empty()) { sim_error("forked child died without exec or exit (host status %d)", st); }
  size_t pos = 0; auto geti = [&](void *o, size_t k) { memcpy(o, rec.data() + pos, k); pos += k; };
  auto find_ofd = [](u64 ptr) -> OFDP { for (Proc *q : procs) for (auto &kv : q->fds) if (kv.second.o.get() == (OFD *)ptr) return kv.second.o; return nullptr; };
  while (pos < rec.size() && rec[pos] == 'W') { pos++; u64 ptr; u32 l; geti(&ptr, 8); geti(&l, 4); OFDP o = find_ofd(ptr); if (!o) sim_error("descriptor of forked child unknown"); if (o->pipe->readers) o->pipe->buf.append(rec, pos, l); pos += l; }
  char kind = rec[pos++];
  if (kind == 'E') {
    u32 nf; geti(&nf, 4); for (u32 i = 0; i < nf; i++) { u64 ptr; int fd, ce; geti(&fd, 4); geti(&ce, 4); geti(&ptr, 8); (void)ce; for (Proc *q : procs) { for (auto &kv : q->fds) if (kv.second.o.get() == (OFD *)ptr) { p->fds[fd].o = kv.second.o; goto found; } } sim_error("descriptor of forked child unknown"); found: p->fds[fd].o->refs++; }
    u32 na; geti(&na, 4); for (u32 i = 0; i < na; i++) { u32 l; geti(&l, 4); p->argv.push_back(rec.substr(pos, l)); pos += l; }
    u32 nd; geti(&nd, 4); p->cwd = rec.substr(pos, nd); pos += nd; int ig; geti(&ig, 4); if (ig) p->sigh[SIGINT] = (void *)SIG_IGN;
    p->name = p->argv.empty() ? "?" : p->argv[0]; p->out.clear();
    spawn_actor("proc:" + p->name, [p] { if (exec_script) exec_script(p); proc_exit(p, 0); }, p);
  } else if (kind == 'X') { int code; geti(&code, 4); for (std::string *s : {&p->out, &p->err}) { u32 l; geti(&l, 4); *s = rec.substr(pos, l); pos += l; } p->name = "child-exit"; // ran to _exit without exec
    for (auto &kv : par->fds) { p->fds[kv.first] = kv.second; kv.second.o->refs++; }
    spawn_actor("proc:exit", [p, code] { proc_exit(p, code); }, p);
  } else sim_error("bad fork record");
  int pid = p->pid; point_sync("forked"); return pid;
}
int sim_vfork() { return sim_fork(); }
static int do_exec(const std::vector<std::string> &av) {
  if (!fork_child) { // exec in place: the guest becomes a scripted process
    Proc *p = P(); if (fault(F_EXEC) || (exec_exists && !exec_exists(p, av))) ERR(ENOENT);
    p->argv = av; p->name = av.empty() ? "?" : av[0]; p->scripted = true; kill_fibers(p, cur); for (auto it = p->fds.begin(); it != p->fds.end();) { int fd = it->first; bool ce = it->second.cloexec; ++it; if (ce) fd_close(p, fd); } if (exec_script) exec_script(p); proc_exit(p, 0); abort(); }
  if (fork_exec_fail || (exec_exists && !exec_exists(P(), av))) ERR(fork_exec_fail ? EACCES : ENOENT);
  std::string r = "E"; auto puti = [&](const void *o, size_t k) { r.append((const char *)o, k); }; Proc *p = P(); u32 nf = 0; for (auto &kv : p->fds) if (!kv.second.cloexec) nf++; puti(&nf, 4);
  for (auto &kv : p->fds) if (!kv.second.cloexec) { int fd = kv.first, ce = 0; u64 ptr = (u64)kv.second.o.get(); puti(&fd, 4); puti(&ce, 4); puti(&ptr, 8); }
  u32 na = av.size(); puti(&na, 4); for (auto &s : av) { u32 l = s.size(); puti(&l, 4); r += s; } u32 nd = p->cwd.size(); puti(&nd, 4); r += p->cwd; int ig = p->sigh.count(SIGINT) && p->sigh[SIGINT] == (void *)SIG_IGN; puti(&ig, 4);
  size_t off = 0; while (off < r.size()) { ssize_t w = write(fork_pipe, r.data() + off, r.size() - off); if (w <= 0) break; off += w; } _exit(0);
}
static std::vector<std::string> vec(char *const *a) { std::vector<std::string> v; for (; a && *a; a++) v.push_back(*a); return v; }
int sim_execvp(const char *f, char *const *a) { auto v = vec(a); if (v.empty()) v.push_back(f); else v[0] = f; return do_exec(v); } int sim_execv(const char *f, char *const *a) { return sim_execvp(f, a); } int sim_execve(const char *f, char *const *a, char *const *) { return sim_execvp(f, a); } int sim_execvpe(const char *f, char *const *a, char *const *) { return sim_execvp(f, a); }
int sim_waitpid(int pid, int *st, int opt) {
  point_sync("waitpid"); Proc *me = P();
  auto find = [me, pid](bool exited) -> Proc * { for (Proc *c : procs) if (c->ppid == me->pid && !c->reaped && (pid <= 0 || c->pid == pid) && (!exited || c->exited)) return c; return nullptr; };
  if (!find(false)) ERR(ECHILD);
  if (fault(F_EINTR_WAIT)) ERR(EINTR);
  Proc *c = find(true); if (!c) { if (opt & WNOHANG) return 0; block("waitpid", [find] { return find(true) != nullptr; }); c = find(true); }
  c->reaped = true; if (st) *st = c->killed_by ? c->killed_by : (c->status << 8); return c->pid;
}
int sim_wait(int *st) { return sim_waitpid(-1, st, 0); } int sim_wait4(int p, int *s, int o, void *) { return sim_waitpid(p, s, o); }
int sim_kill(int pid, int sig) { point_sync("kill"); for (Proc *p : procs) if (p->pid == pid && !p->reaped) { if (sig && !p->exited) { if (p->scripted) proc_kill(p, sig); else proc_kill(p, sig); } return 0; } ERR(ESRCH); }
int sim_raise(int sig) { if (P()->sigh.count(sig)) return 0; proc_kill(P(), sig); return 0; }
typedef void (*sh_t)(int);
sh_t sim_signal(int s, sh_t h) { Proc *p = P(); sh_t o = (sh_t)p->sigh[s]; p->sigh[s] = (void *)h; if (s == SIGPIPE) p->sigpipe_ignored = h != SIG_DFL; return o; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { Proc *p = P(); if (o) { memset(o, 0, sizeof *o); o->sa_handler = (sh_t)p->sigh[s]; } if (a) { p->sigh[s] = (void *)a->sa_handler; if (s == SIGPIPE) p->sigpipe_ignored = a->sa_handler != SIG_DFL; } return 0; }
int sim_sigprocmask(int, const void *, void *) { return 0; } int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *) { if (s && how == SIG_BLOCK && sigismember(s, SIGPIPE)) P()->sigpipe_ignored = true; return 0; }
static Proc *spawn_script(const std::vector<std::string> &av, const std::map<int, Fd> &fds) { Proc *par = P(); Proc *p = new Proc(); p->pid = next_pid++; p->ppid = par->pid; p->guest = false; p->scripted = true; p->env = par->env; p->cwd = par->cwd; p->argv = av; p->name = av[0]; for (auto &kv : fds) { p->fds[kv.first] = kv.second; kv.second.o->refs++; } procs.push_back(p); spawn_actor("proc:" + p->name, [p] { if (exec_script) exec_script(p); proc_exit(p, 0); }, p); return p; }
int sim_system(const char *cmd) {
  point_sync("system"); if (!cmd) return 1; if (fault(F_FORK)) ERR(EAGAIN); Proc *p = spawn_script({"/bin/sh", "-c", cmd}, P()->fds);
  Proc *me = P(); me->in_system++; block("system", [p] { return p->exited; }); me->in_system--; p->reaped = true; return p->killed_by ? p->killed_by : p->status << 8; }
struct SpawnAct { int op, a, b; }; // posix_spawn file actions are kept in a side table
static std::map<void*, std::vector<SpawnAct>> sacts;
int sim_posix_spawn_file_actions_init(void *f) { sacts[f].clear(); return 0; } int sim_posix_spawn_file_actions_destroy(void *f) { sacts.erase(f); return 0; } int sim_posix_spawn_file_actions_adddup2(void *f, int a, int b) { sacts[f].push_back({0, a, b}); return 0; } int sim_posix_spawn_file_actions_addclose(void *f, int a) { sacts[f].push_back({1, a, 0}); return 0; }
int sim_posix_spawnattr_init(void *) { return 0; } int sim_posix_spawnattr_destroy(void *) { return 0; } int sim_posix_spawnattr_setflags(void *, short) { return 0; }
int sim_posix_spawnp(int *pid, const char *file, void *fa, const void *, char *const *av, char *const *) {
  point_sync("posix_spawn"); if (fault(F_FORK)) return EAGAIN; auto v = vec(av); if (v.empty()) v.push_back(file); v[0] = file; if (fault(F_EXEC)) return EACCES; if (exec_exists && !exec_exists(P(), v)) return ENOENT;
  std::map<int, Fd> fds = P()->fds; if (fa) for (auto &x : sacts[fa]) { if (x.op == 0) { if (!fds.count(x.a)) return EBADF; fds[x.b] = fds[x.a]; fds[x.b].cloexec = false; } else fds.erase(x.a); } for (auto it = fds.begin(); it != fds.end();) if (it->second.cloexec) it = fds.erase(it); else ++it;
  *pid = spawn_script(v, fds)->pid; point_sync("spawned"); return 0; }
int sim_posix_spawn(int *pid, const char *file, void *fa, const void *at, char *const *av, char *const *ev) { return sim_posix_spawnp(pid, file, fa, at, av, ev); }
} // extern C
// what the terminal does on Ctrl-C: every process of the group gets SIGINT
void group_sigint(Proc *lead) {
  std::vector<Proc *> g; g.push_back(lead); for (size_t i = 0; i < g.size(); i++) for (Proc *c : procs) if (c->ppid == g[i]->pid && !c->exited) g.push_back(c);
  for (size_t i = g.size(); i-- > 0;) { Proc *p = g[i]; if (p->exited) continue; bool h = p->sigh.count(SIGINT) && p->sigh[SIGINT] != (void *)SIG_DFL; if (h || p->in_system) continue; proc_kill(p, SIGINT); } }

// scripted process I/O
long act_write(Proc *p, int fd, const std::string &d) {
  auto it = p->fds.find(fd); if (it == p->fds.end()) return -1; OFDP o = it->second.o;
  if (o->t == OFD::CAPTURE) { o->cap->append(d); return d.size(); } if (o->t != OFD::PIPE_W) { if (o->t == OFD::FILE) { o->ino->data.resize(std::max(o->ino->data.size(), o->pos)); o->ino->data.replace(o->pos, std::min(d.size(), o->ino->data.size() - o->pos), d); o->pos += d.size(); return d.size(); } return o->t == OFD::NUL ? (long)d.size() : -1; }
  size_t off = 0; Pipe *pp = o->pipe.get();
  while (off < d.size()) {
    if (!pp->readers) { if (!p->sigpipe_ignored && p->guest) { PROBE("SIGPIPE delivered"); proc_kill(p, SIGPIPE); } cur->err = EPIPE; return -1; }
    if (pp->buf.size() >= pp->cap) { PROBE("pipe full"); if (!block("pipe write", [pp] { return pp->buf.size() < pp->cap || !pp->readers; })) {} continue; }
    size_t m = std::min(d.size() - off, pp->cap - pp->buf.size()); pp->buf.append(d, off, m); off += m; point_sync("pipe written"); if (p->exited) return -1;
  }
  return d.size();
}
long act_read(Proc *p, int fd, std::string &out, size_t max) { auto it = p->fds.find(fd); if (it == p->fds.end()) return -1; OFDP o = it->second.o; if (o->t != OFD::PIPE_R) return 0; Pipe *pp = o->pipe.get(); if (pp->buf.empty() && pp->writers) block("pipe read", [pp] { return !pp->buf.empty() || !pp->writers; }); size_t m = std::min(max, pp->buf.size()); out.append(pp->buf, 0, m); pp->buf.erase(0, m); return m; }

// ---------------------------------------------------------------- sockets
static std::vector<EndP> all_eps; // the kernel keeps a connection after its owner let go of it
static EndP mk_ep() { auto e = std::make_shared<Endpoint>(); e->id = ++ep_ids; e->made = R->steps; all_eps.push_back(e); return e; }
size_t net_rcvbuf_min = 0;
static void connect_pair(EndP a, EndP b) { a->peer = b; b->peer = a; static const size_t bs[] = {512, 4096, 65536, 262144}; a->rcvbuf = std::max(net_rcvbuf_min, bs[pick(ST_CFG, 4)]); b->rcvbuf = std::max(net_rcvbuf_min, bs[pick(ST_CFG, 4)]); }
static u64 avail(Endpoint *e) { u64 n = 0; for (auto &s : e->in) { if (s.at > now_ns) break; n += s.data.size(); } return n; }
static bool readable(Endpoint *e) { return e->reset || avail(e) > 0 || (e->peer_closed && e->in.empty() && e->fin_at <= now_ns); }
static void push_seg(EndP dst, const std::string &d) {
  u64 at = now_ns; if (net_delay_max) at += pick(ST_DATA, 4) ? 0 : pick(ST_DATA, 1000) * (net_delay_max / 1000); if (!dst->in.empty()) at = std::max(at, dst->in.back().at); if (at > now_ns) add_timer(at);
  dst->in.push_back({d, at}); dst->inbytes += d.size();
}
static void ep_fin(EndP e) { auto p = e->peer.lock(); if (p && !p->peer_closed) { p->peer_closed = true; p->fin_at = now_ns + (net_delay_max && pick(ST_DATA, 3) == 2 ? pick(ST_DATA, 1000) * (net_delay_max / 1000) : 0); if (!p->in.empty()) p->fin_at = std::max(p->fin_at, p->in.back().at); if (p->fin_at > now_ns) add_timer(p->fin_at); } }
void ep_close(EndP e) { if (e->closed) return; e->closed = true; ep_fin(e); }
void ep_reset(EndP e) { auto p = e->peer.lock(); e->closed = true; e->reset = e->was_reset = true; if (p) { p->reset = p->was_reset = true; p->in.clear(); p->inbytes = 0; } }
void ep_shutdown_wr(EndP e) { e->shut_wr = true; ep_fin(e); }
static void split_segments(EndP dst, const std::string &d, bool seg) {
  if (!seg || seg_mode == 0 || d.size() < 2) { push_seg(dst, d); return; }
  size_t off = 0; int guard = 0; while (off < d.size()) { size_t left = d.size() - off; size_t m = left; if (guard < 12 && left > 1) { u32 r = pick(ST_DATA, 6); m = r == 0 ? left : r == 1 ? 1 : r == 2 ? std::min<size_t>(left, 1 + pick(ST_DATA, 16)) : r == 3 ? std::min<size_t>(left, 1448) : 1 + pick(ST_DATA, (u32)left); } push_seg(dst, d.substr(off, m)); off += m; guard++; }
}
// core stream write used by guests and actors. returns bytes accepted (>0), -1 + err
static ssize_t stream_write(EndP e, const char *b, size_t n, u64 deadline, bool nonblock, int *err, bool allow_short) {
  size_t done = 0; bool shrt = allow_short && n > 1 && fault(F_SEND_SHORT); size_t limit = shrt ? 1 + pick(ST_DATA, (u32)std::min<size_t>(n - 1, 1u << 30)) : n;
  while (done < limit) {
    auto p = e->peer.lock();
    if (e->reset) { if (done) break; *err = ECONNRESET; return -1; }
    if (e->shut_wr || e->closed) { *err = EPIPE; return -1; }
    if (!p || p->closed) { if (done) break; e->reset = e->was_reset = true; *err = EPIPE; return -1; }
    if (p->inbytes >= p->rcvbuf) {
      if (nonblock) { if (done) break; *err = EAGAIN; return -1; }
      PROBE("socket buffer full");
      Endpoint *ep = e.get(), *pp = p.get(); bool ok = block("socket send", [ep, pp, p] { return ep->reset || pp->closed || pp->inbytes < pp->rcvbuf; }, deadline);
      if (cur->proc && cur->proc->exited) return -1;
      if (!ok) { if (done) break; *err = EAGAIN; return -1; } continue;
    }
    size_t m = std::min(limit - done, p->rcvbuf - p->inbytes); std::string d(b + done, m); split_segments(p, d, true); e->total_out += d; done += m;
  }
  return done;
}
bool ep_send(EndP e, const std::string &d, bool) { int er; size_t off = 0; while (off < d.size()) { ssize_t r = stream_write(e, d.data() + off, d.size() - off, ~0ull, false, &er, false); if (r <= 0) return false; off += r; } return true; }
bool ep_send_t(EndP e, const std::string &d, u64 to) { int er; u64 dl = now_ns + to; size_t off = 0; while (off < d.size()) { ssize_t r = stream_write(e, d.data() + off, d.size() - off, dl, false, &er, false); if (r <= 0) return false; off += r; } return true; }
std::map<int, EndP> last_ep;
static size_t take(Endpoint *e, char *b, size_t n, bool peek) { size_t got = 0; if (peek) { for (auto &s : e->in) { if (s.at > now_ns || got >= n) break; size_t m = std::min(n - got, s.data.size()); memcpy(b + got, s.data.data(), m); got += m; } return got; } while (got < n && !e->in.empty() && e->in.front().at <= now_ns) { Seg &s = e->in.front(); size_t m = std::min(n - got, s.data.size()); memcpy(b + got, s.data.data(), m); got += m; e->inbytes -= m; e->total_in.append(s.data, 0, m); if (m == s.data.size()) e->in.pop_front(); else s.data.erase(0, m); if (seg_mode && got && pick(ST_DATA, 2)) break; } return got; }
int ep_recv(EndP e, std::string &out, size_t max, u64 timeout) { Endpoint *x = e.get(); if (!readable(x)) { if (!block("actor recv", [x] { return readable(x); }, timeout == ~0ull ? ~0ull : now_ns + timeout)) return -2; } if (e->reset) return -1; std::string b(max, 0); size_t n = take(x, &b[0], max, false); out.append(b, 0, n); return n ? (int)n : 0; }
int net_backlog(int port) { auto it = listeners.find(port); return it == listeners.end() ? 0 : (int)it->second->q.size(); }
bool net_listening(int port) { auto it = listeners.find(port); return it != listeners.end() && it->second->open; }
EndP net_connect_actor(int port) { auto it = listeners.find(port); if (it == listeners.end() || !it->second->open || (int)it->second->q.size() > it->second->backlog) return nullptr; EndP a = mk_ep(), b = mk_ep(); connect_pair(a, b); a->peer_port = port; b->local_port = port; it->second->q.push_back(b); return a; }
std::shared_ptr<Listener> net_listen_actor(int port) { auto l = std::make_shared<Listener>(); l->port = port; l->backlog = 128; listeners[port] = l; return l; }
EndP net_accept_actor(std::shared_ptr<Listener> l, u64 to) { if (l->q.empty() && !block("actor accept", [l] { return !l->q.empty(); }, to == ~0ull ? ~0ull : now_ns + to)) return nullptr; EndP e = l->q.front(); l->q.pop_front(); return e; }
u64 count_open_socks(Proc *p) { u64 n = 0; for (auto &kv : p->fds) if (kv.second.o->t == OFD::SOCK) n++; return n; }
u64 count_open_fds(Proc *p) { u64 n = 0; for (auto &kv : p->fds) if (kv.first > 2) n++; return n; }
static void maybe_sigpipe(int flags) { Proc *p = P(); if ((flags & MSG_NOSIGNAL) || p->sigpipe_ignored) return; PROBE("SIGPIPE delivered"); proc_kill(p, SIGPIPE); }
static ssize_t ep_write(OFDP o, const char *b, size_t n, int flags) {
  if (!o->ep) { cur->err = ENOTCONN; maybe_sigpipe(flags); return -1; }
  if (n && (o->sndtimeo || fault_rate[F_EINTR_SOCK] > 0) && fault(F_EINTR_SOCK)) { cur->err = EINTR; return -1; }
  if (fault(F_RESET)) { ep_reset(o->ep); }
  int err = 0; ssize_t r = stream_write(o->ep, b, n, o->sndtimeo ? now_ns + o->sndtimeo : ~0ull, o->nonblock || (flags & MSG_DONTWAIT), &err, true);
  if (r < 0) { cur->err = err; if (err == EPIPE) maybe_sigpipe(flags); if (err == ECONNRESET) { o->ep->reset = false; o->ep->shut_wr = true; o->ep->peer_closed = true; o->ep->fin_at = 0; o->ep->in.clear(); o->ep->inbytes = 0; auto p = o->ep->peer.lock(); if (p) p->closed = true; } return -1; }
  return r;
}
static ssize_t ep_read(OFDP o, char *b, size_t n, int flags) {
  if (!o->ep) { cur->err = ENOTCONN; return -1; }
  if (fault(F_EINTR_SOCK)) { cur->err = EINTR; return -1; }
  if (fault(F_RESET)) ep_reset(o->ep);
  Endpoint *e = o->ep.get(); size_t got = 0; bool waitall = flags & MSG_WAITALL;
  for (;;) {
    if (!readable(e)) {
      if (got && !waitall) return got;
      if (o->nonblock || (flags & MSG_DONTWAIT)) { if (got) return got; cur->err = EAGAIN; return -1; }
      EndP hold = o->ep; bool ok = block("socket recv", [e] { return readable(e); }, o->rcvtimeo ? now_ns + o->rcvtimeo : ~0ull);
      if (!ok) { if (got) return got; PROBE("recv timeout"); cur->err = EAGAIN; return -1; }
    }
    if (e->reset) { if (got) return got; cur->err = ECONNRESET; e->reset = false; e->peer_closed = true; e->in.clear(); e->inbytes = 0; e->fin_at = 0; auto p = e->peer.lock(); if (p) p->closed = true; return -1; }
    size_t m = take(e, b + got, n - got, flags & MSG_PEEK); got += m; if (!m) return got; if (!waitall || got >= n) return got;
  }
}
extern "C" {
int sim_socket(int d, int t, int) { (void)d; point_sync("socket"); if (fault(F_SOCKET)) ERR(EMFILE); OFDP o = std::make_shared<OFD>(); o->t = OFD::RAWSOCK; o->rd = o->wr = true; int fd = fd_alloc(P(), o); if (fd < 0) ERR(EMFILE); if (t & SOCK_CLOEXEC) P()->fds[fd].cloexec = true; if (t & SOCK_NONBLOCK) o->nonblock = true; return fd; }
int sim_bind(int fd, const struct sockaddr *a, socklen_t) { point_sync("bind"); auto o = getfd(fd); if (!o) ERR(EBADF); int port = ntohs(((const sockaddr_in *)a)->sin_port); if (fault(F_SOCKET)) ERR(EADDRINUSE); if (listeners.count(port)) ERR(EADDRINUSE); if (!port) port = next_port++; o->bound_port = port; return 0; }
int sim_listen(int fd, int bl) { point_sync("listen"); auto o = getfd(fd); if (!o) ERR(EBADF); if (fault(F_SOCKET)) ERR(EADDRINUSE); if (listeners.count(o->bound_port)) ERR(EADDRINUSE); auto l = std::make_shared<Listener>(); l->port = o->bound_port; l->backlog = bl < 1 ? 1 : bl; o->lis = l; o->t = OFD::LISTEN; listeners[l->port] = l; return 0; }
int sim_accept4(int fd, struct sockaddr *a, socklen_t *al, int fl) {
  point_sync("accept"); auto o = getfdp(fd); if (!o || o->t != OFD::LISTEN) ERR(o ? EINVAL : EBADF);
  if (fault(F_EINTR_SOCK)) ERR(EINTR);
  auto l = o->lis; if (l->q.empty()) { if (o->nonblock) ERR(EAGAIN); bool ok = block("accept", [l] { return !l->q.empty() || !l->open; }, o->rcvtimeo ? now_ns + o->rcvtimeo : ~0ull); if (!ok) ERR(EAGAIN); }
  if (!l->open) ERR(EINVAL);
  if (fault(F_ACCEPT)) { static const int es[] = {ECONNABORTED, EMFILE, ENFILE, ENOMEM}; u32 k = pick(ST_DATA, 4); if (k == 0) { ep_reset(l->q.front()); l->q.pop_front(); } ERR(es[k]); }
  EndP e = l->q.front(); OFDP n = std::make_shared<OFD>(); n->t = OFD::SOCK; n->rd = n->wr = true; n->ep = e; int nf = fd_alloc(P(), n); if (nf < 0) { PROBE("out of descriptors in accept"); actor_sleep(20000000); ERR(EMFILE); } /* a caller that tries again at once must not stop the clock */ l->q.pop_front(); if (fl & SOCK_CLOEXEC) P()->fds[nf].cloexec = true; if (fl & SOCK_NONBLOCK) n->nonblock = true;
  last_ep[cur->id] = e;
  if (a && al) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(50000 + e->id % 10000); s.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &s, std::min<size_t>(*al, sizeof s)); *al = sizeof s; } return nf;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *al) { return sim_accept4(fd, a, al, 0); }
int sim_connect(int fd, const struct sockaddr *a, socklen_t) {
  point_sync("connect"); auto o = getfdp(fd); if (!o) ERR(EBADF); const sockaddr_in *s = (const sockaddr_in *)a; int port = ntohs(s->sin_port); u32 ip = ntohl(s->sin_addr.s_addr);
  if (o->t == OFD::SOCK) ERR(EISCONN);
  if (fault(F_EINTR_SOCK)) ERR(EINTR);
  if (fault(F_CONNECT)) { static const int es[] = {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH}; actor_sleep(1000000); ERR(es[pick(ST_DATA, 4)]); }
  if ((ip >> 24) != 127) { bool silent = (ip & 255) == 99; u64 t = 127ull * 1000000000ull; if (o->sndtimeo && o->sndtimeo < t) { actor_sleep(o->sndtimeo); ERR(EINPROGRESS); } actor_sleep(silent ? t : 5000000); ERR(silent ? ETIMEDOUT : EHOSTUNREACH); }
  EndP e = net_connect_actor(port); if (!e) ERR(ECONNREFUSED); if (net_delay_max) actor_sleep(pick(ST_DATA, 100) * (net_delay_max / 100)); o->t = OFD::SOCK; o->ep = e; o->rd = o->wr = true; last_ep[cur->id] = e; return 0; }
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { check_access(b, n, false, "send"); point_sync("send"); auto o = getfdp(fd); if (!o) ERR(EBADF); if (o->t != OFD::SOCK) { if (o->t == OFD::RAWSOCK) { cur->err = ENOTCONN; maybe_sigpipe(fl); } ERR(o->t == OFD::RAWSOCK ? ENOTCONN : ENOTSOCK); } return ep_write(o, (const char *)b, n, fl); }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return sim_send(fd, b, n, fl); }
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { check_access(b, n, true, "recv"); point_sync("recv"); auto o = getfdp(fd); if (!o) ERR(EBADF); if (o->t != OFD::SOCK) ERR(o->t == OFD::RAWSOCK ? ENOTCONN : ENOTSOCK); if (!n) return 0; return ep_read(o, (char *)b, n, fl); }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return sim_recv(fd, b, n, fl); }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) { std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return sim_send(fd, s.data(), s.size(), fl); }
int sim_shutdown(int fd, int how) { point_sync("shutdown"); auto o = getfdp(fd); if (!o || !o->ep) ERR(o ? ENOTCONN : EBADF); if (how != SHUT_RD) ep_shutdown_wr(o->ep); return 0; }
int sim_setsockopt(int fd, int lv, int op, const void *v, socklen_t l) { auto o = getfd(fd); if (!o) ERR(EBADF); if (lv == SOL_SOCKET && (op == SO_RCVTIMEO || op == SO_SNDTIMEO) && l >= sizeof(struct timeval)) { const struct timeval *t = (const struct timeval *)v; if (t->tv_usec < 0 || t->tv_usec > 999999) ERR(EDOM); u64 ns = t->tv_sec < 0 ? 0 : (u64)t->tv_sec * 1000000000ull + t->tv_usec * 1000ull; (op == SO_RCVTIMEO ? o->rcvtimeo : o->sndtimeo) = ns; } return 0; }
int sim_getsockopt(int fd, int, int op, void *v, socklen_t *l) { auto o = getfd(fd); if (!o) ERR(EBADF); if (*l >= 4) *(int *)v = 0; (void)op; return 0; }
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *l) { auto o = getfd(fd); if (!o) ERR(EBADF); sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(o->lis ? o->lis->port : o->bound_port); s.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; return 0; }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *l) { auto o = getfd(fd); if (!o || !o->ep) ERR(ENOTCONN); return sim_getsockname(fd, a, l); }
int sim_getaddrinfo(const char *h, const char *svc, const struct addrinfo *hint, struct addrinfo **out) {
  point_sync("getaddrinfo"); if (fault(F_RESOLVE)) { static const int es[] = {EAI_AGAIN, EAI_FAIL, EAI_NONAME, EAI_MEMORY}; return es[pick(ST_DATA, 4)]; }
  std::vector<u32> ad; struct in_addr ia; if (!h) ad.push_back(0x7f000001); else if (inet_pton(AF_INET, h, &ia) == 1) ad.push_back(ntohl(ia.s_addr)); else if (std::string(h) == "localhost") ad.push_back(0x7f000001); else if (resolver) { int r = resolver(h, ad); if (r) return r; } else return EAI_NONAME;
  if (ad.empty()) return EAI_NONAME; int port = svc ? atoi(svc) : 0; struct addrinfo *first = nullptr, **tail = &first;
  for (u32 ip : ad) { struct addrinfo *ai = (struct addrinfo *)sim_malloc_raw(sizeof(struct addrinfo)); memset(ai, 0, sizeof *ai); sockaddr_in *s = (sockaddr_in *)sim_malloc_raw(sizeof(sockaddr_in)); memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = htonl(ip); ai->ai_family = AF_INET; ai->ai_socktype = hint && hint->ai_socktype ? hint->ai_socktype : SOCK_STREAM; ai->ai_protocol = IPPROTO_TCP; ai->ai_addr = (sockaddr *)s; ai->ai_addrlen = sizeof *s; *tail = ai; tail = &ai->ai_next; }
  *out = first; return 0; }
void sim_freeaddrinfo(struct addrinfo *a) { while (a) { struct addrinfo *n = a->ai_next; sim_free_raw(a->ai_addr); sim_free_raw(a); a = n; } }
const char *sim_gai_strerror(int e) { return gai_strerror(e); }
struct hostent *sim_gethostbyname(const char *) { sim_error("gethostbyname is not simulated"); }
int sim_getnameinfo(const struct sockaddr *, socklen_t, char *h, socklen_t hl, char *s, socklen_t sl, int) { if (h) snprintf(h, hl, "127.0.0.1"); if (s) snprintf(s, sl, "0"); return 0; }

// ---------------------------------------------------------------- readiness
static int ready_mask(OFD *o, int want) { // POLL bits
  int r = 0; switch (o->t) {
    case OFD::PIPE_R: if (!o->pipe->buf.empty()) r |= POLLIN; if (!o->pipe->writers) r |= POLLHUP; break;
    case OFD::PIPE_W: if (!o->pipe->readers) r |= POLLERR | POLLOUT; else if (o->pipe->buf.size() < o->pipe->cap) r |= POLLOUT; break;
    case OFD::SOCK: if (o->ep) { if (readable(o->ep.get())) r |= POLLIN; if (o->ep->reset) r |= POLLERR | POLLHUP; auto p = o->ep->peer.lock(); if (!p || p->closed || p->inbytes < p->rcvbuf) r |= POLLOUT; } break;
    case OFD::LISTEN: if (!o->lis->q.empty()) r |= POLLIN; break; case OFD::RAWSOCK: r |= POLLHUP; break; default: r |= POLLIN | POLLOUT; }
  return r & (want | POLLHUP | POLLERR);
}
int sim_poll(struct pollfd *f, nfds_t n, int to) {
  point_sync("poll"); if (fault(F_EINTR_SELECT)) ERR(EINTR); std::vector<OFDP> os; for (nfds_t i = 0; i < n; i++) os.push_back(f[i].fd < 0 ? nullptr : getfdp(f[i].fd));
  auto ev = [&os, f, n]() { int c = 0; for (nfds_t i = 0; i < n; i++) { f[i].revents = 0; if (f[i].fd < 0) continue; if (!os[i]) f[i].revents = POLLNVAL; else f[i].revents = ready_mask(os[i].get(), f[i].events); if (f[i].revents) c++; } return c; };
  int c = ev(); if (c || to == 0) return c; block("poll", [&ev] { return ev() > 0; }, to < 0 ? ~0ull : now_ns + (u64)to * 1000000ull); return ev(); }
int sim_ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const void *) { return sim_poll(f, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  point_sync("select"); if (fault(F_EINTR_SELECT)) ERR(EINTR); struct It { int fd; OFDP o; int want; }; std::vector<It> v; for (int i = 0; i < n && i < FD_SETSIZE; i++) { int want = 0; if (r && FD_ISSET(i, r)) want |= POLLIN; if (w && FD_ISSET(i, w)) want |= POLLOUT; if (!want) continue; auto o = getfdp(i); if (!o) ERR(EBADF); v.push_back({i, o, want}); }
  auto cnt = [&v] { int c = 0; for (auto &x : v) { int m = ready_mask(x.o.get(), x.want); if (m) c++; } return c; };
  int c = cnt(); u64 to = tv ? (u64)tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull : ~0ull; if (!c && to) { block("select", [&cnt] { return cnt() > 0; }, to == ~0ull ? ~0ull : now_ns + to); }
  if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); int k = 0; for (auto &x : v) { int m = ready_mask(x.o.get(), x.want); if (r && (x.want & POLLIN) && (m & (POLLIN | POLLHUP | POLLERR))) { FD_SET(x.fd, r); k++; } if (w && (x.want & POLLOUT) && (m & (POLLOUT | POLLERR))) { FD_SET(x.fd, w); k++; } } return k; }
int sim_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const void *) { struct timeval tv; if (t) { tv.tv_sec = t->tv_sec; tv.tv_usec = t->tv_nsec / 1000; } return sim_select(n, r, w, e, t ? &tv : nullptr); }
}
void fs_chmod(const std::string &path, u32 m) { Look L = lookup("/work", path, true, -1); if (L.node) L.node->mode = m; }
u32 fs_mode(const std::string &path) { Look L = lookup("/work", path, true, -1); return L.node ? L.node->mode : 0; }
bool fs_islink(const std::string &path) { Look L = lookup("/work", path, false, -1); return L.node && L.node->t == Inode::LINK; }
