// C library streams, memory and string functions seen by guests. Streams are real glibc FILEs (fopencookie)
// whose read/write/seek/close callbacks are the simulated descriptors, so buffering and error semantics are glibc's.
#include "sim.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <wchar.h>
#include <limits.h>

extern "C" {
int sim_open(const char *path, int flags, ...); int sim_close(int); ssize_t sim_read(int, void *, size_t); ssize_t sim_write(int, const void *, size_t); off_t sim_lseek(int, off_t, int);
void *sim_malloc(size_t); void sim_free(void *); void *sim_realloc(void *, size_t); void *sim_malloc_raw(size_t); int sim_pipe2(int *, int); int sim_mkstemp(char *);
}
struct SFile { FILE *f; int fd; Proc *p; int owner; int depth; bool closed; u64 stamp; std::string mode; };
static std::set<SFile*> files; // guests hold SFile* as their FILE*; never reused
#define H(s) ((FILE *)(s))
static std::map<std::pair<Proc*, int>, SFile*> stdstreams;
static char sent[3];
extern "C" { FILE *sim_stdin = (FILE *)&sent[0], *sim_stdout = (FILE *)&sent[1], *sim_stderr = (FILE *)&sent[2]; }

static u64 stamps;
static std::vector<SFile*> fsorted();
static ssize_t ck_read(void *c, char *b, size_t n) { SFile *s = (SFile *)c; ssize_t r = sim_read(s->fd, b, n); if (r < 0) errno = cur->err; return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  SFile *s = (SFile *)c; size_t off = 0;
  while (off < n) { ssize_t r = sim_write(s->fd, b + off, n - off); if (r < 0) { errno = cur->err; break; } off += r; }
  return off;
}
static int ck_seek(void *c, off64_t *o, int wh) { SFile *s = (SFile *)c; off_t r = sim_lseek(s->fd, *o, wh); if (r < 0) { errno = cur->err; return -1; } *o = r; return 0; }
static int ck_close(void *c) { SFile *s = (SFile *)c; int r = sim_close(s->fd); if (r < 0) errno = cur->err; return r; }
static SFile *mk_file(int fd, const char *mode) {
  SFile *s = new SFile(); s->fd = fd; s->p = cur->proc; s->owner = -1; s->depth = 0; s->closed = false; s->mode = mode; s->stamp = ++stamps;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  s->f = fopencookie(s, mode, io); if (!s->f) sim_error("fopencookie"); files.insert(s);
  return s;
}
static SFile *get(FILE *f, const char *who) {
  int k = f == (FILE *)&sent[0] ? 0 : f == (FILE *)&sent[1] ? 1 : f == (FILE *)&sent[2] ? 2 : -1;
  if (k >= 0) {
    SFile *&s = stdstreams[{cur->proc, k}];
    if (!s) { s = mk_file(k, k == 0 ? "r" : "w"); if (k == 2) setvbuf(s->f, nullptr, _IONBF, 0); }
    return s;
  }
  if (!f) violation("null-stream", "%s on a NULL stream", who);
  SFile *s = (SFile *)f;
  if (!files.count(s) || s->closed) violation("use-after-fclose", "%s on a stream that is closed", who);
  return s;
}
struct FLock { // stream lock, as glibc's, but held by simulated threads
  SFile *s; FLock(FILE *f, const char *who) { s = get(f, who); point_sync(who); int id = cur->id; if (s->owner >= 0 && s->owner != id) { SFile *x = s; block("stream lock", [x] { return x->owner < 0; }); } s->owner = id; s->depth++; errno = 0; }
  ~FLock() { if (s && --s->depth == 0) s->owner = -1; if (errno) cur->err = errno; }
  FILE *operator*() { return s->f; }
};
static int mode_flags(const char *m) {
  int f; bool plus = strchr(m, '+'); switch (m[0]) { case 'r': f = plus ? O_RDWR : O_RDONLY; break; case 'w': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break; case 'a': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break; default: return -1; }
  if (strchr(m, 'e')) f |= O_CLOEXEC; if (strchr(m, 'x')) f |= O_EXCL; return f;
}
static std::vector<SFile*> fsorted() { std::vector<SFile*> v(files.begin(), files.end()); std::sort(v.begin(), v.end(), [](SFile *a, SFile *b) { return a->stamp < b->stamp; }); return v; }
extern "C" {
void stdio_flush_proc(Proc *p) { std::vector<SFile*> v; for (auto s : fsorted()) if (s->p == p && !s->closed) v.push_back(s); for (auto s : v) { if (s->owner >= 0 && s->owner != cur->id) continue; fflush(s->f); } }
FILE *sim_fopen(const char *path, const char *mode) { int fl = mode_flags(mode); if (fl < 0) { cur->err = EINVAL; return nullptr; } int fd = sim_open(path, fl, 0666); if (fd < 0) return nullptr; return H(mk_file(fd, mode)); }
FILE *sim_fdopen(int fd, const char *mode) { if (!cur->proc->fds.count(fd)) { cur->err = EBADF; return nullptr; } if (fault(F_OPEN)) { cur->err = ENOMEM; return nullptr; } return H(mk_file(fd, mode)); }
FILE *sim_freopen(const char *path, const char *mode, FILE *f) { SFile *s = get(f, "freopen"); fflush(s->f); sim_close(s->fd); if (!path) { cur->err = EBADF; return nullptr; } int fd = sim_open(path, mode_flags(mode), 0666); if (fd < 0) return nullptr; s->fd = fd; clearerr(s->f); return f; }
int sim_fclose(FILE *f) {
  SFile *s = get(f, "fclose"); point_sync("fclose"); if (s->owner >= 0 && s->owner != cur->id) block("stream lock", [s] { return s->owner < 0; });
  if (s->closed) violation("double-fclose", "stream closed twice");
  s->closed = true; s->owner = cur->id; errno = 0; int x = fclose(s->f); if (x) cur->err = errno;
  return x;
}
size_t sim_fread(void *b, size_t sz, size_t n, FILE *f) { check_access(b, sz * n, true, "fread"); FLock l(f, "fread"); return fread(b, sz, n, *l); }
size_t sim_fwrite(const void *b, size_t sz, size_t n, FILE *f) { check_access(b, sz * n, false, "fwrite"); FLock l(f, "fwrite"); return fwrite(b, sz, n, *l); }
size_t sim_fread_unlocked(void *b, size_t sz, size_t n, FILE *f) { return sim_fread(b, sz, n, f); } size_t sim_fwrite_unlocked(const void *b, size_t sz, size_t n, FILE *f) { return sim_fwrite(b, sz, n, f); }
char *sim_fgets(char *b, int n, FILE *f) { check_access(b, n, true, "fgets"); FLock l(f, "fgets"); return fgets(b, n, *l); }
int sim_fgetc(FILE *f) { FLock l(f, "fgetc"); return fgetc(*l); } int sim_getc(FILE *f) { return sim_fgetc(f); } int sim_getchar() { return sim_fgetc(sim_stdin); } int sim_getc_unlocked(FILE *f) { return sim_fgetc(f); } int sim_getchar_unlocked() { return sim_fgetc(sim_stdin); } int sim_fgetc_unlocked(FILE *f) { return sim_fgetc(f); }
int sim__IO_getc(FILE *f) { return sim_fgetc(f); }
int sim_ungetc(int c, FILE *f) { FLock l(f, "ungetc"); return ungetc(c, *l); }
int sim_fputs(const char *s, FILE *f) { check_access(s, strlen(s) + 1, false, "fputs"); FLock l(f, "fputs"); return fputs(s, *l); }
int sim_fputc(int c, FILE *f) { FLock l(f, "fputc"); return fputc(c, *l); } int sim_putc(int c, FILE *f) { return sim_fputc(c, f); } int sim_putchar(int c) { return sim_fputc(c, sim_stdout); } int sim__IO_putc(int c, FILE *f) { return sim_fputc(c, f); } int sim_putc_unlocked(int c, FILE *f) { return sim_fputc(c, f); } int sim_putchar_unlocked(int c) { return sim_fputc(c, sim_stdout); } int sim_fputc_unlocked(int c, FILE *f) { return sim_fputc(c, f); } int sim_fputs_unlocked(const char *s, FILE *f) { return sim_fputs(s, f); }
int sim_puts(const char *s) { check_access(s, strlen(s) + 1, false, "puts"); FLock l(sim_stdout, "puts"); int r = fputs(s, *l); if (r >= 0) r = fputc('\n', *l) == EOF ? EOF : 1; return r; }
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { FLock l(f, "fprintf"); errno = cur->err; return vfprintf(*l, fmt, ap); }
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(sim_stdout, fmt, ap); }
int sim_dprintf(int fd, const char *fmt, ...) { char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (n >= (int)sizeof b) n = sizeof b - 1; return (int)sim_write(fd, b, n); }
int sim_fflush(FILE *f) { if (!f) { stdio_flush_proc(cur->proc); return 0; } FLock l(f, "fflush"); return fflush(*l); }
int sim_fseek(FILE *f, long o, int w) { FLock l(f, "fseek"); return fseek(*l, o, w); } int sim_fseeko(FILE *f, off_t o, int w) { FLock l(f, "fseek"); return fseeko(*l, o, w); }
long sim_ftell(FILE *f) { FLock l(f, "ftell"); return ftell(*l); } off_t sim_ftello(FILE *f) { FLock l(f, "ftell"); return ftello(*l); }
void sim_rewind(FILE *f) { FLock l(f, "rewind"); rewind(*l); }
int sim_feof(FILE *f) { FLock l(f, "feof"); return feof(*l); } int sim_ferror(FILE *f) { FLock l(f, "ferror"); return ferror(*l); } void sim_clearerr(FILE *f) { FLock l(f, "clearerr"); clearerr(*l); }
int sim_feof_unlocked(FILE *f) { return sim_feof(f); } int sim_ferror_unlocked(FILE *f) { return sim_ferror(f); }
int sim_fileno(FILE *f) { return get(f, "fileno")->fd; }
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { FLock l(f, "setvbuf"); (void)b; return setvbuf(*l, nullptr, m, n); } void sim_setbuf(FILE *f, char *b) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); } void sim_setlinebuf(FILE *f) { sim_setvbuf(f, nullptr, _IOLBF, 0); }
void sim_flockfile(FILE *f) { SFile *s = get(f, "flockfile"); point_sync("flockfile"); if (s->owner >= 0 && s->owner != cur->id) block("stream lock", [s] { return s->owner < 0; }); s->owner = cur->id; s->depth++; }
void sim_funlockfile(FILE *f) { SFile *s = get(f, "funlockfile"); if (--s->depth == 0) s->owner = -1; point_sync("funlockfile"); }
ssize_t sim_getdelim(char **lp, size_t *n, int d, FILE *f) {
  FLock l(f, "getline"); std::string s; int c; while ((c = fgetc(*l)) != EOF) { s += (char)c; if (c == d) break; } if (s.empty()) return -1; if (ferror(*l) && (s.empty() || s.back() != d)) return -1;
  if (!*lp || *n < s.size() + 1) { char *q = (char *)sim_realloc(*lp, s.size() + 120); if (!q) return -1; *lp = q; *n = s.size() + 120; } check_access(*lp, s.size() + 1, true, "getline"); memcpy(*lp, s.c_str(), s.size() + 1); return s.size(); }
ssize_t sim_getline(char **lp, size_t *n, FILE *f) { return sim_getdelim(lp, n, '\n', f); } ssize_t sim___getdelim(char **lp, size_t *n, int d, FILE *f) { return sim_getdelim(lp, n, d, f); }
void sim_perror(const char *s) { int e = cur->err; if (s && *s) sim_fprintf(sim_stderr, "%s: %s\n", s, strerror(e)); else sim_fprintf(sim_stderr, "%s\n", strerror(e)); }
int sim___isoc99_fscanf(FILE *f, const char *fmt, ...) { FLock l(f, "fscanf"); va_list ap; va_start(ap, fmt); int r = vfscanf(*l, fmt, ap); va_end(ap); return r; }
int sim___isoc99_scanf(const char *fmt, ...) { FLock l(sim_stdin, "scanf"); va_list ap; va_start(ap, fmt); int r = vfscanf(*l, fmt, ap); va_end(ap); return r; }
FILE *sim_tmpfile() { char t[] = "/tmp/tmpfXXXXXX"; int fd = sim_mkstemp(t); if (fd >= 0) fs_remove(t); return fd < 0 ? nullptr : H(mk_file(fd, "w+")); }
FILE *sim_popen(const char *, const char *) { sim_error("popen is not simulated"); } int sim_pclose(FILE *) { sim_error("pclose is not simulated"); }
FILE *sim_open_memstream(char **, size_t *) { sim_error("open_memstream is not simulated"); } FILE *sim_fmemopen(void *, size_t, const char *) { sim_error("fmemopen is not simulated"); }

// ---------------------------------------------------------------- memory and strings
void *sim_memcpy(void *d, const void *s, size_t n) { if (n) { access_range(s, n, false); access_range(d, n, true); } return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { if (n) { access_range(s, n, false); access_range(d, n, true); } return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { if (n) access_range(d, n, true); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { if (n) { access_range(a, n, false); access_range(b, n, false); } return memcmp(a, b, n); }
int sim_bcmp(const void *a, const void *b, size_t n) { return sim_memcmp(a, b, n); }
void *sim_memchr(const void *s, int c, size_t n) { void *r = (void *)memchr(s, c, n); size_t m = r ? (size_t)((char *)r - (char *)s) + 1 : n; if (m) access_range(s, m, false); return r; }
void *sim_memrchr(const void *s, int c, size_t n) { if (n) access_range(s, n, false); return (void *)memrchr(s, c, n); }
static size_t sl(const char *s) { if (!s) violation("null-string", "string function called with NULL"); size_t n = strlen(s); access_range(s, n + 1, false); return n; }
static size_t snl(const char *s, size_t n) { size_t k = strnlen(s, n); if (k < n) access_range(s, k + 1, false); else if (n) access_range(s, n, false); return k; }
size_t sim_strlen(const char *s) { return sl(s); } size_t sim_strnlen(const char *s, size_t n) { return snl(s, n); }
int sim_strcmp(const char *a, const char *b) { sl(a); sl(b); return strcmp(a, b); } int sim_strncmp(const char *a, const char *b, size_t n) { return strncmp(a, b, n); } int sim_strcoll(const char *a, const char *b) { return sim_strcmp(a, b); }
int sim_strcasecmp(const char *a, const char *b) { sl(a); sl(b); return strcasecmp(a, b); } int sim_strncasecmp(const char *a, const char *b, size_t n) { return strncasecmp(a, b, n); }
char *sim_strcpy(char *d, const char *s) { size_t n = sl(s); access_range(d, n + 1, true); return strcpy(d, s); }
char *sim_strncpy(char *d, const char *s, size_t n) { if (n) access_range(d, n, true); return strncpy(d, s, n); }
char *sim_stpcpy(char *d, const char *s) { size_t n = sl(s); access_range(d, n + 1, true); return stpcpy(d, s); }
char *sim_strcat(char *d, const char *s) { size_t n = sl(s), m = sl(d); access_range(d + m, n + 1, true); return strcat(d, s); }
char *sim_strncat(char *d, const char *s, size_t n) { size_t m = sl(d), k = strnlen(s, n); access_range(d + m, k + 1, true); return strncat(d, s, n); }
char *sim_strchr(const char *s, int c) { sl(s); return (char *)strchr(s, c); } char *sim_strrchr(const char *s, int c) { sl(s); return (char *)strrchr(s, c); }
char *sim_strstr(const char *a, const char *b) { sl(a); sl(b); return (char *)strstr(a, b); } char *sim_strcasestr(const char *a, const char *b) { sl(a); sl(b); return (char *)strcasestr(a, b); }
char *sim_strpbrk(const char *a, const char *b) { sl(a); return (char *)strpbrk(a, b); } size_t sim_strspn(const char *a, const char *b) { sl(a); return strspn(a, b); } size_t sim_strcspn(const char *a, const char *b) { sl(a); return strcspn(a, b); }
char *sim_strtok_r(char *s, const char *d, char **p) { return strtok_r(s, d, p); } static char *tokp; char *sim_strtok(char *s, const char *d) { point_sync("strtok"); return strtok_r(s, d, &tokp); }
char *sim_strdup(const char *s) { size_t n = sl(s); char *p = (char *)sim_malloc(n + 1); if (p) memcpy(p, s, n + 1); return p; }
char *sim_strndup(const char *s, size_t n) { size_t k = snl(s, n); char *p = (char *)sim_malloc(k + 1); if (p) { memcpy(p, s, k); p[k] = 0; } return p; }
int sim_vsnprintf(char *b, size_t n, const char *f, va_list ap) { errno = cur ? cur->err : 0; int r = vsnprintf(b, n, f, ap); if (r >= 0 && n && cur) { size_t k = (size_t)r + 1 < n ? (size_t)r + 1 : n; access_range(b, k, true); } return r; }
int sim_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sim_vsprintf(char *b, const char *f, va_list ap) { return sim_vsnprintf(b, 1u << 30, f, ap); }
int sim_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(b, 1u << 30, f, ap); va_end(ap); return r; }
int sim_vasprintf(char **o, const char *f, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(nullptr, 0, f, c); va_end(c); char *p = (char *)sim_malloc(n + 1); if (!p) { *o = nullptr; return -1; } vsnprintf(p, n + 1, f, ap); *o = p; return n; }
int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
long sim_strtol(const char *s, char **e, int b) { errno = 0; long r = strtol(s, e, b); if (errno) cur->err = errno; return r; }
long long sim_strtoll(const char *s, char **e, int b) { errno = 0; long long r = strtoll(s, e, b); if (errno) cur->err = errno; return r; }
unsigned long sim_strtoul(const char *s, char **e, int b) { errno = 0; unsigned long r = strtoul(s, e, b); if (errno) cur->err = errno; return r; }
unsigned long long sim_strtoull(const char *s, char **e, int b) { errno = 0; unsigned long long r = strtoull(s, e, b); if (errno) cur->err = errno; return r; }
double sim_strtod(const char *s, char **e) { errno = 0; double r = strtod(s, e); if (errno) cur->err = errno; return r; }
float sim_strtof(const char *s, char **e) { errno = 0; float r = strtof(s, e); if (errno) cur->err = errno; return r; }
char *sim_strerror(int e) { return strerror(e); }
void sim___explicit_bzero_chk(void *d, size_t n, size_t) { access_range(d, n, true); memset(d, 0, n); } void sim_explicit_bzero(void *d, size_t n) { access_range(d, n, true); memset(d, 0, n); }
void sim_bzero(void *d, size_t n) { access_range(d, n, true); memset(d, 0, n); }
}
