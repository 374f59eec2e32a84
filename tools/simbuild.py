#!/usr/bin/env python3
"""Build the simulator and the guests from /repo's working tree into /verif/.build/<key>.

Guests are the runtime and standard library of the language plus C emitted by the compiler itself for the workload
programs in sim/programs; they are compiled with ThreadSanitizer's instrumentation (the callbacks are the simulator's),
every C library call is renamed to sim_<name>, and an undefined symbol the simulator does not provide and that is not
known to be pure stops the build."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
CFLAGS_GUEST = ['-std=c11', '-D_POSIX_C_SOURCE=200809L', '-O1', '-g', '-fPIC', '-fsanitize=thread', '-femulated-tls', '-w', '-fno-omit-frame-pointer', '-fno-strict-aliasing', '-fno-vectorize', '-fno-slp-vectorize', '-fstack-protector-strong']
PURE = set('''__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc toupper tolower isalpha isdigit isalnum isspace isupper islower ispunct isprint iscntrl isxdigit isgraph isblank
qsort bsearch abs labs llabs div ldiv lldiv regcomp regexec regfree regerror inet_pton inet_ntop inet_addr inet_ntoa htons htonl ntohs ntohl strftime strptime asctime_r difftime timegm
setlocale localeconv __isoc99_sscanf __isoc23_sscanf sscanf __isoc23_strtol __isoc23_strtoll __isoc23_strtoul __isoc23_strtoull atoi atol atoll atof fnmatch basename __xpg_basename dirname mblen mbtowc wctomb mbstowcs wcstombs mbrtowc wcrtomb mbsinit
gmtime_r asctime __libc_start_main _GLOBAL_OFFSET_TABLE_ setjmp _setjmp longjmp __sigsetjmp siglongjmp memccpy wcwidth iswalpha iswspace towlower towupper getopt optarg optind strtoimax strtoumax strverscmp ffs ffsl ffsll swab
stpncpy strxfrm memmem rawmemchr strchrnul strsep strlcpy strlcat bcopy index rindex mempcpy strtold qsort_r sigemptyset sigfillset sigaddset sigdelset sigismember inet_aton mbrlen wcslen nl_langinfo strerror_r __xpg_strerror_r getopt_long vsscanf alphasort
__udivti3 __umodti3 __divti3 __modti3 __multi3 __muloti4 __mulodi4 __fixdfti __floattidf __floatuntidf __fixunsdfti strsignal'''.split())

# limits that a scenario may shrink: the constant becomes a call that returns it unless the scenario says otherwise
KNOBS = [('stdlib/server.c', 'GRAY_SERVER_MAX_CONNECTIONS', 'server_max_connections'), ('runtime/runtime.h', 'GRAY_MAX_CALL_DEPTH', 'max_call_depth')]

class BuildError(Exception): pass

def run(cmd, cwd=None, env=None, timeout=300):
    r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors='replace', timeout=timeout)
    if r.returncode:
        raise BuildError('%s\n%s%s' % (' '.join(cmd)[:400], r.stdout[-3000:], r.stderr[-6000:]))
    return r.stdout

def tree_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]

def find(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts): out.append(os.path.join(d, f))
    return sorted(out)

def par(fn, items):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))

def sim_sources(groups):
    return [os.path.join(SIM, f) for f in ['core.cpp', 'kernel.cpp', 'stdio.cpp', 'main.cpp', 'hooks.cpp']] + [os.path.join(SIM, 'check_%s.cpp' % g) for g in groups]

def nm(obj, *flags):
    return run(['nm', *flags, obj])

class Builder:
    """group: which check_<group>.cpp scenarios to link.  programs: workload .gray programs; raw: extra guest kinds."""
    def __init__(self, group, programs, want_grayc_guest=False, drivers=()):
        self.group, self.programs, self.want_grayc_guest, self.drivers = group, list(programs), want_grayc_guest, list(drivers)
        self.src = os.path.join(REPO, 'grayc', 'src')
        files = find(self.src, ('.c', '.h', '.s', '.S', '.inc', '.def'))
        simf = sim_sources([group]) + find(SIM, ('.h',)) + [os.path.join(VERIF, 'tools', f) for f in ('simbuild.py', 'lift_asm.py')]
        simf += find(os.path.join(SIM, 'programs'), ('.gray', '.h', '.c'))
        self.key = tree_hash(files + simf, group + ' '.join(self.programs) + str(want_grayc_guest) + ' '.join(self.drivers))
        self.dir = os.path.join(VERIF, '.build', '%s-%s' % (group, self.key))
        self.notes = []

    def build(self):
        os.makedirs(os.path.join(VERIF, '.build'), exist_ok=True)
        lock = open(os.path.join(VERIF, '.build', group_lock(self.group)), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            done = os.path.join(self.dir, 'complete')
            if os.path.exists(done):
                os.utime(self.dir); self.notes = open(done).read().splitlines(); return self.dir
            self.clean_old()
            shutil.rmtree(self.dir, ignore_errors=True); os.makedirs(self.dir)
            self.do_build()
            with open(done, 'w') as f: f.write('\n'.join(self.notes))
            return self.dir
        finally:
            lock.close()

    def clean_old(self):
        ds = sorted(glob.glob(os.path.join(VERIF, '.build', self.group + '-*')), key=os.path.getmtime)
        for d in ds[:-2]: shutil.rmtree(d, ignore_errors=True)

    def o(self, *p): return os.path.join(self.dir, *p)

    def do_build(self):
        B = self.dir
        shutil.copytree(self.src, self.o('src'), ignore=shutil.ignore_patterns('*.o', '*.d'))
        os.makedirs(self.o('obj'))
        for f, macro, knob in KNOBS:
            p = self.o('src', f)
            if not os.path.exists(p): continue
            t = open(p, errors='surrogateescape').read()
            t2, n = re.subn(r'(#\s*define\s+' + macro + r'[ \t]+)(\(?\d+\)?)([ \t]*(?:/[*/].*)?)$', lambda m: 'extern long long sim_knob(const char *, long long);\n' + m.group(1) + '((int)sim_knob("%s", %s))' % (knob, m.group(2)) + m.group(3), t, flags=re.M)
            if n: open(p, 'w', errors='surrogateescape').write(t2)
            else: self.notes.append('%s not found: not varied' % macro)
        jobs = []
        # simulator
        simo = []
        for s in sim_sources([self.group]):
            out = self.o('obj', 'sim_' + os.path.basename(s) + '.o'); simo.append(out)
            jobs.append(['g++', '-std=c++17', '-O2', '-g1', '-w', '-I' + SIM, '-c', s, '-o', out])
        # compiler (native)
        csrc = [f for f in find(self.o('src'), ('.c',)) if os.sep + 'runtime' + os.sep not in f and os.sep + 'stdlib' + os.sep not in f and os.sep + 'vendor' + os.sep not in f]
        cobj = []
        for s in csrc:
            out = self.o('obj', 'cc_' + os.path.relpath(s, self.o('src')).replace(os.sep, '_') + '.o'); cobj.append(out)
            jobs.append(['gcc', '-std=c11', '-D_POSIX_C_SOURCE=200809L', '-O1', '-w', '-DGRAY_VERSION="sim"', '-I' + self.o('src'), '-c', s, '-o', out])
        # runtime
        have_sqlite = os.path.exists(self.o('src', 'vendor', 'sqlite3.c'))
        rsrc = [f for f in find(self.o('src', 'runtime'), ('.c',)) + find(self.o('src', 'stdlib'), ('.c',))]
        rsrc = [f for f in rsrc if os.path.basename(f) != 'sqlite.c']
        robj = []
        for s in rsrc:
            out = self.o('obj', 'rt_' + os.path.relpath(s, self.o('src')).replace(os.sep, '_') + '.o'); robj.append(out)
            jobs.append(['clang', *CFLAGS_GUEST, '-I' + self.o('src'), '-c', s, '-o', out])
        gobj = []
        if self.want_grayc_guest:
            for s in csrc:
                out = self.o('obj', 'gg_' + os.path.relpath(s, self.o('src')).replace(os.sep, '_') + '.o'); gobj.append(out)
                jobs.append(['clang', *CFLAGS_GUEST, '-D_DEFAULT_SOURCE', '-DGRAY_VERSION="sim"', '-I' + self.o('src'), '-c', s, '-o', out])
        jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
        par(run, jobs)
        run(['g++', '-rdynamic', '-o', self.o('simrun'), *simo, '-ldl', '-lpthread'])
        run(['gcc', '-o', self.o('grayc'), *cobj, '-lm'])
        # assembly
        aobj = []
        for s in find(self.o('src', 'runtime', 'arch', 'x86_64'), ('.s', '.S')):
            a = self.o('obj', os.path.basename(s) + '.native.o'); c = a[:-2] + '.lift.c'; l = a[:-2] + '.lift.o'
            run(['gcc', '-c', s, '-o', a])
            r = subprocess.run([sys.executable, os.path.join(VERIF, 'tools', 'lift_asm.py'), a, c], capture_output=True, text=True)
            if r.returncode == 0:
                run(['gcc', '-O1', '-g', '-fPIC', '-w', '-c', c, '-o', l]); aobj.append(l)
            elif r.returncode == 4:
                self.notes.append('assembly not lifted (%s): its instructions run natively and are not interleaved' % r.stderr.strip()); aobj.append(a)
            else: raise BuildError('lift_asm: ' + r.stderr)
        exported = set(l.split()[-1] for l in nm(self.o('simrun'), '-D', '--defined-only').splitlines())
        libm = set(l.split()[-1].split('@')[0] for l in nm('/lib/x86_64-linux-gnu/libm.so.6', '-D', '--defined-only').splitlines())
        def one(prog):
            src = os.path.join(SIM, 'programs', prog + '.gray'); c = self.o('obj', prog + '.c'); ob = self.o('obj', prog + '.guest.o')
            wd = self.o('obj', 'wd_' + prog); os.makedirs(wd, exist_ok=True)
            run([self.o('grayc'), 'build', src, '-c', '-o', c], cwd=wd)
            if not os.path.exists(c):
                raise BuildError('grayc wrote no C for ' + prog)
            run(['clang', *CFLAGS_GUEST, '-I' + self.o('src'), '-iquote', self.o('src', 'runtime'), '-iquote', self.o('src', 'stdlib'), '-I' + os.path.join(SIM, 'programs'), '-c', c, '-o', ob])
            self.link(prog, [ob, *robj, *aobj], exported, libm)
        def drv(d):
            ob = self.o('obj', d + '.drv.o')
            run(['clang', *CFLAGS_GUEST, '-I' + self.o('src'), '-I' + os.path.join(SIM, 'programs'), '-c', os.path.join(SIM, 'programs', d + '.c'), '-o', ob])
            self.link(d, [ob, *robj, *aobj], exported, libm)
        par(one, self.programs); par(drv, self.drivers)
        if gobj: self.link('grayc', gobj, exported, libm)
        shutil.rmtree(self.o('obj'), ignore_errors=True) if not os.environ.get('SIM_KEEP') else None

    def link(self, name, objs, exported, libm):
        r = self.o(name + '.r.o')
        run(['ld', '-r', '-o', r, *objs])
        und = [l.split()[-1] for l in nm(r, '-u').splitlines()]
        ren, bad = [], []
        for u in und:
            if 'sim_' + u in exported: ren.append((u, 'sim_' + u))
            elif u in exported or u.startswith('__tsan_') and u in exported: pass
            elif u in PURE or u in libm or u.startswith('__emutls_v.'): pass
            else: bad.append(u)
        defined = [l.split()[-1] for l in nm(r, '--defined-only').splitlines()]
        if 'main' in defined: ren.append(('main', 'sim_guest_main'))
        stub = []
        if bad: # data cannot be stubbed; a function may never be called: calling it ends the run with an error of the simulator
            if set(bad) & {'environ', '__environ', 'timezone', 'daylight', 'tzname', 'errno', 'sys_errlist'}: raise BuildError('guest %s uses symbols the simulator does not provide: %s' % (name, ' '.join(sorted(bad))))
            sc = self.o(name + '.missing.c')
            with open(sc, 'w') as f: f.write('void sim_missing(const char *);\n' + ''.join('void simx_%s(void) { sim_missing("%s"); }\n' % (b, b) for b in sorted(set(bad))))
            run(['gcc', '-O1', '-fPIC', '-w', '-c', sc, '-o', sc + '.o']); stub = [sc + '.o']; ren += [(b, 'simx_' + b) for b in sorted(set(bad))]
            self.notes.append('%s refers to functions that are not simulated (calling one stops the run): %s' % (name, ' '.join(sorted(set(bad)))))
        rf = self.o(name + '.ren')
        with open(rf, 'w') as f: f.writelines('%s %s\n' % x for x in ren)
        r2 = self.o(name + '.r2.o')
        run(['objcopy', '--redefine-syms=' + rf, r, r2])
        run(['gcc', '-shared', '-Wl,-Bsymbolic', '-o', self.o(name + '.so'), r2, *stub, '-lm', '-nostartfiles'])
        for f in (r, r2): os.unlink(f)

def group_lock(g): return 'lock-' + g

if __name__ == '__main__':
    g, progs = sys.argv[1], sys.argv[2:]
    t = time.time()
    try: print(Builder(g, [p for p in progs if p != '+grayc'], '+grayc' in progs).build(), '%.1fs' % (time.time() - t))
    except BuildError as e: print(e); sys.exit(3)
