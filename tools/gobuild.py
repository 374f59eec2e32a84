"""Build the Go simulator from /repo's working tree into /verif/.build/<group>-<hash>.

The command-line tool's packages (cli and every package of the module it depends on) are copied without tests, rewritten
by gosim/rewrite (imports with effects go to gosim/simrt; channels, goroutines, select, map order become calls into the
scheduler) once per program image, and linked with gosim/harness."""
import fcntl, glob, json, os, shutil, subprocess, time
import simbuild
from simbuild import VERIF, REPO, BuildError, run, tree_hash
SLOTS = 4
GOSIM = os.path.join(VERIF, 'gosim')
MOD = 'github.com/grayscale-lang/grayscale'

def env():
    e = dict(os.environ)
    for k in ('GOFLAGS', 'GOOS', 'GOARCH', 'GOEXPERIMENT', 'GOWORK'): e.pop(k, None)
    e.update(HOME=e.get('HOME', '/root'), GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE=os.path.join(VERIF, '.build', 'gocache'), GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', CGO_ENABLED='0', GOWORK='off')
    return e

def sources():
    out = []
    for top in ('cli', 'internal'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if not (x == 'runtime' and d == os.path.join(REPO, 'internal', 'grayc')) and x != 'testdata')
            for f in sorted(fs):
                if f.endswith('_test.go'): continue
                p = os.path.join(d, f)
                if os.path.isfile(p) and not os.path.islink(p): out.append(p)
    return out

def goquote(b):
    return '"' + ''.join(chr(c) if 32 <= c < 127 and chr(c) not in '"\\' else '\\x%02x' % c for c in b) + '"'

def build(group, g):
    base = os.path.join(VERIF, '.build'); os.makedirs(base, exist_ok=True)
    srcs = sources(); mine = [p for p in glob.glob(os.path.join(GOSIM, '**', '*'), recursive=True) if os.path.isfile(p)]
    go = subprocess.run(['go', 'version'], capture_output=True, text=True, env=env()).stdout
    key = tree_hash(srcs + mine + [os.path.join(REPO, 'go.mod'), os.path.join(REPO, 'go.sum'), os.path.abspath(__file__)], go + REPO)
    out = os.path.join(base, '%s-%s' % (group, key)); notes = []
    with open(os.path.join(base, group + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'done')):
            os.utime(out); return out, open(os.path.join(out, 'done')).read().splitlines()
        old = sorted((d for d in glob.glob(os.path.join(base, group + '-*')) if os.path.isdir(d) and d != out), key=os.path.getmtime, reverse=True)
        for d in old[3:]: shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        st, mod = os.path.join(out, 'staging'), os.path.join(out, 'module'); os.makedirs(st); os.makedirs(mod)
        for p in srcs:
            d = os.path.join(st, os.path.relpath(p, REPO)); os.makedirs(os.path.dirname(d), exist_ok=True); shutil.copyfile(p, d)
        rt = os.path.join(st, 'internal', 'grayc', 'runtime'); os.makedirs(os.path.join(rt, 'src'))
        for f in ('grayc', 'libgrayrt.a', 'src/x.h'): open(os.path.join(rt, f), 'w').close()
        for f in ('go.mod', 'go.sum'):
            for d in (st, mod): shutil.copyfile(os.path.join(REPO, f), os.path.join(d, f))
        e = env()
        rw = os.path.join(out, 'rewrite'); tool = os.path.join(out, 'rwsrc'); os.makedirs(tool)
        shutil.copyfile(os.path.join(GOSIM, 'rewrite', 'main.go'), os.path.join(tool, 'main.go')); open(os.path.join(tool, 'go.mod'), 'w').write('module rewrite\n\ngo 1.23\n')
        run(['go', 'build', '-o', rw, '.'], cwd=tool, env=e, timeout=600)
        deps = [l for l in run(['go', 'list', '-deps', './cli'], cwd=st, env=e, timeout=600).split() if l.startswith(MOD + '/')]
        pkgs = [p[len(MOD) + 1:] for p in deps]
        if not pkgs or pkgs[-1] != 'cli': raise BuildError('unexpected packages: %s' % pkgs)
        slots = ['p%d' % (i + 1) for i in range(SLOTS)]
        run([rw, '-src', st, '-out', mod, '-slot', ','.join(slots), '-module', MOD] + pkgs, cwd=out, env=e, timeout=600)
        shutil.copytree(os.path.join(GOSIM, 'simrt'), os.path.join(mod, 'simrt')); shutil.copytree(os.path.join(GOSIM, 'harness'), os.path.join(mod, 'harness'))
        with open(os.path.join(mod, 'harness', 'zz_slots.go'), 'w') as f:
            f.write('package main\n\nimport (\n')
            for s in slots:
                for i, p in enumerate(pkgs): f.write('\t%sq%d "%s/%s/%s"\n' % (s, i, MOD, s, p.replace('internal', 'inner')))
            f.write(')\n\nvar slotRun = []func(){\n')
            for s in slots:
                f.write('\tfunc() {' + '; '.join('%sq%d.SimReset()' % (s, i) for i in range(len(pkgs))) + '; %sq%d.SimMain() },\n' % (s, len(pkgs) - 1))
            f.write('}\n')
        with open(os.path.join(mod, 'harness', 'zz_shipped.go'), 'w') as f:
            # the files the command ships inside itself, as they are in the tree
            f.write('package main\n\nvar shipped = map[string]string{\n')
            cli = os.path.join(st, 'cli')
            for p in sorted(glob.glob(os.path.join(cli, 'templates', '**'), recursive=True)) + glob.glob(os.path.join(cli, '*.gray')):
                if os.path.isfile(p): f.write('\t%s: %s,\n' % (json.dumps(os.path.relpath(p, cli)), goquote(open(p, 'rb').read())))
            f.write('}\n')
        run(['go', 'build', '-o', os.path.join(out, 'simrun'), './harness'], cwd=mod, env=e, timeout=900)
        notes.append('rewritten packages: %s (%d images)' % (', '.join(pkgs), SLOTS))
        for d in ('staging', 'rwsrc') + (() if os.environ.get('SIM_KEEP') else ('module',)): shutil.rmtree(os.path.join(out, d), ignore_errors=True)
        with open(os.path.join(out, 'done'), 'w') as f: f.write('\n'.join(notes))
    return out, notes

if __name__ == '__main__':
    t = time.time(); d, n = build('cli', {}); print(n); print(d, round(time.time() - t, 1))
