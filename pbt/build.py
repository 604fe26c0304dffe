"""Builds the code under test from /repo's current working tree (never from a stale copy).

Everything is compiled with AddressSanitizer and bounds checking into /verif/.build/<key>/ where key is a
hash of all sources, the harness and the flags, so a change in /repo always leads to a new build."""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
MODULES = ('diag', 'gif', 'lua')     # the modules of /repo/modules that build here
HARNESS = os.path.join(ROOT, 'harness')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, '.build'))
CC = 'clang'
FLAGS = ['-g', '-O1', '-w', '-fno-omit-frame-pointer', '-fsanitize=address,bounds', '-fno-sanitize-recover=bounds', '-DHAVE_CONFIG_H']
TSAN = ['-g', '-O1', '-w', '-fno-omit-frame-pointer', '-fsanitize=thread', '-DHAVE_CONFIG_H']
EXTRA = os.environ.get('VERIF_CFLAGS', '').split()   # e.g. the coverage flags of tools/coverage.py
FLAGS += EXTRA
# servers of other configurations of the build: worker processes, polling without epoll, the memory pool
VARIANTS = {'prefork': ['-DHAVE_PREFORK=1'], 'select': ['-DVERIF_SELECT=1'], 'mpool': ['-DHAVE_MPOOL=1'], 'debug': ['-DHAVE_DEBUG=1'], 'plain': ['-DVERIF_PLAIN=1']}
LIBS = ['-lpcre', '-lssl', '-lcrypto', '-ldl', '-lpthread']

def sources():
    out = []
    for base, dirs, files in os.walk(SRC):
        dirs.sort()
        rel = os.path.relpath(base, SRC)
        if rel.split(os.sep)[0] not in ('.', 'viriatum', 'viriatum_commons'): continue
        for f in sorted(files):
            out.append(os.path.join(rel, f))
    for m in MODULES:
        for base, dirs, files in os.walk(os.path.join(REPO, 'modules', 'mod_' + m, 'src', 'viriatum_mod_' + m)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.c', '.h')): out.append(os.path.relpath(os.path.join(base, f), SRC))
    return out

def tree_key():
    h = hashlib.sha256()
    h.update(repr((FLAGS, TSAN, LIBS, CC, VARIANTS)).encode())
    for rel in sources():
        h.update(rel.encode() + b'\0')
        with open(os.path.join(SRC, rel), 'rb') as f: h.update(hashlib.sha256(f.read()).digest())
    for f in sorted(os.listdir(HARNESS)):
        h.update(f.encode() + b'\0')
        with open(os.path.join(HARNESS, f), 'rb') as g: h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()[:20]

def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode('utf-8', 'replace')

class BuildError(Exception): pass

def build(tsan=False):
    """returns the directory that holds the binaries `server` and `worker` (and `tworker` when asked for)"""
    key = tree_key()
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = 'ok.tsan' if tsan else 'ok'
        if not os.path.exists(os.path.join(out, want)):
            _prune(key)
            (_build_tsan if tsan else _build)(out)
            open(os.path.join(out, want), 'w').close()
        os.utime(out)
    return out

def _prune(key):
    dirs = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d != key and os.path.isdir(os.path.join(BUILD, d))]
    dirs.sort(key=os.path.getmtime)
    for d in dirs[:-3]: shutil.rmtree(d, ignore_errors=True)

def _units():
    for rel in sources():
        if rel.endswith('.c') and 'win32' not in os.path.basename(rel) and not rel.startswith('..'): yield rel

def _compile_all(out, flags, units):
    """units: (source path, object name, extra flags); sources under /repo/src compile with cwd /repo/src"""
    os.makedirs(os.path.join(out, 'obj'), exist_ok=True)
    cache = os.environ.get('VERIF_OBJCACHE')
    heads = _heads() if cache else ''
    def one(u):
        src, obj, extra = u
        dest = os.path.join(out, 'obj', obj)
        cmd = [CC] + flags + ['-I' + HARNESS] + extra + ['-c', src, '-o', dest]
        if cache:
            # used by tools/mutate.py: objects of the files that did not change are taken from the previous builds
            h = hashlib.sha256((heads + repr(cmd[:-1]).replace(out, '')).encode())
            with open(os.path.join(SRC, src), 'rb') as f: h.update(f.read())
            kept = os.path.join(cache, h.hexdigest()[:24])
            if os.path.exists(kept): shutil.copy(kept, dest); return 0, src, ''
        code, text = _run(cmd, SRC)
        if cache and not code: shutil.copy(dest, kept)
        return code, src, text
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for code, src, text in ex.map(one, units):
            if code: raise BuildError('cannot compile %s\n%s' % (src, text[-3000:]))

def _heads():
    h = hashlib.sha256()
    for base, names in ((SRC, sources()), (HARNESS, sorted(os.listdir(HARNESS)))):
        for rel in names:
            if rel.endswith('.c'): continue
            with open(os.path.join(base, rel), 'rb') as f: h.update(rel.encode() + b'\0' + f.read())
    return h.hexdigest()

def _inc(rel):
    return ['-I' + ('viriatum_commons' if rel.startswith('viriatum_commons') else 'viriatum')]

def _link(out, objs, exe, flags, libs=LIBS):
    code, text = _run([CC] + flags + [os.path.join(out, 'obj', o) for o in objs] + ['-o', os.path.join(out, exe)] + libs, SRC)
    if code: raise BuildError('cannot link %s\n%s' % (exe, text[-3000:]))

def _build(out):
    units, lib = [], []
    for rel in _units():
        obj = rel.replace('./', '').replace('/', '_') + '.o'
        if os.path.normpath(rel) == 'viriatum/viriatum.c':
            units.append((rel, 'main.o', _inc(rel)))
            units.append((rel, 'nomain.o', _inc(rel) + ['-Dmain=viriatum_main']))
            continue
        units.append((rel, obj, _inc(os.path.normpath(rel)))); lib.append(obj)
    plain = [u for u in units if u[1] != 'nomain.o']
    harness = []
    for f in sorted(os.listdir(HARNESS)):
        if f.startswith('w_') and f.endswith('.c'):
            units.append((os.path.join(HARNESS, f), f + '.o', ['-Iviriatum', '-I.'])); harness.append(f + '.o')
    for m in ('m_stat', 'm_daemon'): units.append((os.path.join(HARNESS, m + '.c'), m + '.o', []))
    mods = {m: [] for m in MODULES}
    for rel in sources():
        if not rel.startswith('..') or not rel.endswith('.c'): continue
        m = rel.split('mod_', 1)[1].split(os.sep)[0]
        obj = 'mod_%s_%s.o' % (m, os.path.basename(rel))
        units.append((rel, obj, ['-fPIC', '-I' + os.path.relpath(os.path.join(REPO, 'modules', 'mod_' + m, 'src', 'viriatum_mod_' + m), SRC)])); mods[m].append(obj)
    _compile_all(out, FLAGS, units)
    san = ['-fsanitize=address,bounds'] + EXTRA
    # the symbols of the server are there for the modules, as those of the shared commons library are in the real build
    wrap = ['-Wl,--wrap=' + f for f in ('fopen', 'fopen64', 'open', 'open64', 'remove', 'unlink', 'access', 'chdir')]
    _link(out, lib + ['main.o', 'm_stat.o', 'm_daemon.o'], 'server', san + ['-rdynamic'] + wrap)
    try:
        _compile_all(out, FLAGS, [(src, '%s_%s' % (v, obj), extra + flags) for v, flags in VARIANTS.items() for src, obj, extra in plain])
        for v in VARIANTS: _link(out, ['%s_%s' % (v, o) for _, o, _ in plain] + ['m_stat.o', 'm_daemon.o'], 'server.' + v, san + ['-rdynamic'] + wrap)
    except BuildError as e:
        # the configuration that the other checks use does build: the checks of these ones have nothing to run
        for v in VARIANTS:
            if os.path.exists(os.path.join(out, 'server.' + v)): os.unlink(os.path.join(out, 'server.' + v))
        print('the other configurations do not build: %s' % str(e)[:2000], file=sys.stderr)
    for m in MODULES:
        _link(out, mods[m], 'mod_%s.so' % m, san + ['-shared'], ['-llua5.1'] if m == 'lua' else [])
    if harness: _link(out, lib + ['nomain.o'] + harness, 'worker', san)

def _build_tsan(out):
    """ThreadSanitizer build of the commons library with the thread pool driver"""
    units, lib = [], []
    for rel in _units():
        rel = os.path.normpath(rel)
        if not rel.startswith('viriatum_commons'): continue
        obj = 't_' + rel.replace('/', '_') + '.o'
        units.append((rel, obj, _inc(rel))); lib.append(obj)
    units.append((os.path.join(HARNESS, 't_pool.c'), 't_pool.o', ['-Iviriatum_commons', '-I.']))
    _compile_all(out, TSAN, units)
    _link(out, lib + ['t_pool.o'], 'tworker', ['-fsanitize=thread'])

if __name__ == '__main__':
    t = time.time(); print(build(), '%.1fs' % (time.time() - t))
