from .common import *
import html, os, shutil, time
RULE = 'a listing of at least three entries of two types, or a file that is not empty'
FILES = ('viriatum_commons/io/file.*',)
NC = 'abcXYZ019_-. ,;%$\xe9<>&"\'?#\n'
def nm(d): return d.btext(NC, 200 if d.bool(0.05) else 12, 1)
def gen_tree(d):
    es = {}
    for _ in range(d.size(120, small=8) if d.bool(0.2) else d.size(12, small=5)):
        n = nm(d)
        if n in (b'.', b'..'): continue
        k = d.weighted([(4, 'f'), (3, 'd'), (1, 'lf'), (1, 'ld'), (1, 'dangling')])
        es[n] = [k, d.size(5000) if k == 'f' else d.int(0, 5), d.choice([0, 1, 86399, 951782400, 1000000000, 2 ** 31, d.int(0, 4102444800)])]
    return [[n] + v for n, v in es.items()]
def hx(b): return 'x' + b.hex()
def tm(t): return time.strftime('%Y-%m-%d %H:%M', time.gmtime(t))
def fmt(n):
    for unit, name in ((1024 ** 3, 'GByte'), (1024 ** 2, 'MByte'), (1024, 'KByte'), (1, 'Byte')):
        v = (2 * n + unit) // (2 * unit)
        if v > 0 or unit == 1: break
    return '%s %s' % (('%.1f' % (n / unit)) if v < 10 else '%d' % v, name if v == 1 else name + 's')
def run_tree(env, case, note):
    root = os.path.join(env.tmp, 'tree').encode()
    if os.path.lexists(root): shutil.rmtree(root)
    os.mkdir(root)
    target = os.path.join(env.tmp, 'lt').encode(); os.makedirs(os.path.join(target, b'd'), exist_ok=True)
    with open(os.path.join(target, b'f'), 'wb') as f: f.write(b'x' * 1500)
    for n, k, size, t in case:
        p = os.path.join(root, n)
        if k == 'f':
            with open(p, 'wb') as f: f.write(b'y' * size)
            os.utime(p, (t, t))
        elif k == 'd':
            os.mkdir(p)
            for i in range(size): open(os.path.join(p, b'%d' % i), 'wb').close()
            os.utime(p, (t, t))
        elif k == 'lf': os.symlink(os.path.join(target, b'f'), p)
        elif k == 'ld': os.symlink(os.path.join(target, b'd'), p)
        else: os.symlink(b'nowhere', p)
    slash = b'/' if len(case) % 2 else b''
    r = env.w.call('fsu', 'l', root + slash)
    same(r[0], b'0', 'status of the listing')
    want = []
    # documented order: directories, files, links, each by name (dot entries are directories)
    ty = {'f': 2, 'd': 1}
    for n, k in [(b'.', 'd'), (b'..', 'd')] + [(n, k) for n, k, _, _ in case]:
        p = os.path.join(root, n)
        try: st = os.stat(p); sz, t = st.st_size, tm(st.st_mtime)
        except OSError: sz, t = 0, '0000-00-00 00:00'
        want.append((ty.get(k, 3), n, sz, t))
    want.sort()
    got = r[1].decode().split('\n')[:-1]
    same(sorted(got), sorted('%s %d %d %s' % (hx(n), k, s, t) for k, n, s, t in want), 'entries')
    same([g.split(' ')[:2] for g in got], [[hx(n), '%d' % k] for k, n, s, t in want], 'order of the entries')
    got = r[2].decode().split('\n')[:-1]
    # the names of the maps are text of a page, so they are encoded for it
    got = [' '.join([hx(html.unescape(bytes.fromhex(g.split(' ')[0][1:]).decode('latin-1')).encode('latin-1', 'replace'))] + g.split(' ')[1:]) for g in got]
    same(got, ['%s %d %d %s %s' % (hx(n), k, s, t, '-' if k == 1 else fmt(s)) for k, n, s, t in want], 'entries as maps')
    for n, k, size, t in case[:4]:
        p = os.path.join(root, n)
        same(env.w.call('fsu', 'd', p), [b'0', b'1' if os.path.isdir(p) else b'0'], 'is a directory')
        if k in ('f', 'd'): same(env.w.call('fsu', 't', p), [b'0', time.strftime('%Y-%m-%d %H:%M:%S', time.gmtime(t)).encode()], 'write time')
    if len(got) == 2: same(env.w.call('fsu', 'l', os.path.join(root, b'missing'))[0], b'1', 'status of a missing directory')
    note.nt = len(case) >= 3 and len(set(k for _, k, _, _ in case)) >= 2
    note.label('links', any(k[0] in 'l' for _, k, _, _ in case))
def gen_file(d):
    return [d.list(lambda d: [d.choice(['w', 'w', 'r', 'c', 't', 'd', 'x']), d.int(0, 3), d.blob(70000, small=30)], 12, 1)]
def run_file(env, case, note):
    m = {}; base = os.path.join(env.tmp, 'ff')
    if os.path.lexists(base): shutil.rmtree(base)
    os.mkdir(base)
    for op, i, (seed, n) in case[0]:
        p = os.path.join(base, ['a', 'b b', 'c.txt', 'missing/x'][i])
        if op == 'w':
            from ..engine import blob
            b = blob(seed, n)
            r = env.w.call('fsu', 'w', p, b)
            if i == 3: same(r[0], b'1', 'writing below a missing directory')
            else:
                same(r[0], b'0', 'status of a write'); m[i] = b
                with open(p, 'rb') as f: expect(f.read() == b, 'the file differs from what was written')
                note.nt |= n > 0
        elif op == 'r':
            r = env.w.call('fsu', 'r', p)
            if i in m: same(r, [b'0', m[i]], 'reading')
            else: same(r[0], b'1', 'status of reading a missing file')
        elif op == 'c':
            r = env.w.call('fsu', 'c', p)
            if i in m: same(r, [b'0', b'%d' % len(m[i])], 'size')
            else: same(r[0], b'1', 'status of the size of a missing file')
        elif op == 't':
            r = env.w.call('fsu', 't', p)
            if i in m: same(r, [b'0', time.strftime('%Y-%m-%d %H:%M:%S', time.gmtime(os.stat(p).st_mtime)).encode()], 'write time')
            else: same(r[0], b'1', 'status of the write time of a missing file')
        elif op == 'd': same(env.w.call('fsu', 'd', p), [b'0', b'0'], 'is a directory')
        elif op == 'x' and i in m: os.unlink(p); del m[i]
def gen_join(d):
    return [d.btext('ab/. ', 60), d.btext('ab/. ', 60, 1)]
def run_join(env, case, note):
    a, b = case
    r = env.w.call('fsu', 'j', a, b)
    same(r[0], a + b if a.endswith(b'/') else a + b'/' + b, 'joined path')
    note.nt = len(a) > 1 and len(b) > 1
def gen_val(d):
    return [[d.choice([b'index.html', b'a', b'index.htm', b'sub/x', b'missing', b'd']) for _ in range(d.size(20, small=4))], [d.bool() for _ in range(5)], d.choice([128, 11, 12, 200])]
def run_val(env, case, note):
    cands, have, size = case
    base = os.path.join(env.tmp, 'vv')
    if os.path.lexists(base): shutil.rmtree(base)
    os.makedirs(os.path.join(base, 'sub'))
    for n, h in zip(['index.html', 'a', 'index.htm', 'sub/x'], have):
        if h: open(os.path.join(base, n), 'w').close()
    if have[4]: os.mkdir(os.path.join(base, 'd'))
    want = next((i for i, c in enumerate(cands) if os.path.lexists(os.path.join(base.encode(), c))), -1)
    if want >= 0: want = [i for i, c in enumerate(cands) if c == cands[want]][0]
    same(env.w.call('fsu', 'v', base, b''.join(lb(c) for c in cands), size)[0], b'%d' % want, 'first existing candidate of %s' % short(cands))
    note.nt = len(cands) >= 2
def gen_many(d):
    k = d.choice([2, 3, 7])
    return [[b'n%d' % (i * 7919 % 10007), 'd' if i % k == 1 else 'f', i % 3, 1000000000 + i] for i in range(wide(d, 2000))]
CHECKS = [Check('many entries', gen_many, run_tree, 48, files=FILES), Check('listings', gen_tree, run_tree, 2400, files=FILES), Check('files', gen_file, run_file, 3200, files=FILES), Check('paths', gen_join, run_join, 12000, files=FILES), Check('candidates', gen_val, run_val, 4000, files=FILES)]
