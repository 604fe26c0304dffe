from .common import *
import urllib.parse
RULE = 'at least two parameters of which one needs an escape'
FILES = ('viriatum/http/http_util.c', 'viriatum_commons/encoding/percent.*')
def key(d): return d.btext('abcXYZ019_-.~ &=%+\xe9\xff/?#', 40, 0 if d.bool(0.05) else 1)
def gen(d):
    n = d.size(200, small=5) if d.bool(0.1) else d.size(20, small=5)
    out = []
    for _ in range(n):
        out.append([d.choice(out)[0] if out and d.bool(0.05) else key(d), d.bytes(300, small=10)])
    return out
def dict_of(case):
    m = {}
    for k, v in case: m[k] = v
    return m
def decode(t):
    m = []
    if t == b'': return m
    for p in t.split(b'&'):
        expect(p.count(b'=') == 1, 'pair %s', short(p))
        k, v = p.split(b'=')
        for x in (k, v):
            expect(all(c in b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~+%' for c in x), 'not encoded: %s', short(x))
        m.append((urllib.parse.unquote_to_bytes(k.replace(b'+', b' ')), urllib.parse.unquote_to_bytes(v.replace(b'+', b' '))))
    return m
def run(env, case, note):
    # names are null terminated
    case = [[k, v] for k, v in case]
    r = env.w.call('parm', b''.join(lb(k) + lb(v) for k, v in case))
    same((r[0], r[2]), (b'0', b'0'), 'status and values changed by the encoding')
    m = dict_of(case); got = decode(r[1])
    same(sorted(got), sorted(m.items()), 'decoded parameters of %s' % short(case))
    note.nt = len(m) >= 2 and b'%' in r[1]
    note.label('repeated name', len(m) < len(case))
def gen_c(d):
    ps = [[key(d), d.bytes(120, small=8)] for _ in range(d.int(0, 8))]
    return [d.choice([-3, -2, -1, 0, 1, 2, 30, None]), d.magic_int(0, 1200), ps]
def run_c(env, case, note):
    delta, size, ps = case
    m = dict_of(ps)
    rec = b''.join(lb(k) + lb(v) for k, v in ps)
    full = env.w.call('parmc', 1 << 20, rec)
    same(full[0], b'0', 'status with a large buffer')
    same(sorted(decode(full[1])), sorted(m.items()), 'decoded parameters of %s' % short(ps))
    n = len(full[1])
    # sizes next to the exact one
    if delta is not None: size = max(0, n + 1 + delta)
    r = env.w.call('parmc', size, rec)
    if size >= n + 1: same((r[0], r[1]), (b'0', full[1]), 'buffer of %d bytes for %d' % (size, n))
    else: same(r[0], b'1', 'status for a buffer of %d bytes for a text of %d' % (size, n))
    note.nt = len(m) >= 2 and b'%' in full[1]; note.label('too small', size <= n)
def gen_large(d):
    if d.bool(): return [[key(d), wide_bytes(d)] for _ in range(d.int(1, 3))]
    return [[b'k%d' % (i * 7919 % 1777), b'v%d' % i] for i in range(wide(d, 2500))]
CHECKS = [Check('large', gen_large, run, 240, files=FILES), Check('maps', gen, run, 40000, files=FILES), Check('buffers', gen_c, run_c, 40000, files=FILES)]
