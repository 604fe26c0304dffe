from .common import *
RULE = 'a history with more blocks than a chunk holds, or in which blocks are released and allocated again'
FILES = ('viriatum_commons/memory/memory_pool.*',)
CHUNK = 10240
def amount(d): return d.weighted([(4, d.int(1, 30)), (2, d.int(1, 3000)), (2, CHUNK + d.int(-3, 3)), (1, 2 * CHUNK + d.int(-3, 3)), (1, d.int(1, 3 * CHUNK))])
def gen(d):
    return [d.choice([1, 2, 3, 8, 16, 24, 24, 24, 32, 40, 57]), d.int(0, 2 ** 31), [[d.weighted([(10, 1), (8, 2), (1, 3), (1, 4)]), d.int(0, 3), amount(d)] for _ in range(d.size(30, 2, small=10))]]
def run(env, case, note):
    size, seed, ops = case
    n = 0; raw = b''; want = []; top = 0; freed = again = False; shown = []
    for op, how, k in ops:
        if op == 1 and n + k > 5 * CHUNK: k = 0
        if op == 1: n += k; again |= freed and k > 0
        elif op == 2: freed |= n > 0 and k > 0; n -= min(n, k)
        elif op == 4: n = 0
        top = max(top, n); raw += u8(op) + u8(how) + u32(k); want.append(n); shown.append([op, how, k])
    got = env.w.call('mpool', size, seed, raw)[0].decode('latin-1').split('\n')[:-1]
    same(len(got), len(want), 'number of observations')
    for i, (g, m) in enumerate(zip(got, want)):
        f = g.split(' ', 3)
        if int(f[0]): raise Fail('%s blocks with other contents or not aligned after step %d of %s' % (f[0], i, short(shown)))
        same(int(f[1]), m, 'blocks in use after step %d' % i)
        if f[3] != '-':
            v = [int(x.split(':')[1]) for x in f[3].split(',')]
            same((v[0], v[1]), (int(f[2]) - m, int(f[2])), 'available and total places after step %d' % i)
    note.nt = top > CHUNK or again; note.label('chunks', (top + CHUNK - 1) // CHUNK); note.label('reused', again)
CHECKS = [Check('histories', gen, run, 6000, files=FILES)]
