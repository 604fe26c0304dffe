from .common import *
import struct
RULE = 'at least three elements in the range, with a duplicate or an inversion'
FILES = ('viriatum_commons/sorting/*', 'viriatum_commons/structures/linked_list.*')
def gen(d):
    k = d.weighted([(4, 'rand'), (1, 'asc'), (1, 'desc'), (1, 'eq'), (1, 'saw'), (1, 'near')])
    n = d.size(300, small=12)
    hot = d.choice([2, 3, 10, 60000])
    if k == 'rand': v = [d.int(0, hot) for _ in range(n)]
    elif k == 'asc': v = list(range(n))
    elif k == 'desc': v = list(range(n, 0, -1))
    elif k == 'eq': v = [5] * n
    elif k == 'saw': v = [i % (1 + d.int(0, 5)) for i in range(n)]
    else:
        v = list(range(n))
        for _ in range(3):
            if n: a, b = d.int(0, n - 1), d.int(0, n - 1); v[a], v[b] = v[b], v[a]
    pre = d.int(0, 3); post = d.int(0, 3)
    return [d.choice([0, 0, 1, 2, 3]), [(d.int(0, 9)) * 256 + 7 for _ in range(pre)], [(x + 1) * 256 + i % 200 for i, x in enumerate(v)], [d.int(0, 9) * 256 + 9 for _ in range(post)]]
def run(env, case, note):
    kind, pre, v, post = case
    whole = pre + v + post
    raw = b''.join(u32(x) for x in whole)
    # the end of the range is inclusive or exclusive as the callers use it: to_sequence + sort(…, 0, size)
    out = [int(x) for x in env.w.call('qs', kind, raw, len(pre), len(pre) + len(v))[0].split()]
    same(out[:len(pre)], pre, 'elements before the range'); same(out[len(pre) + len(v):], post, 'elements after the range')
    mid = out[len(pre):len(pre) + len(v)]
    same(sorted(mid), sorted(v), 'elements')
    r = [x >> 8 for x in mid]
    if kind in (0, 2): expect(all(a <= b for a, b in zip(r, r[1:])), 'not in order: %s' % short(mid))
    if kind == 1: expect(all(a >= b for a, b in zip(r, r[1:])), 'not in order: %s' % short(mid))
    note.nt = len(v) > 2
def gen_ll(d):
    c = gen(d); return [c[0], c[2]]
def run_ll(env, case, note):
    kind, v = case
    raw = b''.join(u8(1) + u32(x) + u32(0) for x in v) + u8(17) + u32(0) + u32(kind) + u8(20) + u32(0) * 2 + u8(21) + u32(0) * 2 + u8(18) + u32(0) * 2
    got = env.w.call('ll', raw)[0].decode().split('\n')[:-1]
    mid = [int(x) for x in got[0].split()]
    same(sorted(mid), sorted(v), 'elements'); r = [x >> 8 for x in mid]
    if kind in (0, 2): expect(all(a <= b for a, b in zip(r, r[1:])), 'not in order: %s' % short(mid))
    if kind == 1: expect(all(a >= b for a, b in zip(r, r[1:])), 'not in order: %s' % short(mid))
    same([int(x) for x in got[1].split()], mid[::-1], 'backward order'); same(int(got[2]), len(v), 'size')
    note.nt = len(v) > 2
def gen_many(d):
    k = d.weighted([(3, 'wide'), (2, 'asc'), (2, 'desc'), (3, 'few'), (2, 'eq')])
    # the other ones cost a quadratic time, so they are shorter
    n = d.choice([20000, 60000, 65535, 65536, 65537, 65600, 70000, 100000, 140000]) if k in ('wide', 'asc') else d.choice([2000, 4000, 8000])
    return [d.choice([0, 1, 2]), k, n, d.int(0, 1 << 30), d.int(0, 3), d.choice([0, 0, 128 << 10, 256 << 10])]
def run_many(env, case, note):
    import random
    kind, k, n, seed, pre, stack = case
    r = random.Random(seed)
    # every element has its own low bits (where they fit) so that a lost or duplicated one is seen
    if k == 'wide': v = [r.getrandbits(31) for _ in range(n)]
    elif k == 'asc': v = [i << 8 for i in range(n)]
    elif k == 'desc': v = [(n - i) << 8 for i in range(n)]
    elif k == 'few': v = [r.randrange(6) << 8 | r.randrange(200) for _ in range(n)]
    else: v = [5 << 8 | i % 200 for i in range(n)]
    head = [3] * pre
    whole = head + v + head
    out = [int(x) for x in env.w.call('qs', kind, struct.pack('<%dI' % len(whole), *whole), pre, pre + n, stack)[0].split()]
    same(out[:pre], head, 'elements before the range'); same(out[pre + n:], head, 'elements after the range')
    mid = out[pre:pre + n]
    expect(sorted(mid) == sorted(v), 'the %d elements are not the same ones after sorting them' % n)
    q = [x >> 8 for x in mid]
    for i in range(1, n):
        expect(q[i - 1] <= q[i] if kind != 1 else q[i - 1] >= q[i], 'not in order at position %d of %d' % (i, n))
    note.nt = True
CHECKS = [Check('many', gen_many, run_many, 64, files=FILES), Check('array', gen, run, 56000, files=FILES), Check('linked-list', gen_ll, run_ll, 32000, files=FILES)]
