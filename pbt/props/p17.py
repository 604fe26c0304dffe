from .common import *
RULE = 'a case with an overwrite or a key collision (same bucket or same hash), and a lookup after it'
FILES = ('viriatum_commons/structures/hash_map.*',)

def key_str(d, pool):
    if pool and d.bool(0.5): return d.choice(pool)
    k = d.weighted([(4, 'short'), (2, 'perm'), (1, 'long'), (1, 'high'), (1, 'prefix')])
    if k == 'short': s = d.btext('ab01', 4)
    elif k == 'perm':
        # permutations and words of equal sums collide in additive hashes
        s = d.btext('abcd', 6, 2)
    elif k == 'long': s = d.btext('abcdefghijklmnop', 300, 1)
    elif k == 'prefix' and pool: s = d.choice(pool) + d.btext('ab', 2)
    else: s = bytes(d.int(1, 255) for _ in range(d.size(6)))
    pool.append(s)
    return s

def gen_str(d):
    initial = d.choice([0, 0, 1, 2, 3, 7, 64]); pool = []; ops = []
    for _ in range(d.size(400, small=25)):
        k = d.weighted([(10, 'set'), (6, 'get'), (1, 'size'), (1, 'iter'), (1, 'reset')])
        if k == 'set': ops.append(['set', key_str(d, pool), value(d)])
        elif k == 'get': ops.append(['get', key_str(d, pool)])
        else: ops.append([k])
    return [initial, ops]

def run_str(env, case, note):
    initial, ops = case
    raw = b''; want = []; model = {}; over = False; nt = False
    for o in ops:
        if o[0] == 'set':
            raw += u8(2) + lb(o[1]) + u64(o[2]); over |= o[1] in model; model[o[1]] = o[2]
        elif o[0] == 'get':
            raw += u8(5) + lb(o[1]); want.append('%d' % model.get(o[1], 0)); nt |= over
        elif o[0] == 'size': raw += u8(7); want.append('%d' % len(model))
        elif o[0] == 'reset': raw += u8(10); want.append('%d' % len(model))
        elif o[0] == 'iter': raw += u8(8); want.append(('set', dict(model)))
    raw += u8(7) + u8(8); want += ['%d' % len(model), ('set', dict(model))]
    for k in model: raw += u8(5) + lb(k); want.append('%d' % model[k])
    r = env.w.call('hm', initial, raw)[0].decode('latin-1').split('\n')[:-1]
    same(len(r), len(want), 'observations')
    for i, (g, w) in enumerate(zip(r, want)):
        if isinstance(w, tuple):
            got = [e.split(',') for e in g.split()]
            got = sorted((bytes.fromhex(e[1][1:]), int(e[2])) for e in got)
            same(got, sorted(w[1].items()), 'iteration')
        else: same(g, w, 'observation %d' % i)
    note.nt = nt; note.label('overwrite', over); note.label('grown', len(model) > 45); note.label('big', len(model) > 90)

def gen_int(d):
    initial = d.choice([0, 0, 1, 2, 3, 7, 64]); ops = []; pool = []
    def key():
        if pool and d.bool(0.5): return d.choice(pool)
        k = d.weighted([(3, 'small'), (3, 'stride'), (1, 'any')])
        if k == 'small': v = d.int(0, 40)
        elif k == 'stride': v = d.int(0, 12) * d.choice([64, 128, 256, 192, 7])
        else: v = d.magic_int(0, 2 ** 63)
        pool.append(v); return v
    for _ in range(d.size(400, small=25)):
        k = d.weighted([(10, 'set'), (6, 'get'), (1, 'size'), (1, 'iter'), (1, 'keys'), (1, 'reset')])
        if k == 'set': ops.append(['set', key(), value(d)])
        elif k == 'get': ops.append(['get', key()])
        else: ops.append([k])
    return [initial, ops]

def run_int(env, case, note):
    initial, ops = case
    raw = b''; want = []; model = {}; over = False; nt = False
    for o in ops:
        if o[0] == 'set': raw += u8(1) + u64(o[1]) + u64(o[2]); over |= o[1] in model; model[o[1]] = o[2]
        elif o[0] == 'get': raw += u8(4) + u64(o[1]); want.append('%d' % model.get(o[1], 0)); nt |= over
        elif o[0] == 'size': raw += u8(7); want.append('%d' % len(model))
        elif o[0] == 'reset': raw += u8(10); want.append('%d' % len(model))
        elif o[0] == 'keys': raw += u8(9); want.append(('keys', sorted(model)))
        elif o[0] == 'iter': raw += u8(8); want.append(('set', sorted(model.items())))
    raw += u8(7) + u8(8); want += ['%d' % len(model), ('set', sorted(model.items()))]
    for k in model: raw += u8(4) + u64(k); want.append('%d' % model[k])
    r = env.w.call('hm', initial, raw)[0].decode('latin-1').split('\n')[:-1]
    same(len(r), len(want), 'observations')
    for i, (g, w) in enumerate(zip(r, want)):
        if isinstance(w, tuple):
            if w[0] == 'keys': got = sorted(int(e) for e in g.split())
            else: got = sorted((int(e.split(',')[0]), int(e.split(',')[2])) for e in g.split())
            same(got, w[1], 'iteration')
        else: same(g, w, 'observation %d' % i)
    note.nt = nt or len(set(k % 64 for k in model)) < len(model); note.label('overwrite', over); note.label('grown', len(model) > 45)

def gen_both(d):
    """hash value and string given together, as the library does internally: strings with equal hashes"""
    initial = d.choice([0, 1, 2, 64]); ops = []; names = [d.btext('abc', 3, 1) for _ in range(d.int(1, 12))]
    for _ in range(d.size(200, small=20)):
        h = d.choice([0, 1, 5, 64, 128, 77]); n = d.choice(names)
        ops.append(['set', h, n, value(d)] if d.bool(0.6) else ['get', h, n])
    return [initial, ops]
def run_both(env, case, note):
    initial, ops = case
    raw = b''; want = []; model = {}; nt = False
    for o in ops:
        # a key is its string: every string keeps one hash in a history
        if o[0] == 'set': raw += u8(3) + u64(o[1]) + lb(o[2]) + u64(o[3]); model[(o[1], o[2])] = o[3]
        else:
            raw += u8(6) + u64(o[1]) + lb(o[2]); want.append('%d' % model.get((o[1], o[2]), 0))
            nt |= len(set(k[0] for k in model)) < len(model)
    raw += u8(7); want.append('%d' % len(model))
    same_lines(env.w.call('hm', initial, raw)[0], want, ops, 'hash map')
    note.nt = nt

def many(d, key):
    """histories of a map with many entries: growth several times over, long runs of used places"""
    n = wide(d, 5000); k = d.choice([1, 1, 3, 64, 7919, 65536]); ops = []
    for i in range(n): ops.append(['set', key(i * k), i % 999 + 1])
    for i in range(0, n, d.int(1, 50)): ops.append(['set', key(i * k), d.int(0, 999)])
    ops += [['size']] + [['get', key(d.int(0, n + 10) * k)] for _ in range(20)]
    if d.bool(0.3): ops += [['reset'], ['set', key(1), 5], ['get', key(k)]]
    return [d.choice([0, 1, 64, 200]), ops]
CHECKS = [Check('many string-keys', lambda d: many(d, lambda i: b'k%d' % i), run_str, 160, files=FILES), Check('many int-keys', lambda d: many(d, lambda i: i), run_int, 160, files=FILES), Check('string-keys', gen_str, run_str, 48000, files=FILES), Check('int-keys', gen_int, run_int, 40000, files=FILES), Check('equal-hashes', gen_both, run_both, 24000, files=FILES)]
