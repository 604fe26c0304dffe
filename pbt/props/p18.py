from .common import *
from .p17 import key_str, many
RULE = 'a history with an overwrite of an existing key followed by an iteration over at least two keys'
FILES = ('viriatum_commons/structures/sort_map.*', 'viriatum_commons/structures/hash_map.*')
def gen(d):
    initial = d.choice([0, 0, 1, 2, 3, 64]); pool = []; ops = []
    for _ in range(d.size(300, small=25)):
        k = d.weighted([(10, 'set'), (6, 'get'), (2, 'iter'), (1, 'count'), (1, 'reset')])
        if k == 'set': ops.append(['set', key_str(d, pool), value(d)])
        elif k == 'get': ops.append(['get', key_str(d, pool)])
        else: ops.append([k])
    return [initial, ops]
def run(env, case, note):
    initial, ops = case
    raw = b''; want = []; model = {}; over = False
    ops = ops + [['iter'], ['count']]
    for o in ops:
        if o[0] == 'set': raw += u8(2) + lb(o[1]) + u64(o[2]); over |= o[1] in model; model[o[1]] = o[2]
        elif o[0] == 'get': raw += u8(5) + lb(o[1]); want.append('%d' % model.get(o[1], 0))
        elif o[0] == 'count': raw += u8(9); want.append('%d' % len(model))
        elif o[0] == 'reset': raw += u8(10); want.append('%d' % len(model))
        elif o[0] == 'iter': raw += u8(8); want.append(list(model.items()))
    for k in model: raw += u8(5) + lb(k); want.append('%d' % model[k])
    r = env.w.call('sm', initial, raw)[0].decode('latin-1').split('\n')[:-1]
    same(len(r), len(want), 'observations')
    for i, (g, w) in enumerate(zip(r, want)):
        if isinstance(w, list):
            got = [(bytes.fromhex(e.split(',')[1][1:]), int(e.split(',')[2])) for e in g.split()]
            same(got, w, 'iteration')
        else: same(g, w, 'observation %d' % i)
    note.nt = over and len(model) > 1; note.label('overwrite', over); note.label('grown', len(model) > 64)
def gen_both(d):
    initial = d.choice([0, 1, 2, 64]); ops = []; names = [d.btext('abc', 3, 1) for _ in range(d.int(1, 12))]
    for _ in range(d.size(150, small=20)):
        h = d.choice([0, 1, 5, 64, 128, 77]); n = d.choice(names)
        ops.append(['set', h, n, value(d)] if d.bool(0.6) else ['get', h, n])
    return [initial, ops]
def run_both(env, case, note):
    initial, ops = case
    raw = b''; want = []; model = {}; over = False
    for o in ops:
        if o[0] == 'set': raw += u8(3) + u64(o[1]) + lb(o[2]) + u64(o[3]); over |= (o[1], o[2]) in model; model[(o[1], o[2])] = o[3]
        else: raw += u8(6) + u64(o[1]) + lb(o[2]); want.append('%d' % model.get((o[1], o[2]), 0))
    raw += u8(8)
    r = env.w.call('sm', initial, raw)[0].decode('latin-1').split('\n')[:-1]
    same(r[:-1], want, 'lookups')
    got = [(int(e.split(',')[0]), bytes.fromhex(e.split(',')[1][1:]), int(e.split(',')[2])) for e in r[-1].split()]
    same(got, [(k[0], k[1], v) for k, v in model.items()], 'iteration')
    note.nt = over and len(model) > 1
def gen_many(d):
    initial, ops = many(d, lambda i: b'k%d' % i)
    return [initial, [['count'] if o[0] == 'size' else o for o in ops]]
CHECKS = [Check('many keys', gen_many, run, 160, files=FILES), Check('string-keys', gen, run, 48000, files=FILES), Check('equal-hashes', gen_both, run_both, 24000, files=FILES)]
