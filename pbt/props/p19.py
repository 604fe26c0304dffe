from .common import *
RULE = 'a history with at least one removal (or overwrite) of an existing element followed by an observation of the contents'
FILES = ('viriatum_commons/structures/linked_list.*', 'viriatum_commons/structures/array_list.*')
OPS = [(8, 1), (4, 2), (3, 3), (2, 4), (2, 5), (2, 6), (2, 7), (2, 8), (2, 9), (2, 10), (1, 11), (2, 12), (2, 13), (1, 14), (1, 15), (1, 16), (1, 17), (1, 18), (1, 19), (1, 20), (1, 21), (1, 22)]
def gen(d):
    ops = []; hot = d.int(1, 6); top = 12
    if d.bool(0.04):
        # a long list
        top = d.choice([100, 300, 1000]); op = d.choice([1, 2, 1, 4, 5]); hot = d.choice([hot, 500])
        for i in range(d.int(top // 2, top)): ops.append([op, 256 * (i % hot + 1) + i % 200, 0])
    for _ in range(d.size(250, small=30)):
        op = d.weighted(OPS)
        ops.append([op, d.int(1, hot) * 256 + d.int(0, 2), d.int(0, top)])
    return ops
def rank(v): return v >> 8
def run(env, case, note):
    raw = b''; want = []; m = []; rem = False; nt = False
    ops = []
    for op, v, i in case:
        n = len(m)
        if op == 3 or op == 6: i = min(i, n)
        ops.append((op, v, i))
        raw += u8(op) + u32(v) + u32(i)
        if op in (1, 4): m.append(v)
        elif op in (2, 5): m.insert(0, v)
        elif op in (3, 6): m.insert(i, v)
        elif op == 7:
            if v in m: m.remove(v); rem = True
        elif op in (8, 9):
            if i < n: del m[i]; rem = True
        elif op == 10:
            if i < n: want.append('%d' % m[i])
        elif op == 11: want.append('%d %d' % ((m[0], m[-1]) if m else (0, 0)))
        elif op in (12, 14): want.append('%d' % (m.pop(0) if m else 0)); rem = True
        elif op in (13, 15): want.append('%d' % (m.pop() if m else 0)); rem = True
        elif op == 16: m = []; rem = True
        elif op == 17: want.append(('sort', i & 3, list(m)))
        elif op == 18: want.append('%d' % len(m))
        elif op in (19, 20, 22): want.append(' '.join('%d' % x for x in m)); nt |= rem
        elif op == 21: want.append(' '.join('%d' % x for x in reversed(m)))
        if op == 17:
            # a sort is not stable: the model takes over the order that the list shows and checks it
            raw += u8(20) + u32(0) + u32(0)
            return run_sorted(env, ops, raw, want, note)
    raw += (u8(18) + u32(0) * 2) + (u8(20) + u32(0) * 2) + (u8(21) + u32(0) * 2)
    want += ['%d' % len(m), ' '.join('%d' % x for x in m), ' '.join('%d' % x for x in reversed(m))]
    same_lines(env.w.call('ll', raw)[0], want, case, 'linked list')
    note.nt = nt or rem; note.label('longer than 30', len(case) > 30)
def run_sorted(env, ops, raw, want, note):
    """up to the first sort; then size, forward and backward order after it"""
    kind, before = want[-1][1], want[-1][2]
    want = want[:-1]
    raw += (u8(18) + u32(0) * 2) + (u8(21) + u32(0) * 2) + (u8(11) + u32(0) * 2) + u8(1) + u32(99999) + u32(0) + u8(20) + u32(0) * 2
    got = env.w.call('ll', raw)[0].decode('latin-1').split('\n')[:-1]
    same([g.strip() for g in got[:len(want)]], want, 'observations before the sort')
    rest = got[len(want):]
    fwd = [int(x) for x in rest[0].split()]
    same(sorted(fwd), sorted(before), 'elements after the sort')
    r = [rank(x) for x in fwd]
    if kind in (0, 2): expect(all(a <= b for a, b in zip(r, r[1:])), 'not in order after the sort: %s' % fwd)
    if kind == 1: expect(all(a >= b for a, b in zip(r, r[1:])), 'not in order after the sort: %s' % fwd)
    same(int(rest[1]), len(before), 'size after the sort')
    same([int(x) for x in rest[2].split()], fwd[::-1], 'backward order after the sort')
    same(rest[3].strip(), '%d %d' % ((fwd[0], fwd[-1]) if fwd else (0, 0)), 'ends after the sort')
    same([int(x) for x in rest[4].split()], fwd + [99999], 'append after the sort')
    note.nt = len(before) > 1; note.label('sort')
def gen_al(d):
    es = d.choice([1, 2, 3, 4, 7, 8, 16, 24]); n = d.int(1, 40); ops = []
    for _ in range(d.size(80, small=20)):
        i = d.int(0, n - 1)
        ops.append([1, i, bytes(d.int(0, 255) for _ in range(es))] if d.bool(0.6) else [2, i])
    return [es, n, ops]
def run_al(env, case, note):
    es, n, ops = case
    raw = b''; want = []; m = {}
    for o in ops:
        if o[0] == 1: raw += u8(1) + u32(o[1]) + lb(o[2]); m[o[1]] = o[2]
        elif o[1] in m: raw += u8(2) + u32(o[1]); want.append('x' + m[o[1]].hex())
    for i in sorted(m): raw += u8(2) + u32(i); want.append('x' + m[i].hex())
    same_lines(env.w.call('al', es, n, raw)[0], want, ops, 'array list')
    note.nt = len(m) > 1
CHECKS = [Check('linked-list', gen, run, 100000, files=FILES), Check('array-list', gen_al, run_al, 32000, files=FILES)]
