from .common import *
RULE = 'a history with a pop of one of several equal smallest elements, or a pop from an empty queue'
FILES = ('viriatum_commons/structures/priority_queue.*', 'viriatum_commons/structures/linked_list.*')
def gen(d):
    hot = d.choice([1, 2, 3, 8, 200])
    kind = d.choice([0, 0, 0, 2, 1, 3])
    if d.bool(0.02):
        # a long queue
        return [kind, [[1, d.int(1, hot) * 256 + i % 200] for i in range(d.int(200, 1200))] + [[d.choice([1, 2]), d.int(1, hot) * 256] for _ in range(d.int(0, 100))]]
    return [kind, [[d.weighted([(5, 1), (4, 2), (1, 3)]), d.int(1, hot) * 256 + d.int(0, 200)] for _ in range(d.size(250, small=30))]]
def run(env, case, note):
    kind, ops = case
    key = [lambda v: v >> 8, lambda v: -(v >> 8), lambda v: v >> 8, lambda v: 0][kind]
    raw = b''; want = []; m = []; nt = False
    ops = [tuple(o) for o in ops]; ops = ops + [(2, 0)] * (sum(1 for o in ops if o[0] == 1) + 1) + [(3, 0)]
    for op, v in ops:
        raw += u8(op) + u32(v)
        if op == 1: m.append(v)
        elif op == 2:
            if m:
                b = min(key(x) for x in m); c = [i for i, x in enumerate(m) if key(x) == b]
                nt |= len(c) > 1 and len(c) < len(m) or len(c) > 2
                want.append('%d' % m.pop(c[0]))
            else: want.append('0')
        else: want.append('%d' % len(m))
    same_lines(env.w.call('pq', kind, raw)[0], want, ops, 'priority queue')
    note.nt = nt
CHECKS = [Check('histories', gen, run, 80000, files=FILES)]
