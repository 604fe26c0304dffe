from .common import *
RULE = 'at least two non-empty pieces, and an empty piece or a second join after more appends'
FILES = ('viriatum_commons/structures/string_buffer.*', 'viriatum_commons/structures/linked_buffer.*')
def gen_sb(d):
    ops = []
    for _ in range(d.size(120, small=12)):
        k = d.weighted([(3, 1), (3, 2), (2, 3), (2, 4), (2, 5), (2, 6), (1, 7)])
        if k == 7: ops.append([7]); continue
        b = d.bytes(5000, small=12)
        if k in (1, 4): b = b.replace(b'\0', b'0')
        ops.append([k, b])
    return ops + [[7]]
def run_buf(op):
    def run(env, case, note):
        raw = b''; want = []; m = b''; joins = 0; pieces = 0; empty = False
        for o in case:
            if o[0] == 7: raw += u8(7); want.append('x' + (m + (b'\0' if op == 'sb' else b'')).hex() + ' %d' % len(m)); joins += 1
            else:
                raw += u8(o[0]) + lb(o[1]); m += o[1]
                if o[1]: pieces += 1
                else: empty = True
        same_lines(env.w.call(op, raw)[0], want, case, 'joined buffer')
        note.nt = pieces > 1 and (empty or joins > 1); note.label('empty piece', empty); note.label('several joins', joins > 1)
    return run
def gen_lb(d):
    ops = []
    for _ in range(d.size(120, small=12)):
        k = d.weighted([(3, 1), (3, 2), (2, 3), (1, 7)])
        ops.append([7] if k == 7 else [k, d.bytes(5000, small=12)])
    return ops + [[7]]
def gen_large(d): return [[k, wide_bytes(d).replace(b'\0', b'0')] if k != 7 else [7] for k in (d.choice([1, 2, 3, 7]) for _ in range(d.int(1, 5)))] + [[7]]
CHECKS = [Check('large string-buffer', gen_large, run_buf('sb'), 400, files=FILES), Check('large linked-buffer', gen_large, run_buf('lb'), 400, files=FILES), Check('string-buffer', gen_sb, run_buf('sb'), 40000, files=FILES), Check('linked-buffer', gen_lb, run_buf('lb'), 40000, files=FILES)]
