from .common import *
import hashlib, zlib
RULE = 'data that crosses a block boundary of 64 bytes, or at least two updates'
FILES = ('viriatum_commons/checksum/*.c',)
def gen(d):
    n = d.weighted([(3, None), (2, 'edge')])
    if n == 'edge':
        m = d.int(1, 6) * 64 + d.int(-10, 2)
        data = blob(d.int(0, 10 ** 6), max(0, m))
    else: data = d.bytes(20000, small=200)
    parts = []; left = len(data)
    for _ in range(d.size(12, small=4)):
        k = d.weighted([(2, d.int(0, 10)), (2, d.int(50, 70)), (1, 64), (1, d.int(0, left)), (1, 128), (1, d.int(119, 130))])
        parts.append(k)
    return [data, parts]
def run(env, case, note):
    data, parts = case
    r = env.w.call('digests', data, b''.join(u32(p) for p in parts))
    m, s, c = hashlib.md5(data).digest(), hashlib.sha1(data).digest(), b'%d' % zlib.crc32(data)
    same(r[0].hex(), m.hex(), 'md5'); same(r[1].hex(), s.hex(), 'sha1'); same(r[2], c, 'crc32')
    same(r[3].hex(), m.hex(), 'md5 in parts'); same(r[4].hex(), s.hex(), 'sha1 in parts'); same(r[5], b'1', 'data left unchanged')
    note.nt = len(data) > 55 or len(parts) > 1
def gen_big(d):
    # data around the sizes at which the 32 bits of the counters of bits carry: 512 MB, 1 GB and so on
    kind = d.int(0, 1); M = 1 << 29
    total = M * d.weighted([(3, 1), (1, 2)]) + d.weighted([(3, d.int(-70, 70)), (1, d.int(0, 1 << 22)), (1, -d.int(0, 1 << 22))])
    parts = []; left = total
    if d.bool(0.5): parts.append(d.int(0, 200)); left -= parts[-1]
    step = d.weighted([(2, 1 << 20), (1, (1 << 20) + d.int(-70, 70)), (2, M), (1, 1 << 26)])
    while left: k = min(step, left); parts.append(k); left -= k
    if d.bool(0.5): parts.append(d.int(0, 200))
    return [kind, d.int(0, 10 ** 6), parts]
def run_big(env, case, note):
    kind, seed, parts = case
    piece = blob(seed, 1 << 16)
    h = (hashlib.sha1 if kind else hashlib.md5)()
    wide = piece * 16
    for k in parts:
        for i in range(0, k, len(wide)): h.update(wide[:k - i])
    r = env.w.call('digests_big', kind, piece, b''.join(u32(p) for p in parts))
    same(r[0].hex(), h.hexdigest(), '%s of %d bytes in %d updates' % ('sha1' if kind else 'md5', sum(parts), len(parts)))
    note.nt = sum(parts) >= 1 << 29
def gen_wide(d): return [wide_bytes(d), [wide(d, 70000) for _ in range(d.int(0, 5))]]
CHECKS = [Check('wide', gen_wide, run, 1200, files=FILES), Check('big', gen_big, run_big, 16, thorough=200), Check('digests', gen, run, 120000, files=FILES)]
