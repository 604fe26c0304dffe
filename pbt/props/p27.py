from .common import *
RULE = 'writes that are not aligned to bytes, and a seek or a read partition different from the write partition'
FILES = ('viriatum_commons/stream/bit_stream.*',)
def gen(d):
    wr = []; total = 0
    big = d.bool(0.08)
    if big:
        # cross the internal buffer
        fill = d.choice([4080, 4095, 4096, 4097, 8190, 8192, 8193, 12288]) + d.int(-6, 6)
        seed = d.int(0, 10 ** 6)
        wr.append(['fill', seed, fill]); total += 8 * fill
    for _ in range(d.size(120, small=20)):
        if d.bool(): n = d.int(0, 8); wr.append([1, d.int(0, 2 ** n - 1), n])
        else: n = d.int(0, 16); wr.append([2, d.int(0, 2 ** n - 1), n])
        total += n
    rd = []; pos = 0
    if big:
        skip = d.choice([0, 1, 2]) * 4096 + d.int(-8, 8)
        skip = max(0, min(skip, total // 8 - 4)); rd.append(['skip', skip]); pos = 8 * skip
    for _ in range(d.size(160, small=25)):
        k = d.weighted([(4, 1), (4, 2), (2, 3)])
        if k == 3:
            n = d.weighted([(4, d.int(0, min(pos, 16))), (1, d.int(0, pos)), (1, min(pos, d.int(0, 80)))])
            rd.append([3, n]); pos -= n
        else:
            n = d.int(0, 8 if k == 1 else 16); n = min(n, total - pos)
            rd.append([k, n]); pos += n
    return [wr, rd, d.bool(0.3)]
def run(env, case, note):
    wr, rd, eof = case
    raw = b''; s = []
    for o in wr:
        if o[0] == 'fill':
            for b in blob(4 + o[1] * 5, o[2]): raw += u8(1) + u32(b) + u8(8); s.append(format(b, '08b'))
        else:
            raw += u8(o[0]) + u32(o[1]) + u8(o[2])
            if o[2]: s.append(format(o[1], '0%db' % o[2]))
    s = ''.join(s); rr = b''; want = ['%d' % len(s)]; pos = 0
    for o in rd:
        if o[0] == 'skip':
            for i in range(o[1]): rr += u8(1) + u32(8); want.append('%d' % int(s[pos:pos + 8], 2)); pos += 8
        elif o[0] == 3: rr += u8(3) + u32(o[1]); pos -= o[1]
        else: rr += u8(o[0]) + u32(o[1]); want.append('%d' % (int(s[pos:pos + o[1]], 2) if o[1] else 0)); pos += o[1]
    if eof:
        # behind the end there are only zeros
        pad = s + '0' * (-len(s) % 8 + 64)
        while pos < len(s) + 24: rr += u8(2) + u32(13); want.append('%d' % int(pad[pos:pos + 13], 2)); pos += 13
    want.append('%d' % pos)
    r = env.w.call('bits', raw, rr)
    full = s + '0' * (-len(s) % 8)
    same(r[0], bytes(int(full[i:i + 8], 2) for i in range(0, len(full), 8)), 'bytes of the stream')
    same_lines(r[1], want, rd, 'bit stream')
    note.nt = any(o[0] != 'fill' and o[2] % 8 for o in wr) and len(rd) > 1
    note.label('crosses the buffer', len(s) > 4096 * 8); note.label('seek', any(o[0] == 3 for o in rd))
CHECKS = [Check('bits', gen, run, 24000, files=FILES)]
