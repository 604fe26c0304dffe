from .common import *
RULE = 'a read of bytes that were written after a seek back, or a write behind the end'
FILES = ('viriatum_commons/stream/memory_stream.*', 'viriatum_commons/stream/file_stream.*')
def gen_for(kind):
    def gen(d):
        ops = []; last = None; far = d.choice([20, 20, 200, 9000])
        for _ in range(d.size(80, small=20)):
            k = d.weighted([(4, 'w'), (4, 'r'), (3, 's'), (1, 't'), (1, 'z'), (1, 'f')])
            if k == 'w':
                # the C library wants a position to be set between reading and writing
                if last == 'r' and kind: ops.append(['s', d.size(far)])
                ops.append(['w', d.bytes(6000 if far > 100 else 60, small=12)]); last = 'w'
            elif k == 'r':
                if last == 'w' and kind: ops.append(['s', d.size(far)])
                ops.append(['r', d.size(10000 if far > 100 else 60, small=16)]); last = 'r'
            elif k == 's': ops.append(['s', d.size(far)]); last = None
            else: ops.append([k])
        return [kind, ops]
    return gen
def run(env, case, note):
    kind, ops = case
    raw = b''; want = []; m = bytearray(); pos = 0; nt = False; seeked = False
    for o in ops + [['t'], ['z'], ['s', 0], ['r', 30000]]:
        if o[0] == 'w':
            raw += u8(1) + lb(o[1]); want.append('%d' % len(o[1]))
            if o[1]:
                if pos > len(m): m += bytes(pos - len(m)); nt = True
                m[pos:pos + len(o[1])] = o[1]; pos += len(o[1])
        elif o[0] == 'r':
            raw += u8(2) + u32(o[1]); b = bytes(m[pos:pos + o[1]]); pos += len(b); want.append('x' + b.hex() + ' %d' % len(b)); nt |= seeked and len(b) > 0
        elif o[0] == 's': raw += u8(3) + u32(o[1]); pos = o[1]; seeked = True
        elif o[0] == 't': raw += u8(4); want.append('%d' % pos)
        elif o[0] == 'z': raw += u8(5); want.append('%d' % len(m))
        else: raw += u8(6)
    r = env.w.call('strm', kind, raw)
    if kind: same(r[0], bytes(m), 'contents of the file')
    same_lines(r[-1], want, ops, 'stream')
    note.nt = nt; note.label('behind 4096', len(m) > 4096)
def gen_large(kind):
    def gen(d):
        ops = []
        for _ in range(d.int(1, 8)):
            ops.append(['s', wide(d)]); k = d.choice('wwr')
            ops.append([k, wide_bytes(d) if k == 'w' else wide(d)])
        return [kind, ops]
    return gen
CHECKS = [Check('large memory', gen_large(0), run, 400, files=FILES), Check('large file', gen_large(1), run, 240, files=FILES), Check('memory', gen_for(0), run, 50000, files=FILES), Check('file', gen_for(1), run, 16000, files=FILES)]
