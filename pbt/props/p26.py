from .common import *
RULE = 'at least three different symbols with different frequencies'
ASSUMPTIONS = ['no code is longer than 16 bits: data of at most 4000 bytes, or longer data with flat frequencies']
FILES = ('viriatum_commons/compression/*', 'viriatum_commons/stream/bit_stream.h')
def gen(d):
    k = d.weighted([(3, 'bytes'), (3, 'skew'), (1, 'flat'), (2, 'sym'), (1, 'fib')])
    if k == 'bytes': data = d.bytes(4000, small=30)
    elif k == 'flat':
        n = d.size(20000, 4000, small=200); m = d.choice([2, 3, 7, 16, 100, 256])
        b = blob(4 + 5 * d.int(0, 10 ** 6), n); data = bytes(x % m for x in b)
    elif k == 'skew':
        syms = [d.int(0, 255) for _ in range(d.int(1, 40))]; data = bytearray()
        for i, s in enumerate(syms): data += bytes([s]) * d.size(max(1, 3900 // len(syms)), 1, small=12)
        data = bytes(data)
    elif k == 'fib':
        a, b, data = 1, 1, bytearray()
        m = d.int(2, 15)
        for i in range(m): data += bytes([(i * 37 + 5) % 256]) * a; a, b = b, a + b
        data = bytes(data[:4000])
    else:
        a = [d.int(0, 255) for _ in range(d.int(1, 6))]; data = bytes(d.choice(a) for _ in range(d.size(600, small=30)))
    shuffle = d.int(0, 2 ** 16)
    if shuffle % 2:
        import random
        x = bytearray(data); random.Random(shuffle).shuffle(x); data = bytes(x)
    return [data, d.int(0, 1)]
def run(env, case, note):
    data, prefix_first = case
    r = env.w.call('huff', data, prefix_first)
    codes, tail = r[0].decode().split('\n')[:2]
    codes = [tuple(map(int, c.split(','))) for c in codes.split()]
    freq = {}
    for b in data: freq[b] = freq.get(b, 0) + 1
    total, bad = map(int, tail.split())
    same(bad, 0, 'codes that are a prefix of another one')
    for name, o in zip(('decode', 'tree decoder', 'table decoder'), r[2:5]): same(o, data, name)
    if data:
        same(sorted(c[0] for c in codes), sorted(freq), 'symbols with a code')
        bits = sum(freq[c[0]] * c[1] for c in codes)
        same(len(r[1]), (bits + 7) // 8, 'compressed size')
        # an optimal code: as long as the one a reference construction gives
        import heapq
        h = sorted(freq.values()); want = 0
        if len(h) > 1:
            heapq.heapify(h)
            while len(h) > 1: x = heapq.heappop(h) + heapq.heappop(h); want += x; heapq.heappush(h, x)
            same(bits, want, 'total number of bits of an optimal code')
    note.nt = len(set(freq.values())) > 1 and len(freq) > 2
    m = max([c[1] for c in codes] or [0]); note.label('longest code %s' % ('<=4' if m <= 4 else '<=8' if m <= 8 else '<=12' if m <= 12 else '>12'))
CHECKS = [Check('round-trip', gen, run, 12000, files=FILES)]
