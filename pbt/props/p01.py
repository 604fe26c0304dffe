from .common import *
from .. import http as H
RULE = 'the bytes are divided into at least two reads and hold at least one complete message or an error'
FILES = ('viriatum/http/http_parser.*',)
def mutate(d, data):
    b = bytearray(data)
    for _ in range(d.int(1, 4)):
        if not b: break
        k = d.int(0, 4); i = d.int(0, len(b) - 1)
        if k == 0: b[i] = d.choice([0, 9, 10, 13, 32, 48, 58, 59, 97, 255, 127, 47])
        elif k == 1: del b[i:i + d.int(1, 12)]
        elif k == 2: b[i:i] = d.btext('\r\n :;0aGH\t/x', 10, 1)
        elif k == 3: del b[i:]
        else: b[i:i] = b[max(0, i - d.int(1, 40)):i]
    return bytes(b)
def gen_req(d):
    data = b''.join(H.wire(H.message(d, True, 400)) for _ in range(d.int(1, 3)))
    k = d.weighted([(4, 'valid'), (4, 'mutated'), (1, 'any')])
    if k == 'mutated': data = mutate(d, data)
    elif k == 'any': data = d.choice([b'', b'GET / HTTP/1.1\r\n', b'POST /a HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n']) + d.btext('\r\n\r\n :;0123abcfGETPOST/HTTP1.1\t\x00\xff', 300)
    return [data, H.cuts(d, len(data)), k]
def gen_res(d):
    n = d.int(1, 3); data = b''.join(H.wire(H.message(d, False, 400, last=i == n - 1)) for i in range(n))
    if d.bool(0.2): data = data[:d.int(0, len(data))]
    return [data, H.cuts(d, len(data)), 'valid']
def check(env, case, note, request):
    data, cuts, kind = case
    whole = env.w.call('parse', 1 if request else 0, data, b'')[0].decode('latin-1').split('\n')
    parts = env.w.call('parse', 1 if request else 0, data, b''.join(u32(x) for x in cuts))[0].decode('latin-1').split('\n')
    for i in range(max(len(whole), len(parts))):
        w = whole[i] if i < len(whole) else '<nothing>'; g = parts[i] if i < len(parts) else '<nothing>'
        if g != w: raise Fail('observation %d is %s when the bytes arrive in %s reads, and %s when they arrive at once' % (i, short(g), len(cuts) + 1, short(w)))
    note.nt = len(cuts) > 1 and any(x.startswith(('DONE', 'ERROR')) for x in whole)
    note.label(kind); note.label('error', 'ERROR' in whole); note.label('complete', any(x.startswith('DONE') for x in whole))
CHECKS = [Check('requests', gen_req, lambda e, c, n: check(e, c, n, True), 40000, files=FILES),
          Check('responses', gen_res, lambda e, c, n: check(e, c, n, False), 16000, files=FILES)]
