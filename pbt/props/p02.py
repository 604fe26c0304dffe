from .common import *
from .. import http as H
RULE = 'at least one body framed by length or chunks, or at least two pipelined messages'
FILES = ('viriatum/http/http_parser.*',)
def observed(text): return [l for l in text.decode('latin-1').split('\n')[:-1]]
def gen(request):
    def g(d):
        n = d.size(8, 1, 3)
        return [[H.message(d, request, 60000 if d.bool(0.04) else 3000, last=i == n - 1) for i in range(n)], d.bool(0.5), d.int(0, 2 ** 31)]
    return g
def check(env, case, note, request):
    ms, split, seed = case
    data = b''.join(H.wire(m) for m in ms)
    parts = b''
    if split:
        k = seed % 3
        if k == 0: parts = u32(1 + seed // 3 % max(1, len(data)))
        elif k == 1: parts = u32(1 + seed // 3 % 17) * min(len(data), 2000)
        else: parts = u32(1) * min(len(data), 3000)
    got = observed(env.w.call('parse', 1 if request else 0, data, parts)[0])
    want = []
    for m in ms: want += H.events(m)
    want.append('OK')
    for i in range(max(len(want), len(got))):
        w = want[i] if i < len(want) else '<nothing>'; g = got[i] if i < len(got) else '<nothing>'
        if g != w: raise Fail('observation %d of the parser is %s, expected %s' % (i, short(g), short(w)))
    note.nt = len(ms) > 1 or any(m['framing'] in ('length', 'chunked', 'eof') for m in ms)
    for m in ms: note.label(m['framing'])
    note.label('pipelined', len(ms) > 1); note.label('split', split); note.label('trailers', any(m.get('trailers') for m in ms))
CHECKS = [Check('requests', gen(True), lambda e, c, n: check(e, c, n, True), 20000, files=FILES),
          Check('responses', gen(False), lambda e, c, n: check(e, c, n, False), 10000, files=FILES)]
