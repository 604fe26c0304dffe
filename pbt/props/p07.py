import re
from .common import *
from .. import web as W, server as S
from .p05 import check_ok
RULE = 'the range is valid and selects a proper part of the file, or nothing, or the header is to be ignored'
FILES = ('viriatum/handlers/handler_file.*', 'viriatum/http/http_util.*')
def number(d, n):
    k = d.int(0, 4)
    if k <= 1: v = d.int(0, n + 2)
    elif k == 2: v = max(0, n + d.int(-2, 2))
    elif k == 3: v = d.choice([0, 1, 2, n // 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 10 ** 17, 10 ** 18 - 1])
    else: v = d.magic_int(0, 2 * n + 5)
    s = b'%d' % v
    if d.bool(0.1): s = (b'0' * d.int(1, 8) + s)[-18:]
    return s
def gen_range(d, n):
    k = d.weighted([(6, 'ab'), (3, 'a'), (3, 'suffix'), (1, 'bad'), (1, 'reverse')])
    if k == 'ab':
        a, b = number(d, n), number(d, n)
        if int(a) > int(b) and d.bool(0.8): a, b = b, a
        return b'bytes=' + a + b'-' + b
    if k == 'a': return b'bytes=' + number(d, n) + b'-'
    if k == 'suffix': return b'bytes=-' + number(d, n)
    if k == 'reverse': x = d.int(1, n + 5); return b'bytes=%d-%d' % (x, x - d.int(1, x))
    return d.choice([b'bytes=-', b'bytes=', b'bytes', b'bytes=a-b', b'bytes=1', b'bytes=1-2,4-5', b'bytes=0-0,-1', b'items=0-1', b'Bits=0-1', b'bytes 0-1', b'=0-1', b'0-1', b'bytes=1-2-3', b'bytes=-1-', b'bytes=0x1-2', b'bytes=1 -2',
                     b'bytes=1- 2', b'bytes=+1-2', b'bytes=--2', b'bytes=1-2;', b'bytes=1-2x', b'bytes==1-2', b'bytes=1.0-2', b'lines=0-', b'bytes=0-,', b'bytes=,0-1', b'a' * d.int(1, 300), b'bytes=0-1' + b',' * d.int(1, 300), b'bytes=\xff-2'])
def model(rng, n):
    """-> ('full',) ('part', first, last) ('none',)"""
    m = re.match(rb'^bytes=(\d{0,18})-(\d{0,18})$', rng)
    if not m or m.group(0) == b'bytes=-': return ('full',)
    a, b = m.groups()
    if a == b'':
        k = int(b)
        if k == 0 or n == 0: return ('none',)
        return ('part', max(0, n - k), n - 1)
    a = int(a)
    if b and int(b) < a: return ('full',)
    last = min(int(b), n - 1) if b else n - 1
    return ('part', a, last) if a <= last else ('none',)
def gen(d):
    n = d.size(300000, small=20) if d.bool(0.3) else d.size(3000, small=30)
    if d.bool(0.15): n = d.choice([262143, 262144, 262145, 300000, 524288, 600000])
    return [[d.int(0, 2 ** 16), n], [[gen_range(d, n), d.choice([b'Range', b'Range', b'range', b'RANGE']), d.bool(0.5)] for _ in range(d.int(1, 6))]]
def run(env, case, note):
    b, rs = case; data = blob(*b); n = len(data)
    s = W.server(env)
    with W.Tree(s) as t:
        W.put(t.path + b'/f.txt', data); target = b'/' + t.rel + b'/f.txt'
        c = None
        for rng, name, keep in rs:
            if c is None: c = s.connect()
            c.send(S.request(target, [(name, rng)], keep=keep)); r = c.response()
            if not keep: c.expect_close(); c.close(); c = None
            w = model(rng, n)
            note.label(w[0])
            if w[0] == 'full': check_ok(r, b'f.txt', data)
            elif w[0] == 'none': same(r.status, 416, 'status of %r for %d bytes' % (rng, n)); expect(data[:40] not in r.body or n < 40, 'contents in the 416 response')
            else:
                a, z = w[1], w[2]
                same(r.status, 206, 'status of %r for %d bytes' % (rng, n))
                same(len(r.body), z - a + 1, 'length of the body for %r of %d' % (rng, n))
                expect(r.body == data[a:z + 1], 'the body for %s of %d differs', rng, n)
                same(r.header(b'Content-Range'), b'bytes %d-%d/%d' % (a, z, n), 'Content-Range')
                same(r.header(b'Content-Length'), b'%d' % (z - a + 1), 'Content-Length')
            if w[0] != 'part' or z - a + 1 < n: note.nt = True
        if c: c.close()
    s.died()
def gen_f(d):
    n = d.magic_int(0, 2 ** 40) if d.bool(0.4) else d.size(3000, small=30)
    return [n, gen_range(d, n)]
def run_f(env, case, note):
    n, rng = case
    if 0 in rng: return
    r = env.w.call('range', rng, n); w = model(rng, n)
    note.nt = w[0] != 'part' or w[2] - w[1] + 1 < n
    if w[0] == 'full': same(r[0], b'1', 'status of %r for %d bytes' % (rng, n))
    else:
        same(r[0], b'0', 'status of %r for %d bytes' % (rng, n))
        if w[0] == 'none': expect(int(r[1]) > int(r[2]), 'the empty selection %r of %d is %s-%s', rng, n, r[1], r[2])
        else: same((int(r[1]), int(r[2])), w[1:], 'limits of %r for %d bytes' % (rng, n))
CHECKS = [Check('requests', gen, run, 14000, files=FILES), Check('limits', gen_f, run_f, 60000, files=FILES)]
