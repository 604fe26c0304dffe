import os
from .common import *
from .. import web as W, server as S
from .p05 import check_ok
RULE = 'the history changes the modification time between two requests, and has a conditional request'
FILES = ('viriatum/handlers/handler_file.*', 'viriatum/http/http_util.*')
def gen(d):
    ops = []
    for _ in range(d.size(14, 3, 6)):
        k = d.weighted([(4, 'get'), (5, 'cond'), (3, 'touch'), (2, 'write'), (2, 'same')])
        if k == 'touch': ops.append([k, d.choice([0, 1, 59, 60, 86399, 951782400, 951782401, 1709164800, 1000000000, 1000000001, 2 ** 31 - 1, d.int(0, 4102444800)])])
        elif k == 'write': ops.append([k, [d.int(0, 2 ** 16), d.size(20000, small=60)], d.int(0, 2 ** 31 - 1)])
        elif k == 'same': ops.append([k, [d.int(0, 2 ** 16), d.size(20000, small=60)]])
        elif k == 'cond': ops.append([k, d.weighted([(5, 'current'), (3, 'old'), (1, 'unquoted'), (1, 'upper'), (1, 'suffix'), (1, 'prefix'), (1, 'other'), (1, 'empty'), (1, 'long')]), d.int(0, 3),
                                      d.choice([b'If-None-Match', b'If-None-Match', b'if-none-match']), d.bool(0.5)])
        else: ops.append([k, d.bool(0.5)])
    return [[d.int(0, 2 ** 16), d.size(20000, small=60)], d.int(0, 2 ** 31 - 1), ops]
def run(env, case, note):
    b, mtime, ops = case
    s = W.server(env); data = blob(*b); tags = {}; old = []; cur = None; changed = cond = False; c = None
    with W.Tree(s) as t:
        p = t.path + b'/file.html'; W.put(p, data, mtime); target = b'/' + t.rel + b'/file.html'
        def ask(headers, keep):
            nonlocal c
            if c is None: c = s.connect()
            c.send(S.request(target, headers, keep=keep)); r = c.response()
            if not keep: c.expect_close(); c.close(); c = None
            return r
        def tag(r):
            e = r.header(b'ETag'); expect(e, 'no ETag')
            if mtime in tags: same(e, tags[mtime], 'ETag for the same modification time')
            else:
                # the tags are 32 bit checksums: only the neighbour in the history has to differ
                if old and old[-1][0] != mtime: expect(e != old[-1][1], 'the ETag %s is unchanged for the modification times %d and %d', e, old[-1][0], mtime)
                tags[mtime] = e
            if not old or old[-1] != (mtime, e): old.append((mtime, e))
            return e
        cur = tag(ask([], False))
        for o in ops:
            if o[0] == 'touch': mtime = o[1]; os.utime(p, (mtime, mtime)); changed = True; cur = None
            elif o[0] == 'write': data = blob(*o[1]); mtime = o[2]; W.put(p, data, mtime); changed = True; cur = None
            elif o[0] == 'same': data = blob(*o[1]); W.put(p, data, mtime)
            elif o[0] == 'get': r = ask([], o[1]); check_ok(r, b'file.html', data); cur = tag(r)
            else:
                if cur is None: cur = tag(ask([], False))
                cond = True
                v = {'current': cur, 'unquoted': cur.strip(b'"'), 'upper': cur.upper(), 'suffix': cur + b'x', 'prefix': cur[:-1], 'other': b'"00000000"', 'empty': b'', 'long': cur[:-1] + b'0' * 300 + b'"',
                     'old': old[o[2] % len(old)][1]}[o[1]]
                r = ask([(o[3], v)], o[4])
                note.label('match', v == cur)
                if v == cur:
                    same(r.status, 304, 'status with the current ETag'); same(r.body, b'', 'body of the 304 response')
                else: check_ok(r, b'file.html', data); tag(r)
        if c: c.close()
    note.nt = changed and cond
    s.died()
CHECKS = [Check('histories', gen, run, 24000, files=FILES)]
