import os, resource, time
from ..engine import rng_for
from .common import *
from .. import web as W, server as S, http as H
RULE = 'at least two requests on one connection or at least two connections with requests at the same time'
FILES = ('viriatum/http/*.c', 'viriatum/system/service.c', 'viriatum/stream/stream_http.c', 'viriatum/stream/stream_io.c', 'viriatum/handlers/handler_file.c', 'viriatum/system/polling_epoll.c')
PW = b'user:password\n'
SIZES = [0, 1, 100, 5000, 65535, 262143, 262144, 262145, 400000, 1200000]
KINDS = [(6, 'file'), (2, 'big'), (2, 'missing'), (1, 'redirect'), (1, 'list'), (2, 'range'), (1, 'bad range'), (1, 'etag'), (1, '401'), (1, 'granted'), (1, 'unknown handler'), (1, 'bad escape')]
def one(d):
    """-> [bytes without the connection header split in two, keeps the connection]"""
    k = d.weighted(KINDS); h = []; t = b'/f%d' % d.int(0, 4)
    if k == 'big': t = b'/f%d' % d.int(5, len(SIZES) - 1)
    elif k == 'missing': t = b'/missing' + d.btext('abc', 6)
    elif k == 'redirect': t = b'/dir'
    elif k == 'list': t = b'/dir/'
    elif k == 'range': t = b'/f%d' % d.int(2, 7); h = [[b'Range', d.choice([b'bytes=0-9', b'bytes=5-', b'bytes=-7', b'bytes=50-60'])]]
    elif k == 'bad range': t = b'/f%d' % d.int(0, 4); h = [[b'Range', d.choice([b'bytes=9000000-', b'x=1-2', b'bytes=1-2,3-4'])]]
    elif k == 'etag': h = [[b'If-None-Match', d.choice([b'ETAG', b'ETAG', b'"00000000"'])]]
    elif k == '401': t = b'/auth/f1'
    elif k == 'granted': t = b'/auth/f1'; h = [[b'Authorization', b'Basic dXNlcjpwYXNzd29yZA==']]
    elif k == 'unknown handler': t = b'/unk/x'
    elif k == 'bad escape': t = b'/f%zz'
    m = b'GET'; body = b''
    b = d.weighted([(6, 'none'), (2, 'length'), (2, 'chunked'), (1, 'expect')])
    if b != 'none': m = d.choice([b'POST', b'PUT', b'GET'])
    if b == 'length': body = blob(d.int(0, 999), d.size(9000)); h.append([H.case_mix(d, b'Content-Length'), b'%d' % len(body)])
    elif b == 'chunked':
        h.append([H.case_mix(d, b'Transfer-Encoding'), b'chunked'])
        for _ in range(d.int(0, 4)):
            n = d.size(3000, 1); body += b'%x\r\n' % n + blob(d.int(0, 999), n) + b'\r\n'
        body += b'0\r\n' + d.choice([b'', b'', b'X-T: 1\r\n']) + b'\r\n'
    elif b == 'expect': m = d.choice([b'OPTIONS', b'DELETE', b'PATCH'])
    for _ in range(d.int(0, 3)): h.append([d.choice([b'X-A', b'Accept', b'Cookie']), d.btext('abc =;', 400 if d.bool(0.1) else 20, 1).strip() or b'x'])
    return [m, t + d.choice([b'', b'', b'?a=b']), h, d.weighted([(8, b'1.1'), (1, b'1.0')]), body]
def gen(d):
    conns = []
    for _ in range(d.weighted([(3, 1), (2, 2), (1, 3), (1, 6)])):
        reqs = [one(d) for _ in range(d.size(40, 1, 5))]
        ka = [d.choice([b'keep-alive', b'Keep-Alive']) for _ in reqs]
        if d.bool(0.5): ka[-1] = d.choice([b'close', None])
        if d.bool(0.15): ka[d.int(0, len(ka) - 1)] = d.choice([b'close', None])
        conns.append([reqs, ka])
    return [conns, d.weighted([(2, 'whole'), (2, 'cuts'), (1, 'bytes'), (2, 'lock')]), d.int(0, 2 ** 16), d.weighted([(3, 0), (2, 1), (1, 3)]), d.choice([None, None, None, 4096])]
def text(r, ka, etag):
    m, t, h, v, body = r
    hs = b''.join(b'%s: %s\r\n' % (n, etag if x == b'ETAG' else x) for n, x in h)
    return b'%s %s HTTP/%s\r\n%s%s\r\n%s' % (m, t, v, hs, b'Connection: ' + ka + b'\r\n' if ka else b'', body)
def boot(env):
    s = W.server(env)
    if 'p11' in env.cache: return env.cache['p11']
    pw = os.path.join(env.tmp, 'pw11'); W.put(pw, PW)
    s.configure('[location:a]\npath=^/auth\nhandler=file\nbase_path=%s\nauth_basic=r\nauth_file=%s\n[location:u]\npath=^/unk\nhandler=nothing\n' % (s.www, pw))
    for i, n in enumerate(SIZES): W.put(os.path.join(s.www, 'f%d' % i), blob(i + 3, n), 1000000000)
    os.makedirs(os.path.join(s.www, 'dir'))
    for i in range(5): W.put(os.path.join(s.www, 'dir', 'e%d' % i), b'', 1000000000)
    os.utime(os.path.join(s.www, 'dir'), (1000000000, 1000000000)); os.utime(s.www, (1000000000, 1000000000))
    env.cache['p11'] = (s, {}); return env.cache['p11']
def alone(s, known, r):
    """what the request gets on its own connection"""
    key = repr(r)
    if key not in known:
        if len(known) > 3000: known.clear()
        etag = known.setdefault('etag', None)
        if etag is None: known['etag'] = etag = s.get(b'/f1').header(b'ETag')
        c = s.connect()
        try: c.send(text(r, b'close', etag)); known[key] = c.response(); c.expect_close()
        finally: c.close()
        same((known[key].header(b'Connection') or b'').lower(), b'close', 'Connection')
    return known[key]
def run(env, case, note):
    conns, mode, seed, pause, rcv = case
    s, known = boot(env)
    plan = []
    for reqs, ka in conns:
        want = []; end = None
        for i, (r, k) in enumerate(zip(reqs, ka)):
            want.append((alone(s, known, r), k))
            if k is None or k == b'close': end = i; break
        plan.append((b''.join(text(r, k, known['etag']) for r, k in zip(reqs, ka)), want, end))
    rng = rng_for('p11', seed)
    cs = [s.connect(rcvbuf=rcv) for _ in plan]; cut = set()
    try:
        if mode == 'lock':
            # every connection sends the next request once it has the response to the one before; the connections alternate
            for i in range(max(len(c[0]) for c in conns)):
                order = [j for j in range(len(conns)) if i < len(plan[j][1])]; rng.shuffle(order)
                for j in order: cs[j].send(text(conns[j][0][i], conns[j][1][i], known['etag']))
                rng.shuffle(order)
                for j in order: compare(cs[j], plan[j][1][i], i, note)
        else:
            left = [c[0] for c in plan]; n = 0; extra = False
            while any(left):
                j = rng.choice([k for k in range(len(left)) if left[k]])
                k = len(left[j]) if mode == 'whole' else rng.randint(1, 3) if mode == 'bytes' and len(left[j]) < 600 else rng.choice([rng.randint(1, 20), rng.randint(1, 400), rng.randint(1, 20000)])
                if not cs[j].send(left[j][:k], strict=plan[j][2] is None or plan[j][2] == len(conns[j][0]) - 1): left[j] = b''
                left[j] = left[j][k:]
                n += 1
                if pause and n < 40 and mode != 'whole': time.sleep(pause / 1000.0)
            if pause == 3: time.sleep(0.005)
            order = list(range(len(plan))); rng.shuffle(order)
            for j in order:
                try:
                    for i, w in enumerate(plan[j][1]): compare(cs[j], w, i, note)
                except S.Closed:
                    # data sent after the last request that is answered makes the transport drop what was not delivered yet
                    if plan[j][2] is None or plan[j][2] == len(conns[j][0]) - 1: raise
                    note.label('cut'); cut.add(j)
        for j in range(len(plan)):
            if j in cut: continue
            if plan[j][2] is not None:
                cs[j].expect_close() if plan[j][2] == len(conns[j][0]) - 1 else closed(cs[j])
            elif mode == 'lock' or rng.random() < 0.3:
                # still open: one more request is answered
                r = one_more(rng); w = alone(s, known, r)
                cs[j].send(text(r, b'close', known['etag'])); compare(cs[j], (w, b'close'), len(plan[j][1]), note); cs[j].expect_close()
    finally:
        for c in cs: c.close()
    note.nt = len(plan) > 1 or len(plan[0][1]) > 1
    note.label(mode); note.label('requests', len(plan[0][1])); note.label('connections', len(plan))
    s.died()
def one_more(rng): return [b'GET', b'/f%d' % rng.randint(0, 5), [], b'1.1', b'']
def closed(c):
    """bytes sent after the last answered request may turn the close into a reset, but they get no answer"""
    while not c.eof and c.fill(): pass
    expect(not c.buf, 'data after the last response: %r', c.buf[:60])
def compare(c, want, i, note):
    w, k = want
    r = c.response()
    if r.same() != w.same():
        if r.status != w.status: raise Fail('response %d has the status %d, and %d on a connection of its own' % (i, r.status, w.status))
        if r.body != w.body: raise Fail('response %d has %d bytes of body that differ from the %d bytes of a connection of its own' % (i, len(r.body), len(w.body)))
        raise Fail('response %d has the headers %r, and %r on a connection of its own' % (i, r.headers, w.headers))
    same((r.header(b'Connection') or b'').lower(), b'close' if k in (None, b'close') else b'keep-alive', 'Connection of response %d' % i)
def gen_crowd(d):
    return [d.weighted([(1, d.int(200, 1000)), (3, d.int(1030, 1400)), (2, d.int(1400, 3000))]), d.choice(['small', 'small', 'large', 'mixed']), d.int(1, 4), d.bool(0.5), d.int(0, 2 ** 16)]
def run_crowd(env, case, note):
    """many connections that are all in use at the same time"""
    n, kind, depth, part, seed = case
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))
    if hard != resource.RLIM_INFINITY: n = min(n, hard - 200)
    s = W.server(env, 'p11c', keep=9000); rng = rng_for('p11c', seed)
    sizes = [0, 10, 3000, 70000, 600000]
    if s.p is None:
        for i, z in enumerate(sizes): W.put(os.path.join(s.www, 'f%d' % i).encode(), blob(i * 5 + 4, z))
        s.ensure()
    body = [blob(i * 5 + 4, z) for i, z in enumerate(sizes)]
    cs, want = [], []
    try:
        for i in range(n):
            big = kind == 'large' or kind == 'mixed' and rng.random() < 0.3
            cs.append(s.connect(rcvbuf=4096 if big else None))
            want.append([rng.choice([3, 4]) if big else rng.choice([0, 1, 2]) for _ in range(depth)])
        order = list(range(n))
        wire = [b''.join(S.request(b'/f%d' % k, keep=j < depth - 1) for j, k in enumerate(w)) for w in want]
        if part:
            # the first bytes of all, then the rest: every connection is within a request
            rng.shuffle(order)
            cut = [rng.randint(1, len(w) - 1) for w in wire]
            for i in order: cs[i].send(wire[i][:cut[i]])
            for i in order: cs[i].send(wire[i][cut[i]:])
        else:
            for i in order: cs[i].send(wire[i])
        rng.shuffle(order)
        gone = set(order[:n // 10]) if rng.random() < 0.5 else set()
        for i in gone: cs[i].reset() if rng.random() < 0.5 else cs[i].close()
        for i in order:
            if i in gone: continue
            for j, k in enumerate(want[i]):
                r = cs[i].response(); same(r.status, 200, 'status of response %d' % j)
                if r.body != body[k]: raise Fail('one of %d connections: response %d has %d bytes and is not the file of %d bytes' % (n, j, len(r.body), len(body[k])))
            cs[i].expect_close(); cs[i].close()
        s.died()
    finally:
        for c in cs: c.close()
    note.nt = n > 1024; note.label(kind); note.label('over 1024', n > 1024)
def gen_long(d):
    # many requests on one connection
    pool = [one(d) for _ in range(d.int(2, 6))]; conns = []
    small = [r for r in pool if r[1].split(b'?')[0] not in [b'/f%d' % i for i in range(4, len(SIZES))]]
    if small: pool = small
    for _ in range(d.choice([1, 1, 2])):
        reqs = [d.choice(pool) for _ in range(d.choice([60, 101, 130, 260, 520]))]
        conns.append([reqs, [b'keep-alive'] * (len(reqs) - 1) + [d.choice([b'keep-alive', b'close'])]])
    return [conns, d.choice(['whole', 'cuts', 'lock']), d.int(0, 2 ** 16), 0, None]
CHECKS = [Check('long', gen_long, run, 64, files=FILES), Check('histories', gen, run, 3200, files=FILES), Check('crowd', gen_crowd, run_crowd, 24, files=FILES)]
