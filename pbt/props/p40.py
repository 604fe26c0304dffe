import os, time
from .common import *
from ..engine import rng_for
from .. import life as L, server as S, web as W
RULE = 'a connection that ends before its response, a backend that fails or is left, an error response, a protected location, or a failed handshake'
FILES = ('viriatum/system/service.c', 'viriatum/stream/stream_*.c', 'viriatum/handlers/*.c')
def plain(st): return st[0] in ('ask', 'open') and st[1] in (b'/f/a.txt', b'/f/dir', b'/h') and st[3] in ('stay', 'close')
def resources(env):
    if 'life' not in env.cache: env.cache['life'] = (L.Backend(env), S.free_port(env.tag))
    return env.cache['life']
def quiet(s, base):
    """waits until the server has seen the end of the connections -> allocated bytes, open descriptors"""
    end = time.monotonic() + S.ANSWER
    while True:
        a = s.usage()
        if base is None or a[1] <= base:
            b = s.usage()
            if a == b: return a
        if time.monotonic() > end:
            if base is not None and a[1] > base: raise Fail('%d descriptors are open after all connections were closed, %d before' % (a[1], base))
            return a
        s.died(); time.sleep(0.001)
def gen_repeat(d):
    conf = L.config(d)
    if d.bool(0.7): conf[0] = False
    return [conf, [L.step(d, conf[0]) for _ in range(d.weighted([(3, 1), (4, d.int(2, 4)), (1, d.int(4, 10))]))], d.int(0, 2 ** 16)]
def run_repeat(env, case, note):
    """the same history again and again: what is allocated has to stop growing"""
    conf, steps, seed = case
    b, dead = resources(env)
    s = W.server(env, 'p40', keep=400, stat=True, leaks=True)
    ini = L.ini(env, conf, b, dead)
    if s.ini != ini or (s.p and s.conns > 300):
        if s.p: s.finish()
        s.ini = ini
    if not s.p: s.start(); s.fds = None
    s.conns += 1
    note.nt = not all(plain(x) for x in steps)
    c = L.Client(s, conf, note)
    try:
        if s.fds is None:
            # after the first connections, when what is created once is there
            for _ in range(2): c.run(['ask', b'/f/a.txt', [], 'close', 1])
            time.sleep(0.01); s.fds = quiet(s, None)[1]
            s.fds = min(s.fds, quiet(s, None)[1])
        sizes = []
        for i in range(9):
            for st in steps: c.run(st)
            c.close(); b.clear()
            n = quiet(s, s.fds)[0]
            sizes.append(n)
            # the session cache of TLS grows
            if i > 1 and sizes[-1] <= sizes[-2] or conf[0]: break
            note.label('round %d' % i)
        else:
            raise Fail('the same history on one server allocates more and more: %s bytes' % sizes)
    finally: c.close(); b.clear()
def gen_end(d):
    conf = L.config(d)
    return [conf, [L.step(d, conf[0]) for _ in range(d.int(3, 16))], d.bool(0.4), d.int(0, 2 ** 16)]
def run_end(env, case, note):
    """one process per history, which reports what it lost at its end"""
    conf, steps, close, seed = case
    b, dead = resources(env); rng = rng_for('p40', seed)
    s = W.server(env, 'p40e', leaks=True, stat=True); s.stop(); s.ini = L.ini(env, conf, b, dead); s.start()
    c = L.Client(s, conf, note); note.nt = not all(plain(x) for x in steps)
    try:
        for st in steps: c.run(st)
        if close:
            c.close(rng); b.clear(); note.label('closed first')
            end = time.monotonic() + S.ANSWER; first = s.usage()[1]
            k = c.dial(rng); k.send(S.request(b'/f/a.txt')); k.response(); k.close()
        s.finish()
    finally: c.close(); b.clear(); s.stop()
def gen_kept(d):
    conf = L.config(d)
    if d.bool(0.7): conf[0] = False
    def body():
        k = d.weighted([(2, 'none'), (3, 'length'), (2, 'chunked')])
        return [k] + ([] if k == 'none' else [d.choice([0, 1, 1023, 1024, 1025, 16384, 40000]) if d.bool(0.2) else d.size(20000, small=300)])
    def request(): return [d.choice([b'GET', b'POST', b'HEAD', b'PUT']), d.choice([b'/f/a.txt', b'/f/dir/', b'/f/dir', b'/f/none', b'/f/big', b'/auth/a.txt', b'/h', b'/p/kept', b'/p/kept', b'/p/keptchunks']), d.choice(L.HEADERS), body()]
    return [conf, [request() for _ in range(d.weighted([(3, 1), (4, d.int(2, 4)), (1, d.int(4, 8))]))], d.choice(['whole', 'whole', 'head', 'parts']), d.int(0, 2 ** 16)]
def run_kept(env, case, note):
    """the same requests again and again on one connection: what is allocated has to stop growing"""
    conf, reqs, cut, seed = case
    b, dead = resources(env)
    s = W.server(env, 'p40', keep=400, stat=True, leaks=True)
    ini = L.ini(env, conf, b, dead)
    if s.ini != ini or (s.p and s.conns > 300):
        if s.p: s.finish()
        s.ini = ini
    if not s.p: s.start(); s.fds = None
    s.conns += 1
    note.nt = any(r[3][0] != 'none' for r in reqs) and cut != 'whole' or len(reqs) > 1
    k = L.Client(s, conf, note); rng = rng_for('p40k', seed); c = k.dial(rng); sizes = []
    def settled():
        end = time.monotonic() + S.ANSWER
        while time.monotonic() < end:
            a = s.usage(); n = s.usage()
            if a == n: return a[0]
        return a[0]
    # the same bytes and pieces in all rounds
    wires = []
    for m, t, h, body in reqs:
        data = bytes(body[1]) if body[0] != 'none' else b''
        hs = [tuple(x) for x in h] + [(b'Content-Length', b'%d' % len(data))] * (body[0] == 'length') + [(b'Transfer-Encoding', b'chunked')] * (body[0] == 'chunked')
        if body[0] == 'chunked': data = b''.join(b'%x\r\n%s\r\n' % (len(data[j:j + 700]), data[j:j + 700]) for j in range(0, len(data), 700)) + b'0\r\n\r\n'
        w = S.request(t, hs, keep=True, method=m); n = len(w); w += data
        points = {'whole': [], 'head': [n], 'parts': sorted(rng.randint(1, len(w)) for _ in range(3))}[cut]
        wires.append((m, t, [w[x:y] for x, y in zip([0] + points, points + [len(w)]) if y > x]))
    try:
        for i in range(12):
            for m, t, pieces in wires:
                try:
                    for j, p in enumerate(pieces):
                        if j: time.sleep(0.0005)
                        c.send(p, False)
                    r = c.response(bodyless=m == b'HEAD')
                except S.Closed: raise Fail('the connection is closed without the response to %s %s' % (m.decode(), t.decode()))
                if (r.header(b'Connection') or b'').lower() != b'keep-alive': raise Fail('the response to %s %s does not keep the connection' % (m.decode(), t.decode()))
            sizes.append(settled())
            if i > 1 and sizes[-1] <= sizes[-2]: break
            note.label('round %d' % i)
        else:
            raise Fail('the same requests on one connection allocate more and more: %s bytes' % sizes)
    except Fail: s.died(); raise
    finally: c.close(); b.clear()
CHECKS = [Check('kept', gen_kept, run_kept, 800, files=FILES), Check('repeat', gen_repeat, run_repeat, 1600, files=FILES), Check('end', gen_end, run_end, 700, files=FILES)]
