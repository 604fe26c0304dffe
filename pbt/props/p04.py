import os, socket, struct, threading, time
from .common import *
from ..engine import rng_for
from .. import web as W, server as S, http as H
from .p01 import mutate
RULE = 'bytes that are no complete valid message, or a connection that is reset, half-closed or left unread, or at least three connections at once, or a request that is repeated and given up'
FILES = ('viriatum/stream/*', 'viriatum/handlers/*', 'viriatum/http/*', 'viriatum/system/service.c', 'viriatum/polling/*')

class Wild(object):
    """a backend for the proxied location that answers with whatever the case says"""
    def __init__(self, env):
        self.s = socket.socket(); self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.port = S.free_port(env.tag); self.s.bind(('127.0.0.1', self.port)); self.s.listen(64)
        self.plans, self.i, self.lock, self.conns, self.live = [], 0, threading.Lock(), set(), True
        env.closers.append(self.stop); threading.Thread(target=self.accept, daemon=True).start()
    def stop(self):
        self.live = False; self.clear([])
        try: self.s.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.s.close()
    def clear(self, plans):
        with self.lock: cs = list(self.conns); self.plans, self.i = plans, 0
        for c in cs:
            try: c.shutdown(socket.SHUT_RDWR)
            except OSError: pass
    def accept(self):
        while self.live:
            try: c, _ = self.s.accept()
            except OSError: return
            with self.lock: self.conns.add(c)
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()
    def serve(self, c):
        c.settimeout(30)
        try:
            while True:
                if not c.recv(1 << 16): return
                with self.lock:
                    if not self.plans: return
                    pieces, after = self.plans[self.i % len(self.plans)]; self.i += 1
                for p in pieces: c.sendall(p); time.sleep(0.0005)
                if after == 'reset': c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                if after == 'half': c.shutdown(socket.SHUT_WR)
                elif after != 'keep': return
        except OSError: pass
        finally:
            with self.lock: self.conns.discard(c)
            try: c.close()
            except OSError: pass

SMALL = blob(77, 900); MEDIUM = blob(78, 70000); LARGE = blob(79, 1 << 20) * 12
INI = ('[general]\nuse_template=%s\nindex=index.html main.html\n[location:a]\npath=^/auth\nauth_basic=zone\nauth_file=passwd\n[location:b]\npath=^/proxy\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/x\n'
       '[location:c]\npath=^/dead\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/\n[location:d]\npath=^/hello\nhandler=default\n[location:e]\npath=^/unknown\nhandler=nothing\n'
       '[location:f]\npath=^/base\nbase_path=www/sub\n')
def target(d):
    t = d.choice([b'/', b'/small.bin', b'/medium.bin', b'/large.bin', b'/large.bin', b'/sub', b'/sub/', b'/list/', b'/none', b'/auth/small.bin', b'/proxy', b'/proxy/', b'/proxy/a/b', b'/proxy/a/b', b'/proxy/c', b'/proxy/d', b'/proxy', b'/dead/x', b'/hello', b'/unknown', b'/base/', b'/base'])
    k = d.int(0, 9)
    if k == 0: t += b'?' + d.btext('ab=&%?/', 3000 if d.bool(0.2) else 30)
    elif k == 1: t += d.btext('/.%2efF0a\\~', 40)
    elif k == 2: t += b'/' + d.choice([b'a' * 1010, b'a' * 1030, b'a' * 4080, b'a/' * 2050, b'%41' * 1370, b'../' * 300, b'b' * 20000, b'%00', b'%', b'%z', b'\xff\xfe'])
    return t
def request(d):
    m = H.message(d, True, d.choice([200, 200, 3000, 50000]))
    m['target'] = target(d)
    if d.bool(0.6): m['method'] = d.choice([b'GET', b'GET', b'POST', b'HEAD', b'PUT'])
    if d.bool(0.4): m['headers'] = list(m['headers']) + [d.choice([[b'Range', b' ', b'bytes=' + d.btext('0123456789-,', 24)], [b'Range', b' ', d.btext('bytes= 0-9', 2000 if d.bool(0.1) else 16)], [b'If-None-Match', b' ', d.btext('"0123456789abcdef', 40)],
        [b'Authorization', b' ', b'Basic ' + d.btext('QWxhZGRpbjpvcGVuIHNlc2FtZQ==', 1500 if d.bool(0.1) else 40)], [b'Authorization', b' ', d.btext('Basic \tQ=', 20)], [d.btext('X-abc', 9000, 1), b' ', d.btext('v', 9000)]])]
    return m
def wild_bytes(d, data):
    k = d.weighted([(7, 'valid'), (4, 'mutated'), (1, 'cut'), (1, 'any')])
    if k == 'mutated': data = mutate(d, data)
    elif k == 'cut': data = data[:d.int(0, len(data))]
    elif k == 'any': data = d.btext('\r\n\r\n :;0123abcfGETPOST/HTTP1.1\t\x00\xff', 300)
    return data, k
def gen(d):
    n = d.weighted([(2, 1), (3, 3), (2, 6)])
    ops = []
    for _ in range(d.size(25, 3, 4)):
        c = d.int(0, n - 1); k = d.weighted([(10, 'send'), (2, 'half'), (2, 'reset'), (2, 'close'), (2, 'read'), (1, 'pause'), (3, 'probe'), (2, 'abandon')])
        if k == 'send':
            data, kind = wild_bytes(d, b''.join(H.wire(request(d)) for _ in range(d.weighted([(5, 1), (2, 2), (1, 6)]))))
            ops.append([c, k, data, kind, H.cuts(d, len(data))[:12] if d.bool(0.4) else []])
        elif k == 'abandon':
            ops.append([c, 'send', S.request(d.choice([b'/large.bin', b'/large.bin', b'/auth/large.bin', b'/base/../large.bin', b'/proxy/z', b'/list/', b'/sub', b'/none']), [(b'Range', b'bytes=5-')] if d.bool(0.3) else [], keep=d.bool()), 'valid', []])
            ops.append([c, d.choice(['close', 'reset'])])
        else: ops.append([c, k])
    plans = []
    for _ in range(d.int(1, 4)):
        r = H.message(d, False, d.choice([200, 200, 3000, 60000]))
        if d.bool(0.3): r['headers'] = [h for h in r['headers'] if h[0].lower() not in (b'content-length', b'transfer-encoding')]
        data, kind = wild_bytes(d, H.wire(r) * d.choice([1, 1, 1, 2]))
        cs = H.cuts(d, len(data))[:6]; ps = []; i = 0
        for x in cs: ps.append(data[i:i + x]); i += x
        plans.append([[p for p in ps + [data[i:]] if p], d.choice(['keep', 'keep', 'close', 'reset', 'half'])])
    return [n, ops, plans, d.bool(), d.choice([None, None, 2048])]
def setup(env, template, kind=''):
    s = W.server(env, 'p04%s%d' % (kind, bool(template)), limit=56 if kind else 80, keep=20000)
    if 'p04' not in env.cache: env.cache['p04'] = (Wild(env), S.free_port(env.tag))
    b, dead = env.cache['p04']
    s.configure(INI % ('On' if template else 'Off', b.port, dead))
    if not os.path.exists(os.path.join(s.www, 'large.bin')):
        w = s.www.encode(); os.makedirs(w + b'/list/empty'); os.makedirs(w + b'/sub')
        for n, v in ((b'small.bin', SMALL), (b'medium.bin', MEDIUM), (b'large.bin', LARGE), (b'sub/index.html', SMALL), (b'list/a', b'x'), (b'list/b.txt', b'')): W.put(w + b'/' + n, v)
        W.put(os.path.join(s.root, 'passwd').encode(), b'root:root\nuser:pass\n')
    return s, b
def answer(c, n):
    r = c.response(); data = (SMALL, MEDIUM)[n]
    if r.status != 200 or r.body != data: raise Fail('a well-formed request of another connection is answered with %d and a body of %d bytes' % (r.status, len(r.body)))
def run(env, case, note):
    n, ops, plans, template, rcv = case
    s, b = setup(env, template); b.clear(plans)
    conns = [None] * n
    probe = s.connect(); asked = 0
    def get(k): return S.request((b'/small.bin', b'/medium.bin')[k], keep=True)
    def ask():
        nonlocal asked
        k = asked % 2; asked += 1
        probe.send(get(k)); answer(probe, k)
    try:
        ask()
        for op in ops:
            c, k = op[:2]
            if k == 'probe':
                ask()
                f = s.connect()
                try: f.send(get(0)); answer(f, 0)
                finally: f.close()
                continue
            if k == 'pause': time.sleep(0.002); continue
            if k == 'send':
                if conns[c] is None: conns[c] = raw(s, rcv)
                i = 0
                for x in op[4]: push(conns[c], op[2][i:i + x]); i += x
                push(conns[c], op[2][i:])
                note.label(op[3])
                if op[3] != 'valid': note.nt = True
                continue
            if conns[c] is None: continue
            note.label(k)
            if k == 'read': drain(conns[c]); continue
            note.nt = True
            try:
                if k == 'half': conns[c].shutdown(socket.SHUT_WR); continue
                if k == 'reset': conns[c].setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            except OSError: pass
            conns[c].close(); conns[c] = None
        note.nt |= sum(c is not None for c in conns) >= 3
        ask()
        s.died()
    except Fail as e:
        s.died(0.5); raise
    finally:
        probe.close()
        for c in conns:
            if c: c.close()
    s.died()
    f = s.connect()
    try: f.send(get(1)); answer(f, 1)
    finally: f.close()
    s.died()
def raw(s, rcv):
    c = s.connect(rcvbuf=rcv); k = c.s; k.setblocking(False)
    return k
def push(k, data):
    """what fits; the rest is dropped when the server does not take it (it may have closed, or wait for us to read)"""
    view = memoryview(data); end = time.monotonic() + 0.003
    while view:
        try: view = view[k.send(view):]; end = time.monotonic() + 0.003
        except BlockingIOError:
            if time.monotonic() > end: return
            time.sleep(0.0005)
        except OSError: return
def drain(k):
    got = 0
    while got < 300000:
        try: x = k.recv(65536)
        except OSError: return
        if not x: return
        got += len(x)
def gen_repeat(d):
    data = b''.join(S.request(d.choice([b'/large.bin', b'/small.bin', b'/auth/large.bin', b'/proxy/z', b'/proxy/z', b'/dead/a', b'/list/', b'/sub', b'/none', b'/unknown', b'/hello']),
                              [(b'Range', b'bytes=5-')] if d.bool(0.2) else [], keep=d.bool(), body=b'abc' if d.bool(0.3) else None) for _ in range(d.weighted([(4, 1), (1, 2)])))
    if d.bool(0.15): data, _ = wild_bytes(d, data)
    r = H.message(d, False, d.choice([200, 3000, 60000])); w = H.wire(r)
    plan = [[d.choice([w, w, w[:len(w) // 2], b'HTTP/1.1 200 OK\r\n\r\n', b'junk\r\n\r\n', b''])], d.choice(['keep', 'keep', 'close', 'reset', 'half'])]
    return [data, plan, d.choice(['close', 'reset', 'half', 'read']), d.bool(), d.choice([0, 0, 1])]
def run_repeat(env, case, note):
    data, plan, end, template, wait = case
    s, b = setup(env, template, 'r'); b.clear([plan])
    def probe():
        f = s.connect()
        try: f.send(S.request(b'/small.bin')); answer(f, 0)
        except Fail as e: s.died(0.5); raise Fail('after %d connections that were given up: %s' % (i + 1, e))
        finally: f.close()
    try:
        for i in range(80):
            k = raw(s, 2048); push(k, data)
            if wait: time.sleep(0.001)
            try:
                if end == 'read': time.sleep(0.001); drain(k)
                elif end == 'half': k.shutdown(socket.SHUT_WR)
                elif end == 'reset': k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            except OSError: pass
            k.close()
            if i % 8 == 7: probe()
        b.clear([]); probe()
    except Fail: s.died(0.5); s.stop(); raise
    s.died()
    note.nt = True; note.label(end)
CHECKS = [Check('connections', gen, run, 6000, files=FILES), Check('given up', gen_repeat, run_repeat, 480, files=FILES)]
