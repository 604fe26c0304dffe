import os, shutil, socket, ssl, struct, time
from .common import *
from ..engine import rng_for
from .. import web as W, server as S
from ..worker import Crash
RULE = 'a response over one read or a pipelined or divided request over TLS, or a handshake that fails next to another connection'
FILES = ('viriatum/stream/stream_io.c', 'viriatum/system/service.c', 'viriatum/polling/polling_epoll.c')
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'data')

class Tls(object):
    """a TLS client over a plain socket; the bytes of the records are sent in the pieces that are asked for"""
    tls = True
    def __init__(self, sock, version, cut, rng):
        self.sock, self.cut, self.rng = sock, cut, rng
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); c.check_hostname = False; c.verify_mode = ssl.CERT_NONE
        v = ssl.TLSVersion.TLSv1_2 if version == 2 else ssl.TLSVersion.TLSv1_3
        c.minimum_version = c.maximum_version = v
        self.inp, self.out = ssl.MemoryBIO(), ssl.MemoryBIO(); self.o = c.wrap_bio(self.inp, self.out, server_hostname='localhost')
        self.ready = False; self.records = 100; self.small = 150 if cut else 0
    def settimeout(self, t): self.sock.settimeout(t)
    def setsockopt(self, *a): self.sock.setsockopt(*a)
    def fileno(self): return self.sock.fileno()
    def close(self): self.sock.close()
    def flush(self, limit=None):
        """-> how many bytes of the records were written; the rest waits"""
        d = self.out.read() if limit is None else self.out.read(limit)
        i = 0
        while i < len(d):
            n = self.rng.randint(1, self.cut) if self.small > 0 else len(d); self.small -= 1
            self.sock.sendall(d[i:i + n]); i += n
            if self.cut and self.rng.random() < 0.1: time.sleep(0.0005)
        return len(d)
    def pull(self):
        d = self.sock.recv(65536)
        if d: self.inp.write(d)
        else: self.inp.write_eof()
        return d
    def shake(self):
        while not self.ready:
            try: self.o.do_handshake(); self.ready = True
            except ssl.SSLWantReadError:
                self.flush()
                if not self.pull(): raise OSError('closed in the handshake')
        self.flush()
    def step(self):
        """one move of the handshake -> done"""
        if self.ready: return True
        try: self.o.do_handshake(); self.ready = True
        except ssl.SSLWantReadError:
            if not self.flush() and not self.pull(): raise OSError('closed in the handshake')
            return False
        self.flush(); return True
    def sendall(self, data):
        self.shake(); i = 0
        while i < len(data):
            n = self.rng.choice([1, 5, 100, 5000, 16384, 60000]) if self.cut and i < 200000 and self.records > 0 else len(data); self.records -= 1
            self.o.write(data[i:i + n]); i += n; self.flush()
    def recv(self, n):
        self.shake()
        while True:
            try: return self.o.read(n)
            except ssl.SSLWantReadError:
                self.flush(); self.pull()
            except (ssl.SSLZeroReturnError, ssl.SSLEOFError): return b''
TRANSPORTS = ['tcp4', 'tcp6', 'tls4', 'tls4', 'tls6']
BAD = ['junk', 'plain', 'hello', 'half', 'stop', 'alert', 'record', 'reset', 'silent', 'version', 'client']

def setup(env):
    s, t = W.server(env, 'p35a'), W.server(env, 'p35b', keep=700); base = os.path.join(env.tmp, 'p35www')
    if not os.path.isdir(base):
        os.makedirs(base)
        for f in ('cert.pem', 'key.pem'): shutil.copy(os.path.join(DATA, f), os.path.join(env.tmp, f))
    loc = '[location:a]\npath=^/t\nhandler=file\nbase_path=%s\n[location:b]\npath=^/h\nhandler=default\n[location:c]\npath=^/u\nhandler=nothing\n[location:d]\npath=^/auth\nhandler=file\nbase_path=%s\nauth_basic=r\nauth_file=none\n' % (base, base)
    s.configure('[general]\nip6=1\nip6_host=[::1]\n' + loc)
    t.configure('[general]\nip6=1\nip6_host=[::1]\nssl=1\nssl_csr=%s/cert.pem\nssl_key=%s/key.pem\n' % (env.tmp, env.tmp) + loc)
    return s, t, base
def gen(d):
    files = [[d.int(0, 99), d.weighted([(3, d.size(3000)), (3, d.int(0, 70000)), (1, d.int(200000, 1500000))])] for _ in range(d.int(1, 4))]
    def req():
        k = d.weighted([(8, 'file'), (1, 'none'), (1, 'dir'), (1, 'hello'), (1, 'unknown'), (1, 'auth'), (1, 'redir')])
        t = b'/t/f%d' % d.int(0, len(files) - 1) if k == 'file' else {'none': b'/t/zzz', 'dir': b'/t/', 'hello': b'/h', 'unknown': b'/u', 'auth': b'/auth/f0', 'redir': b'/t/sub'}[k]
        hs = []
        if d.bool(0.3): hs.append([b'Range', b'bytes=%d-%s' % (d.int(0, 5000), d.choice([b'', b'%d' % d.int(5000, 400000)]))])
        return [t, hs, d.weighted([(5, None), (2, [d.int(0, 99), d.size(5000)]), (1, [3, d.int(100000, 1500000)])]) if k != 'hello' else None]
    conns = []
    for _ in range(d.weighted([(3, 1), (2, 2), (1, 4)])):
        conns.append([d.choice(TRANSPORTS), d.choice([2, 3, 3]), [req() for _ in range(d.int(1, 4))], d.bool(0.3), d.weighted([(4, 0), (2, 9), (2, 300), (1, 1)]), d.choice([None, None, None, 4096])])
    bad = [[d.choice(BAD), d.int(0, 2 ** 16), d.bool(0.3)] for _ in range(d.weighted([(3, 0), (3, 1), (2, 5)]))]
    return [files, conns, bad, d.int(0, 2 ** 16)]
def spoil(t, kind, seed, six, keep):
    """a client whose handshake (or connection) fails"""
    rng = rng_for('p35bad', seed)
    k = t.connect(fam=socket.AF_INET6 if six else socket.AF_INET).s; k.settimeout(2)
    def hello():
        x = Tls(k, rng.choice([2, 3]), 0, rng)
        try: x.o.do_handshake()
        except ssl.SSLWantReadError: pass
        return x, bytearray(x.out.read())
    try:
        if kind == 'silent': keep.append(k); return
        if kind == 'junk': k.sendall(blob(seed * 5 + 4, rng.choice([1, 5, 11, 300, 20000])))
        elif kind == 'plain': k.sendall(b'GET /t/f0 HTTP/1.1\r\nHost: a\r\n\r\n')
        elif kind == 'hello':
            x, h = hello()
            for _ in range(rng.randint(1, 4)): h[rng.randint(0, len(h) - 1)] = rng.randint(0, 255)
            k.sendall(bytes(h))
        elif kind == 'half': x, h = hello(); k.sendall(bytes(h[:rng.randint(1, len(h) - 1)]))
        elif kind == 'stop': x, h = hello(); k.sendall(bytes(h)); keep.append(k); return
        elif kind == 'version':
            x, h = hello(); h[9 + rng.randint(0, 1)] = 0; h[1:3] = b'\3\0'; k.sendall(bytes(h))
        elif kind == 'client':
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
            x = c.wrap_bio(i, o, server_hostname='localhost')
            try:
                while True:
                    try: x.do_handshake(); break
                    except ssl.SSLWantReadError:
                        k.sendall(o.read()); d = k.recv(65536)
                        if not d: break
                        i.write(d)
            except ssl.SSLError: k.sendall(o.read())
        else:
            x = Tls(k, rng.choice([2, 3]), 0, rng); x.shake()
            if kind == 'alert': k.sendall(b'\x15\3\3\0\2\2\x28')
            elif kind == 'record':
                x.o.write(b'GET /t/f0 HTTP/1.1\r\nHost: a\r\n\r\n'); r = bytearray(x.out.read()); r[rng.randint(5, len(r) - 1)] ^= 1 << rng.randint(0, 7); k.sendall(bytes(r))
            else: k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); k.close(); return
        if rng.random() < 0.5: time.sleep(0.002)
        keep.append(k)
    except (OSError, ssl.SSLError): k.close()
def run(env, case, note):
    files, conns, bad, seed = case
    s, t, base = setup(env); rng = rng_for('p35', seed)
    for f in os.listdir(base):
        p = os.path.join(base, f); shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    os.mkdir(os.path.join(base, 'sub'))
    for i, (a, n) in enumerate(files): W.put(os.path.join(base, 'f%d' % i).encode(), blob(a, n), 1500000000 + i)
    os.utime(os.path.join(base, 'sub'), (1500000000, 1500000000)); os.utime(base, (1500000000, 1500000000))
    def wire(r, keep): return S.request(r[0], [tuple(h) for h in r[1]], keep=keep, body=blob(*r[2]) if r[2] else None)
    want = {}
    def reference(r):
        k = repr(r)
        if k not in want:
            c = s.connect()
            try: c.send(wire(r, False)); want[k] = c.response()
            finally: c.close()
            if r[0].startswith(b'/t/f') and not r[1]:
                a, n = files[int(r[0][4:])]
                if want[k].body != blob(a, n): raise Fail('GET %s over TCP: the body has %d bytes and is not the file' % (r[0].decode(), len(want[k].body)))
        return want[k]
    live, idle = [], []
    try:
        for tr, version, reqs, pipe, cut, rcv in conns:
            for r in reqs: reference(r)
            sv = t if tr.startswith('tls') else s
            c = sv.connect(rcvbuf=rcv, fam=socket.AF_INET6 if tr.endswith('6') else socket.AF_INET)
            if sv is t: c.s = Tls(c.s, version, cut, rng); c.s.settimeout(S.ANSWER)
            live.append((c, tr, reqs, pipe, cut)); note.label(tr)
        plan = [('bad', x) for x in bad] + [('shake', x[0]) for x in live if x[1].startswith('tls') for _ in range(3)] + [('ask', x) for x in live]
        rng.shuffle(plan)
        note.nt = bool(bad)
        for what, x in plan:
            if what == 'bad': spoil(t, x[0], x[1], x[2], idle); note.label('bad ' + x[0])
            elif what == 'shake':
                try: x.s.step()
                except (OSError, ssl.SSLError) as e: t.gone(); raise Fail('the TLS handshake of a valid client fails: %s' % e)
            else:
                c, tr, reqs, pipe, cut = x
                try:
                    if pipe and not any(r[2] for r in reqs):
                        c.send(b''.join(wire(r, i < len(reqs) - 1) for i, r in enumerate(reqs)))
                        got = [c.response() for r in reqs]
                    else:
                        got = []
                        for i, r in enumerate(reqs):
                            w = wire(r, i < len(reqs) - 1)
                            if cut and tr.startswith('tcp'):
                                k = 0
                                while k < len(w): n = rng.choice([cut, 5000, 100000]); c.send(w[k:k + n]); k += n
                            else: c.send(w)
                            got.append(c.response())
                    c.expect_close()
                except (Fail, Crash) as e: (t if tr.startswith('tls') else s).died(); raise Fail('over %s: %s' % (tr, e))
                for r, g in zip(reqs, got):
                    w = reference(r)
                    if g.same() != w.same(): raise Fail('GET %s over %s: %r instead of %r over a fresh TCP connection' % (r[0].decode(), tr, g, w))
                    if len(g.body) > 8192 or (tr.startswith('tls') and (pipe or cut)): note.nt = True
        s.died(); t.died()
    finally:
        for x in live: x[0].close()
        for k in idle: k.close()
def gen_slow(d):
    files = [[d.int(0, 99), d.choice([d.int(100000, 3000000), d.int(3000000, 9000000)])] for _ in range(d.int(1, 2))]
    conns = [[d.choice(['tls4', 'tls4', 'tls6', 'tcp4']), d.choice([2, 3]), [d.int(0, len(files) - 1) for _ in range(d.int(1, 2))], d.choice([None, None, 4096, 60000]), d.weighted([(6, 'read'), (1, 'leave')])] for _ in range(d.int(1, 3))]
    return [files, conns, d.choice([0, 20, 150]), d.int(0, 2 ** 16)]
def run_slow(env, case, note):
    """large responses to clients that do not read for some time, next to one that does"""
    files, conns, pause, seed = case
    s, t, base = setup(env); rng = rng_for('p35s', seed); live = []
    for f in os.listdir(base):
        p = os.path.join(base, f); shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    data = [blob(*f) for f in files]
    for i, b in enumerate(data): W.put(os.path.join(base, 'f%d' % i).encode(), b)
    W.put(os.path.join(base, 'small').encode(), b'small')
    try:
        for tr, version, reqs, rcv, what in conns:
            sv = t if tr.startswith('tls') else s
            c = sv.connect(rcvbuf=rcv, fam=socket.AF_INET6 if tr.endswith('6') else socket.AF_INET)
            if sv is t: c.s = Tls(c.s, version, 0, rng); c.s.settimeout(S.ANSWER)
            live.append(c)
            try: c.send(b''.join(S.request(b'/t/f%d' % r, keep=i < len(reqs) - 1) for i, r in enumerate(reqs)))
            except (OSError, ssl.SSLError) as e: sv.gone(); raise Fail('over %s: the request fails: %s' % (tr, e))
        time.sleep(pause / 1000.0)
        c = t.connect(); live.append(c); c.s = Tls(c.s, 3, 0, rng); c.s.settimeout(S.ANSWER); c.send(S.request(b'/t/small', keep=False)); same(c.response().body, b'small', 'response to another client')
        order = list(range(len(conns))); rng.shuffle(order)
        for i in order:
            tr, version, reqs, rcv, what = conns[i]; c = live[i]
            if what == 'leave': c.close(); note.label('leaves'); continue
            try:
                for r in reqs:
                    g = c.response(); same(g.status, 200, 'status')
                    if g.body != data[r]: raise Fail('the body has %d bytes and is not the file of %d bytes' % (len(g.body), len(data[r])))
                    if len(g.body) > 3000000: note.nt = True; note.label('large')
                c.expect_close()
            except (Fail, Crash) as e: (t if tr.startswith('tls') else s).died(); raise Fail('over %s: %s' % (tr, e))
        s.died(); t.died()
    finally:
        for c in live: c.close()
CHECKS = [Check('transports', gen, run, 1600, files=FILES), Check('slow clients', gen_slow, run_slow, 160, files=FILES)]
