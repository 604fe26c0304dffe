import os, random, select, socket, ssl, struct, threading, time
from .common import *
from ..engine import rng_for
from .. import web as W, server as S
from .p35 import DATA
RULE = 'every case: lengths are announced and not sent, or a response of 8 MB and more goes to a client that stops reading'
FILES = ('viriatum/handlers/handler_proxy.*', 'viriatum/handlers/handler_file.*', 'viriatum/system/service.c', 'viriatum/stream/stream_io.c')
MB = 1 << 20
# what the server may hold for one connection: the most it reads at once, the limit of the flow control, the buffers
EACH, FREE = 6 * MB, 2 * MB
UNIT = random.Random(44).randbytes(MB)
BIG = 96 * MB
def content(at, n):
    """n bytes of the repeated unit from the given position"""
    at %= MB
    return (UNIT * ((at + n) // MB + 1))[at:at + n]
class Backend(object):
    """sends the body that the path asks for as fast as it can: /kind/size/chunk"""
    def __init__(self, env):
        self.s = socket.socket(); self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.port = S.free_port(env.tag); self.s.bind(('127.0.0.1', self.port)); self.s.listen(64)
        self.sent, self.cut = 0, 0; self.conns = set(); self.live = True
        env.closers.append(self.stop)
        threading.Thread(target=self.accept, daemon=True).start()
    def stop(self):
        self.live = False
        try: self.s.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.s.close()
    def accept(self):
        while self.live:
            try: c, _ = self.s.accept()
            except OSError: return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()
    def serve(self, c):
        try:
            c.settimeout(120); buf = b''
            while True:
                while b'\r\n\r\n' not in buf:
                    d = c.recv(65536)
                    if not d: return
                    buf += d
                line, buf = buf.split(b'\r\n', 1)[0], buf.split(b'\r\n\r\n', 1)[1]
                kind, n, k = line.split(b' ')[1].strip(b'/').split(b'/')[-3:]; n, k = int(n), int(k)
                head = b'HTTP/1.1 200 OK\r\nConnection: %s\r\n' % (b'close' if kind == b'eof' else b'keep-alive')
                if kind == b'length': head += b'Content-Length: %d\r\n' % n
                if kind == b'chunked': head += b'Transfer-Encoding: chunked\r\n'
                c.sendall(head + b'\r\n'); at = 0; block = MB // 4 // k * k if k < MB // 4 else k
                while at < n:
                    m = min(block, n - at); p = content(at, m)
                    if kind == b'chunked': p = b''.join(b'%x\r\n%s\r\n' % (len(p[i:i + k]), p[i:i + k]) for i in range(0, m, k))
                    c.sendall(p); at += m; self.sent += m
                if kind == b'chunked': c.sendall(b'0\r\n\r\n')
                if kind == b'eof': return
        except OSError: pass
        finally:
            try: c.close()
            except OSError: pass
def gen(d):
    tls = d.bool(0.25)
    conns = []
    for _ in range(d.weighted([(4, 1), (2, 2), (2, d.int(3, 6))])):
        kind = d.choice(['file', 'file', 'range', 'range', 'length', 'length', 'chunked', 'chunked', 'eof'])
        n = d.int(8 * MB, BIG if kind in ('file', 'range') else 40 * MB)
        plan = [[d.size(2 * MB, small=5000), d.choice([0, 0, 5, 30])] for _ in range(d.int(0, 5))]
        conns.append([kind, n, d.int(0, BIG), d.choice([1000, 4096, 65536, 262144, 1000000, 256, d.int(256, 2 * MB)]), d.choice([4096, 4096, 65536, None]), plan, d.choice(['drain', 'drain', 'close', 'reset'])])
    return [tls, conns]
def run(env, case, note):
    """the peak of the allocated bytes while clients read slowly or not at all"""
    tls, conns = case; note.nt = True
    s = W.server(env, 'p44', keep=400, stat=True)
    if 'p44 backend' not in env.cache:
        env.cache['p44 backend'] = Backend(env)
        with open(env.tmp + '/big.bin', 'wb') as f:
            for _ in range(BIG // MB): f.write(UNIT)
        import shutil
        for f in ('cert.pem', 'key.pem'): shutil.copy(os.path.join(DATA, f), env.tmp)
    b = env.cache['p44 backend']
    s.configure(('[general]\nssl=1\nssl_csr=%s/cert.pem\nssl_key=%s/key.pem\n' % (env.tmp, env.tmp) if tls else '') + '[location:f]\npath=^/f\nhandler=file\nbase_path=%s\n[location:p]\npath=^/p\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/\n' % (env.tmp, b.port))
    if s.p is None: s.start()
    def dial(rcv):
        c = s.connect(rcvbuf=rcv)
        if tls:
            x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); x.check_hostname = False; x.verify_mode = ssl.CERT_NONE
            try: c.s = x.wrap_socket(c.s)
            except (OSError, ssl.SSLError) as e: s.gone(); raise Fail('the TLS handshake of a valid client fails: %s' % e)
        return c
    open_ = []; peak = 0
    limit = FREE + EACH * len(conns)
    def sample(base):
        nonlocal peak
        n = s.usage()[0] - base; peak = max(peak, n)
        expect(n <= limit, 'the server holds %d bytes for %d connection(s) whose client reads slowly', n, len(conns))
    try:
        # what is created once is there before the measure
        c = dial(None); c.send(S.request(b'/f/big.bin', [(b'Range', b'bytes=0-9')], keep=False)); c.response(); c.close()
        base = s.usage()[0]; sent = b.sent
        for kind, n, at, k, rcv, plan, end in conns:
            c = dial(rcv); open_.append(c); c.want = (kind, n, 0, 0)
            if kind in ('file', 'range'):
                at = at % (BIG - n + 1) if kind == 'range' else 0
                h = [(b'Range', b'bytes=%d-%d' % (at, at + n - 1))] if kind == 'range' else []
                c.want = (kind, BIG if kind == 'file' else n, at, k)
                c.send(S.request(b'/f/big.bin', h, keep=True))
            else: c.want = (kind, n, 0, k); c.send(S.request(b'/p/%s/%d/%d' % (kind.encode(), n, k), keep=kind != 'eof'))
            note.label(kind); note.label('tls', tls)
        # until the flow stops: what the backends send in between shows what the server takes
        quiet = 0; last = None
        while quiet < 8:
            sample(base); quiet = quiet + 1 if b.sent == last else 0; last = b.sent; time.sleep(0.004)
        for i in range(max(len(x[5]) for x in conns)):
            for c, x in zip(open_, conns):
                if i >= len(x[5]): continue
                n, pause = x[5][i]
                while n > 0 and not c.eof:
                    got = c.s.recv(min(n, 1 << 16)); c.eof = not got; c.buf += got; n -= len(got)
                if pause: time.sleep(pause / 1000.0)
                sample(base)
            time.sleep(0.01); sample(base)
        for c, x in zip(open_, conns):
            kind, n, at, k = c.want
            if x[6] != 'drain':
                note.label(x[6]); (c.reset if x[6] == 'reset' else c.close)(); sample(base); continue
            r = drain(c, kind, n, lambda: sample(base))
            expect(r == content(at, n), 'the %d bytes of the body (%s) are not the %d that were sent', len(r), kind, n)
            if kind == 'eof': c.expect_close()
            else:
                c.send(S.request(b'/f/big.bin', [(b'Range', b'bytes=5-14')], keep=False)); r = c.response()
                same((r.status, r.body), (206, UNIT[5:15]), 'the response after the large one'); c.expect_close()
            note.label('drained')
    finally:
        for c in open_: c.close()
    s.died()
def drain(c, kind, n, sample):
    """the body of the response; parts are collected as they come"""
    head = c.until(b'\r\n\r\n', 'response headers').lower()
    same(head[9:12], b'206' if kind == 'range' else b'200', 'status')
    if kind in ('file', 'range', 'length'): expect(b'\r\ncontent-length: %d\r\n' % n in head, 'no Content-Length of %d in %r', n, head[:300])
    parts, have, t = [c.buf], len(c.buf), 0
    c.buf = b''
    end = n if kind in ('file', 'range', 'length') else None
    while (end is None or have < end) and not c.eof:
        if kind == 'chunked' and parts and (b''.join(parts[-6:]) if len(parts[-1]) < 16 else parts[-1]).endswith(b'\r\n0\r\n\r\n'): break
        try: d = c.s.recv(1 << 18 if end is None else min(1 << 18, end - have))
        except socket.timeout: c.server.died(); raise Fail('no answer within %d s (%d bytes of the body)' % (S.ANSWER, have))
        except (OSError, ssl.SSLError): d = b''
        c.eof = not d; parts.append(d); have += len(d)
        if have >> 23 != t: t = have >> 23; sample()
    b = b''.join(parts)
    if kind == 'chunked':
        out, i = [], 0
        while True:
            j = b.find(b'\r\n', i); expect(j >= 0, 'the chunked body ends early, after %d bytes', len(b))
            k = int(b[i:j], 16)
            expect(b[j + 2 + k:j + 4 + k] == b'\r\n', 'chunk of %d bytes without terminator', k)
            i = j + 4 + k
            if k == 0: break
            out.append(b[j + 2:j + 2 + k])
        return b''.join(out)
    return b
def gen_declared(d):
    conns = []
    for _ in range(d.weighted([(3, 1), (2, d.int(2, 6)), (1, d.int(10, 40))])):
        n = d.choice([d.int(100000, 2147483647), 2147483647, 2000000000, 1 << 30, d.int(10 ** 6, 10 ** 8), d.int(1, 10 ** 6)])
        parts = [d.size(200000, lo=1, small=300) for _ in range(d.int(1, 5))]
        conns.append([d.choice(['length', 'length', 'length', 'chunk', 'chunk', 'backend length', 'backend chunk', 'headers', 'pipelined']), d.choice([b'POST', b'PUT', b'GET']), d.choice([b'/f/small.bin', b'/f/none', b'/q/x', b'/h', b'/f']), n, parts, d.bool(0.5), d.bool(0.3)])
    return [conns]
def run_declared(env, case, note):
    """the memory follows what the clients and backends have sent, not what they announce"""
    conns = case[0]; s = W.server(env, 'p44d', keep=600, stat=True)
    if 'p44 listen' not in env.cache:
        env.cache['p44 listen'] = []
        for _ in range(2): l = socket.socket(); l.bind(('127.0.0.1', S.free_port(env.tag))); l.listen(64); l.settimeout(5); env.cache['p44 listen'].append(l)
        with open(env.tmp + '/small.bin', 'wb') as f: f.write(b'x')
    l, q = env.cache['p44 listen']
    s.configure('[location:f]\npath=^/f\nhandler=file\nbase_path=%s\n[location:h]\npath=^/h\nhandler=default\n[location:p]\npath=^/p\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/\n[location:q]\npath=^/q\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/\n' % (env.tmp, l.getsockname()[1], q.getsockname()[1]))
    if s.p is None: s.start()
    open_ = []; sent = 0; note.nt = True
    def sample(base, what):
        n = s.usage()[0] - base
        expect(n <= 4 * sent + 100000 * len(open_) + 500000, 'the server holds %d bytes after it received %d bytes on %d connection(s): %s', n, sent, len(open_), what)
    try:
        c = s.connect(); c.send(S.request(b'/h', keep=False)); c.response(); c.close(); time.sleep(0.002)
        base = s.usage()[0]
        for kind, method, target, n, parts, join, slow in conns:
            c = s.connect(); open_.append(c)
            if kind.startswith('backend'):
                c.send(S.request(b'/p/x', keep=True)); k, _ = l.accept(); open_.append(S.Conn(s, k)); k.settimeout(5); k.recv(65536)
                h = b'HTTP/1.1 200 OK\r\n' + (b'Content-Length: %d\r\n\r\n' % n if kind == 'backend length' else b'Transfer-Encoding: chunked\r\n\r\n%x\r\n' % n)
                put = k.sendall
            else:
                h = b'%s %s HTTP/1.1\r\nHost: x\r\n' % (method, target); put = lambda b: c.send(b, False)
                if kind == 'length': h += b'Content-Length: %d\r\n\r\n' % n
                elif kind == 'chunk': h += b'Transfer-Encoding: chunked\r\n\r\n%x\r\n' % n
                elif kind == 'headers': n = 1 << 30; parts = [min(p, 3000) for p in parts]
                else: h += b'Content-Length: 3\r\nConnection: keep-alive\r\n\r\nabcPOST /h HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % n
            if join: h += b'y' * min(parts[0], n - 1)
            else: put(h); sent += len(h); h = b''
            left = n - 1
            for i, p in enumerate(parts):
                p = min(p, left); b = h + (b'x' * p if kind != 'headers' else b'X-H: ' + b'v' * p + b'\r\n'); h = b''; left = left - p if kind != 'headers' else left
                if join and i == 0: b = b[:len(b) - p]
                try: put(b)
                except OSError: break
                sent += len(b)
                if slow or i + 1 == len(parts): time.sleep(0.0015)
                sample(base, kind)
            note.label(kind)
        time.sleep(0.004); sample(base, 'at the end')
        r = s.get(b'/h'); same(r.status, 200, 'status of another client')
    finally:
        for c in open_: c.close()
        # the connections that nobody accepted
        q.settimeout(0)
        try:
            while True: q.accept()[0].close()
        except OSError: pass
    s.died()
CHECKS = [Check('declared', gen_declared, run_declared, 1000, files=FILES), Check('slow readers', gen, run, 160, thorough=4000, files=FILES)]
