"""Histories of one server: what clients and backends do to it. Used by the checks of the end of the process and of its resources."""
import os, shutil, socket, ssl, struct, threading, time
from .engine import blob, rng_for, Fail
from . import web as W, server as S
from .props.p35 import Tls, DATA

class Backend(object):
    """answers by the last word of the path"""
    def __init__(self, env):
        self.s = socket.socket(); self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.port = S.free_port(env.tag); self.s.bind(('127.0.0.1', self.port)); self.s.listen(64)
        self.lock = threading.Lock(); self.conns = set(); self.live = True
        env.closers.append(self.stop)
        threading.Thread(target=self.accept, daemon=True).start()
    def stop(self):
        self.live = False; self.clear()
        try: self.s.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.s.close()
    def clear(self):
        with self.lock: cs = list(self.conns)
        for c in cs:
            try: c.shutdown(socket.SHUT_RDWR)
            except OSError: pass
    def accept(self):
        while self.live:
            try: c, _ = self.s.accept()
            except OSError: return
            with self.lock: self.conns.add(c)
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()
    def serve(self, c):
        c.settimeout(60); buf = b''
        try:
            while True:
                while b'\r\n\r\n' not in buf:
                    d = c.recv(1 << 16)
                    if not d: return
                    buf += d
                head, buf = buf.split(b'\r\n\r\n', 1)
                n = 0
                for l in head.split(b'\r\n'):
                    if l.lower().startswith(b'content-length:'): n = int(l[15:])
                while len(buf) < n:
                    d = c.recv(1 << 16)
                    if not d: return
                    buf += d
                buf = buf[n:]
                if b'\r\ntransfer-encoding:' in head.lower():
                    # the bodies are zeros
                    while b'0\r\n\r\n' not in buf:
                        d = c.recv(1 << 16)
                        if not d: return
                        buf += d
                    buf = buf.split(b'0\r\n\r\n', 1)[1]
                k = head.split(b' ')[1].rsplit(b'/', 1)[-1]
                if k == b'hold': continue
                if head.startswith(b'HEAD ') and k.startswith(b'kept'): c.sendall(b'HTTP/1.1 200 OK\r\nConnection: keep-alive\r\n' + (b'Content-Length: 2\r\n\r\n' if k == b'kept' else b'Transfer-Encoding: chunked\r\n\r\n')); continue
                if k == b'ok': c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 2\r\nX-A: b\r\n\r\nhi')
                elif k == b'kept': c.sendall(b'HTTP/1.1 200 OK\r\nConnection: keep-alive\r\nContent-Length: 2\r\n\r\nhi')
                elif k == b'keptchunks': c.sendall(b'HTTP/1.1 200 OK\r\nConnection: keep-alive\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nhi\r\n0\r\n\r\n')
                elif k == b'chunks': c.sendall(b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nhi\r\n0\r\n\r\n')
                elif k == b'last': c.sendall(b'HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 2\r\n\r\nhi'); return
                elif k == b'big': c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 6000000\r\n\r\n' + bytes(6000000))
                elif k == b'half': c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 20000\r\n\r\n' + bytes(5000))
                elif k == b'cut': c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 20000\r\n\r\n' + bytes(5000)); return
                elif k == b'head': c.sendall(b'HTTP/1.1 200 OK\r\nContent-Le'); return
                elif k == b'junk': c.sendall(b'\0\1\2 junk\r\n\r\n'); return
                elif k == b'reset': c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); return
                else: return
        except (OSError, ValueError): pass
        finally:
            with self.lock: self.conns.discard(c)
            try: c.close()
            except OSError: pass

BODY = 3000000
TARGETS = [b'/f/a.txt', b'/f/a.txt', b'/f/big', b'/f/none', b'/f/dir', b'/f/dir/', b'/f/', b'/', b'/none', b'/f/%zz', b'/f/../../x', b'/f/' + b'n' * 900, b'/auth/a.txt', b'/noauth/a.txt', b'/h', b'/u/x', b'/f/a%2etxt?q=1', b'/i/']
PROXY = [b'ok', b'ok', b'chunks', b'last', b'cut', b'head', b'junk', b'reset', b'close', b'big']
HEADERS = [[], [], [], [[b'Range', b'bytes=2-9']], [[b'Range', b'bytes=99999999-']], [[b'Range', b'bytes=x']], [[b'If-None-Match', b'ETAG']], [[b'Authorization', b'Basic YTpi']], [[b'Authorization', b'Basic YTpj']], [[b'Authorization', b'Basic !']], [[b'X-' + b'a' * 300, b'b' * 2000]]]
# what the client does; the connection is left in this state
def step(d, tls):
    k = d.weighted([(6, 'ask'), (2, 'proxy'), (2, 'part'), (1, 'open'), (2, 'slow'), (1, 'pipe'), (1, 'upload'), (1, 'bad'), (2, 'hold'), (1, 'half'), (1, 'dead'), (1, 'again'), (1, 'leave')] + ([(3, 'raw'), (2, 'hello')] if tls else []))
    t, h = d.choice(TARGETS), d.choice(HEADERS)
    if k in ('proxy', 'again'): t = b'/p/' + d.choice(PROXY)
    end = d.weighted([(3, 'stay'), (3, 'close'), (1, 'reset'), (1, 'shut')])
    return [k, t, h, end, d.int(0, 2 ** 16)]
def config(d):
    return [d.bool(0.3), d.bool(0.7), d.bool(0.3), d.bool(0.3), d.choice([0, 0, 2])]   # tls, templates, index, ip6, users defined twice or more

def ini(env, conf, b, dead):
    tls, template, index, ip6, users = conf
    base = os.path.join(env.tmp, 'life')
    if not os.path.isdir(base):
        os.makedirs(os.path.join(base, 'dir', 'sub')); os.makedirs(os.path.join(base, 'index'))
        W.put(base + '/a.txt', b'0123456789abcdef', 1500000000); W.put(base + '/big', bytes(BODY)); W.put(base + '/dir/x', b'x'); W.put(base + '/index/index.html', b'index')
        for f in ('cert.pem', 'key.pem'): shutil.copy(os.path.join(DATA, f), env.tmp)
        W.put(os.path.join(env.tmp, 'passwd0'), b'a:b\n'); W.put(os.path.join(env.tmp, 'passwd2'), b'a:x\nc:d\na:b\nc:e\n')
    g = '[general]\nuse_template=%s\n' % ('On' if template else 'Off')
    if index: g += 'index=index.html none.html\n'
    if ip6: g += 'ip6=1\nip6_host=[::1]\n'
    if tls: g += 'ssl=1\nssl_csr=%s/cert.pem\nssl_key=%s/key.pem\n' % (env.tmp, env.tmp)
    loc = [('f', '^/f', 'file', 'base_path=%s\n' % base), ('i', '^/i', 'file', 'base_path=%s/index\n' % base), ('auth', '^/auth', 'file', 'base_path=%s\nauth_basic=r\nauth_file=%s/passwd%d\n' % (base, env.tmp, users)),
           ('noauth', '^/noauth', 'file', 'base_path=%s\nauth_basic=r\nauth_file=%s/passwd-none\n' % (base, env.tmp)), ('h', '^/h', 'default', ''), ('u', '^/u', 'unknown', ''),
           ('p', '^/p', 'proxy', 'proxy_pass=http://127.0.0.1:%d/\n' % b.port), ('dead', '^/dead', 'proxy', 'proxy_pass=http://127.0.0.1:%d/\n' % dead)]
    return g + ''.join('[location:%s]\npath=%s\nhandler=%s\n%s' % l for l in loc)

class Client(object):
    """runs steps against a server and keeps the connections that stay"""
    def __init__(self, s, conf, note): self.s, self.tls, self.ip6, self.note, self.open, self.closed = s, conf[0], conf[3], note, [], 0
    def dial(self, rng, rcv=None, shake=True, six=None):
        if six is None: six = self.ip6 and rng.random() < 0.4
        c = self.s.connect(rcvbuf=rcv, fam=socket.AF_INET6 if six else socket.AF_INET)
        if self.tls and shake:
            raw = c.s; c.s = Tls(raw, rng.choice([2, 3]), 0, rng); c.s.settimeout(S.ANSWER)
            try: c.s.shake()
            except (OSError, ssl.SSLError) as e: self.s.gone(); raise Fail('the TLS handshake of a valid client fails: %s' % e)
        return c
    def run(self, st):
        k, target, headers, end, seed = st
        rng = rng_for('life', seed); hs = [tuple(h) for h in headers]
        self.note.label(k)
        rcv = rng.choice([None, 4096]) if k == 'slow' else None
        c = self.dial(rng, rcv, k not in ('raw', 'hello'))
        try:
            if k == 'hello':
                x = Tls(c.s, rng.choice([2, 3]), 0, rng)
                try: x.o.do_handshake()
                except ssl.SSLWantReadError: pass
                h = x.out.read(); c.send(h[:rng.choice([1, len(h) // 2, len(h)])], False)
            elif k in ('ask', 'proxy'):
                n = rng.choice([1, 1, 3]); last = rng.random() < 0.5
                for i in range(n):
                    try: c.send(S.request(target, hs, keep=i < n - 1 or last), False); r = c.response()
                    except (S.Closed, OSError, ssl.SSLError): self.s.died(); break
                    if (r.header(b'Connection') or b'').lower() == b'close': break
            elif k == 'part':
                w = S.request(target, hs, keep=True, method=b'POST', body=bytes(50)); c.send(w[:rng.randint(1, len(w) - 1)], False)
            elif k == 'slow': c.send(S.request(b'/p/big' if rng.random() < 0.3 else b'/f/big', keep=rng.random() < 0.5), False)
            elif k == 'pipe': c.send(S.request(target, hs, keep=True) * rng.randint(2, 12), False)
            elif k == 'upload': c.send(S.request(target, hs + [(b'Content-Length', b'%d' % 1000000)], method=b'POST', keep=True) + bytes(rng.choice([0, 1, 5000, 300000])), False)
            elif k == 'bad': c.send(rng.choice([b'\0\1\2', b'GET\r\n\r\n', b'GET / HTTP/9.9\r\n\r\n', b'POST / HTTP/1.1\r\nContent-Length: x\r\n\r\n', b'GET /' + b'a' * 5000 + b' HTTP/1.1\r\n\r\n', b'PUT / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n']), False)
            elif k == 'hold': c.send(S.request(b'/p/hold', hs, keep=True), False)
            elif k == 'half': c.send(S.request(b'/p/half', hs, keep=True), False)
            elif k == 'dead':
                c.send(S.request(b'/dead/x', hs, keep=True), False)
                if rng.random() < 0.7: c.response()
            elif k == 'again':
                # a backend that answers, then one that does not
                c.send(S.request(b'/p/ok', hs, keep=True), False); c.response(); c.send(S.request(target, hs, keep=True), False)
            elif k == 'leave':
                w = rng.choice([b'/f/big', b'/p/big', b'/p/hold']); c.send(S.request(w, hs, keep=True), False)
                if rng.random() < 0.5 and w != b'/p/hold': c.fill()
                end = rng.choice(['close', 'reset'])
        except (OSError, ssl.SSLError): self.s.gone()
        if end == 'stay': self.open.append(c); return
        raw = c.s.sock if isinstance(c.s, Tls) else c.s
        if end == 'reset':
            raw.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); raw.close()
        elif end == 'shut':
            try: raw.shutdown(socket.SHUT_WR)
            except OSError: pass
            self.open.append(c)
        else: c.close()
    def close(self, rng=None):
        for c in self.open:
            if rng and rng.random() < 0.2: (c.s.sock if isinstance(c.s, Tls) else c.s).setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            c.close()
        self.open = []
