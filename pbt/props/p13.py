import os, socket, struct, threading, time, zlib
from .common import *
from ..engine import rng_for
from .. import web as W, server as S, http as H
RULE = 'a request with a body, or a response with a body of more than one read, or several requests, or a backend that fails'
FILES = ('viriatum/handlers/handler_proxy.*', 'viriatum/http/http_parser.*', 'viriatum/system/service.c')

class Backend(object):
    """a scripted HTTP server; what it answers to a request is looked up by the X-Case header"""
    def __init__(self, env):
        self.s = socket.socket(); self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.port = S.free_port(env.tag); self.s.bind(('127.0.0.1', self.port)); self.s.listen(64)
        self.script, self.seen, self.errors, self.conns = {}, [], [], set()
        self.lock = threading.Lock(); self.live = True
        env.closers.append(self.stop)
        threading.Thread(target=self.accept, daemon=True).start()
    def stop(self):
        self.live = False; self.clear()
        try: self.s.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.s.close()
    def clear(self):
        with self.lock: cs = list(self.conns); self.script, self.seen, self.errors = {}, [], []
        for c in cs:
            try: c.shutdown(socket.SHUT_RDWR)
            except OSError: pass
    def accept(self):
        while self.live:
            try: c, _ = self.s.accept()
            except OSError: return
            with self.lock: self.conns.add(c)
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()
    def serve(self, c):
        c.settimeout(60); c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        buf = b''
        def more():
            nonlocal buf
            d = c.recv(1 << 18)
            if not d: raise EOFError()
            buf += d
        def until(mark):
            nonlocal buf
            while mark not in buf: more()
            i = buf.index(mark) + len(mark); out, buf = buf[:i], buf[i:]
            return out
        def exact(n):
            nonlocal buf
            while len(buf) < n: more()
            out, buf = buf[:n], buf[n:]
            return out
        try:
            while True:
                head = until(b'\r\n\r\n')
                ls = head[:-4].split(b'\r\n'); hs = []
                for l in ls[1:]:
                    if b':' not in l: raise ValueError('malformed header %r' % l[:80])
                    n, v = l.split(b':', 1); hs.append((n, v.lstrip(b' \t')))
                low = [(n.lower(), v.strip()) for n, v in hs]
                case = dict(low).get(b'x-case'); sc = self.script.get(case)
                if sc is None: raise ValueError('unknown request %r' % head[:200])
                te = [v.lower() for n, v in low if n == b'transfer-encoding']; cl = [v for n, v in low if n == b'content-length']
                if b'chunked' in te:
                    body = b''
                    while True:
                        n = int(until(b'\r\n')[:-2].split(b';')[0], 16)
                        if n == 0: break
                        body += exact(n)
                        if exact(2) != b'\r\n': raise ValueError('chunk without terminator')
                    while until(b'\r\n') != b'\r\n': pass
                else: body = exact(int(cl[0])) if cl else b''
                with self.lock: self.seen.append((case, ls[0], hs, body))
                pieces, after = sc
                for p, pause in pieces:
                    c.sendall(p)
                    if pause: time.sleep(pause)
                if after == 'reset': c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                if after != 'keep': return
        except (EOFError, OSError): pass
        except Exception as e:
            with self.lock: self.errors.append('%s: %s' % (type(e).__name__, e))
        finally:
            with self.lock: self.conns.discard(c)
            try: c.close()
            except OSError: pass

INTERIM = [b'HTTP/1.1 100 Continue\r\n\r\n', b'HTTP/1.1 103 Early Hints\r\nLink: </a.css>; rel=preload\r\nX-A: b\r\n\r\n', b'HTTP/1.1 102 Processing\r\n\r\n', b'HTTP/1.1 199 \r\nContent-Type: a/b\r\n\r\n']
FAILS = ['close', 'reset', 'head', 'body', 'chunk', 'garbage', 'early reset']
def exchange(d, pipe):
    m = H.message(d, True, d.choice([400, 400, 400, 20000, 300000]), connection=[b'Connection', b' ', b'keep-alive'])
    if m['method'] == b'CONNECT': m['method'] = b'POST'
    if m['framing'] == 'none': m['method'] = d.choice([b'GET', b'GET', b'HEAD', b'DELETE', b'OPTIONS', b'POST'])
    m['headers'] = [h for h in m['headers'] if h[0].lower() not in (b'upgrade', b'x-case', b'x-viriatum-proxy')]
    if m['framing'] == 'length' and d.bool(0.08): m['body'] = [d.int(0, 999), d.int(300000, 4000000)]; m['headers'] = [h if h[0].lower() != b'content-length' else [h[0], h[1], b'%d' % m['body'][1]] for h in m['headers']]
    m['version'] = d.weighted([(6, b'1.1'), (1, b'1.0')])
    if not pipe and d.bool(0.2): m['headers'] = [h for h in m['headers'] if h[0] != b'Connection'] + ([[b'Connection', b' ', b'close']] if d.bool() else [])
    loc = d.weighted([(5, b'/p0'), (3, b'/p1'), (1, b'/dead'), (2, b'/slash/')])
    path = d.choice([b'', b'/', b'/a', b'/a/b/', b'/' + d.btext('abXY09-._~%41/&=', 30), b'/' + d.btext('abc/', 1500), b'x', b'/p1/a', b'//', b'/a%20b%2f%00+'])
    if loc == b'/slash/': path = path.lstrip(b'/')
    query = d.choice([b'', b'', b'?', b'?a=b&c=d', b'?' + d.btext('ab=&%2/?', 40)])
    m['target'] = loc + path + query
    r = H.message(d, False, d.choice([400, 400, 20000, 300000]), last=not pipe)
    if r['status'] == b'304' and d.bool(0.5): r['headers'].append([b'Content-Length', b' ', b'%d' % d.int(0, 5000)])
    if r['status'] == b'304' and not [h for h in r['headers'] if h[0].lower() in (b'content-length', b'transfer-encoding')] and d.bool(0.3): r['headers'].append([b'Transfer-Encoding', b' ', b'chunked'])
    if r['framing'] not in ('none', 'eof') and d.bool(0.06): r['framing'] = 'length'; r['body'] = [d.int(0, 999), d.int(300000, 4000000)]; r['headers'] = [h for h in r['headers'] if h[0].lower() not in (b'content-length', b'transfer-encoding')] + [[b'Content-Length', b' ', b'%d' % r['body'][1]]]; r.pop('chunks', None)
    r['headers'] = [h for h in r['headers'] if h[0].lower() not in (b'upgrade', b'x-viriatum-proxy', b'proxy-connection', b'trailer')]
    r['version'] = d.weighted([(6, b'1.1'), (1, b'1.0')])
    if pipe: r['headers'] = [h for h in r['headers'] if h[0].lower() != b'connection'] + [[b'Connection', b' ', b'keep-alive']]
    fail = d.choice(FAILS) if not pipe and d.bool(0.12) else None
    interim = [d.choice(INTERIM) for _ in range(d.int(1, 2))] if m['version'] == b'1.1' and not fail and d.bool(0.1) else []
    return [m, r, fail, d.int(0, 2 ** 16), d.weighted([(3, 0), (2, 1), (1, 4)]), d.choice(['keep', 'keep', 'close']) if not pipe else 'keep', interim]
def gen(d):
    pipe = d.bool(0.2)
    conns = [[exchange(d, pipe) for _ in range(d.int(1, 5))] for _ in range(d.weighted([(3, 1), (1, 2), (1, 3)]))]
    return [conns, pipe, d.weighted([(3, 'whole'), (3, 'cuts')]), d.int(0, 2 ** 16), d.choice([None, None, None, 4096]), d.choice([0, 0, 0, 20])]
def pieces(wire, seed, pause):
    """how the backend divides what it sends"""
    rng = rng_for('p13', seed); out = []; i = 0
    k = rng.choice(['one', 'few', 'small'])
    if k == 'one': return [(wire, 0)]
    while i < len(wire):
        n = rng.randint(1, 30) if k == 'small' and len(out) < 60 else rng.choice([rng.randint(1, 300), rng.randint(1, 5000), rng.randint(1, 200000)])
        out.append((wire[i:i + n], pause / 1000.0 if pause and len(out) < 12 else 0)); i += n
    return out
def setup(env):
    s = W.server(env)
    if 'p13' not in env.cache: env.cache['p13'] = [Backend(env), Backend(env), S.free_port(env.tag)]
    b0, b1, dead = env.cache['p13']
    s.configure('[location:a]\npath=^/p0\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/\n[location:b]\npath=^/p1\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/\n'
                '[location:c]\npath=^/dead\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/\n[location:d]\npath=^/slash/\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/\n' % (b0.port, b1.port, dead, b1.port))
    return s, b0, b1
def plan_of(ex, ident):
    m, r, fail, seed, pause, after, interim = ex
    m = dict(m, headers=list(m['headers']) + [[b'X-Case', b' ', ident]])
    wire = H.wire(r); head = b''.join(p for k, p in H.wire_parts(r)[:3])
    if m['method'] == b'HEAD': wire = head
    body = len(wire) - len(head)
    if r['framing'] == 'eof':
        after = 'close'
        if fail in ('body', 'chunk'): fail = None
    if fail in ('close', 'reset'): script = ([], fail)
    elif fail == 'early reset': script = ([(b'H', 0.001)], 'reset')
    elif fail == 'head': script = (pieces(wire[:max(1, (len(wire) - body) * (seed % 97) // 97)], seed, pause), 'close')
    elif fail in ('body', 'chunk'):
        if body < 4: fail = None; script = (pieces(b''.join(interim) + wire, seed, pause), after)
        else: script = (pieces(wire[:len(wire) - body + 1 + (body - 3) * (seed % 97) // 97], seed, pause), 'close')
    elif fail == 'garbage': script = ([(blob(seed * 5 + 4, 50) + b'\r\n\r\n', 0)], 'close')
    else: script = (pieces(b''.join(interim) + wire, seed, pause), after)
    return m, r, fail, script
def answer(c, m, r, fail, b, ident, loc, note, interim):
    """-> does the connection stay"""
    what = '%s %s' % (m['method'].decode(), short(m['target']))
    head = m['method'] == b'HEAD'
    if loc != b'/dead':
        for x in interim: same(c.response().head, x, 'interim response to ' + what); note.label('interim')
    try: got = c.response(head, r['framing'] == 'eof')
    except S.Closed:
        if fail in ('body', 'chunk', 'garbage'): note.label('cut'); return False
        raise
    if loc == b'/dead' or fail in ('close', 'reset', 'head', 'early reset'):
        same(got.status, 502, 'status of %s when the backend fails (%s)' % (what, 'no listener' if loc == b'/dead' else fail)); note.label('502')
        if H.flags_of(m)[0]: return True
        c.expect_close(); return False
    if fail in ('body', 'chunk'): raise Fail('%s: a complete response for a backend that closed within the body' % what)
    if fail == 'garbage': expect(got.status >= 500, 'status %d for garbage', got.status)
    if fail == 'garbage' and H.flags_of(m)[0]: return True
    if fail == 'garbage': c.expect_close(); return False
    same(got.status, int(r['status']), 'status of ' + what)
    want = [(n, v.strip(b' \t')) for n, _, v in r['headers']]
    hs = [(n, v.strip(b' \t')) for n, v in got.headers if n.lower() != b'x-viriatum-proxy']
    if hs != want: raise Fail('%s: headers %s instead of %s' % (what, short([h for h in hs if h not in want] or hs), short([h for h in want if h not in hs] or want)))
    wb = b'' if head else H.body_of(r)
    if got.body != wb: raise Fail('%s: the body of the response has %d bytes and differs from the %d bytes of the backend at %d' % (what, len(got.body), len(wb), next((i for i in range(min(len(wb), len(got.body))) if wb[i] != got.body[i]), min(len(wb), len(got.body)))))
    rec = [x for x in b.seen if x[0] == ident]
    same(len(rec), 1, 'requests that reached the backend for ' + what)
    _, line, hs, body = rec[0]
    rest = m['target'][len(loc) - (1 if loc.endswith(b'/') else 0):]
    if not rest.startswith(b'/'): rest = b'/' + rest
    same(line.rsplit(b' ', 1)[0], m['method'] + b' ' + rest, 'request line at the backend for ' + what)
    want = [(n, v.strip(b' \t')) for n, _, v in m['headers']]
    hs = [(n, v.strip(b' \t')) for n, v in hs if n.lower() != b'x-viriatum-proxy']
    if hs != want: raise Fail('%s: the backend got the headers %s instead of %s' % (what, short([h for h in hs if h not in want] or hs), short([h for h in want if h not in hs] or want)))
    wb = H.body_of(m)
    if body != wb: raise Fail('%s: the backend got a body of %d bytes that differs from the %d bytes sent' % (what, len(body), len(wb)))
    if wb or len(H.body_of(r)) > 8192: note.nt = True
    note.label('proxied')
    note.label('HEAD', head); note.label('status %s' % r['status'].decode(), r['framing'] == 'none')
    if r['framing'] == 'eof' and not head: note.label('until the end'); c.expect_close(); return False
    if not H.flags_of(r)[0]: c.expect_close(); return False
    return True
def run(env, case, note):
    conns, pipe, mode, seed, rcv, wait = case
    s, b0, b1 = setup(env); rng = rng_for('p13', seed)
    for b in (b0, b1): b.clear()
    plans = []
    for ci, exs in enumerate(conns):
        out = []
        for i, ex in enumerate(exs):
            ident = b'%d.%d' % (ci, i); m, r, fail, script = plan_of(ex, ident)
            if fail: note.nt = True
            loc = next(l for l in (b'/p0', b'/p1', b'/dead', b'/slash/') if m['target'].startswith(l))
            b = b0 if loc == b'/p0' else b1
            for x in (b0, b1): x.script[ident] = script if x is b else ([(b'HTTP/1.1 299 Wrong\r\nContent-Length: 0\r\n\r\n', 0)], 'keep')
            out.append((m, r, fail, b, ident, loc, script[1], ex[6]))
        plans.append(out)
    cs = [s.connect(rcvbuf=rcv) for _ in plans]
    def push(c, data):
        if mode == 'whole' or len(data) < 2: c.send(data); return
        i = 0
        for _ in range(rng.randint(1, 6)):
            n = rng.randint(1, max(1, min(len(data) - i, rng.choice([40, 400, 100000])))); c.send(data[i:i + n]); i += n
            if i >= len(data): return
            time.sleep(rng.choice([0, 0.001]))
        c.send(data[i:])
    try:
        if pipe:
            for c, p in zip(cs, plans):
                push(c, b''.join(H.wire(x[0]) for x in p))
            if wait: time.sleep(wait / 1000.0)
            for c, p in zip(cs, plans):
                for m, r, fail, b, ident, loc, after, interim in p:
                    if not answer(c, m, r, fail, b, ident, loc, note, interim): raise Fail('the connection does not stay open')
            note.label('pipeline'); note.nt |= any(len(p) > 1 for p in plans)
        else:
            open_ = [True] * len(cs)
            for i in range(max(len(p) for p in plans)):
                order = [j for j in range(len(plans)) if i < len(plans[j])]; rng.shuffle(order)
                for j in order:
                    if not open_[j]: cs[j].close(); cs[j] = s.connect(rcvbuf=rcv); open_[j] = True
                    push(cs[j], H.wire(plans[j][i][0]))
                if wait: time.sleep(wait / 1000.0)
                for j in order:
                    m, r, fail, b, ident, loc, after, interim = plans[j][i]
                    open_[j] = answer(cs[j], m, r, fail, b, ident, loc, note, interim)
                    if after == 'close' and open_[j]: time.sleep(0.01)
            note.nt |= sum(len(p) for p in plans) > 1
    except Fail as e:
        s.died()
        if b0.errors or b1.errors: raise Fail('%s; the backend reports %s' % (e, (b0.errors + b1.errors)[0]))
        raise
    finally:
        for c in cs: c.close()
    if b0.errors or b1.errors: raise Fail('the backend got a malformed request: %s' % (b0.errors + b1.errors)[0])
    s.died()
def gen_slow(d):
    """responses of several megabytes to clients that read slowly or leave, with backends that keep or close the connection"""
    out = []
    for _ in range(d.int(1, 3)):
        out.append([d.int(0, 2 ** 16), d.choice([d.int(1000, 900000), d.int(900000, 1500000), d.int(1500000, 9000000)]), d.choice(['length', 'chunked']), d.choice(['keep', 'close']),
                    d.choice([4096, 16384, 100000, None]), d.choice([0, 5, 60]), d.weighted([(5, 'read'), (1, 'leave')]), d.bool(0.7)])
    return [out, d.bool(0.5), d.int(0, 2 ** 16)]
def run_slow(env, case, note):
    clients, again, seed = case
    s, b0, b1 = setup(env); rng = rng_for('p13s', seed)
    for b in (b0, b1): b.clear()
    cs = []; ids = []
    def ask(c, ident, keep): c.send(b'GET /p0/x HTTP/1.1\r\nHost: x\r\nX-Case: %s\r\nConnection: %s\r\n\r\n' % (ident, b'keep-alive' if keep else b'close'))
    try:
        for i, (bs, n, framing, after, rcv, pause, what, keep) in enumerate(clients):
            body = blob(bs, n); ident = b's%d' % i
            if framing == 'length': wire = b'HTTP/1.1 200 OK\r\nConnection: %s\r\nContent-Length: %d\r\n\r\n' % (b'keep-alive' if keep else b'close', n) + body
            else:
                k = rng.choice([3000, 70000, 2000000]); wire = b'HTTP/1.1 200 OK\r\nConnection: %s\r\nTransfer-Encoding: chunked\r\n\r\n' % (b'keep-alive' if keep else b'close') + b''.join(b'%x\r\n%s\r\n' % (len(body[j:j + k]), body[j:j + k]) for j in range(0, n, k)) + b'0\r\n\r\n'
            b0.script[ident] = ([(wire, 0)], after); ids.append((ident, body))
            c = s.connect(rcvbuf=rcv); cs.append(c); ask(c, ident, keep)
        b0.script[b'small'] = ([(b'HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nsmall', 0)], 'keep')
        time.sleep(max(p for *_, p, w, k in clients) / 1000.0)
        # somebody else is served while the others have not read
        c = s.connect(); cs.append(c); ask(c, b'small', False); same(c.response().body, b'small', 'response to another client'); c.expect_close()
        order = list(range(len(clients))); rng.shuffle(order)
        for i in order:
            bs, n, framing, after, rcv, pause, what, keep = clients[i]; ident, body = ids[i]
            if what == 'leave': cs[i].close(); note.label('leaves'); continue
            r = cs[i].response(); same(r.status, 200, 'status')
            if r.body != body: raise Fail('the body of the response has %d bytes and differs from the %d bytes of the backend at %d' % (len(r.body), n, next((j for j in range(min(n, len(r.body))) if r.body[j] != body[j]), min(n, len(r.body)))))
            if n > 900000: note.nt = True; note.label('flood')
            if keep and again:
                if after == 'close': time.sleep(0.01)
                ask(cs[i], b'small', True); same(cs[i].response().body, b'small', 'next response of the connection'); note.label('again')
            elif not keep: cs[i].expect_close()
    except Fail as e:
        s.died()
        if b0.errors: raise Fail('%s; the backend reports %s' % (e, b0.errors[0]))
        raise
    finally:
        for c in cs: c.close()
    if b0.errors: raise Fail('the backend got a malformed request: %s' % b0.errors[0])
    s.died()
def gen_busy(d):
    """a backend that does not accept for a while, and what the other clients do meanwhile"""
    qs = [[d.choice([b'GET', b'POST', b'PUT', b'DELETE']), d.weighted([(2, 0), (2, d.size(60000)), (1, d.int(100000, 3000000))]), d.int(0, 2 ** 16), d.weighted([(4, 'stay'), (1, 'leave'), (1, 'reset')]), d.bool(0.5)] for _ in range(d.int(1, 5))]
    return [d.weighted([(3, 'full'), (1, 'idle')]), qs, [d.choice(['h', 'h', 'other', 'busy']) for _ in range(d.int(1, 6))], d.weighted([(3, 'accept'), (1, 'close')]), d.choice([0, 0, 50, 400, 1200])]
def run_busy(env, case, note):
    """requests to a backend that takes its time do not hold back the others, and get their answers in the end"""
    mode, qs, others, end, delay = case; s = W.server(env, 'p13b', keep=300)
    l = socket.socket(); l.bind(('127.0.0.1', 0)); l.listen(0 if mode == 'full' else 64)
    if 'p13 other' not in env.cache: env.cache['p13 other'] = Backend(env)
    b = env.cache['p13 other']; b.clear(); b.script[b'o'] = ([(b'HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nother', 0)], 'keep')
    s.configure('[location:h]\npath=^/h\nhandler=default\n[location:p]\npath=^/p\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/\n[location:o]\npath=^/o\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/\n' % (l.getsockname()[1], b.port))
    if s.p is None: s.start()
    cs = []; fill = []; note.nt = True; note.label(mode); note.label(end); stop = threading.Event(); errors = []; threads = []
    def serve(k):
        try:
            k.settimeout(30); d = b''
            while True:
                while b'\r\n\r\n' not in d:
                    x = k.recv(1 << 16)
                    if not x: return
                    d += x
                h, d = d.split(b'\r\n\r\n', 1); n = 0
                for y in h.split(b'\r\n')[1:]:
                    if y.lower().startswith(b'content-length:'): n = int(y[15:])
                while len(d) < n:
                    x = k.recv(1 << 18)
                    if not x: return
                    d += x
                r = b'%s %08x' % (h.split(b' HTTP')[0], zlib.crc32(d[:n])); d = d[n:]
                k.sendall(b'HTTP/1.1 200 OK\r\nConnection: keep-alive\r\nContent-Length: %d\r\n\r\n' % len(r) + r)
        except OSError: pass
        finally: k.close()
    def accept():
        # (with room for all: the kernel resets a connection whose last step found the queue full)
        try: l.listen(64); l.settimeout(0.05)
        except OSError: return
        while not stop.is_set():
            try: k, _ = l.accept()
            except socket.timeout: continue
            except OSError: return
            threading.Thread(target=serve, args=(k,), daemon=True).start()
    try:
        if mode == 'full':
            for _ in range(3):
                k = socket.socket(); k.setblocking(False); fill.append(k)
                try: k.connect(l.getsockname())
                except BlockingIOError: pass
        for i, (method, n, seed, what, keep) in enumerate(qs):
            body = blob(seed, n); c = s.connect(); cs.append(c)
            w = b'%s /p/%d HTTP/1.1\r\nHost: x\r\nConnection: %s\r\n%s\r\n' % (method, i, b'keep-alive' if keep else b'close', b'Content-Length: %d\r\n' % n if n or method in (b'POST', b'PUT') else b'') + body
            c.want = b'%s /%d %08x' % (method, i, zlib.crc32(body))
            def put(c=c, w=w):
                try: c.s.sendall(w)
                except OSError: pass
            if n > 100000: t = threading.Thread(target=put, daemon=True); t.start(); threads.append(t)
            else: put()
        time.sleep(0.003)
        left = [i for i, q in enumerate(qs) if q[3] != 'stay']
        for i, o in enumerate(others):
            if o == 'busy' and left:
                j = left.pop(); note.label('leaves')
                try: cs[j].s.shutdown(socket.SHUT_RDWR)
                except OSError: pass
                (cs[j].reset if qs[j][3] == 'reset' else cs[j].close)(); cs[j] = None; continue
            c = s.connect(); fill.append(c)
            if o == 'other': c.send(b'GET /o HTTP/1.1\r\nHost: x\r\nX-Case: o\r\n\r\n'); r = c.response(); same((r.status, r.body), (200, b'other'), 'response of another backend')
            else: c.send(b'GET /h HTTP/1.1\r\nHost: x\r\n\r\n'); same(c.response().status, 200, 'status of another location')
            c.close()
        if delay: time.sleep(delay / 1000.0)
        if end == 'close':
            l.close()
            for k in fill: k.close()
        else: t = threading.Thread(target=accept, daemon=True); t.start(); threads.append(t)
        for i, c in enumerate(cs):
            if c is None: continue
            if end == 'close':
                same(c.response().status, 502, 'status of a request to a backend that went away')
            else:
                r = c.response(); same((r.status, r.body), (200, c.want), 'response of the backend that was busy')
            if qs[i][4]: c.send(b'GET /h HTTP/1.1\r\nHost: x\r\n\r\n'); same(c.response().status, 200, 'status of the next request of the connection')
    finally:
        stop.set()
        for c in cs:
            if c is not None: c.close()
        for k in fill: k.close()
        l.close()
        for t in threads: t.join(5)
    r = s.get(b'/h'); same(r.status, 200, 'status afterwards'); s.died()
CHECKS = [Check('exchanges', gen, run, 2000, files=FILES), Check('slow clients', gen_slow, run_slow, 140, files=FILES), Check('busy backend', gen_busy, run_busy, 64, thorough=2400, files=FILES)]
