import os, time
from .common import *
from .. import web as W, server as S
from .p13 import Backend
RULE = 'a HEAD request whose GET has a body, followed by another request of the connection'
FILES = ('viriatum/handlers/*.c', 'viriatum/http/http_util.*', 'viriatum/http/http_parser.*')
KINDS = ['file', 'file', 'file', 'dir', 'bare', 'index', 'missing', 'auth', 'denied', 'wrong', 'hello', 'unknown', 'escape', 'length', 'chunked', 'gone', 'dead']
def gen(d):
    files = [[(W.name(d, long=False) + W.ext(d))[:100], [d.int(0, 2 ** 16), d.choice([0, 1, 262144, 262145, 600000]) if d.bool(0.2) else d.size(5000, small=40)]] for _ in range(d.int(1, 3))]
    reqs = [[d.weighted([(3, b'HEAD'), (1, b'GET')]), d.choice(KINDS), d.int(0, len(files) - 1), d.weighted([(5, ''), (1, 'range'), (1, 'tail'), (1, 'beyond'), (1, 'etag'), (1, 'old')]), d.int(0, 300), d.choice([b'1.1', b'1.1', b'1.0'])]
            for _ in range(d.int(1, 7))]
    return [files, reqs, d.bool(0.4), d.bool(0.5), d.size(3000, small=30), d.bool(0.5), d.choice([None, None, 4096])]
def run(env, case, note):
    files, reqs, template, piped, size, keep, rcv = case
    s = W.server(env)
    if 'p43' not in env.cache: env.cache['p43'] = [Backend(env), S.free_port(env.tag)]
    b, dead = env.cache['p43']; b.clear()
    body = blob(size * 7 + 1, size); hs = b'HTTP/1.1 %s\r\nConnection: keep-alive\r\nX-A: b\r\n%s\r\n\r\n'
    for k, line, fr, rest in ((b'length', b'200 OK', b'Content-Length: %d' % size, body), (b'gone', b'404 Not Found', b'Content-Length: %d' % size, body),
                              (b'chunked', b'200 OK', b'Transfer-Encoding: chunked', (b'%x\r\n%s\r\n' % (size, body) if size else b'') + b'0\r\n\r\n')):
        b.script[b'HEAD ' + k] = ([(hs % (line, fr), 0)], 'keep'); b.script[b'GET ' + k] = ([(hs % (line, fr) + rest, 0)], 'keep')
    with W.Tree(s) as t:
        for n, c in files: W.put(os.path.join(t.path, n), blob(*c))
        os.mkdir(t.path + b'/indexed'); W.put(t.path + b'/indexed/start.html', body); W.put(os.path.join(s.root, 'p43.pw').encode(), b'user:pass\n')
        s.configure('[general]\nuse_template=%s\nindex=start.html\n[location:a]\npath=^/auth\nhandler=file\nbase_path=%s\nauth_basic=zone\nauth_file=%s\n[location:b]\npath=^/hello\nhandler=default\n'
                    '[location:c]\npath=^/unknown\nhandler=nothing\n[location:d]\npath=^/proxy\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/\n[location:e]\npath=^/dead\nhandler=proxy\nproxy_pass=http://127.0.0.1:%d/\n'
                    % ('On' if template else 'Off', t.path.decode(), os.path.join(s.root, 'p43.pw'), b.port, dead))
        def once(*a):
            c = s.connect()
            try: c.send(S.request(*a)); return c.response()
            finally: c.close()
        base = b'/' + t.rel
        plan = []
        for method, kind, i, extra, x, ver in reqs:
            f = W.quote(files[i][0]); n = files[i][1][1]; h = []
            target = {'file': base + b'/' + f, 'dir': base + b'/', 'bare': base, 'index': base + b'/indexed/', 'missing': base + b'/' + f + b'~', 'auth': b'/auth/' + f, 'denied': b'/auth/' + f, 'wrong': b'/auth/' + f,
                      'hello': b'/hello/x', 'unknown': b'/unknown', 'escape': base + b'/%zz', 'dead': b'/dead/x'}.get(kind, b'/proxy/x')
            if kind == 'auth': h.append((b'Authorization', b'Basic dXNlcjpwYXNz'))
            if kind == 'wrong': h.append((b'Authorization', b'Basic dXNlcjpwYXN6'))
            if extra == 'range': h.append((b'Range', b'bytes=%d-%d' % (x % max(n, 1), x % max(n, 1) + x)))
            if extra == 'tail': h.append((b'Range', b'bytes=-%d' % x))
            if extra == 'beyond': h.append((b'Range', b'bytes=%d-' % (n + x)))
            if extra == 'old': h.append((b'If-None-Match', b'"00000000"'))
            if extra == 'etag' and kind in ('file', 'auth'):
                e = once(target, h).header(b'ETag')
                if e: h.append((b'If-None-Match', e))
            proxied = target == b'/proxy/x'
            def head(m): return h + ([(b'X-Case', m + b' ' + kind.encode())] if proxied else [])
            plan.append((method, target, head(method), once(target, head(b'GET')), ver, proxied, kind, extra))
        c = s.connect(rcvbuf=rcv)
        try:
            wire = [S.request(target, h, method, keep or j < len(plan) - 1, ver) for j, (method, target, h, ref, ver, proxied, kind, extra) in enumerate(plan)]
            if piped: c.send(b''.join(wire))
            for j, (method, target, h, ref, ver, proxied, kind, extra) in enumerate(plan):
                if not piped: c.send(wire[j])
                r = c.response(bodyless=method == b'HEAD'); what = '%s %s (%s%s)' % (method.decode(), short(target), kind, ' ' + extra if extra else '')
                same((r.status, r.reason), (ref.status, ref.reason), 'status of ' + what)
                a, w = ([(n.lower(), v) for n, v in y.headers if n.lower() != b'connection'] for y in (r, ref))
                if a != w: raise Fail('%s has the headers %s where GET has %s' % (what, short([q for q in a if q not in w] or a), short([q for q in w if q not in a] or w)))
                if method == b'GET': same(r.body, ref.body, 'body of ' + what)
                elif ref.body: note.label('%s %d' % (kind, r.status)); note.nt |= j < len(plan) - 1
            # nothing more than the heads arrives
            if keep: c.send(S.request(b'/hello/x')); same(c.response().body, b'Hello Viriatum', 'body of the request that follows')
            if keep or not plan[-1][5]: c.expect_close()
        except Fail as e:
            s.died()
            if b.errors: raise Fail('%s; the backend reports %s' % (e, b.errors[0]))
            raise
        finally: c.close()
        if piped: note.label('pipelined')
    s.died()
CHECKS = [Check('requests', gen, run, 3000, files=FILES)]
