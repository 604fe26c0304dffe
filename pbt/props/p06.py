import os, re, shutil
from .common import *
from .. import web as W, server as S
RULE = 'a target names a file that exists outside of the directory, through at least one of dot segments, escapes, separators or an extension of the name of the location'
FILES = ('viriatum/handlers/*.c', 'viriatum_commons/encoding/percent.*', 'viriatum/http/http_parser.c')
CANARY = b'S3CR3T-'
# expression of the location, directory it serves below the scratch directory, with index files or not
LOCS = [['^/loc', 'pub'], ['^/slash/', 'pub/'], ['^/re[a-z]*', 'deep/er/pub'], ['/any', 'pub'], ['^/f.txt', 'deep/er/pub'], ['^/p', 'deep/er/pub/.'], ['\\.cgi$', 'pub/sub']]
OUT = {'pub': ['pub-private/s.txt', 'pubx', 'pub.txt', 'pub~/index.html', 'secret.txt', 'secretdir/s.txt', 'secretdir/index.html', 'deep/er/pub-private/s.txt', 'deep/er/pubx', 'deep/er/secret.txt', 'deep/secret.txt', 'deep/er/pub.txt', 'deep/er/secretdir/s.txt', 'deep/er/secretdir/index.html'],
       'root': ['wwwx/s.txt', 'www-private/s.txt', 'secret.txt', 'secretdir/s.txt', 'secretdir/index.html', 'wwwx/index.html']}
NAMES = [b'pub', b'sub', b'www', b'secret.txt', b'secretdir', b's.txt', b'-private', b'x', b'.txt', b'~', b'pub-private', b'pubx', b'index.html', b'wwwx', b'www-private', b'deep', b'er', b'in.txt', b'conf', b'viriatum.ini', b'etc', b'passwd', b'/', b'', b'l' * 255, b'..x', b'x..', b'...']
def segment(d):
    k = d.weighted([(5, 'up'), (6, 'name'), (1, 'dot'), (1, 'odd')])
    if k == 'up':
        e = d.weighted([(4, b'..'), (1, b'%2e%2e'), (1, b'.%2E'), (1, b'%2e.'), (1, b'%252e%252e'), (1, b'%c0%ae%c0%ae'), (1, b'..%00'), (1, b'%00..'), (1, b'..;'), (1, b'..%20'), (1, b'...'), (1, b'+..'), (1, b'..+'), (1, b'%2e%2'), (1, b'..\\..'), (1, b'%uff0e%uff0e')])
        return e
    if k == 'dot': return d.choice([b'.', b'%2e', b'', b'.%00', b'./.'])
    if k == 'odd': return d.btext('.%2eE5fF\\/0?#+;x', 10)
    return W.spell(d, d.choice(NAMES)) if d.bool(0.3) else d.choice(NAMES)
def gen(d):
    ts = []
    for _ in range(d.int(1, 8)):
        kind = d.weighted([(3, 'loc'), (2, 'root'), (1, 'abs'), (1, 'raw')])
        pre = {'loc': lambda: d.choice([b'/loc', b'/loc', b'/slash/', b'/re', b'/reabc', b'/x/any', b'/any', b'/f.txt', b'/p', b'/a.cgi']), 'root': lambda: d.choice([b'', b'', b'/c']), 'abs': lambda: d.choice([b'http://localhost', b'http://localhost/loc', b'http://localhost:80', b'x://']), 'raw': lambda: d.choice([b'..', b'*', b'\\', b'%2f', b'loc'])}[kind]()
        k = d.int(0, 3) if d.bool(0.75) else d.int(4, 14)
        seps = [b'/'] * 6 + [b'%2f', b'%2F', b'//', b'\\', b'%5c', b'/./', b'/%00/', b'///']
        if d.bool(0.4):
            # aimed at an outside file: as many steps up as it needs, or its name as extension of the directory
            n = d.choice(NAMES[:21]); up = segment(d) if d.bool(0.5) else b'..'
            body = b''.join(d.choice(seps) + (up if d.bool(0.8) else segment(d)) for _ in range(d.int(0, 7) if d.bool() else 0)) + (d.choice(seps) if d.bool(0.8) else b'') + n + (d.choice(seps) + d.choice(NAMES) if d.bool(0.5) else b'')
        else: body = b''.join((d.choice(seps) if d.bool(0.9) else b'') + segment(d) for _ in range(k))
        t = pre + body + d.choice([b'', b'', b'', b'/', b'%00', b'%00.html', b'?', b'?x=/../', b'%', b'.cgi', b'/.cgi'])
        if not t: t = b'/'
        if kind != 'raw' and kind != 'abs' and not t.startswith(b'/'): t = b'/' + t
        ts.append(bytes(c for c in t if c not in (32, 10, 13)))
    return [ts, d.weighted([(1, False), (1, True)]), d.bool(0.3)]
def rest(path):
    """the part of the path that is resolved inside of the directory"""
    for x, _ in LOCS:
        m = re.search(x.encode(), path)
        if m: return path[m.end() - (path[m.end() - 1:m.end()] == b'/'):]
    return path
def unquote(t):
    out = bytearray(); i = 0
    while i < len(t):
        if t[i] == 37:
            try: out.append(int(t[i + 1:i + 3], 16) if len(t[i + 1:i + 3]) == 2 and all(c in b'0123456789abcdefABCDEF' for c in t[i + 1:i + 3]) else 1 / 0)
            except ZeroDivisionError: return None
            i += 3
        else: out.append(32 if t[i] == 43 else t[i]); i += 1
    return bytes(out)
def fill(base, names):
    for n in names:
        p = os.path.join(base, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f: f.write(CANARY + b'contents')
        if n.endswith('s.txt'): open(os.path.join(os.path.dirname(p), 'S3CR3T-entry'), 'wb').close()
def settle(base):
    for b, ds, fs in os.walk(base):
        if os.path.basename(b) in ('conf', 'modules'): continue
        os.utime(b, (1000000000, 1000000000))
def ask(s, target):
    c = s.connect()
    try:
        c.send(S.request(target), strict=False)
        try: r = c.response()
        except S.Closed as e:
            if c.buf: raise
            return None
        c.expect_close()
        return r
    finally: c.close()
def run(env, case, note):
    ts, index, template = case
    s = W.server(env, 'srv%d%d' % (index, template)); base = os.path.join(env.tmp, 'p06-%d%d' % (index, template)); pub = os.path.join(base, 'area')
    s.configure('[general]\nuse_template=%s\n%s' % ('On' if template else 'Off', 'index=index.html sub\n' if index else '') + ''.join('[location:l%d]\npath=%s\nhandler=file\nbase_path=%s\n' % (i, x, os.path.join(pub, y)) for i, (x, y) in enumerate(LOCS)))
    if not os.path.exists(base):
        for p in ('pub/sub', 'deep/er/pub/sub', 'deep/er/pub/..x'): os.makedirs(os.path.join(pub, p))
        for p in ('pub/in.txt', 'pub/sub/in.txt', 'deep/er/pub/in.txt', 'pub/index.html'): W.put(os.path.join(pub, p), b'public')
        W.put(os.path.join(s.root, 'www', 'in.txt'), b'public'); os.makedirs(os.path.join(s.root, 'www', 'c', 'pub'))
    got = []
    for there in (True, False):
        if there: fill(pub, OUT['pub']); fill(s.root, OUT['root'])
        else:
            for b, names in ((pub, OUT['pub']), (s.root, OUT['root'])):
                for n in names:
                    p = os.path.join(b, n)
                    if os.path.exists(p): os.unlink(p)
                    if '/' in n and not n.startswith('deep/er/s') or n.count('/') == 3 or 'secretdir/' in n:
                        q = os.path.dirname(p)
                        if os.path.isdir(q) and os.path.basename(q) not in ('er', 'deep'): shutil.rmtree(q)
        settle(pub); settle(s.root)
        got.append([ask(s, t) for t in ts])
    for t, a, b in zip(ts, *got):
        for r in (a, b):
            if r is not None and (CANARY in r.body or CANARY in r.head or b'root:x:0' in r.body): raise Fail('%s discloses a file outside of the directory: %r' % (short(t), r))
        if (a.same() if a else None) != (b.same() if b else None): raise Fail('the response to %s depends on files outside of the directory: %r and %r' % (short(t), a, b))
        p = unquote(rest(t.split(b'?')[0]))
        if p is None or b'\0' in p or b'..' in p.split(b'/'):
            if not t.startswith(b'/'): continue
            if p is not None: note.nt = True
            note.label('climbs')
            expect(a is None or a.status >= 400, 'status %s for %s', a and a.status, short(t))
        elif any(n in p for n in (b'secret', b'private', b'pubx', b'wwwx')): note.nt = True
    s.died()
CHECKS = [Check('targets', gen, run, 3600, files=FILES)]
