import base64, os
from .common import *
from .. import web as W, server as S
from .p05 import check_ok
RULE = 'requests with valid and with invalid credentials, or to protected and to open locations, in one history; or a value with the Basic scheme and more than 10 bytes'
FILES = ('viriatum/handlers/handler_file.*', 'viriatum/http/http_util.*', 'viriatum_commons/formats/passwd.*', 'viriatum_commons/crypto/base_64.*')
CANARY = b'SECRET-CONTENTS-'
def word(d, lo=1):
    k = d.weighted([(6, 's'), (1, 'l'), (1, 'b')])
    if k == 's': return d.btext('abcxyz019_-. $@', 10, lo)
    if k == 'l': return d.btext('abcxyz', 340, lo)
    return bytes(x for x in (d.int(1, 255) for _ in range(d.int(1, 12))) if x not in (10, 13, 58)) or b'x'
def gen_file(d):
    users = []; out = []
    for _ in range(d.size(12, small=4)):
        u = d.choice(users) if users and d.bool(0.2) else word(d)
        users.append(u); out.append([u, word(d, 0 if d.bool(0.1) else 1), b'x:y' if d.bool(0.15) else None])
    return [out, d.bool(0.6)]
def model_of(f):
    m = {}
    for u, p, c in f[0]: m[u] = p
    return m
def text_of(f): return b'\n'.join(u + b':' + p + (b':' + c if c is not None else b'') for u, p, c in f[0]) + (b'\n' if f[1] and f[0] else b'')
def credentials(d, f):
    """-> (Authorization value or None)"""
    m = model_of(f); users = sorted(m)
    k = d.weighted([(6, 'good'), (2, 'wrong'), (1, 'none'), (2, 'near'), (1, 'unknown'), (1, 'raw'), (1, 'swap'), (1, 'default'), (1, 'bare')])
    if k == 'none': return None
    if k == 'raw': return d.choice([b'', b'Basic', b'Basic ', b'Basic  ', b'Basic !!!!', b'Basic Og==', b'Basic Og', b'x', b'Basic ' + b'A' * d.int(1, 40), b'Basic ' + b'QUFB' * d.int(1, 400), b'Basic ====', b'Basic OjpB', b'Basic AA==', b'Basic AGE6Yg=='])
    if k == 'default': return b'Basic cm9vdDpyb290'
    if not users: cred = word(d) + b':' + word(d)
    else:
        u = d.choice(users); p = m[u]
        if k == 'good': cred = u + b':' + p
        elif k == 'wrong': cred = u + b':' + word(d, 0)
        elif k == 'unknown': cred = word(d) + b':' + p
        elif k == 'swap': cred = u + b':' + m[d.choice(users)]
        elif k == 'bare': cred = d.choice([u, p, u + p, b':' + p, u + b':', b':'])
        else: cred = d.choice([u + b':' + p[:-1], u + b':' + p + b'x', u[:-1] + b':' + p, u + b'x:' + p, u + b':' + p + b':', u + b':' + p + b'\x00', u + b'\x00:' + p, u.swapcase() + b':' + p, u + b':' + p.swapcase(), u + b' :' + p, u + b': ' + p, u + b':' + p + b'\n', u + b'::' + p, b' ' + u + b':' + p])
    return b'Basic ' + base64.b64encode(cred)
def accepted(value, kind, m):
    """kind: file, default, nofile, missing"""
    if value is None: return False
    if kind == 'default': return value == b'Basic cm9vdDpyb290'
    if kind != 'file' or not value.startswith(b'Basic ') or len(value) > 1023: return False
    try: c = base64.b64decode(value[6:], validate=True)
    except ValueError: return False
    if b':' not in c or len(value[6:]) % 4: return False
    u, p = c.split(b':', 1)
    return u in m and m[u] == p
def gen(d):
    locs = []
    for i in range(d.int(1, 4)):
        locs.append([d.weighted([(6, 'file'), (2, 'open'), (1, 'default'), (1, 'nofile'), (1, 'missing')]), d.btext('abc XYZ.-_', 20, 1).strip() or b'r', gen_file(d), d.bool(0.3)])
    reqs = []
    for _ in range(d.int(2, 9)):
        l = d.int(0, len(locs) - 1)
        creds = credentials(d, locs[l][2] if d.bool(0.85) else locs[d.int(0, len(locs) - 1)][2])
        reqs.append([l, d.weighted([(5, 'f.txt'), (1, 'dir/'), (1, 'dir'), (1, 'nothing'), (1, '../secret')]), creds, d.choice([b'Authorization', b'Authorization', b'authorization']),
                     d.choice([None, None, None, [b'Range', b'bytes=0-4'], [b'If-None-Match', b'ETAG']]), d.bool(0.7)])
    return [locs, reqs, d.bool(0.4)]
def run(env, case, note):
    locs, reqs, template = case
    s = W.server(env)
    with W.Tree(s, 'auth') as t:
        base = t.path.decode(); ini = ''
        for i, (kind, realm, f, bare) in enumerate(locs):
            root = os.path.join(base, 'l%d' % i); os.makedirs(os.path.join(root, 'dir'))
            W.put(os.path.join(root, 'f.txt'), CANARY + b'%d' % i); W.put(os.path.join(root, 'dir', 'entry-of-dir'), b'')
            pw = os.path.join(env.tmp, 'pw%d' % i); W.put(pw, text_of(f))
            # a location without a base path serves the files of the root directory
            ini += '[location:l%d]\npath=^/%sl%d/\nhandler=file\n' % (i, 'auth/' if bare else '', i) + ('' if bare else 'base_path=%s\n' % root)
            if kind != 'open': ini += 'auth_basic=%s\n' % realm.decode()
            if kind in ('file', 'default', 'missing'): ini += 'auth_file=%s\n' % {'file': pw, 'default': '$default', 'missing': pw + 'x'}[kind]
        s.configure('[general]\nuse_template=%s\n' % ('On' if template else 'Off') + ini)
        seen = set(); c = None; etag = [None] * len(locs)
        for l, path, value, name, extra, keep in reqs:
            kind, realm, f, bare = locs[l]
            h = []
            if extra:
                e = list(extra)
                if e[1] == b'ETAG':
                    if etag[l] is None: continue
                    e[1] = etag[l]
                h.append(e)
            if value is not None: h.append([name, value])
            if c is None: c = s.connect()
            c.send(S.request(b'/%sl%d/' % (b'auth/' if bare else b'', l) + path.encode(), h, keep=keep)); r = c.response()
            if not keep: c.expect_close(); c.close(); c = None
            ok = kind == 'open' or accepted(value, kind, model_of(f)); seen.add((kind == 'open', ok))
            note.label('granted' if ok else 'denied')
            if path == '../secret': expect(r.status >= 400, 'status %d for a target outside the location', r.status)
            if not ok:
                same(r.status, 401, 'status of %s with %r for %s' % (path, value, kind))
                same(r.header(b'WWW-Authenticate'), b'Basic realm="' + realm + b'"', 'challenge')
                expect(CANARY not in r.head + r.body and b'entry-of-dir' not in r.body and r.header(b'ETag') is None, 'the response without authorization discloses the file')
                expect(r.header(b'Location') is None, 'the response without authorization discloses a directory')
            else:
                expect(r.header(b'WWW-Authenticate') is None, 'unexpected challenge')
                if path == 'f.txt' and not extra: check_ok(r, b'f.txt', CANARY + b'%d' % l); etag[l] = r.header(b'ETag')
                elif path == 'f.txt' and extra[0] == b'Range': same((r.status, r.body), (206, CANARY[:5]), 'range response')
                elif path == 'f.txt': same(r.status, 304, 'conditional response')
                elif path == 'dir/': same(r.status, 200, 'status of the listing'); expect(b'entry-of-dir' in r.body, 'the listing is not complete')
                elif path == 'dir': same(r.status, 307, 'status of a directory')
                elif path == 'nothing': same(r.status, 404, 'status of a missing file')
        if c: c.close()
        note.nt = len(seen) > 1
    s.died()
def gen_auth(d):
    f = gen_file(d); return [f, credentials(d, f) or b'']
def run_auth(env, case, note):
    f, v = case
    if b'\x00' in v: return
    r = env.w.call('auth', text_of(f), v)
    ok = accepted(v, 'file', model_of(f)); note.nt = v.startswith(b'Basic ') and len(v) > 10
    same(r[1], b'1' if ok else b'0', 'result for %s' % short(v)); note.label('granted' if ok else 'denied')
CHECKS = [Check('requests', gen, run, 3200, files=FILES), Check('credentials', gen_auth, run_auth, 40000, files=FILES)]
