from .common import *
RULE = 'a URL with at least two of the optional components; for texts: every mutated text'
FILES = ('viriatum_commons/formats/url.*',)
S = 'abcdefghijklmnopqrstuvwxyz0123456789+.-'
H = 'abcdefghijklmnopqrstuvwxyz0123456789.-_'
U = 'abcXYZ019-._~!$&\'()*+,;=%'
def gen_parts(d):
    big = d.bool(0.1)
    m = lambda n, k: d.size(n, small=6) if not big else d.size(k)
    t = lambda a, lo, hi, k: ''.join(d.choice(a) for _ in range(max(lo, m(hi, k))))
    scheme = d.choice(['http', 'https', 'ftp', 'a', 'svn+ssh']) if d.bool(0.6) else t(S, 1, 12, 70)
    auth = [t(U, 0, 12, 140), t(U + ':', 0, 12, 140)] if d.bool(0.4) else None
    host = t(H, 0 if d.bool(0.1) else 1, 20, 270)
    port = d.magic_int(0, 65535) if d.bool(0.5) else None
    path = '/' + t(U + '/:@', 0, 30, 1100)
    query = t(U + '/:@?', 0, 20, 1100) if d.bool(0.5) else None
    frag = t(U + '/:@?#', 0, 20, 300) if d.bool(0.4) else None
    return [scheme, auth, host, port, path, query, frag]
def text(p):
    scheme, auth, host, port, path, query, frag = p
    return (scheme + '://' + (auth[0] + ':' + auth[1] + '@' if auth else '') + host + (':%d' % port if port is not None else '') + path
            + ('?' + query if query is not None else '') + ('#' + frag if frag is not None else '')).encode()
def hx(s): return '-' if s is None else 'x' + s.encode().hex()
def run(env, case, note):
    scheme, auth, host, port, path, query, frag = case
    t = text(case)
    r = env.w.call('urlp', t)
    same(r[0], b'0', 'status for %r' % t[:200])
    got = dict(l.split(' ', 1) for l in r[1].decode().split('\n')[:-1])
    u, pw = auth if auth else (None, None)
    want = {'scheme': hx(scheme), 'user': hx(u), 'password': hx(pw), 'host': hx(host), 'path': hx(path), 'query': hx(query), 'fragment': hx(frag), 'port': '%d' % (port or 0)}
    same(got, want, 'components of %r' % t[:200])
    r = env.w.call('urls', t)
    lim = {'scheme': 64, 'user': 128, 'password': 128, 'host': 256, 'path': 1024, 'query': 1024, 'fragment': 256}
    vals = {'scheme': scheme, 'user': u, 'password': pw, 'host': host, 'path': path, 'query': query, 'fragment': frag}
    if all(len(vals[k] or '') < n for k, n in lim.items()):
        same(r[0], b'0', 'status (static)')
        got = dict(l.split(' ', 1) for l in r[1].decode().split('\n')[:-1])
        want = dict((k, hx(v or '')) for k, v in vals.items()); want['port'] = '%d' % (port or 0)
        same(got, want, 'components (static) of %r' % t[:200])
    elif r[0] == b'0':
        # a component that does not fit: an error or a terminated prefix, never anything else
        got = dict(l.split(' ', 1) for l in r[1].decode().split('\n')[:-1])
        for k in vals: expect(hx(vals[k] or '').startswith(got[k]), 'component %s is not a prefix', k)
    note.nt = sum(x is not None for x in (auth, port, query, frag)) >= 2
    for n, x in (('auth', auth), ('port', port), ('query', query), ('fragment', frag)): note.label(n, x is not None)
def gen_mut(d):
    b = bytearray(text(gen_parts(d)))
    for _ in range(d.int(1, 4)):
        k = d.weighted([(3, 'cut'), (3, 'set'), (2, 'del'), (2, 'ins'), (1, 'rep')])
        if not b: break
        i = d.int(0, len(b) - 1)
        if k == 'cut': b = b[:i]
        elif k == 'set': b[i] = d.choice([0, 255, 58, 64, 47, 63, 35, 32, 37])
        elif k == 'del': del b[i]
        elif k == 'ins': b[i:i] = d.choice([b':', b'@', b'/', b'?', b'#', b'//', b'::', b'@@', b':99999999999999999999'])
        else: b[i:i] = b'9' * d.size(400)
    return bytes(b)
def run_mut(env, case, note):
    r = env.w.call('urlp', case); r2 = env.w.call('urls', case)
    import re
    # no scheme, separator or path: an error in both interfaces
    if not re.match(rb'^[^:]*://[^/]*/', case, re.S):
        same((r[0], r2[0]), (b'1', b'1'), 'status of both interfaces')
    if r[0] == b'0':
        for l in r[1].decode().split('\n')[:-1]:
            k, v = l.split(' ', 1)
            if v.startswith('x'): expect(bytes.fromhex(v[1:]) in case, 'component %s is not part of the text', k)
    if r[0] == b'0' and r2[0] == b'0':
        expect('unterminated' not in r2[1].decode(), 'unterminated component')
    note.nt = True; note.label('error', r[0] == b'1')
CHECKS = [Check('components', gen_parts, run, 60000, files=FILES), Check('texts', gen_mut, run_mut, 60000, files=FILES)]
