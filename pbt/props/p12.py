import os, re
from .common import *
from .. import web as W, server as S
from .p05 import check_ok
from .p06 import unquote
RULE = 'at least two locations match the path, or the location that matches is not the first one, or the part after the match is not empty'
FILES = ('viriatum/handlers/handler_dispatch.c', 'viriatum/handlers/handler_file.c', 'viriatum/system/service.c')
WORDS = [b'a', b'b', b'ab', b'aa', b'b.txt', b'a.txt', b'x.y', b'A', b'a b', b'ab1', b'0']
ATOMS = ['a', 'b', 'ab', '.', '[ab]', '[^a/]', '(a|b)', '(?:ab|b)', '\\.', '\\d', '\\w', 'txt', '/', '/', '/', '[a-c]', 'x', '%20', '%61', 'A', '(?i)a', '[0-9]', '\\.txt', '(a)(b)', '(?=a)', '(?!b)', '\\b', '\\/']
QUANT = ['', '', '', '', '*', '+', '?', '{1,2}', '{2}', '*?', '+?']
BROKEN = ['(', '[', '*a', '(?P<', '^/a(', 'a)', '\\', '+', '(?<=a*)b', '[b-a]', '(?']
def regex(d):
    k = d.weighted([(5, 'prefix'), (5, 'atoms'), (1, 'broken'), (1, 'special')])
    if k == 'broken': return d.choice(BROKEN), False
    if k == 'special': return d.choice(['^/$', '.', '/', '^', '$', '.*', '^/.*$', '.*/', '\\.txt$', '/$', '^/a', '^/ab', '^/a$', '^/a/', '?!'[:0] + 'b$', '(/a)+', '^(/|/a)$', '^/(a|b)/?']), True
    if k == 'prefix':
        w = [d.choice(['a', 'b', 'ab', 'aa', 'x\\.y', 'A', '[ab]', 'a.txt', '.*', '(a|b)', '\\w+', 'l\\d'])for _ in range(d.int(1, 2))]
        return d.choice(['^', '^', '', '(?i)^']) + ''.join('/' + x for x in w) + d.choice(['', '', '/', '$', '(/|$)', '/?']), True
    r = ''.join(d.choice(ATOMS) + d.choice(QUANT) for _ in range(d.int(1, 5)))
    r = d.choice(['', '^', '^/']) + r + d.choice(['', '', '$'])
    if '|' in r and d.bool(0.2): r += '|b'
    try: return r, bool(re.compile(r.encode())) and not re.search(r'[*+?}][+]|\(\?[=!][^)]*\)[*+?{]|\\b[*+?{]|^.+\(\?i\)', r)
    except re.error: return None, None
def gen(d):
    locs = []
    for _ in range(d.int(1, 7)):
        r, ok = regex(d)
        if r is None or (not ok and r not in BROKEN): r, ok = '^/a', True
        locs.append([r, ok, d.weighted([(7, 'based'), (2, 'file'), (1, 'default'), (2, 'unknown'), (1, 'nopath'), (1, 'nohandler')]), d.choice([b'', b'', b'/'])])
    if d.bool(0.05):
        # many locations, most of them for other paths
        many = [['^/zz%d' % i, True, d.choice(['file', 'based', 'unknown']), b''] for i in range(d.choice([10, 20, 40, 130, 300]))]
        k = d.int(0, len(many)); locs = many[:k] + locs + many[k:]
    reqs = []
    for _ in range(d.int(2, 9)):
        segs = [d.choice(WORDS) for _ in range(d.size(4, 0, 3))]
        p = b'/' + b'/'.join(segs) + d.choice([b'', b'', b'', b'/'])
        reqs.append([W.spell(d, p), d.choice([b'', b'', b'?', b'?/a/b', b'?a=/ab.txt', b'?' + d.btext('ab/.t?', 9)]), d.bool(0.6)])
    return [locs, reqs, d.bool(0.15), [d.choice(['b', 'aa', 'b.txt', 'a.txt', 'ab1', '0', 'none', 'b.html']) for _ in range(d.int(1, 3))] if d.bool(0.45) else []]
def fill(base, mark, depth=2):
    """the files below a base hold the mark of the base and their own path"""
    os.makedirs(base, exist_ok=True)
    def go(p, rel, depth):
        for w in WORDS:
            q = os.path.join(p, w); r = rel + b'/' + w
            if depth and w in (b'a', b'ab', b'A', b'x.y'): os.makedirs(q, exist_ok=True); go(q, r, depth - 1)
            else: W.put(q, mark + b':' + r)
    go(base, b'', depth)
def match(rx, sp):
    """-> kind and number of the first location that matches, offset of the part after the match, number of matches"""
    hits = [(m, i, kind) for x, i, kind in rx for m in [x.search(sp)] if m]
    if not hits: return 'file', None, 0, 0
    m, i, kind = hits[0]
    return kind, i, m.end() - (1 if m.end() > 0 and sp[m.end() - 1:m.end()] == b'/' else 0), len(hits)
def run(env, case, note):
    locs, reqs, template, indexes = case
    s = W.server(env)
    if 'p12' not in env.cache:
        for i in range(8): fill(os.path.join(env.tmp, 'base%d' % i).encode(), b'base%d' % i)
        fill(s.www.encode(), b'www'); env.cache['p12'] = 1
    ini = '[general]\nuse_template=%s\n' % ('On' if template else 'Off') + ('index=%s\n' % ' '.join(indexes) if indexes else '')
    rx = []
    for i, (r, ok, kind, end) in enumerate(locs):
        base = os.path.join(env.tmp, 'base%d' % (i % 8))
        ini += '[location:l%d]\n' % ((i * 5 + 3) % 11 + i // 11 * 11) + ('path=%s\n' % r if kind != 'nopath' else '') + ('handler=%s\n' % {'unknown': 'nothing%d' % i, 'default': 'default'}.get(kind, 'file') if kind != 'nohandler' else '') + ('base_path=%s%s\n' % (base, end.decode()) if kind == 'based' else '')
        if kind not in ('nopath', 'nohandler') and ok: rx.append((re.compile(r.encode()), i, kind))
    s.configure(ini)
    c = None
    for sp, q, keep in reqs:
        if c is None: c = s.connect()
        c.send(S.request(sp + q, keep=keep)); r = c.response()
        if not keep: c.expect_close(); c.close(); c = None
        kind, i, off, n = match(rx, sp)
        if indexes and sp.endswith(b'/') and kind in ('based', 'file'):
            # the index file of the directory takes the place of the path, and the locations are matched again
            base = os.path.join(env.tmp, 'base%d' % (i % 8)).encode() if kind == 'based' else s.www.encode()
            rest = unquote(sp[off:] if kind == 'based' else sp)
            first = next((x for x in indexes if rest is not None and os.path.exists(base + b'/' + rest + x.encode())), None)
            if first is not None:
                sp += first.encode(); was = (kind, i, off); kind, i, off, n = match(rx, sp)
                note.label('index'); note.label('index elsewhere', was != (kind, i, off)); note.nt = True
        if i is not None:
            if n > 1 or i != rx[0][1] or sp[off:]: note.nt = True
            note.label('match')
        else: note.label('no match')
        what = '%s (%s)' % (short(sp + q), 'location %d: %s' % (i, locs[i][0]) if i is not None else 'no location')
        if kind == 'unknown': same(r.status, 500, 'status of ' + what); note.label('unknown'); continue
        if kind == 'default': same((r.status, r.body), (200, b'Hello Viriatum'), 'response to ' + what); continue
        base, mark = (os.path.join(env.tmp, 'base%d' % (i % 8)).encode(), b'base%d' % (i % 8)) if kind == 'based' else (s.www.encode(), b'www')
        rest = unquote(sp[off:] if kind == 'based' else sp)
        if rest is None: expect(r.status >= 400, 'status of ' + what); continue
        if not rest.startswith(b'/') and rest: rest = b'/' + rest
        p = base + rest
        if os.path.isdir(p):
            same(r.status, 200 if sp.endswith(b'/') else 307, 'status of the directory ' + what)
        elif os.path.isfile(p):
            if (r.status, r.body) != (200, open(p, 'rb').read()): raise Fail('the response to %s has the status %d and the body %s instead of the file %s:%s' % (what, r.status, short(r.body), mark.decode(), short(rest)))
            note.label('file')
        else: same(r.status, 404, 'status of ' + what)
    if c: c.close()
    s.died()
CHECKS = [Check('locations', gen, run, 4000, files=FILES)]
