import html, os, re, time
from .common import *
from .. import web as W, server as S
from .p05 import check_ok
from .p37 import fmt, tm
from .p06 import unquote
RULE = 'the directory has at least three entries, or an index file is configured, or the target lacks the slash'
FILES = ('viriatum/handlers/*.c', 'viriatum_commons/io/file.*', 'viriatum_commons/template/*.c')
BAD = b''
INDEX = ['index.html', 'index.htm', 'default.html', 'home.txt', 'i', 'index.html.bak', 'a' * 100, 'a' * 127 + '', 'x.y.z']
def nm(d): return (W.name(d, BAD, long=d.bool(0.3)) + (W.ext(d) if d.bool(0.3) else b''))[:240]
def gen_dir(d, indexes, depth):
    es = {}
    for _ in range(d.size(150, small=8) if d.bool(0.1) else d.size(14, small=5)):
        n = nm(d)
        if n in (b'.', b'..'): continue
        if n.decode('latin-1') in indexes or n.decode('latin-1') in INDEX: continue
        t = d.choice([0, 59, 86399, 951782400, 1000000000, 2 ** 31, d.int(0, 4102444800)])
        if d.bool(0.35): es[n] = ['d', gen_dir(d, indexes, depth - 1) if depth and d.bool(0.5) else [], t]
        else: es[n] = ['f', d.size(3000) if d.bool(0.7) else d.magic_int(0, 2 ** 33), t]
    for i in indexes + ['index.html']:
        if d.bool(0.35): es[i.encode()] = ['f', d.int(0, 400), 1000000000]
    return [[n] + v for n, v in es.items()]
def gen(d):
    use = d.bool(0.4)
    indexes = [d.choice(INDEX) for _ in range(d.int(1, 5))] if use else []
    tree = gen_dir(d, indexes, 2)
    reqs = []
    for _ in range(d.int(1, 4)):
        path = []; cur = tree
        while d.bool(0.5):
            sub = [e for e in cur if e[1] == 'd']
            if not sub: break
            e = d.choice(sub); path.append(e[0]); cur = e[2]
        reqs.append([path, W.spell(d, b''.join(b'/' + x for x in path)), d.bool(0.75), d.choice([b'', b'', b'?', b'?a=b/', b'?/']), d.bool(0.4)])
    return [indexes, tree, reqs, d.weighted([(3, ''), (1, '^/loc'), (1, '^/loc/')])]
def build(path, entries):
    for n, k, v, t in entries:
        p = os.path.join(path, n)
        if k == 'd': os.mkdir(p); build(p, v)
        else:
            with open(p, 'wb') as f: f.write(blob(v, min(v, 3000))); f.truncate(v)
    for n, k, v, t in entries: os.utime(os.path.join(path, n), (t, t))
ROW = re.compile(rb'<tr>\s*((?:<td class="icon \w+"></td>\s*)*)<td class="left name"><a href="([^"]*)">([^<]*)</a></td>\s*<td class="right date">([^<]*)</td>\s*<td class="right size">([^<]*)</td>\s*</tr>')
def text_of(b): return html.unescape(b.decode('latin-1')).encode('latin-1', 'replace')
URI = re.compile(rb"^(?:[A-Za-z0-9\-._~!$&'()*+,;=:@\x80-\xff]|%[0-9A-Fa-f]{2})+/?$")
def target_of(href):
    """the name a link refers to, as a browser resolves it and the server decodes it"""
    u = text_of(href)
    if u.startswith(b'./'): u = u[2:]
    expect(URI.match(u) and b':' not in u.split(b'/')[0], 'the link %r is not a relative reference to one entry', u)
    return unquote(u.rstrip(b'/'))
TITLE = re.compile(rb'<a href="\.\./">([^<]*)</a></td>\s*</tr>')
def check_listing(body, path, shown, note):
    m = TITLE.search(body)
    expect(m, 'the listing has no link to the parent')
    same(text_of(m.group(1)), shown, 'the path shown by the listing')
    got = []
    for icons, href, text, date, size in ROW.findall(body):
        n = text_of(text)
        same(target_of(href), n, 'label and target of a listing entry')
        if set(n) & set(b'<>"&\'%?#'): note.label('encoded name')
        ic = re.findall(rb'icon (\w+)', icons)
        expect(len(ic) == 1, 'the entry %r has the icons %r', n, ic)
        got.append((ic[0], n, date, size))
    want = []
    for n in [b'.', b'..'] + sorted(os.listdir(path)):
        st = os.stat(os.path.join(path, n)); isd = os.path.isdir(os.path.join(path, n))
        want.append((b'folder' if isd else b'text', n, tm(st.st_mtime).encode(), b'-' if isd else fmt(st.st_size).encode()))
    want.sort(key=lambda e: (e[0] != b'folder', e[1]))
    if sorted(got) != sorted(want):
        extra = [g for g in got if g not in want]; missing = [w for w in want if w not in got]
        raise Fail('the listing has %d entries for %d; not in the directory: %s; not in the listing: %s' % (len(got), len(want), short(extra[:4]), short(missing[:4])))
    same(got, want, 'order of the listing')
    m = re.search(rb'>(\d+) items<', body)
    expect(m and int(m.group(1)) == len(want), 'number of items %s for %d', m and m.group(1), len(want))
    if len(want) >= 5: note.nt = True
    note.label('listing')
def run(env, case, note):
    indexes, tree, reqs, loc = case
    s = W.server(env)
    with W.Tree(s, 'tree' if loc else None) as t:
        prefix = b'/loc' if loc else b'/' + t.rel
        s.configure(('[general]\nindex=%s\n' % ' '.join(indexes) if indexes else '') + ('[location:l]\npath=%s\nhandler=file\nbase_path=%s\n' % (loc, t.path.decode()) if loc else ''))
        build(t.path, tree); c = None
        for path, sp, slash, q, keep in reqs:
            p = os.path.join(t.path, *path)
            if len(p) > 700: continue
            if loc == '^/loc/' and not sp + (b'/' if slash else b''): continue
            target = prefix + sp + (b'/' if slash else b'')
            if len(target) > 3700: continue
            if c is None: c = s.connect()
            c.send(S.request(target + q, keep=keep)); r = c.response()
            if not keep: c.expect_close(); c.close(); c = None
            if not slash:
                same(r.status, 307, 'status of a directory without slash'); same(r.header(b'Location'), target + b'/', 'Location'); note.nt = True; note.label('redirect'); continue
            first = next((i for i in indexes if os.path.exists(os.path.join(p, i.encode()))), None)
            if first:
                with open(os.path.join(p, first.encode()), 'rb') as f: data = f.read()
                check_ok(r, first.encode(), data); note.nt = True; note.label('index')
            else:
                same(r.status, 200, 'status of a directory'); check_listing(r.body, p, unquote(target).strip(b'/'), note)
        if c: c.close()
    s.died()
def gen_many(d):
    k = d.choice([1, 3, 7]); n = wide(d, 1500)
    tree = [[b'f%d' % (i * 7919 % 10007), 'd' if i % k == 1 else 'f', [] if i % k == 1 else i, 1000000000 + i] for i in range(n)]
    return [[], tree, [[[], b'', True, b'', d.bool()] for _ in range(d.int(1, 2))], '']
CHECKS = [Check('many entries', gen_many, run, 48, files=FILES), Check('directories', gen, run, 4800, files=FILES)]
