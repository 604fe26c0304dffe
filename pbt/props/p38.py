from .common import *
RULE = 'at least two entries and one of: repeated user, extra field, CRLF, missing final newline, long name'
FILES = ('viriatum_commons/formats/passwd.*',)
def name(d, a, lo=1):
    k = d.weighted([(5, 's'), (1, 'l'), (1, 'b')])
    if k == 's': return d.btext(a, 10, lo)
    if k == 'l': return d.btext(a, 400, lo)
    return bytes(x for x in (d.int(1, 255) for _ in range(d.int(1, 12))) if x not in (10, 13, 58)) or b'x'
def gen(d):
    lines = []; users = []
    for _ in range(d.size(60, small=5)):
        u = d.choice(users) if users and d.bool(0.25) else name(d, 'abcxyz019_-. ')
        users.append(u)
        lines.append([u, name(d, 'abcxyz019_-.$/ ', 0 if d.bool(0.1) else 1), d.btext('abc :x', 12) if d.bool(0.25) else None])
    return [lines, b'\n' if not d.bool(0.0) else b'\n', d.bool(0.6)]
def gen_large(d):
    return [[[b'u%d' % (i % 1500), blob(i, i % 97).replace(b'\0', b'x').replace(b'\n', b'x').replace(b'\r', b'x').replace(b':', b'x') or b'p', None] for i in range(wide(d, 2500))], b'\n', d.bool()]
def run(env, case, note):
    lines, nl, final = case
    text = nl.join(u + b':' + p + (b':' + c if c is not None else b'') for u, p, c in lines) + (nl if final and lines else b'')
    model = {}
    for u, p, c in lines: model[u] = p
    q = list(model) + [b'nosuchuser', b'']
    q = [x for x in q if x in model or x != b'']
    r = env.w.call('passwd', text, b''.join(lb(x) for x in q))
    same(r[0], b'0', 'status')
    got = sorted(tuple(bytes.fromhex(x[1:]) for x in l.split(' ')) for l in r[1].decode().split('\n')[:-1])
    same(got, sorted(model.items()), 'entries')
    want = ['x' + model[x].hex() if x in model else '-' for x in q]
    same_lines(r[2], want, q, 'lookups')
    note.nt = len(lines) > 1 and (len(model) < len(lines) or not final or any(c is not None for _, _, c in lines) or any(len(u) + len(p) > 60 for u, p, _ in lines))
    note.label('no final newline', not final); note.label('repeated', len(model) < len(lines)); note.label('comment', any(c is not None for _, _, c in lines))
def gen_any(d): return d.bytes(300) if d.bool(0.5) else d.btext('ab:\n\r', 60)
def run_any(env, case, note):
    r = env.w.call('passwd', case, b''); note.nt = True; same(r[0], b'0', 'status')
CHECKS = [Check('large', gen_large, run, 160, files=FILES), Check('files', gen, run, 30000, files=FILES), Check('any-bytes', gen_any, run_any, 15000, files=FILES)]
