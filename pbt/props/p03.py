from .common import *
from .. import http as H
RULE = 'every case: one malformed message, placed after zero or more well-formed ones'
FILES = ('viriatum/http/http_parser.*',)
def bad_method(d):
    k = d.int(0, 3)
    if k == 0: m = d.btext('ABCDEFGHIJKLMNOPQRSTUVWXYZ', 12, 1)
    elif k == 1:
        m = bytearray(d.choice(H.METHODS)); i = d.int(0, len(m) - 1); m[i] = d.choice(b'ABCEGHLOPSTUX-a1\x00_'); m = bytes(m)
    elif k == 2: m = d.choice(H.METHODS)[:d.int(1, 8)]
    else: m = d.choice(H.METHODS) + d.btext('ABCXYZS', 4, 1)
    return m + b'?' if m in H.METHODS else m
def bad_target(d):
    k = d.int(0, 2)
    if k == 0: return d.choice([b'1', b'.', b'?', b'#', b'-', b'\\', b'%2f', b'\xc3', b'\t', b'"', b'@', b':', b'\x00', b'\x01', b'\x7f']) + d.btext('abc/', 8)
    if k == 1: return b'/' + d.btext('abc/?#', 10) + d.choice([b'\x01', b'\x00', b'\t', b'\x7f', b'\x1f', b'\x0b']) + d.btext('abc/?#', 10)
    return d.choice([b'index.html', b'a', b'abc?x', b'ab/c', b'http', b'h1://x/'])
def bad_version(d):
    return d.choice([b'XTTP/1.1', b'/1.1', b'1.1', b'HTTP/a.1', b'HTTP/.1', b'HTTP/1', b'HTTP/1.', b'HTTP/1.a', b'HTTP/-1.1', b'HTTP/1000.1', b'HTTP/1.1000', b'HTTP/1.1x', b'HTTP/99999999999.1', b'HTTP/1,1', b'HTTP/1.1 x', b'HTTP/0.9', b'http/1.1', b'HTTP/1.99999999999',
                     b'HTTP/' + d.btext('0123456789', 30, 4) + b'.1'])
def bad_length(d):
    k = d.int(0, 2)
    if k == 0: return d.choice([b'x', b'-1', b'+1', b'1x', b'0x10', b'1.0', b'1,2', b'12a', b'\x00', b'1\x00', b'1;', b'10\xff', b'1\t2', b'1 2', b'10  0', b'3 x', b'0 5'])
    if k == 1: return b'%d' % d.choice([2 ** 31, 2 ** 31 + 1, 2 ** 32, 2 ** 32 + 5, 2 ** 33, 2 ** 63, 2 ** 64, 2 ** 64 + 10, 10 ** 10, 3 * 10 ** 9, 21474836470, 4294967296 * 3 + 1])
    return d.btext('123456789', 1, 1) + d.btext('0123456789', 60, 10)
def bad_size(d):
    k = d.int(0, 2)
    if k == 0: return d.choice([b'', b'x', b'g', b'-1', b'+1', b'1x', b'0x1', b'1-', b' ', b'\xff', b'1\xff', b';', b'\x00', b'a\x00', b'1.', b'\x80', b'/', b':', b'@', b'G', b'`'])
    if k == 1: return b'%x' % d.choice([2 ** 31, 2 ** 32, 2 ** 32 + 4, 2 ** 33, 2 ** 36 + 1, 2 ** 63, 2 ** 64, 2 ** 64 + 8])
    return b'8' + d.btext('0123456789abcdefABCDEF', 30, 7)
def gen(d):
    ok = [H.message(d, True, 200) for _ in range(d.weighted([(4, 0), (2, 1), (1, 3)]))]
    m = H.message(d, True, 300)
    kind = d.choice(['method', 'target', 'version', 'length', 'size', 'name'])
    if m['method'] == b'CONNECT': m['method'] = b'POST'; m['target'] = b'/'
    if kind == 'method': bad = bad_method(d)
    elif kind == 'target': bad = bad_target(d)
    elif kind == 'version': bad = bad_version(d)
    elif kind == 'length': bad = bad_length(d)
    elif kind == 'size': bad = bad_size(d)
    else: bad = d.btext(H.TOKEN, 8, 1) + d.choice([b'(', b')', b'<', b'@', b',', b';', b'[', b'?', b'=', b'{', b'\x00', b'\x01', b'\x7f', b'\x80', b'\xff', b'\t']) + d.btext(H.TOKEN, 6)
    return [ok, m, kind, bad, d.int(0, 1000), d.bool(0.4), d.btext('GET / HTTP/1.1\r\n\r\n0', 40)]
def build(m, kind, bad, where):
    """the wire form of the message with its malformed part"""
    m = dict(m, headers=[list(h) for h in m['headers']])
    if kind == 'method': m['method'] = bad
    elif kind == 'target': m['target'] = bad
    elif kind == 'version': return b'%s %s %s\r\n%s\r\n' % (m['method'], m['target'], bad, H.lines(m['headers']))
    elif kind == 'length':
        m['headers'] = [h for h in m['headers'] if h[0].lower() not in (b'content-length', b'transfer-encoding', b'upgrade')]
        m['headers'].insert(where % (len(m['headers']) + 1), [b'Content-Length', b' ', bad]); m['framing'] = 'none'
    elif kind == 'name':
        m['headers'].insert(where % (len(m['headers']) + 1), [bad, b' ', b'v'])
    elif kind == 'size':
        m['headers'] = [h for h in m['headers'] if h[0].lower() not in (b'content-length', b'transfer-encoding', b'upgrade')] + [[b'Transfer-Encoding', b' ', b'chunked']]
        out = H.head_line(m) + H.lines(m['headers']) + b'\r\n'
        chunks = m.get('chunks') or []
        k = where % (len(chunks) + 1)
        for s, n, f, ext in chunks[:k]: out += (f % n).encode() + ext + b'\r\n' + blob(s, n) + b'\r\n'
        return out + bad + b'\r\n' + b'abc\r\n0\r\n\r\n'
    return H.wire(m)
def run(env, case, note):
    ok, m, kind, bad, where, split, tail = case
    data = b''.join(H.wire(x) for x in ok) + build(m, kind, bad, where) + tail
    got = env.w.call('parse', 1, data, u32(1) * len(data) if split and len(data) < 3000 else b'')[0].decode('latin-1').split('\n')[:-1]
    done = sum(1 for x in got if x.startswith('DONE'))
    note.nt = True; note.label(kind)
    if got[-1] != 'ERROR': raise Fail('a message with the malformed %s %r is not rejected (%s)' % (kind, bad[:60], got[-1]))
    if done != len(ok): raise Fail('%d messages were delivered, %d precede the one with the malformed %s %r' % (done, len(ok), kind, bad[:60]))
CHECKS = [Check('requests', gen, run, 60000, files=FILES)]
